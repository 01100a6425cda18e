"""Small pretrained tokenizers, laid out as in the cache that the command line reads them from."""
import json, os


def word_level(words, special):
    v = {"[UNK]": 0, "[CLS]": 1, "[SEP]": 2}
    for w in words:
        v.setdefault(w, len(v))
    return {"version": "1.0", "truncation": None, "padding": None, "added_tokens": [added(i, t) for t, i in list(v.items())[:3]],
            "normalizer": None, "pre_tokenizer": {"type": "Whitespace"}, "post_processor": template(special), "decoder": None,
            "model": {"type": "WordLevel", "vocab": v, "unk_token": "[UNK]"}}


def word_piece(words, special):
    v = {"[UNK]": 0, "[CLS]": 1, "[SEP]": 2}
    for ch in "abcdefghijklmnopqrstuvwxyz0123456789.,!?'":
        v.setdefault(ch, len(v))
        v.setdefault("##" + ch, len(v))
    for w in words:
        v.setdefault(w.lower(), len(v))
        if len(w) > 2:
            v.setdefault("##" + w[1:].lower(), len(v))
    return {"version": "1.0", "truncation": None, "padding": None, "added_tokens": [added(i, t) for t, i in list(v.items())[:3]],
            "normalizer": {"type": "BertNormalizer", "clean_text": True, "handle_chinese_chars": True, "strip_accents": None, "lowercase": True},
            "pre_tokenizer": {"type": "BertPreTokenizer"}, "post_processor": template(special), "decoder": {"type": "WordPiece", "prefix": "##", "cleanup": True},
            "model": {"type": "WordPiece", "unk_token": "[UNK]", "continuing_subword_prefix": "##", "max_input_chars_per_word": 100, "vocab": v}}


def byte_bpe(special):
    bs = list(range(33, 127)) + list(range(161, 173)) + list(range(174, 256))
    cs, n = list(bs), 0
    for b in range(256):
        if b not in bs:
            bs.append(b)
            cs.append(256 + n)
            n += 1
    v = {"[UNK]": 0, "[CLS]": 1, "[SEP]": 2}
    for ch in map(chr, cs):
        v.setdefault(ch, len(v))
    merges = []
    for a, b in (("\u0120", "a"), ("\u0120", "b"), ("t", "h"), ("th", "e"), ("\u0120", "the"), ("a", "b"), ("\u0120a", "b"), ("w", "1"), ("1", "2"), ("c", "c")):
        merges.append(a + " " + b)
        v.setdefault(a + b, len(v))
    return {"version": "1.0", "truncation": None, "padding": None, "added_tokens": [added(i, t) for t, i in list(v.items())[:3]],
            "normalizer": None, "pre_tokenizer": {"type": "ByteLevel", "add_prefix_space": False, "trim_offsets": True, "use_regex": True},
            "post_processor": template(special), "decoder": {"type": "ByteLevel", "add_prefix_space": True, "trim_offsets": True, "use_regex": True},
            "model": {"type": "BPE", "dropout": None, "unk_token": None, "continuing_subword_prefix": None, "end_of_word_suffix": None, "fuse_unk": False, "vocab": v, "merges": merges}}


def added(i, t):
    return {"id": i, "content": t, "single_word": False, "lstrip": False, "rstrip": False, "normalized": False, "special": True}


def template(special):
    if not special:
        return None
    cls, sep = {"SpecialToken": {"id": "[CLS]", "type_id": 0}}, {"SpecialToken": {"id": "[SEP]", "type_id": 0}}
    return {"type": "TemplateProcessing", "single": [cls, {"Sequence": {"id": "A", "type_id": 0}}, sep],
            "pair": [cls, {"Sequence": {"id": "A", "type_id": 0}}, sep, {"Sequence": {"id": "B", "type_id": 1}}, {"SpecialToken": {"id": "[SEP]", "type_id": 1}}],
            "special_tokens": {"[CLS]": {"id": "[CLS]", "ids": [1], "tokens": ["[CLS]"]}, "[SEP]": {"id": "[SEP]", "ids": [2], "tokens": ["[SEP]"]}}}


def install(home, name, tok, raw=None):
    """-> path of tokenizer.json in the cache below `home`"""
    d = os.path.join(home, ".cache/huggingface/hub", "models--" + name.replace("/", "--"))
    os.makedirs(os.path.join(d, "refs"), exist_ok=True)
    os.makedirs(os.path.join(d, "snapshots/0123abc"), exist_ok=True)
    with open(os.path.join(d, "refs/main"), "w") as f:
        f.write("0123abc")
    p = os.path.join(d, "snapshots/0123abc/tokenizer.json")
    with open(p, "w") as f:
        f.write(raw if raw is not None else json.dumps(tok))
    return p
