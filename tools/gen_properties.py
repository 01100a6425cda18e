#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe, hook="none"):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": observe, "hook_needed": hook}})

C = "src/cmd/"
prop("P01", "topk is exact when n-grams do not collide",
 "When the hash table is so large that n-grams practically never collide, `topk` reports exactly the k most frequent n-grams whose number of occurrences is greater than the threshold (all of them if fewer than k qualify), each once, with its exact count, its tokens in order, and ranks 1,2,3,... by descending count. N-grams are windows of n consecutive tokens inside one document's text and never span documents. This holds however the documents are spread over files, for every worker count, and for every timing of the workers.",
 ["inputs", "configurations", "schedules"],
 "every corpus, n, k, threshold, counter width (32/64 bit), number of hash functions, seed, worker count, split of documents into files and interleaving of the workers; ties at rank k may be broken either way",
 "the unit tests never run the command; losing a message, a stale local count or a merge race shows only under particular interleavings and file splits",
 [C+"topk.rs", C+"util.rs", "src/ngrams/counter.rs", "src/ngrams/topk.rs"],
 [("shared counting table", "approximate count of every n-gram over all files", "src/ngrams/counter.rs"), ("global and per-file top-k", "candidates and the running minimum", "src/ngrams/topk.rs")],
 [("count while reading, merge each file's candidates over a channel", C+"topk.rs"), ("thread pool over files", C+"util.rs")],
 ["stdout JSON rows", "output file rows", "exit status"])

prop("P02", "topk errs only upwards, and never omits a more frequent n-gram",
 "For every table size and number of hash functions, however small, every n-gram `topk` reports really occurs in the input and is reported once, with a count that is at least its true count and never more than the total number of n-grams read times the number of hash functions. If an n-gram whose true count exceeds the threshold is not reported, then k n-grams are reported and each of them has a reported count at least as large as the true count of the omitted one. With one worker and a fixed seed, a shorter list or a higher threshold selects from the same n-grams and counts that the full list shows.",
 ["inputs", "configurations", "schedules"],
 "every corpus, table size from a few slots upwards, hash-function count, seed, k, threshold, worker count and interleaving",
 "collision behaviour depends on random seeds and on the order in which workers bump shared slots; no test uses a crowded table or more than one thread",
 [C+"topk.rs", "src/ngrams/counter.rs", "src/ngrams/topk.rs"],
 [("shared counting table", "slots shared by colliding n-grams", "src/ngrams/counter.rs")],
 [("minimum over the slots of an n-gram", "src/ngrams/counter.rs"), ("running minimum used to drop candidates early", "src/ngrams/topk.rs")],
 ["stdout JSON rows", "exit status"])

prop("P03", "botk reports the least frequent n-grams, with counts that err only upwards",
 "When n-grams practically never collide, `botk` reports exactly the k least frequent n-grams that occur in the input with a count below the threshold (all of them if fewer qualify), each once, with its exact count, in ascending order of count; the default threshold excludes nothing. With any table size every reported n-gram really occurs, is reported once, and has a reported count at least its true count and below the threshold. With a keep probability p below 1 the result is still made only of such n-grams, and p = 1 changes nothing. With a fixed seed the counts do not depend on k, on the threshold or on the workers: shorter lists and lower thresholds select from the counts of the full list.",
 ["inputs", "configurations", "schedules"],
 "every corpus, n, k, threshold, keep probability, table size, hash-function count, seed, worker count, file split and interleaving of the two passes",
 "no test runs the command; the result depends on two passes over shuffled files with shared inverted counters and a channel",
 [C+"botk.rs", C+"util.rs", "src/ngrams/counter.rs", "src/ngrams/topk.rs"],
 [("inverted counting table", "maximum value minus the approximate count", C+"botk.rs")],
 [("first pass decrements, second pass collects", C+"botk.rs"), ("decrement and maximum over slots", "src/ngrams/counter.rs")],
 ["stdout JSON rows", "output file rows", "exit status"])

prop("P04", "count is the exact number of token-sequence occurrences",
 "For each distinct non-empty token sequence obtained by tokenizing the given search strings, `count` reports one row with those tokens and the exact number of positions, summed over all documents, at which the document's token sequence contains them consecutively (overlapping occurrences all count, matching is case-sensitive, never across documents). Counts do not depend on the other search strings given, their lengths, the worker count or the split into files.",
 ["inputs", "configurations", "schedules"],
 "every corpus, every set of search strings of mixed token lengths (including longer than a document), every worker count, file split and interleaving",
 "no test runs the command; boundary positions, mixed lengths and concurrent increments are not sampled",
 [C+"count.rs", "src/tokens.rs", C+"util.rs"],
 [("shared counters per search", "occurrences so far over all workers", C+"count.rs")],
 [("window comparison per position", C+"count.rs")],
 ["stdout JSON rows", "output file rows"])

prop("P05", "search counts every regex match and locates each one exactly once",
 "For each distinct pattern, `search` reports one row whose count is the exact number of non-overlapping matches of the regular expression in the documents' texts. With locations requested, the reported locations are exactly the matches: keyed by the input file, with the 1-based line number, the document's text, and the start/end byte offsets of each match in it, each match once. With a locations limit L, exactly min(L, count) genuine matches per pattern are located, none twice, and the counts are unaffected.",
 ["inputs", "configurations", "schedules"],
 "every corpus (any Unicode text, documents without text), set of valid patterns, limit, worker count, file split and interleaving",
 "no test runs the command; dropped channel messages and the shared limit counter only go wrong under concurrency, offsets only with multi-byte text",
 [C+"search.rs", C+"util.rs"],
 [("shared match counters", "matches so far per pattern, also used as the limit ticket", C+"search.rs"), ("location channel", "per-file locations on their way to the collector", C+"search.rs")],
 [("find all matches per document and draw a ticket per match", C+"search.rs"), ("collector loop in the main thread", C+"search.rs")],
 ["stdout JSON rows", "output file rows"])

prop("P06", "stats totals, extremes and extreme-document pointers are exact",
 "`stats` reports exactly: the number of JSON records read, the total number of tokens of their texts, the total number of decompressed bytes of the lines read, and the largest and smallest token count among documents that have a text. Its two lists of document pointers contain exactly the documents that attain the largest, respectively smallest, token count, each once, with path, 1-based line and token count. This holds for every worker count, split into files and interleaving.",
 ["inputs", "configurations", "schedules"],
 "every corpus with at least one text (including empty texts and records without text), split into files, worker count and interleaving of the workers' final merges",
 "no test runs the command; the pointer lists are pruned and appended by concurrent workers, so stale entries appear only under rare interleavings",
 [C+"stats.rs", C+"util.rs"],
 [("shared totals and extremes", "merged from each file at its end", C+"stats.rs"), ("pointer lists", "documents attaining the current extremes", C+"stats.rs")],
 [("merge of one file's local statistics", C+"stats.rs"), ("pruning of pointers beaten since", C+"stats.rs")],
 ["stdout JSON object", "output file"])

prop("P07", "unique estimates the number of distinct n-grams",
 "`unique` reports an estimate of the number of distinct n-grams in the input that, while the number of distinct n-grams times the number of hash functions is a small fraction of the table, stays within a few percent of the true number for every number of hash functions. The estimate is 0 for an input without n-grams, does not depend on how often each n-gram occurs, and never decreases when documents are added (same seed and table).",
 ["inputs", "configurations", "schedules"],
 "every corpus, n, hash-function count, seed, table size well above the number of distinct n-grams times the hash functions, worker count and split; counts far above the 8-bit slot maximum",
 "no test runs the command; saturation of small counters and the influence of the number of hash functions need large and varied inputs",
 [C+"unique.rs", "src/ngrams/counter.rs"],
 [("8-bit table", "which slots have been hit", C+"unique.rs")],
 [("slot occupancy to estimate", C+"unique.rs"), ("saturating increment", "src/ngrams/counter.rs")],
 ["stdout JSON object"])

prop("P08", "the shared n-gram counter loses no update and saturates at its bounds",
 "Under any number of threads incrementing and querying the library's n-gram counter, once all have finished an n-gram's count is at least (exactly, if it shares no slot) the initial value plus the sum of its increments, capped at the type's maximum; symmetrically decrements never leave a value above the exact one and stop at zero. An increment returns a value no smaller than the n-gram's increments completed before it began plus its own, no larger than all increments begun before it returned (absent collisions), and of all the increments to one n-gram at least one returns the full total. No caller ever observes a wrapped-around value.",
 ["schedules", "histories", "inputs"],
 "every interleaving of threads, every increment/decrement amount, counter width 8/16/32/64 bit, initial value, table size, number of hash functions and seed",
 "the only unit test makes two calls on one thread and asserts nothing; lost updates and transient wrap-around need concurrent histories near the bounds",
 ["src/ngrams/counter.rs"],
 [("array of atomic slots", "approximate counts", "src/ngrams/counter.rs")],
 [("increment / decrement / maximum over slots", "src/ngrams/counter.rs")],
 ["return values with call/return timestamps", "final counts at quiescence"])

prop("P09", "the top-k collection keeps exactly the k best n-grams offered",
 "After any sequence of insertions the library's top-k collection holds, for each n-gram kept, the highest count it was offered with (while it stayed in the collection), and the n-grams kept are k that no discarded offer beats: every discarded offer's count is at most the smallest kept count. Draining yields them once each in descending order of count and leaves the collection empty and reusable, and the minimum it publishes for other threads never exceeds a count that would still be accepted.",
 ["inputs", "histories"],
 "every sequence of insert and drain operations with repeated n-grams, rising, falling and equal counts of at least 1, and every k of at least 1",
 "the unit test inserts four n-grams with k = 3; eviction, re-insertion after eviction, ties and reuse after draining are not covered",
 ["src/ngrams/topk.rs"],
 [("ordered set and map", "kept n-grams by count and by name", "src/ngrams/topk.rs"), ("published minimum", "smallest count worth offering", "src/ngrams/topk.rs")],
 [("insert / evict / drain", "src/ngrams/topk.rs")],
 ["drain results", "published minimum after each insertion"])

prop("P10", "n-gram iteration yields every window once, in order",
 "For every token sequence of length L and every n of at least 1, the library's n-gram iterator and text helper yield exactly the L-n+1 windows of n consecutive tokens, in order (none when L is smaller than n), and keep yielding nothing once exhausted. Counting commands see the same windows: the n-gram occurrences counted over a corpus sum to the sum of max(0, L-n+1) over documents.",
 ["inputs"],
 "every token sequence and n, including n larger than the sequence, repeated tokens, and polling past the end",
 "the unit tests fix three sequences and n in {1,2,4,10}",
 ["src/ngrams/mod.rs", C+"topk.rs"],
 [("sliding memory", "the last n-1 tokens", "src/ngrams/mod.rs")],
 [("window iterator", "src/ngrams/mod.rs")],
 ["items yielded by the iterator", "counts reported by the CLI"])

prop("P11", "tokens are the Unicode word segments that are not blank",
 "For every string, the default tokenizer yields, in order, exactly the Unicode word-boundary segments (UAX #29) that contain at least one non-whitespace character, unmodified. So the tokens together contain every non-whitespace character of the text exactly once and in order, and all commands count the same tokens.",
 ["inputs"],
 "every Unicode string, including combining marks, emoji sequences, CRLF, non-breaking and ideographic spaces, regional indicators, very long runs and empty strings",
 "the unit test checks one ASCII sentence",
 ["src/tokens.rs"],
 [("segment stream", "word-boundary segments of the text", "src/tokens.rs")],
 [("filter of blank segments", "src/tokens.rs")],
 ["tokens returned by the library", "tokens printed by the CLI"])

prop("P12", "the gzip line reader yields exactly the lines of the decompressed data",
 "For every gzip file, including files made of several concatenated members, reading it yields exactly the lines of the decompressed bytes in order, each with its line terminator if it has one, including blank lines and a last line without terminator. A line that the caller keeps stays unchanged while later lines are read. A stream truncated inside a member, damaged data, or bytes that are not valid UTF-8 end in an error, never in silently shortened or altered lines.",
 ["inputs", "fault_sequences"],
 "every byte content, member split (also inside a line or a multi-byte character), line length, compression level, every truncation point and bit flip of the compressed stream, and every pattern of holding on to earlier lines",
 "no test opens a file; buffer reuse while a line is held, member boundaries and truncation points are combinatorial",
 ["src/io.rs"],
 [("shared line buffer", "the last line handed out", "src/io.rs")],
 [("buffer reuse only when not shared", "src/io.rs"), ("multi-member decoding", "src/io.rs")],
 ["items of the reader", "results of the CLI on the same file"])

prop("P13", "a bad input makes the run fail, never yield partial results",
 "If, within the configured limits, any input file is missing, truncated, corrupt, not gzip, not UTF-8, or holds a line that is not a JSON object with an optional string `text`, then every command ends with a non-zero exit status, prints no result rows or statistics on stdout and writes none to the output file. This holds wherever the defect lies and whatever the other files, workers and their timing; malformed lines and files beyond the limits are not inspected. Records whose text is absent or null are valid and contribute no tokens or matches.",
 ["inputs", "fault_sequences", "schedules"],
 "every command, position and kind of defect (first, middle, last line or file), worker count and interleaving, with and without limits",
 "no test feeds malformed data; whether a failing worker is noticed depends on its timing relative to the collector loop",
 [C+"util.rs", C+"topk.rs", C+"botk.rs", C+"count.rs", C+"search.rs", C+"stats.rs", C+"unique.rs"],
 [("early-exit flag and last error", "a worker has failed for good", C+"util.rs")],
 [("per-file job with error reporting", C+"util.rs"), ("join reports failure", C+"util.rs")],
 ["exit status", "stdout", "output file"])

prop("P14", "stats survives transient read failures without losing or double counting",
 "If reading a file fails at most twice and a retry then succeeds, `stats` reports exactly what it reports without failures: no record, token, byte or document pointer is lost or counted twice. If a file fails on three attempts, the command fails with a non-zero exit status and no statistics. The other commands do not retry: any read failure makes them fail without results.",
 ["fault_sequences", "crash_points", "schedules"],
 "every position of the failing open/read call in each file's sequence of calls, one or two failures per file, several files failing, every worker count",
 "the tests inject no I/O faults; a partial attempt leaving its contribution behind shows only when the failure comes at a particular point",
 [C+"util.rs", C+"stats.rs"],
 [("per-attempt statistics", "contribution of the current attempt to one file", C+"stats.rs"), ("retry counter", "attempts used for this file", C+"util.rs")],
 [("retry loop", C+"util.rs"), ("merge only after a complete attempt", C+"stats.rs")],
 ["stdout JSON object", "exit status", "log of injected faults"])

prop("P15", "output files hold exactly this run's results and are never clobbered",
 "With an output path, a successful run leaves a file containing exactly the result rows it would print as JSON, one per line and nothing else; missing parent directories are created. An existing output file makes the run fail without changing a byte of it unless overwriting is forced, in which case nothing of the old content remains. For topk and botk a directory (or a path without extension) receives a new file, and if rows cannot be written the exit status is non-zero.",
 ["inputs", "configurations", "fault_sequences"],
 "every command with an output option, old contents longer or shorter than the new, nested missing directories, directory targets, full devices, with or without forced overwriting and JSON printing",
 "no test writes an output file",
 ["src/util.rs", C+"topk.rs", C+"botk.rs", C+"count.rs", C+"search.rs", C+"stats.rs"],
 [("output file", "result rows as JSON lines", "src/util.rs")],
 [("open or refuse the output file", "src/util.rs"), ("name generation for directories", C+"topk.rs")],
 ["file contents", "stdout", "exit status"])

prop("P16", "limits and directories select exactly the documented input",
 "A directory argument stands for all files below it, at any depth, whose names match `*.json*.gz`, and nothing else; a directory with none is an error, and plain file arguments are used as given (a file reached twice is read twice). A line limit L makes every command behave as if each file held only its first L lines, and a file limit F of at least 1 (applied to the expanded list, directories in name order) as if only its first F files had been given. Directory names may contain any characters, including glob metacharacters.",
 ["inputs", "configurations"],
 "every directory tree, mixture of files and directories, L from 0 and F from 1 up to beyond the data, and every command",
 "no test touches a directory or a limit",
 [C+"util.rs", C+"stats.rs", C+"count.rs"],
 [("expanded path list", "files to be processed in order", C+"util.rs")],
 [("directory expansion", C+"util.rs"), ("taking the first L lines", C+"util.rs"), ("truncating the list", C+"topk.rs")],
 ["results compared with runs on equivalent explicit inputs", "exit status"])

prop("P17", "results depend only on the data and options, not on scheduling or sharding",
 "For the same multiset of documents and the same options (with a fixed seed wherever one is used and, for topk and botk, a table in which n-grams do not collide), every command gives the same answer, apart from row order of count and search, the names and order of files in locations and the choice among equal counts at the end of a topk or botk list, whatever the worker count, order of files, split of documents into files, compression level and repetition of the run. With a fixed seed this also holds for `unique` and `botk` in crowded tables.",
 ["configurations", "schedules", "histories"],
 "every pair of runs on re-ordered, re-split or re-compressed versions of the same documents with different worker counts and timing; any 64-bit seed including the largest",
 "needs comparing pairs of concurrent runs; no test runs a command",
 [C+"util.rs", C+"unique.rs", C+"botk.rs", C+"topk.rs", "src/ngrams/counter.rs"],
 [("hash builders from the seed", "which slots an n-gram uses", "src/ngrams/counter.rs")],
 [("seeded hashing", "src/ngrams/counter.rs"), ("work distribution over files", C+"util.rs")],
 ["stdout of paired runs"])

prop("P18", "every run terminates cleanly: no crash, deadlock or memory error",
 "On every valid input and option combination every command terminates on its own with exit status 0, and on invalid ones with a clean error, never by a panic, abort, signal, arithmetic overflow, data race or invalid memory access. In particular it does not hang when there are more results in flight than the internal queue holds, when workers fail while others are still running, or when there are more files than workers or more workers than files.",
 ["inputs", "configurations", "schedules"],
 "every command, degenerate sizes (empty files, no n-grams, k larger than the data, thousands of files), seeds up to the maximum, failing workers and interleavings; liveness is restated as: the process does not stay with all threads asleep and no CPU progress",
 "the tests never run the commands, use no sanitizer and no queue pressure",
 [C+"util.rs", C+"topk.rs", C+"botk.rs", C+"search.rs", "src/ngrams/counter.rs"],
 [("bounded channel", "candidates waiting for the collector", C+"topk.rs"), ("pool state", "queued, active and panicked jobs", C+"util.rs")],
 [("collector loop and shutdown order", C+"topk.rs"), ("completion test", C+"util.rs")],
 ["exit status and signals", "sanitizer reports", "per-thread states of the process"])

prop("P19", "pretrained tokenizers are applied identically by every command",
 "With a pretrained tokenizer, every command works on exactly the tokens that tokenizer gives each document's text without added special tokens: stats counts them, count matches search strings tokenized the same way, topk/botk/unique build n-grams from them, and the printed text of an n-gram is the tokenizer's decoding of its tokens. An unknown or unreadable tokenizer makes the run fail before anything is processed or written.",
 ["inputs", "configurations"],
 "every text and tokenizer model, for every command, worker count and file split",
 "the only tokenizer test uses the default tokenizer",
 ["src/tokens.rs", C+"count.rs", C+"stats.rs", C+"topk.rs", C+"botk.rs", C+"unique.rs"],
 [("tokenizer model", "vocabulary and pre-tokenization rules", "src/tokens.rs")],
 [("encode without special tokens", "src/tokens.rs"), ("decode by token id", "src/tokens.rs")],
 ["stdout JSON rows", "exit status"])

prop("P20", "invalid requests are refused before anything is read or written",
 "Zero for k, n-gram size, hash functions or table size, a keep probability outside (0,1], a missing search string or pattern, an invalid regular expression, a locations limit without locations, an empty path list, or an unparsable size makes the command exit non-zero without printing results and without creating, truncating or changing any file. Sizes without a unit mean GiB and sizes with a unit mean that unit.",
 ["inputs", "configurations"],
 "every command and every single or combined invalid option, with an output path that may or may not exist and with forced overwriting",
 "no test parses options",
 [C+"topk.rs", C+"botk.rs", C+"unique.rs", C+"count.rs", C+"search.rs", C+"stats.rs", C+"util.rs"],
 [("options", "as given on the command line", C+"topk.rs")],
 [("validation at the top of each command", C+"topk.rs"), ("size parsing", C+"util.rs")],
 ["exit status", "stdout", "file system before and after"])

W = "wimbd/"
prop("P21", "record-count pipelines count every record once, however the input is sharded",
 "For the url, scheme, extension, date-year and length pipelines, mapping any set of gzip JSON-lines files and reducing the concatenated output yields one row per distinct key with the exact number of records (for lengths: one character and one token entry per record with text) having that key, so counts sum to the number of records read. The result does not depend on the split into files or on the order in which mappers finish.",
 ["inputs", "schedules"],
 "every corpus of records with URLs, dates and texts (Unicode, ports, missing schemes, empty or null texts), split into shards and interleaving of whole mapper outputs",
 "there are no Python tests at all",
 [W+"url_counts/map_count.py", W+"url_counts/reduce_count.py", W+"scheme_counts/map_count.py", W+"extension_counts/map_count.py", W+"utterance_dates/map_count.py", W+"sentence_lengths/map_count.py", W+"utils/utils.py"],
 [("line stream", "one line per record between map and reduce", W+"url_counts/map_count.py")],
 [("map prints one key per record", W+"url_counts/map_count.py"), ("reduce counts lines", W+"url_counts/reduce_count.py")],
 ["stdout of the pipeline"])

prop("P22", "weighted pipelines conserve the counts they aggregate",
 "For the pipelines that aggregate numbers (tokens per domain, counts per public suffix, documents per language, profanity labels), the reduced rows hold for each key exactly the sum of the numbers the mappers emitted for it, independently of sharding and order. Tokens per domain are the number of word segments other than single spaces, summed over the domain's documents; every non-blank text short enough for the language detector is classified exactly once whatever the batch size, and longer ones are counted as long.",
 ["inputs", "schedules", "configurations"],
 "every corpus, batch size, shard split and order, keys containing spaces for the label pipelines, records without a usable key",
 "there are no Python tests at all",
 [W+"url_per_tok_counts/map_count.py", W+"url_per_tok_counts/reduce_count.py", W+"high_level_domain_counts/map_count.py", W+"high_level_domain_counts/reduce_count.py", W+"language/map_count.py", W+"language/reduce_count.py", W+"profanity/reduce_count.py"],
 [("partial sums", "per shard and key", W+"language/map_count.py")],
 [("batching of texts", W+"language/map_count.py"), ("summing reducer", W+"language/reduce_count.py")],
 ["stdout of the pipeline"])

prop("P23", "PII counting judges every match in its own context",
 "The PII pipeline reports, per type, exactly the matches of its email, phone-number and IP-address patterns that pass the type's rules: an email needs an addressee other than a bare parenthesis and a dot in its domain; a phone number is dropped if its own surrounding 50 characters on either side contain 'isbn', 'doi', '#' or a URL, and an IP address if they contain 'isbn', 'doi' or '#'. Each match is judged by the text around its own position, regardless of its formatting, letter case or equal text elsewhere in the document; blank, overlong or junk documents are skipped.",
 ["inputs"],
 "every document text and every arrangement of several, equal or differently formatted matches and context words at distances around 50 characters",
 "there are no Python tests at all; the defects need repeated or punctuated matches near context words",
 [W+"pii/map_count.py", W+"pii/reduce_count.py"],
 [("context window", "50 characters on either side of a match", W+"pii/map_count.py")],
 [("pattern matching and post-processing", W+"pii/map_count.py")],
 ["stdout of the pipeline"])

prop("P24", "deduplication keeps exactly one copy; decontamination removes every listed text",
 "For documents with a text, deduplicating shards against their duplicate-hash list keeps, for each distinct text, exactly one document over all shards and every document whose text is not listed; decontaminating removes every document whose text is listed and keeps all others unchanged and in order. In attribute mode every such document gets exactly one row flagged accordingly. This holds for any number of worker processes and any timing, for empty lists and lists with repeated lines, and the printed numbers of matched documents agree with the files. The list can be built on its own, which touches no results, and a given list is used instead of one made for the run.",
 ["inputs", "schedules", "configurations"],
 "every corpus with duplicates within and across shards, block list, worker-process count and interleaving, both output modes",
 "there are no Python tests at all; the claim of the first copy is a race between processes",
 [W+"text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py", W+"text_and_url_overlaps/deduplicate.py", W+"text_and_url_overlaps/decontaminate.py", W+"text_and_url_overlaps/helper_scripts/get_text_hashes.py"],
 [("seen array", "listed hashes already claimed by some process", W+"text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py")],
 [("claim under a lock", W+"text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py")],
 ["output shards", "printed totals"])

prop("P25", "overlap and duplicate analysis agrees with set and multiset semantics",
 "From the texts or URLs of several datasets, the overlap analysis produces per dataset the sorted distinct keys with exact multiplicities, for every combination of two or more datasets exactly the intersection of their key sets, and per dataset the exact numbers of total, distinct, duplicated and distinct duplicated entries. The duplicate-key list holds exactly the keys occurring more than once, and the example files show for each listed key (up to the number asked for) a document text with that hash and its count, most frequent first. A null text or URL counts as a key of its own. Files left by an earlier analysis in the same place do not influence the result.",
 ["inputs", "histories"],
 "every family of two to four datasets with arbitrary overlaps, multiplicities, empty datasets, null texts and shard splits, in fresh places and in those of earlier analyses",
 "there are no tests of the scripts",
 [W+"text_and_url_overlaps/run_analysis.sh", W+"text_and_url_overlaps/helper_scripts/run_combinations.py", W+"text_and_url_overlaps/helper_scripts/get_duplicate_counts.py", W+"text_and_url_overlaps/helper_scripts/get_examples.py", W+"text_and_url_overlaps/helper_scripts/merge_and_get_overlap.sh"],
 [("sorted key files", "one line per distinct key, with or without count", W+"text_and_url_overlaps/run_analysis.sh")],
 [("merge of sorted files", W+"text_and_url_overlaps/helper_scripts/merge_and_get_overlap.sh"), ("counting", W+"text_and_url_overlaps/helper_scripts/get_duplicate_counts.py")],
 ["files written by the analysis"])

prop("P26", "splitting files loses, repeats and reorders nothing",
 "Splitting every file of a folder into n parts gives, per input file, n parts whose concatenation in order is the original line sequence, and no part of one file overwrites a part of another, whatever dots occur in the names or folder. The train/valid/test split puts every record into exactly one of the three outputs, unchanged apart from an added content-hash id, in order, and the assignment depends only on the text and gives about 0.05% of the distinct texts to each of valid and test; a record that already has an id is refused.",
 ["inputs", "configurations"],
 "every file content, line count (below n, not divisible by n, zero), file and folder name, and n of at least 1",
 "there are no Python tests at all",
 [W+"utils/file_split.py", W+"utils/split_files.py", W+"utils/utils.py"],
 [("part files", "slices of the input", W+"utils/file_split.py")],
 [("slicing and naming", W+"utils/file_split.py"), ("hash-based assignment", W+"utils/split_files.py")],
 ["output files compared with the input"])

prop("P27", "Elasticsearch document queries mean what their arguments say",
 "Counting or fetching documents by phrases asks for exactly the documents that contain any (or, if requested, all) of the phrases or case-insensitive regular expressions, with the requested slop, restricted by every given field filter, and for the C4 index additionally to the English subset. Fetching returns at most the requested number of hits. The caller's arguments are never modified, so repeated calls with the same arguments issue the same query.",
 ["inputs", "histories"],
 "every index content, phrase list, combination of flags and filters, and sequence of calls sharing argument objects, judged by executing the issued query on a small in-memory index",
 "there are no Python tests at all, and the effect of a reused argument shows only on a later call",
 [W+"es/__init__.py"],
 [("query body", "boolean query sent to the server", W+"es/__init__.py"), ("caller's filter list", "shared across calls", W+"es/__init__.py")],
 [("query construction", W+"es/__init__.py")],
 ["returned counts and hits", "queries received by the fake server", "arguments after the call"])

prop("P28", "fetching all hits yields every matching document exactly once",
 "Asking for all hits yields every matching document exactly once, in the order of the sort field, whatever the page size, including when many documents share a sort value and when documents are added or removed while paging; the point-in-time snapshot taken for it is used for every page and closed when the iteration is complete.",
 ["inputs", "histories", "configurations"],
 "every matching set, page size of at least 1, distribution of equal sort values across page boundaries, and concurrent index changes between pages",
 "there are no Python tests at all; loss needs equal sort values straddling a page boundary",
 [W+"es/__init__.py"],
 [("search cursor", "sort values of the last hit", W+"es/__init__.py"), ("point in time", "snapshot id", W+"es/__init__.py")],
 [("paging loop", W+"es/__init__.py")],
 ["yielded documents", "open snapshots on the fake server", "requests received"])

prop("P29", "per-phrase document counts line up with the phrases and respect the batch size",
 "Counting documents for each phrase returns one exact count per given phrase (or, for phrase lists, per list: documents containing all of its phrases), in the given order, restricted by the given filters (plus the English subset for C4). No request carries more than the batch size of queries, every phrase is asked exactly once, and the caller's arguments are not modified; the contamination percentage derived from it, printed and logged with the two numbers behind it, is the fraction of examples found at least once.",
 ["inputs", "configurations"],
 "every list of phrases or phrase lists, batch size of at least 1 (dividing the list or not), filters and index content",
 "there are no Python tests at all; off-by-one batches show only at exact multiples",
 [W+"es/__init__.py", W+"es/corpus_contamination.py"],
 [("batch of queries", "pairs of header and body", W+"es/__init__.py")],
 [("batching loop", W+"es/__init__.py")],
 ["returned list", "requests received by the fake server"])

prop("P30", "unigram totals sum every shard under the given filters",
 "The total number of occurrences of a unigram is the sum over all shards of the index of the term's total frequency in each shard that holds a matching document, each shard counted once and shards without a match contributing nothing; with field filters only valid filter clauses restricting the matching documents are sent. One entry is returned per unigram and the caller's arguments are not modified.",
 ["inputs", "configurations"],
 "every index content, shard number and distribution of the term over shards, list of unigrams and filters",
 "there are no Python tests at all",
 [W+"es/__init__.py"],
 [("per-shard term statistics", "total term frequency in one shard", W+"es/__init__.py")],
 [("loop over shards", W+"es/__init__.py")],
 ["returned dictionary", "requests received by the fake server"])

prop("P31", "dataset export writes every example exactly once, also after interruptions",
 "Exporting a streamed dataset leaves, for every split, batch files of at most the batch size (all full but the last) that together hold every example exactly once and in order, with the chosen field stored as text and every other field unchanged. If the export is interrupted at any point and run again, any number of times, the final files are the same as those of an uninterrupted run, for any number of worker threads.",
 ["inputs", "crash_points", "schedules"],
 "every dataset size, batch size, worker count, text field name, and every interruption point (between and inside the writing of batch files), with repeated interruptions",
 "there are no Python tests at all; resume errors show only after a crash at a particular point",
 [W+"indexing/huggingface.py"],
 [("batch files", "completed batches", W+"indexing/huggingface.py"), ("resume position", "first batch not yet written", W+"indexing/huggingface.py")],
 [("chunking", W+"indexing/huggingface.py"), ("writing of a batch file", W+"indexing/huggingface.py")],
 ["output directory after each run"])

prop("P32", "indexing submits every non-empty document once, with a stable id",
 "Indexing files creates one document per line that has a non-empty text, with the text (cut to the maximum size) stored under `text`, the skipped fields removed, and an id taken from the id field or from file name and line number, so that running it again adds nothing; lines whose text is null or empty are left out without failing the run. The saved id list holds exactly the submitted ids, files without documents included, and an item rejected by the server for any reason but already existing makes the run fail. An index that does not exist is created with the number of shards asked for, and skipping is refused for more than one file, before anything is indexed. Documents drawn at random are fetched from the named index by ids from that list, any of which can be drawn.",
 ["inputs", "histories", "fault_sequences"],
 "every corpus, field selection, chunk size, order in which the server answers, repetition, and server errors for arbitrary items",
 "there are no Python tests at all",
 [W+"indexing/index_json_files.py", W+"es/__init__.py"],
 [("index", "documents by id", W+"indexing/index_json_files.py"), ("id list", "ids submitted so far", W+"indexing/index_json_files.py")],
 [("action generation and filtering", W+"indexing/index_json_files.py"), ("id file append", W+"indexing/index_json_files.py")],
 ["state of the fake server", "saved id file", "exit status"])

prop("P33", "random sampling is an unbiased, faithful selection",
 "The sampling pipeline outputs values of the requested key of input records in order, each record at most once, with the key looked up in the record and otherwise in its metadata, and an empty value if absent. A fraction of 0 selects nothing, a fraction of 1 everything, and for fractions in between the number selected is binomially distributed and independent of the record's position and content.",
 ["inputs", "configurations", "histories"],
 "every corpus, key and fraction; statistical claims are tested at error probabilities below 1e-9",
 "there are no Python tests at all and the claim is about a distribution",
 [W+"random_sample/map_count.py", W+"random_sample/reduce_count.py"],
 [("sampling decision", "one draw per record", W+"random_sample/map_count.py")],
 [("draw and compare", W+"random_sample/map_count.py")],
 ["stdout of the pipeline"])

prop("P34", "profanity labelling counts every listed term and every document once",
 "In taxonomy mode every non-blank document of acceptable length is labelled profane or not profane exactly once, profane exactly if it contains an offensive term of either kind as a whole word in any letter case, and every whole-word occurrence of a listed term of a category (overlapping ones counted once) adds one to that category. In model mode every such document is classified exactly once (profane if any of its sentences is), overlong documents are counted as long, and neither result depends on the batch size or sharding.",
 ["inputs", "configurations"],
 "every corpus, term list, batch size and shard split; every listed term, first to last",
 "there are no Python tests at all; a term that can never match is invisible without checking all of them",
 [W+"profanity/map_count.py", W+"profanity/reduce_count.py"],
 [("term patterns", "one alternation per category", W+"profanity/map_count.py")],
 [("pattern construction and batching", W+"profanity/map_count.py")],
 ["stdout of the pipeline"])

prop("P35", "shard consolidation uses every input once and can be resumed",
 "Consolidating small corpus files groups, per language prefix, the inputs in name order into outputs of four (the last may be smaller), so that every input file is part of exactly one output and the outputs' contents are the inputs' contents in order; inputs of different prefixes are never mixed. If the job is interrupted between outputs and run again, existing outputs are not rewritten and the final set is the same as without interruption.",
 ["inputs", "crash_points"],
 "every set of input names, prefixes and numbers, output prefix, and every interruption point between outputs",
 "there are no tests of the preparation scripts",
 ["preparation/mc4/combine_adjacent_files.py"],
 [("existing outputs", "objects already composed", "preparation/mc4/combine_adjacent_files.py")],
 [("grouping by prefix and four", "preparation/mc4/combine_adjacent_files.py")],
 ["objects on the fake storage"])

prop("P36", "mean sentiment per demographic term is the exact mean over mentioning sentences",
 "The sentiment pipeline reports for every demographic group or term the mean polarity of the sentences mentioning it, that is the sum of polarities over mentions divided by the number of mentions, over all non-blank documents of acceptable length. Terms are matched as they are listed, upper and lower case distinguished. The result does not depend on the batch size or on the split into shards.",
 ["inputs", "configurations", "schedules"],
 "every corpus, batch size and shard split, with a stand-in language pipeline that defines sentences and polarities",
 "there are no Python tests at all",
 [W+"sentiment_coocurrence/map_count.py", W+"sentiment_coocurrence/reduce_count.py"],
 [("partial sums and counts", "per term and shard", W+"sentiment_coocurrence/map_count.py")],
 [("batch accumulation", W+"sentiment_coocurrence/map_count.py"), ("division in the reducer", W+"sentiment_coocurrence/reduce_count.py")],
 ["stdout of the pipeline"])

prop("P37", "length summaries are the distributions of the measured lengths",
 "Summarising the length counts of a dataset writes, separately for tokens and for characters, the distribution of document lengths: each length measured in that unit maps to its share of that unit's counts, so the shares sum to one, and records without text are left out.",
 ["inputs"],
 "every set of length-count files as produced by the length pipeline",
 "there are no Python tests at all",
 [W+"sentence_lengths/summarize.py", W+"sentence_lengths/map_count.py", W+"sentence_lengths/reduce_count.py"],
 [("length counts", "documents per length and unit", W+"sentence_lengths/summarize.py")],
 [("splitting by unit and normalising", W+"sentence_lengths/summarize.py")],
 ["summary files"])

PR = "preparation/"
prop("P38", "mC4 conversion writes every record once and can be resumed",
 "Converting mC4 writes, for every record file below the input prefix, one compressed object below the output prefix, named after the language, split and number of the input, with exactly one JSON line per record in the order of the records: its repaired text, its URL and timestamp, the language of the file, and an id made of the output's name and the record's number, so that ids are unique over the corpus. Inputs whose output exists are skipped and existing outputs are never rewritten; other objects are ignored. After any interruption a repeated run completes the set as if there had been none.",
 ["inputs", "crash_points", "schedules"],
 "every set of input files, languages, numbers of records, prefix and bucket, every interruption before or after an upload, and several workers",
 "there are no tests of the preparation scripts; lost, repeated or mislabelled records are invisible without comparing all outputs with all inputs",
 [PR+"mc4/mc4.py"],
 [("existing outputs", "names already uploaded", PR+"mc4/mc4.py")],
 [("skip, convert, upload", PR+"mc4/mc4.py")],
 ["objects on the fake storage", "log of uploads"])

prop("P39", "downloading The Stack lists and saves every source row once, and resumes",
 "The list of files of The Stack holds, language by language, exactly one URL for each of the version's files; when listing is interrupted the list keeps complete languages only, an error leaves it as it was, and a repeated run completes it without repetitions. Downloading a listed file saves each row of its table exactly once and in order as a JSON line with id, text, language and source, all other columns as metadata; files that are missing, or empty from a failed attempt, are downloaded, complete ones are left alone, and a partial file left by an interruption is never taken for a complete one.",
 ["inputs", "crash_points", "histories"],
 "every set of languages, numbers of files and tables, and an interruption or lost connection at any request or executed line, any number of times",
 "there are no tests of the preparation scripts; the damage of an interruption at the wrong line shows only in a later run",
 [PR+"stack/get_urls.py", PR+"stack/download_url.py", PR+"stack/download_url.sh", PR+"stack/download.sh"],
 [("url list", "files of the languages finished so far", PR+"stack/get_urls.py"), ("saved files", "complete or absent", PR+"stack/download_url.py")],
 [("probing of the number of files, resumption", PR+"stack/get_urls.py"), ("conversion and replacement", PR+"stack/download_url.py")],
 ["url list", "saved files", "exit status"])

prop("P40", "link checking judges every record's URL by its final response",
 "The link pipeline counts every record exactly once: as alive if requesting its URL and following redirects ends in a response that is no error (status below 400), and as not alive in every other case, be it an error status, a refused or broken connection, endless redirects or a malformed URL. No URL of a record makes the run fail, and the result does not depend on how records are distributed over files.",
 ["inputs", "configurations", "fault_sequences"],
 "every corpus of URLs, shard split and behaviour of the servers that answer with or without a response",
 "there are no tests; a test would need servers that misbehave in every way",
 [W+"link_exists/map_count.py", W+"link_exists/reduce_count.py"],
 [("verdicts", "one per record", W+"link_exists/map_count.py")],
 [("request and classification", W+"link_exists/map_count.py")],
 ["stdout of the pipeline", "requests seen by the server"])

prop("P41", "prompt template collections persist every change and are listed completely",
 "After any sequence of adding, updating and removing prompt templates, the templates held in memory, those read afresh from disk and those of the whole collection are exactly the ones stored, with all their fields and unchanged, distinct ids, and counts per dataset (subsets included) and sorted names agree with them; removing an absent template is refused, and removing the last one removes the folder. Parsing a folder of templates lists every dataset and subset exactly once with the fields that its first template shows directly, in their order.",
 ["inputs", "histories"],
 "every sequence of changes and reopenings over datasets with and without subsets, every text of a template, and every folder",
 "there are no tests of the contamination scripts",
 [W+"contamination/templates.py", W+"contamination/promptsource_parse.py"],
 [("templates by id", "mirrored in templates.yaml", W+"contamination/templates.py"), ("name to id mapping", "in step with the templates", W+"contamination/templates.py")],
 [("write on every change", W+"contamination/templates.py"), ("field extraction", W+"contamination/promptsource_parse.py")],
 ["yaml files", "objects in memory", "output table"])

prop("P42", "documents of a dataset's conspicuous lengths are shown, all and only these",
 "For a known dataset the listing of documents of conspicuous lengths shows, for every document with a text, one line with its length and its text (line breaks replaced) for each unit, tokens and characters, in which the dataset's list of lengths contains the document's length, and no other documents; through the pipeline, equal lines are counted and each counted exactly as often as it occurs over all files.",
 ["inputs", "configurations"],
 "every corpus, dataset name and shard split (texts without carriage returns)",
 "there are no tests; lengths near the listed ones and both units have to be tried",
 [W+"sentence_lengths/map_unique_lengths.py", W+"sentence_lengths/reduce_count.py"],
 [("lists of lengths", "per dataset and unit", W+"sentence_lengths/map_unique_lengths.py")],
 [("measuring and selection", W+"sentence_lengths/map_unique_lengths.py")],
 ["stdout of the mapper and the pipeline"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
