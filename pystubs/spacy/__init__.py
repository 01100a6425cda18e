from _stublimit import module_getattr
__getattr__ = module_getattr("spacy")


def blank(lang):
    from spacy.lang.en import English
    return English()
