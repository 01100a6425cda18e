import re
from _stublimit import module_getattr
import numpy as np
__getattr__ = module_getattr("profanity_check")
BAD = {"damn", "crap", "heck", "bloody"}


def predict_prob(texts):
    return np.array([0.95 if BAD & set(re.findall(r"\w+", t.lower())) else 0.05 for t in texts])


def predict(texts):
    if isinstance(texts, str):
        raise ValueError("Iterable over raw text documents expected, string object received.")
    texts = list(texts)
    if not texts:
        raise ValueError("Found array with 0 sample(s) (shape=(0, 1)) while a minimum of 1 is required.")
    return (predict_prob(texts) > 0.5).astype(int)
