"""Which module decides which property."""
import importlib

MODULES = {}
for mod, props in {
    "ngram_cmds": "P01 P02 P03 P07",
    "exact_cmds": "P04 P05 P06",
    "lib_cmds": "P08 P09 P10 P11 P12",
    "robust_cmds": "P13 P14 P18 P20",
    "io_cmds": "P15 P16 P17 P19",
    "py_counts": "P21 P22 P23 P33 P34 P36 P37",
    "py_overlap": "P24 P25 P26 P35",
    "py_es": "P27 P28 P29 P30 P31 P32",
    "py_prep": "P38 P39 P40 P41 P42",
}.items():
    for p in props.split():
        MODULES[p] = mod


def find(prop):
    return getattr(importlib.import_module(MODULES[prop]), prop)


def setup_needs():
    return ["plain", "oracle", "noise", "tsan", "shim", "lag", "libmon-plain", "libmon-noise", "libmon-tsan"]
