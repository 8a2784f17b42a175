"""property id -> function returning the check class (imported lazily)"""


def _lazy(mod, name):
    def f():
        import importlib
        return getattr(importlib.import_module("sim." + mod), name)
    return f


CHECKS = {
    "P01": _lazy("cppcheck", "P01"),
    "P02": _lazy("cppcheck", "P02"),
    "P03": _lazy("py_write", "P03"),
    "P04": _lazy("py_write", "P04"),
    "P05": _lazy("cppread", "P05"),
    "P06": _lazy("py_read", "P06"),
    "P07": _lazy("threads", "P07"),
    "P08": _lazy("threads", "P08"),
    "P09": _lazy("cppread", "P09"),
    "P10": _lazy("tarcheck", "P10"),
    "P11": _lazy("cppstream", "P11"),
    "P12": _lazy("procwrite", "P12"),
    "P13": _lazy("determinism", "P13"),
    "P14": _lazy("procgen", "P14"),
    "P15": _lazy("cross", "P15"),
    "P16": _lazy("snapshot", "P16"),
    "P17": _lazy("cppalloc", "P17"),
    "P18": _lazy("inspectcheck", "P18"),
    "P22": _lazy("pyviews", "P22"),
    "P23": _lazy("rustcheck", "P23"),
    "P24": _lazy("rustcheck", "P24"),
    "P25": _lazy("rustread", "P25"),
    "P26": _lazy("ruststore", "P26"),
    "P27": _lazy("rustthreads", "P27"),
    "P28": _lazy("rustthreads", "P28"),
    "P29": _lazy("ruststream", "P29"),
    "P19": _lazy("cppstore", "P19"),
    "P30": _lazy("cppviews", "P30"),
    "P31": _lazy("rustviews", "P31"),
    "P32": _lazy("pythreads", "P32"),
    "P33": _lazy("rustgen", "P33"),
}
