"""Drives the repository's Python package: one JSON list of operations per line on stdin, one reply
line per operation ("ok", "ok HEX" or "raise Type: message") on the original stdout.
argv: directory holding the package, committed settings file, JSON-lines log or ""."""
import csv, inspect, json, os, sys, types

proto = os.fdopen(os.dup(1), "w")
null = os.open(os.devnull, os.O_WRONLY)
os.dup2(null, 1)
sys.stdout = open(os.devnull, "w")
import numpy as np


def stub_sklearn():
    """The few scikit-learn names the package uses (scikit-learn is not installed here)."""
    class BaseEstimator:
        def get_params(self, deep=True):
            names = [p for p in inspect.signature(self.__init__).parameters]
            return {n: getattr(self, n) for n in names}

        def set_params(self, **kw):
            for k, v in kw.items():
                setattr(self, k, v)
            return self

    def check_array(X, accept_sparse=False, dtype="numeric", order=None, **kw):
        X = np.array(X, dtype=None if dtype == "numeric" else dtype, order=order, copy=None) if not isinstance(X, np.ndarray) \
            else np.asarray(X, dtype=None if dtype == "numeric" else dtype, order=order)
        if X.ndim != 2 or not np.all(np.isfinite(X)):
            raise ValueError("bad X")
        return X

    def check_X_y(X, y, accept_sparse=False, dtype="numeric", order=None, **kw):
        X, y = check_array(X, accept_sparse, dtype, order), np.asarray(y)
        if y.shape != (X.shape[0],):
            raise ValueError("bad y")
        return X, y

    def check_is_fitted(est, attributes=None, **kw):
        if not hasattr(est, attributes):
            raise ValueError("not fitted")

    def check_estimator(*a):
        pass

    mods = {n: types.ModuleType(n) for n in ("sklearn", "sklearn.base", "sklearn.utils", "sklearn.utils.validation", "sklearn.utils.estimator_checks", "sklearn.metrics")}
    mods["sklearn.base"].BaseEstimator = BaseEstimator
    mods["sklearn.base"].RegressorMixin = type("RegressorMixin", (), {})
    mods["sklearn.base"].ClassifierMixin = type("ClassifierMixin", (), {})
    v = mods["sklearn.utils.validation"]
    v.check_X_y, v.check_array, v.check_is_fitted = check_X_y, check_array, check_is_fitted
    mods["sklearn.utils.estimator_checks"].check_estimator = check_estimator
    sys.modules.update(mods)


stub_sklearn()
sys.path.insert(0, sys.argv[1])
import bitboost
from bitboost.bitboost import RawBitBoost

F32 = np.dtype(np.float32)


def vec(h):
    return np.frombuffer(bytes.fromhex(h), dtype=np.float32)


def matrix(rows, cols, h, layout):
    a = vec(h).reshape(cols, rows).T  # the columns come one after the other
    junk = np.float32(-77.25)
    if layout == "C": return np.ascontiguousarray(a)
    if layout == "F": return np.asfortranarray(a)
    if layout == "T": return a
    if layout == "rows2":  # every second row of a bigger array
        b = np.full((2 * rows + 1, cols), junk, dtype=np.float32); b[1::2, :] = a; return b[1::2, :]
    if layout == "cols3":
        b = np.full((rows, 3 * cols), junk, dtype=np.float32); b[:, 2::3] = a; return b[:, 2::3]
    if layout == "rev": return np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
    if layout == "off":
        b = np.full((rows + 3, cols + 2), junk, dtype=np.float32, order="F"); b[2:-1, 1:-1] = a; return b[2:-1, 1:-1]
    if layout == "unaligned":
        b = np.zeros(rows * cols * 4 + 1, dtype=np.uint8); v = b[1:].view(np.float32).reshape(rows, cols); v[:, :] = a; return v
    if layout == "f8": return np.array(a, dtype=np.float64)
    if layout == "f8F": return np.asfortranarray(np.array(a, dtype=np.float64))
    if layout == "i8": return np.array(a, dtype=np.int64)
    if layout == "list": return [[float(x) for x in r] for r in a]
    if layout == "big": return a.astype(">f4")
    raise ValueError(layout)


def column(h, layout):
    a = vec(h)
    n = len(a)
    if layout in ("C", "F", "T", "off"): return np.array(a)
    if layout in ("rows2", "cols3"):
        b = np.full(2 * n + 1, np.float32(-77.25), dtype=np.float32); b[1::2] = a; return b[1::2]
    if layout == "rev": return np.array(a[::-1])[::-1]
    if layout == "unaligned":
        b = np.zeros(n * 4 + 1, dtype=np.uint8); v = b[1:].view(np.float32); v[:] = a; return v
    if layout in ("f8", "f8F"): return np.array(a, dtype=np.float64)
    if layout == "i8": return np.array(a, dtype=np.int64)
    if layout == "list": return [float(x) for x in a]
    if layout == "big": return a.astype(">f4")
    raise ValueError(layout)


def cats(ids, kind):
    return {"set": set, "list": list, "frozenset": frozenset, "tuple": tuple, "dict": lambda x: {i: 1 for i in x}, "np": lambda x: np.array(x, dtype=np.int64)}[kind](ids)


def value(v, kind):
    if kind == "str": return ",".join(map(str, v)) if isinstance(v, list) else str(v)
    if kind == "np":
        if isinstance(v, list): return np.array(v) if v and not isinstance(v[0], str) else tuple(v)
        if isinstance(v, float): return np.float32(v)
        if isinstance(v, int): return np.int64(v) if v < 2**63 else np.uint64(v)
    return v


def hexed(a):
    a = np.asarray(a)
    if a.dtype != F32 or a.ndim != 1: raise ValueError("result of type %s, shape %s" % (a.dtype, a.shape))
    return np.ascontiguousarray(a).tobytes().hex()


def text_hex(rows):
    return "\n".join("\t".join(r) for r in rows).encode().hex()


handed, returned, kept = [], [], {}  # arrays given to the package and got from it, with their contents


def hand(a):
    if isinstance(a, np.ndarray): handed.append((a, a.tobytes()))
    return a


def same(op):
    """The matrix of an operation; with a name at the end, always in the same array object."""
    a = matrix(op[2], op[3], op[4], op[5])
    if len(op) == 6 or not isinstance(a, np.ndarray) or not a.flags.writeable: return a
    key = (op[6], a.shape, a.dtype.str, a.strides)
    if key not in kept: kept[key] = a
    kept[key][...] = a
    return kept[key]


def got(a):
    h = hexed(a)
    returned.append((a, h))
    return h


def unchanged():
    for a, b in handed:
        if a.tobytes() != b: raise ValueError("an array handed over was changed")
        if a.flags.writeable: a[...] = 3  # the package must not depend on it any longer
    handed.clear()
    for a, h in returned:
        if hexed(a) != h: raise ValueError("predictions returned earlier were changed")


def run(objs, op):
    k, i = op[0], op[1]
    if k == "new": objs[i] = RawBitBoost(op[2], op[3])
    elif k == "del": del objs[i]
    elif k == "dealloc": objs[i].dealloc()
    elif k == "config": objs[i].set_config({n: value(v, op[3]) for n, v in op[2]})
    elif k == "field": objs[i].set_config_field(op[2], value(op[3], op[4]))
    elif k == "data": objs[i].set_data(hand(matrix(op[2], op[3], op[4], op[5])), cats(op[6], op[7]))
    elif k == "data0": objs[i].set_data(hand(same(op)))
    elif k == "column": objs[i].set_feature_data(op[2], hand(column(op[3], op[4])), op[5])
    elif k == "target": objs[i].set_target(hand(column(op[2], op[3])))
    elif k == "train": objs[i].train()
    elif k == "predict": return got(objs[i].predict())
    elif k == "sknew": objs[i] = getattr(bitboost, op[2])(**{n: value(v, op[4]) for n, v in op[3]})
    elif k == "skfit":
        if objs[i].fit(hand(matrix(op[2], op[3], op[4], op[5])), hand(column(op[6], op[7]))) is not objs[i]: raise ValueError("fit does not return the estimator")
    elif k == "skset": objs[i].set_params(**{n: value(v, op[3]) for n, v in op[2]})
    elif k == "skclone": objs[op[2]] = type(objs[i])(**objs[i].get_params())
    elif k == "skpredict": return got(objs[i].predict(hand(same(op))))
    elif k == "params":
        return text_hex([p.name, p.type_str, str(p.default)] for p in RawBitBoost.config_params.values())
    elif k == "skparams":
        ps = inspect.signature(bitboost.BitBoost.__init__).parameters
        return text_hex([n, "", ",".join(map(str, p.default)) if isinstance(p.default, list) else str(p.default)] for n, p in ps.items() if n != "self")
    elif k == "committed":
        with open(sys.argv[2]) as f:
            return text_hex([r[0], r[2], r[1]] for r in list(csv.reader(f))[1:] if "cli only" not in r[3])
    else: raise ValueError(k)
    return None


for line in sys.stdin:
    objs = {}
    out = []
    for op in json.loads(line):
        try:
            r = run(objs, op)
            unchanged()
            out.append("ok" if r is None else "ok " + r)
        except Exception as e:
            out.append("raise %s: %s" % (type(e).__name__, str(e).replace("\n", " ")))
    proto.write("\n".join(out) + "\n")
    proto.flush()
    objs.clear()
    handed.clear()
    returned.clear()
    kept.clear()
