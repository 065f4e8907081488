"""Operations on the Python model as data: value specs, building, canonical forms, and the generator of calls."""
import hashlib
import json
import math
from fractions import Fraction

import numpy as np

# ---------------------------------------------------------------------------------------------------
# Values
# ---------------------------------------------------------------------------------------------------


def vfmt(f):
    return {"t": "fmt", "v": list(f)}


def vrnd(k):
    return {"t": "rnd", "v": k}


def vsat(k):
    return {"t": "sat", "v": k}


def vpy(x):
    return {"t": "py", "v": x}


def _np_from(dt, shape, v):
    n = int(np.prod(shape)) if len(shape) else 1
    if dt == "O":
        a = np.empty((n,), dtype=object)
        for i in range(n):
            a[i] = v[i % len(v)]
    else:
        a = np.array([v[i % len(v)] for i in range(n)], dtype=dt) if n else np.empty((0,), dtype=dt)
    return a.reshape(tuple(shape))


def build(V, P):
    t = V["t"]
    if t == "fmt":
        f = P.FixFormat.__new__(P.FixFormat)
        f.__init__(*V["v"])
        return f
    if t == "rnd":
        return list(P.FixRound)[V["v"]]
    if t == "sat":
        return list(P.FixSaturate)[V["v"]]
    if t == "py":
        return V["v"]
    if t == "np":
        return np.dtype(V["dt"]).type(V["v"])
    if t == "arr":
        a = _np_from(V["dt"], V["sh"], V["v"])
        lay = V.get("lay", "C")
        if lay == "F":
            a = np.asfortranarray(a)
        elif lay == "view" and a.ndim:
            base = np.empty(a.shape[:-1] + (2 * a.shape[-1],), dtype=a.dtype)
            base[..., ::2] = a
            base[..., 1::2] = a
            a = base[..., ::2]
        elif lay == "rev" and a.ndim:
            a = a[::-1].copy()[::-1]
        elif lay == "ro":
            a = a.copy()
            a.flags.writeable = False
        for m in V.get("mut", ()):
            apply_mut(a, m)
        return a
    if t == "list":
        x = json.loads(json.dumps(V["v"]))
        for m in V.get("mut", ()):
            apply_mut(x, m)
        return x
    if t == "seq":
        return [build(x, P) for x in V["v"]]
    if t == "tup":
        return tuple(build(x, P) for x in V["v"])
    if t == "N":
        return P.NarrowFix(build(V["d"], P), build(V["f"], P))
    if t == "W":
        return P.WideFix(build(V["d"], P), build(V["f"], P))
    raise KeyError(t)


def apply_mut(x, m):
    """In-place modification of an operand by its owner."""
    k, val = m
    if isinstance(x, np.ndarray):
        if x.size and x.flags.writeable:
            idx = np.unravel_index(k % x.size, x.shape)
            x[idx] = val
    elif isinstance(x, list) and x:
        while isinstance(x[k % len(x)], list):
            x = x[k % len(x)]
        x[k % len(x)] = val


def to_spec(x, P):
    """Spec of a live value (used for results that become operands)."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return {"t": "arr", "dt": "O", "sh": list(x.shape), "v": [e if type(e) is int else _obj(e) for e in x.ravel().tolist()]}
        return {"t": "arr", "dt": x.dtype.str, "sh": list(x.shape), "v": x.ravel().tolist()}
    if isinstance(x, np.generic):
        return {"t": "np", "dt": x.dtype.str, "v": x.item()}
    if x is None or isinstance(x, (int, float, bool, str)):
        return vpy(x)
    if isinstance(x, P.FixFormat):
        return vfmt((x.S, x.I, x.F))
    if isinstance(x, P.NarrowFix):
        return {"t": "N", "d": to_spec(x.data, P), "f": to_spec(x.fmt, P)}
    if isinstance(x, P.WideFix):
        return {"t": "W", "d": to_spec(x.data, P), "f": to_spec(x.fmt, P)}
    if isinstance(x, P.FixRound):
        return vrnd(x.value)
    if isinstance(x, P.FixSaturate):
        return vsat(x.value)
    if isinstance(x, list):
        if all(isinstance(e, (int, float, list)) for e in x):
            return {"t": "list", "v": x}
        return {"t": "seq", "v": [to_spec(e, P) for e in x]}
    if isinstance(x, tuple):
        return {"t": "tup", "v": [to_spec(e, P) for e in x]}
    raise TypeError(f"no spec for {type(x)}")


def _obj(e):
    raise TypeError(f"object array element {type(e)}")


def canon(x, P):
    """Canonical string of a result: type, shape, element types and exact values."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            body = ",".join(f"{type(e).__name__}:{e!r}" for e in x.ravel().tolist())
            head = "O"
        else:
            head = x.dtype.str
            c = np.ascontiguousarray(x)
            body = ",".join(repr(e) for e in c.ravel().tolist()) if x.size <= 64 else hashlib.sha256(c.tobytes()).hexdigest()[:24]
        if len(body) > 4000:
            body = hashlib.sha256(body.encode()).hexdigest()[:24]
        return f"nd<{head}>{tuple(x.shape)}[{body}]"
    if isinstance(x, np.generic):
        return f"np<{x.dtype.str}>{x.item()!r}"
    if x is None or isinstance(x, (int, float, bool, str, bytes)):
        return f"{type(x).__name__}:{x!r}"
    if isinstance(x, P.FixFormat):
        return f"fmt({x.S!r},{x.I!r},{x.F!r})"
    if isinstance(x, P.NarrowFix):
        return f"NarrowFix<{canon(x.data, P)} {canon(x.fmt, P)}>"
    if isinstance(x, P.WideFix):
        return f"WideFix<{canon(x.data, P)} {canon(x.fmt, P)}>"
    if isinstance(x, (list, tuple)):
        return f"{type(x).__name__}({'; '.join(canon(e, P) for e in x)})"
    if isinstance(x, (P.FixRound, P.FixSaturate)):
        return str(x)
    import re
    return f"{type(x).__name__}:" + re.sub(r"0x[0-9a-f]+", "0x", repr(x))


def canon_exc(e):
    import re
    return f"raises {type(e).__name__}: " + re.sub(r"0x[0-9a-f]+", "0x", str(e))


def snap(x, P):
    """Snapshot to notice modification: canonical form, writeability, and the memory behind a view."""
    s = canon(x, P)
    if isinstance(x, np.ndarray):
        s += f"|w{int(x.flags.writeable)}"
        if x.base is not None and isinstance(x.base, np.ndarray):
            s += "|" + canon(x.base, P)
    return s


# ---------------------------------------------------------------------------------------------------
# Operations
# ---------------------------------------------------------------------------------------------------

OPS = {}


def _op(name, fn):
    OPS[name] = fn


for _n in ("cl_fix_add_fmt", "cl_fix_sub_fmt", "cl_fix_addsub_fmt", "cl_fix_mult_fmt", "cl_fix_neg_fmt", "cl_fix_abs_fmt", "cl_fix_shift_fmt",
           "cl_fix_round_fmt", "cl_fix_union_fmt", "cl_fix_width", "cl_fix_is_wide", "cl_fix_max_value", "cl_fix_min_value",
           "cl_fix_format_to_string", "cl_fix_in_range", "cl_fix_from_real", "cl_fix_from_integer", "cl_fix_to_integer", "cl_fix_to_real",
           "cl_fix_round", "cl_fix_saturate", "cl_fix_resize", "cl_fix_abs", "cl_fix_neg", "cl_fix_add", "cl_fix_sub", "cl_fix_addsub",
           "cl_fix_mult", "cl_fix_shift", "cl_fix_zeros", "cl_fix_random", "to_uint64_array", "from_uint64_array"):
    _op(_n, (lambda n: lambda P, *a, **k: getattr(P, n)(*a, **k))(_n))
for _n in ("for_add", "for_sub", "for_addsub", "for_mult", "for_neg", "for_abs", "for_shift", "for_round", "union"):
    _op("FixFormat." + _n, (lambda n: lambda P, *a, **k: getattr(P.FixFormat, n)(*a, **k))(_n))
_op("FixFormat", lambda P, *a: P.FixFormat(*a))
_op("fmt.eq", lambda P, a, b: a == b)
_op("fmt.str", lambda P, a: str(a))
_op("fmt.repr", lambda P, a: repr(a))
_op("fmt.width", lambda P, a: a.width)
for _c, _cls in (("N", "NarrowFix"), ("W", "WideFix")):
    _op(_c + ".new", (lambda c: lambda P, d, f: getattr(P, c)(d, f))(_cls))
    for _n in ("from_real", "from_integer", "max_value", "min_value", "from_narrowfix", "from_uint64_array", "align_binary_points"):
        _op(f"{_c}.{_n}", (lambda c, n: lambda P, *a, **k: getattr(getattr(P, c), n)(*a, **k))(_cls, _n))
    for _n in ("to_integer", "in_range", "round", "saturate", "resize", "abs", "neg", "add", "sub", "addsub", "mult", "shift", "to_real",
               "to_uint64_array"):
        _op(f"{_c}.{_n}", (lambda n: lambda P, x, *a, **k: getattr(x, n)(*a, **k))(_n))
    for _n, _f in (("data", lambda P, x: x.data), ("fmt", lambda P, x: x.fmt), ("op+", lambda P, x, y: x + y), ("op-", lambda P, x, y: x - y),
                   ("op*", lambda P, x, y: x * y), ("op<<", lambda P, x, n: x << n), ("opneg", lambda P, x: -x), ("op==", lambda P, x, y: x == y),
                   ("op!=", lambda P, x, y: x != y), ("op<", lambda P, x, y: x < y), ("op<=", lambda P, x, y: x <= y),
                   ("op>", lambda P, x, y: x > y), ("op>=", lambda P, x, y: x >= y), ("len", lambda P, x: len(x)),
                   ("str", lambda P, x: str(x)), ("repr", lambda P, x: repr(x) if "WideFix" in type(x).__name__ else "")):
        _op(f"{_c}.{_n}", _f)


# ---------------------------------------------------------------------------------------------------
# Exact reference for formats and saturation (used to generate sensible calls and to decide warnings)
# ---------------------------------------------------------------------------------------------------


def width(f):
    return sum(f)


def is_wide(f):
    return width(f) > 53


def lim(f):
    S, I, F = f
    if S not in (0, 1) or abs(I) > 20000 or abs(F) > 20000:
        raise Skip  # Not a format: an invalid call with exchanged arguments.
    return (-(1 << (I + F)) if S else 0), (1 << (I + F)) - 1


def f_round(a, rF, rnd):
    S, I, F = a
    J = I if (rF >= F or rnd == 0) else I + 1
    if S + J + rF < 1:
        J = -S - rF + 1
    return (S, J, rF)


def f_neg(a):
    return (1, a[1] + a[0] - 1, a[2]) if a[0] == 0 and width(a) == 1 else (1, a[1] + a[0], a[2])


def f_union(a, b):
    return tuple(max(x, y) for x, y in zip(a, b))


def round_units(v, F, rnd):
    """Exact value v in units of 2**-F, rounded as configured."""
    x = v * Fraction(2) ** F
    t = math.floor(x)
    r = x - t
    half = Fraction(1, 2)
    if rnd == 0 or r == 0:
        return t
    if r != half:
        return t + (r > half)
    up = {1: True, 2: False, 3: v > 0, 4: v < 0, 5: t % 2 == 1, 6: t % 2 == 0}[rnd]
    return t + up


class Skip(Exception):
    pass


def _flat(V):
    if V["t"] == "arr":
        return [V["v"][i % len(V["v"])] for i in range(int(np.prod(V["sh"])) if V["sh"] else 1)] if V["v"] else []
    if V["t"] == "list":
        out = []

        def walk(x):
            for e in x:
                walk(e) if isinstance(e, list) else out.append(e)
        walk(V["v"])
        return out
    return [V["v"]]


def _shape(V):
    if V["t"] == "arr":
        return tuple(V["sh"])
    if V["t"] == "list":
        return np.shape(V["v"])
    return ()


def exact(V, fmt=None):
    """Object array of the exact values (Fraction) of an operand; Skip if they are not proper values of the format."""
    if V.get("mut"):
        raise Skip
    if V["t"] in "NW":
        fmt = tuple(V["f"]["v"])
        wide = V["t"] == "W"
        V = V["d"]
    else:
        wide = is_wide(fmt)
    vals = _flat(V)
    lo, hi = lim(fmt)
    out = []
    for x in vals:
        if wide:
            if isinstance(x, float):
                raise Skip
            n = int(x)
        else:
            if x != x or x in (math.inf, -math.inf):
                raise Skip
            q = Fraction(x) * Fraction(2) ** fmt[2]
            if q.denominator != 1:
                raise Skip
            n = q.numerator
        if not lo <= n <= hi:
            raise Skip
        out.append(Fraction(n) / Fraction(2) ** fmt[2])
    a = np.empty(len(out), dtype=object)
    a[:] = out
    return a.reshape(_shape(V)), fmt


def expected_warning(fn, args, kw):
    """True: must warn; False: must not warn; None: not decided here."""
    try:
        return _expected(fn, args, kw)
    except (Skip, TypeError, ValueError, KeyError, IndexError, OverflowError):
        # Not decided: improper values, or arguments that are not valid in the first place.
        return None


def _expected(fn, A, K):
    def get(i, name, default=None):
        if name in K:
            return K[name]["v"]
        return A[i]["v"] if i < len(A) else default

    def clipped(vals, rf, rnd, sat):
        if sat not in (1, 3):
            return False
        if rf is None:
            return False
        lo, hi = lim(rf)
        return any(not lo <= round_units(v, rf[2], rnd) <= hi for v in np.ravel(vals))

    if fn in ("cl_fix_from_real", "N.from_real", "W.from_real"):
        rf, sat = tuple(A[1]["v"]), get(2, "saturate", 3)
        if sat not in (1, 3):
            return False
        lo, hi = lim(rf)
        res = False
        for x in _flat(A[0]):
            if isinstance(x, float) and (x != x or abs(x) == math.inf):
                return None
            u = Fraction(x) * Fraction(2) ** rf[2]
            n = round_units(Fraction(x), rf[2], 1)
            if not lo <= n <= hi:
                return True
            if not lo <= u <= hi:
                res = None
        return res
    if fn.startswith("cl_fix_"):
        name = fn[7:]
        if name in ("abs", "neg", "saturate", "resize", "round"):
            a, af = exact(A[0], tuple(A[1]["v"]))
            rf = get(2, "r_fmt")
            rf = None if rf is None else tuple(rf)
            if name == "saturate":
                return clipped(a, rf, 0, get(3, "sat"))
            if name == "round":
                return False
            v = {"abs": abs, "neg": lambda x: -x, "resize": lambda x: x}[name]
            return clipped([v(x) for x in a.ravel()], rf, get(3, "rnd", 0), get(4, "sat", 0))
        if name in ("add", "sub", "mult", "addsub"):
            a, af = exact(A[0], tuple(A[1]["v"]))
            b, bf = exact(A[2], tuple(A[3]["v"]))
            i = 5 if name == "addsub" else 4
            rf = get(i, "r_fmt")
            rf = None if rf is None else tuple(rf)
            return clipped(_binary(name, a, b, A[4] if name == "addsub" else None), rf, get(i + 1, "rnd", 0), get(i + 2, "sat", 0))
        if name == "shift":
            a, af = exact(A[0], tuple(A[1]["v"]))
            rf = get(3, "r_fmt")
            return clipped(_shifted(a, A[2]), None if rf is None else tuple(rf), get(4, "rnd", 0), get(5, "sat", 0))
        return False
    if fn[:2] in ("N.", "W."):
        name = fn[2:]
        if name in ("abs", "neg", "resize", "saturate"):
            a, af = exact(A[0])
            rf = get(1, "r_fmt")
            rf = None if rf is None else tuple(rf)
            if name == "saturate":
                if rf[2] != af[2]:
                    return None
                return clipped(a, rf, 0, get(2, "sat", 0))
            v = {"abs": abs, "neg": lambda x: -x, "resize": lambda x: x}[name]
            return clipped([v(x) for x in a.ravel()], rf, get(2, "rnd", 0), get(3, "sat", 0))
        if name in ("add", "sub", "mult", "addsub"):
            a, af = exact(A[0])
            b, bf = exact(A[1])
            i = 3 if name == "addsub" else 2
            rf = get(i, "r_fmt")
            return clipped(_binary(name, a, b, A[2] if name == "addsub" else None), None if rf is None else tuple(rf),
                           get(i + 1, "rnd", 0), get(i + 2, "sat", 0))
        if name == "shift":
            a, af = exact(A[0])
            rf = get(2, "r_fmt")
            return clipped(_shifted(a, A[1]), None if rf is None else tuple(rf), get(3, "rnd", 0), get(4, "sat", 0))
    return False


def _binary(name, a, b, add):
    a, b = np.broadcast_arrays(a, b)
    if name == "mult":
        return [x * y for x, y in zip(a.ravel(), b.ravel())]
    if name == "add":
        return [x + y for x, y in zip(a.ravel(), b.ravel())]
    if name == "sub":
        return [x - y for x, y in zip(a.ravel(), b.ravel())]
    sel = np.array(_flat(add), dtype=bool).reshape(_shape(add))
    try:
        a, b, sel = np.broadcast_arrays(a, b, sel)
    except ValueError:
        raise Skip
    return [x + y if s else x - y for x, y, s in zip(a.ravel(), b.ravel(), sel.ravel())]


def _shifted(a, sh):
    s = np.array(_flat(sh), dtype=object).reshape(_shape(sh))
    try:
        a, s = np.broadcast_arrays(a, s)
    except ValueError:
        raise Skip
    if any(abs(n) > 20000 for n in s.ravel()):
        raise Skip
    return [x * Fraction(2) ** int(n) for x, n in zip(a.ravel(), s.ravel())]


# ---------------------------------------------------------------------------------------------------
# Generator
# ---------------------------------------------------------------------------------------------------


def gen_fmt(rng, cls=None):
    cls = cls or rng.choices(["tiny", "small", "mid", "edge", "wide", "huge"], [3, 5, 4, 4, 4, 1])[0]
    w = {"tiny": lambda: rng.randint(1, 3), "small": lambda: rng.randint(2, 10), "mid": lambda: rng.randint(9, 40),
         "edge": lambda: rng.randint(50, 56), "wide": lambda: rng.randint(54, 80), "huge": lambda: rng.choice([64, 65, 127, 128, 129, 200])}[cls]()
    S = rng.randint(0, 1)
    F = rng.choice([0, 0, rng.randint(0, w), rng.randint(-4, w + 4)])
    I = w - S - F
    return (S, I, F)


def vary(rng, f):
    """A format that differs a little from f."""
    S, I, F = f
    k = rng.randrange(7)
    g = [(1 - S, I, F), (S, I + 1, F), (S, I - 1, F), (S, I, F + 1), (S, I, F - 1), (S, I + 1, F - 1), (S, I - 1, F + 1)][k]
    return g if g[1] + g[2] >= 0 and sum(g) >= 1 else (S, I + 1, F)


class Gen:
    """Generates the objects and calls of one session."""

    def __init__(self, rng, opts=None):
        self.rng = rng
        self.o = {"exclude": (), "prefer": (), "big": 0.06, "literal": 0.15, "proper": False, "random": 0.0, "err": 0.06}
        self.o.update(opts or {})
        r = rng
        base = [gen_fmt(r) for _ in range(r.randint(1, 3))]
        self.fmts = list(base)
        for f in base:
            for _ in range(r.randint(0, 3)):
                self.fmts.append(vary(r, r.choice(self.fmts)))
        self.shapes = [r.choice([(3,), (2,), (1,), (5,), (2, 2), (2, 3), (1, 2, 2), ()])]
        if r.random() < 0.4:
            self.shapes.append(r.choice([(3,), (4,), (2, 2), ()]))
        self.big = r.random() < self.o["big"]
        if self.big:
            self.shapes.append((r.choice([4096, 5000, 1025]),))
        self.objs = []
        self.index = {}
        self.n_threads = 1

    def fmt(self):
        return self.rng.choice(self.fmts)

    def fref(self, f):
        """Reference to a format: a shared object or a literal."""
        if self.rng.random() < 0.5:
            return vfmt(f)
        return self.obj(("fmt", f), lambda: vfmt(f))

    def obj(self, key, make, reuse=0.85):
        c = self.index.setdefault(key, [])
        if c and self.rng.random() < reuse:
            return {"o": self.rng.choice(c)}
        self.objs.append(make())
        c.append(len(self.objs) - 1)
        return {"o": c[-1]}

    def ints(self, f, n):
        r = self.rng
        lo, hi = lim(f)
        mode = r.random()
        out = []
        for _ in range(n):
            k = r.random()
            if k < 0.35:
                out.append(r.choice([lo, hi, lo + 1 if lo < hi else lo, hi - 1 if hi > lo else hi, 0, hi // 2, (hi + 1) // 2]))
            elif mode < 0.3:
                out.append(max(lo, min(hi, r.randint(-4, 4))))
            else:
                out.append(r.randint(lo, hi))
        return out

    def narrow_vals(self, f, ints):
        return [math.ldexp(float(x), -f[2]) for x in ints]

    def layout(self, sh):
        return self.rng.choices(["C", "F", "view", "rev", "ro"], [6, 1, 1, 1, 1])[0] if sh else self.rng.choice(["C", "C", "ro"])

    def shape(self):
        return self.rng.choice(self.shapes)

    def raw_spec(self, f, sh, allow_list=True):
        r = self.rng
        n = min(int(np.prod(sh)) if sh else 1, 24)
        v = self.ints(f, max(n, 1))
        wide = is_wide(f)
        if not wide:
            v = self.narrow_vals(f, v)
        k = r.random()
        if sh == () and k < 0.6:
            # A bare scalar
            return vpy(v[0]) if wide or k < 0.4 else {"t": "np", "dt": "f8", "v": v[0]}
        if allow_list and sh and not wide and k < 0.12 and int(np.prod(sh)) <= 24:
            return {"t": "list", "v": _np_from("f8", sh, v).tolist()}
        return {"t": "arr", "dt": "O" if wide else "f8", "sh": list(sh), "lay": self.layout(sh), "v": v}

    def raw(self, f, sh, allow_list=True):
        """Raw data of format f; sometimes data made for a narrower neighbouring format."""
        r = self.rng
        if r.random() < self.o["literal"]:
            return self.raw_spec(f, sh, allow_list)
        return self.obj(("raw", f, sh), lambda: self.raw_spec(f, sh, allow_list))

    def num(self, f, sh):
        r = self.rng
        cls = "W" if is_wide(f) or r.random() < 0.4 else "N"

        def make():
            n = min(int(np.prod(sh)) if sh else 1, 24)
            v = self.ints(f, max(n, 1))
            if cls == "N":
                v = self.narrow_vals(f, v)
            d = {"t": "arr", "dt": "O" if cls == "W" else "f8", "sh": list(sh), "lay": self.layout(sh), "v": v}
            return {"t": cls, "d": d, "f": vfmt(f)}
        return self.obj((cls, f, sh), make), cls

    def num_of(self, cls, f, sh):
        for _ in range(20):
            x, c = self.num(f, sh)
            if c == cls:
                return x
        return None

    def rnd(self):
        return self.rng.randrange(7)

    def sat(self):
        return self.rng.choice(self.o.get("sats") or [0, 1, 2, 3])

    def tail(self, rf, args, kw, names=("r_fmt", "rnd", "sat")):
        """Appends r_fmt, rnd, sat positionally or by keyword, or leaves them out."""
        r = self.rng
        k = r.random()
        rnd, sat = self.rnd(), self.sat()
        if k < 0.12 and not self.o["prefer"]:
            return None
        if k < 0.6:
            args += [rf, vrnd(rnd), vsat(sat)]
        elif k < 0.75:
            kw.update({"r_fmt": rf, "sat": vsat(sat), "rnd": vrnd(rnd)})
        elif k < 0.85:
            args.append(rf)
            kw["sat"] = vsat(sat)
        elif k < 0.93:
            args += [rf, vrnd(rnd)]
        else:
            args.append(rf)
        return True

    def real_vals(self, f, n):
        r = self.rng
        lo, hi = lim(f)
        out = []
        for _ in range(n):
            k = r.random()
            u = r.choice([lo, hi, 0, r.randint(lo, hi)]) + r.choice([0, 0, 0.25, 0.5, -0.5, 0.75, -0.75, 0.49, 1, -1, 1.5, -1.5])
            if k < 0.1:
                u = u * 2
            if k > 0.6 and not self.rng.random() < 0.5:
                u = max(lo, min(hi, u))
            try:
                out.append(math.ldexp(float(u), -f[2]))
            except OverflowError:
                out.append(0.0)
        return out

    # -- one call ------------------------------------------------------------------------------------
    def call(self):
        r = self.rng
        table = self.o.get("table") or CALLS
        for _ in range(50):
            kind = r.choices([k for k, _ in table], [w for _, w in table])[0]
            if kind in self.o["exclude"]:
                continue
            op = getattr(self, "c_" + kind)()
            if op is not None:
                op.setdefault("kw", {})
                if self.o["err"] and r.random() < self.o["err"]:
                    self.spoil(op)
                return op
        return {"fn": "cl_fix_width", "a": [vfmt((1, 3, 2))], "kw": {}}

    def spoil(self, op):
        """Makes the call (probably) invalid."""
        r = self.rng
        k = r.randrange(5)
        a = op["a"]
        op["bad"] = 1
        i = r.randrange(len(a)) if a else 0
        if k == 0 and a:
            a[i] = vpy(r.choice([None, "x", -1, 2.5]))
        elif k == 1 and a:
            a.pop(i)
        elif k == 2:
            op["kw"]["nonsense"] = vpy(1)
        elif k == 3 and a:
            a[i] = {"t": "arr", "dt": "f8", "sh": [7], "v": [0.5, -3.0]}
        elif a:
            a[i] = self.fref(self.fmt())

    def c_fmt2(self):
        r = self.rng
        n = r.choice(["add", "sub", "addsub", "mult", "union"])
        name = r.choice([f"cl_fix_{n}_fmt", f"FixFormat.{'union' if n == 'union' else 'for_' + n}"])
        a, b = self.fmt(), self.fmt()
        if n == "union" and r.random() < 0.4:
            t = r.choice(["seq", "tup"])
            return {"fn": name, "a": [{"t": t, "v": [vfmt(self.fmt()) for _ in range(r.randint(1, 3))]}]}
        return {"fn": name, "a": [self.fref(a), self.fref(b)]}

    def c_fmt1(self):
        r = self.rng
        f = self.fmt()
        k = r.choice(["neg", "abs", "shift", "round", "width", "wide", "max", "min", "str", "misc", "new", "eq"])
        F = self.fref(f)
        if k in ("neg", "abs"):
            return {"fn": r.choice([f"cl_fix_{k}_fmt", f"FixFormat.for_{k}"]), "a": [F]}
        if k == "shift":
            lo = r.randint(-3, 3)
            return {"fn": r.choice(["cl_fix_shift_fmt", "FixFormat.for_shift"]), "a": [F, vpy(lo)] + ([vpy(lo + r.randint(0, 3))] if r.random() < 0.5 else [])}
        if k == "round":
            return {"fn": r.choice(["cl_fix_round_fmt", "FixFormat.for_round"]), "a": [F, vpy(f[2] + r.randint(-4, 2)), vrnd(self.rnd())]}
        if k == "width":
            return {"fn": r.choice(["cl_fix_width", "fmt.width"]), "a": [F]}
        if k == "wide":
            return {"fn": "cl_fix_is_wide", "a": [F]}
        if k in ("max", "min"):
            w = is_wide(f)
            return {"fn": r.choice([f"cl_fix_{k}_value", f"{'W' if w or r.random() < 0.5 else 'N'}.{k}_value"]), "a": [F]}
        if k == "str":
            return {"fn": r.choice(["cl_fix_format_to_string", "fmt.str", "fmt.repr"]), "a": [F]}
        if k == "eq":
            return {"fn": "fmt.eq", "a": [F, self.fref(self.fmt())]}
        if k == "new":
            g = list(f)
            if r.random() < 0.15:
                g[r.randrange(3)] = r.choice([2, -50])
            return {"fn": "FixFormat", "a": [vpy(x) for x in g]}
        f2 = self.fmt()
        return {"fn": "cl_fix_zeros", "a": [r.choice([vpy(3), {"t": "tup", "v": [vpy(2), vpy(2)]}, vpy(1)]), self.fref(f2)]}

    def rfmt_near(self, f):
        """Result format close to f, so that rounding and saturation really happen."""
        r = self.rng
        if r.random() < 0.3:
            return self.fmt()
        S = r.choice([f[0], f[0], 0, 1])
        I = f[1] + r.choice([-2, -1, -1, 0, 0, 1])
        F = f[2] + r.choice([-3, -2, -1, 0, 0, 1])
        g = (S, I, F)
        if I + F < 0 or sum(g) < 1:
            return self.fmt()
        return g

    def c_unary(self):
        r = self.rng
        f, sh = self.fmt(), self.shape()
        n = r.choice(["abs", "neg", "resize", "round", "saturate", "in_range"])
        A, F = self.raw(f, sh), self.fref(f)
        kw = {}
        if n == "resize":
            g = self.rfmt_near(f)
            args = [A, F]
            if self.tail(self.fref(g), args, kw) is None:
                args.append(self.fref(g))
            return {"fn": "cl_fix_resize", "a": args, "kw": kw, "rf": g}
        if n == "round":
            rnd = self.rnd()
            g = f_round(f, f[2] + r.choice([-4, -3, -2, -1, -1, 0, 1]), rnd)
            return {"fn": "cl_fix_round", "a": [A, F, self.fref(g), vrnd(rnd)], "rf": g}
        if n == "saturate":
            g = self.rfmt_near(f)
            g = (g[0], g[1], f[2])
            if g[1] + g[2] < 0 or sum(g) < 1:
                return None
            return {"fn": "cl_fix_saturate", "a": [A, F, self.fref(g), vsat(self.sat())], "rf": g}
        if n == "in_range":
            g = self.rfmt_near(f)
            return {"fn": "cl_fix_in_range", "a": [A, F, self.fref(g)] + ([vrnd(self.rnd())] if r.random() < 0.6 else [])}
        mid = f_neg(f) if n == "neg" else f_union(f, f_neg(f))
        g = self.rfmt_near(mid)
        args = [A, F]
        if self.tail(self.fref(g), args, kw) is None:
            g = mid
        return {"fn": "cl_fix_" + n, "a": args, "kw": kw, "rf": g}

    def c_binary(self):
        r = self.rng
        fa, fb, sh = self.fmt(), self.fmt(), self.shape()
        n = r.choice(["add", "sub", "mult", "addsub"])
        sb = sh if r.random() < 0.85 or () not in self.shapes else ()
        kw = {}
        args = [self.raw(fa, sh), self.fref(fa), self.raw(fb, sb), self.fref(fb)]
        if n == "addsub":
            k = r.random()
            if k < 0.5 or not sh or int(np.prod(sh)) > 64:
                args.append(vpy(r.random() < 0.5))
            else:
                args.append({"t": "arr", "dt": "?", "sh": list(sh), "v": [r.random() < 0.5 for _ in range(int(np.prod(sh)))]})
        mid = (max(fa[0], fb[0]), max(fa[1], fb[1]) + 1, max(fa[2], fb[2])) if n != "mult" else (max(fa[0], fb[0]), fa[1] + fb[1], fa[2] + fb[2])
        g = self.rfmt_near(mid)
        if self.tail(self.fref(g), args, kw) is None:
            g = None
        return {"fn": "cl_fix_" + n, "a": args, "kw": kw, "rf": g}

    def c_shift(self):
        r = self.rng
        f, sh = self.fmt(), self.shape()
        s = r.randint(-4, 4)
        g = self.rfmt_near((f[0], f[1] + s, f[2] - s))
        S = vpy(s)
        if sh and len(sh) == 1 and not is_wide(f) and r.random() < 0.3 and sh[0] <= 64:
            S = {"t": "arr", "dt": "i8", "sh": list(sh), "v": [r.randint(-3, 3) for _ in range(sh[0])]}
        args, kw = [self.raw(f, sh), self.fref(f), S], {}
        if self.tail(self.fref(g), args, kw) is None:
            args.append(self.fref(g))
        return {"fn": "cl_fix_shift", "a": args, "kw": kw, "rf": g}

    def c_convert(self):
        r = self.rng
        f, sh = self.fmt(), self.shape()
        k = r.choice(["from_real", "from_real", "from_integer", "to_integer", "to_real"])
        if k == "from_real":
            n = min(int(np.prod(sh)) if sh else 1, 24)
            v = self.real_vals(f, n)

            def make():
                if not sh and r.random() < 0.5:
                    return vpy(v[0])
                if sh and r.random() < 0.15 and int(np.prod(sh)) < 25:
                    return {"t": "list", "v": _np_from("f8", sh, v).tolist()}
                return {"t": "arr", "dt": "f8", "sh": list(sh), "lay": self.layout(sh), "v": v}
            fn = r.choice(["cl_fix_from_real", "cl_fix_from_real", "W.from_real" if is_wide(f) or r.random() < 0.4 else "N.from_real"])
            a = self.obj(("real", f, sh), make, 0.5)
            if fn[1] == "." and not fn.startswith("cl"):
                a = {"t": "arr", "dt": "f8", "sh": list(sh), "v": v}
            args = [a, self.fref(f)]
            kw = {}
            if r.random() < 0.75:
                s = vsat(r.choice([2, 3, 3, 3, 0]) if r.random() < 0.9 else 1)
                if r.random() < 0.3:
                    kw["saturate"] = s
                else:
                    args.append(s)
            return {"fn": fn, "a": args, "kw": kw, "rf": f if fn.startswith("cl") else None}
        if k == "from_integer":
            n = min(int(np.prod(sh)) if sh else 1, 24)
            v = self.ints(f, n)
            if r.random() < 0.1:
                v[0] = lim(f)[1] + 1
            wide = is_wide(f)
            if not sh and r.random() < 0.6:
                a = vpy(v[0])
            elif sh and r.random() < 0.15 and int(np.prod(sh)) < 25:
                a = {"t": "list", "v": _np_from("O", sh, v).tolist()}
            else:
                a = {"t": "arr", "dt": "O" if wide or r.random() < 0.1 else "i8", "sh": list(sh), "lay": self.layout(sh), "v": v}
            if r.random() < 0.5 and a["t"] == "arr":
                spec = a
                a = self.obj(("int", f, sh), lambda: spec, 0.5)
            return {"fn": "cl_fix_from_integer" if wide or r.random() < 0.6 else "N.from_integer", "a": [a, self.fref(f)], "rf": None}
        return {"fn": "cl_fix_" + k, "a": [self.raw(f, sh), self.fref(f)]}

    def c_number(self):
        """Methods, operators and accessors of the two number classes."""
        r = self.rng
        f, sh = self.fmt(), self.shape()
        x, c = self.num(f, sh)
        k = r.choice(["round", "saturate", "resize", "abs", "neg", "add", "sub", "addsub", "mult", "shift", "op", "cmp", "acc", "static", "text",
                      "in_range", "new", "align", "pack"])
        kw = {}
        small = int(np.prod(sh)) <= 64
        if k in ("abs", "neg", "resize"):
            g = self.rfmt_near(f)
            if c == "N" and is_wide(g) and r.random() < 0.9:
                return None
            args = [x]
            if self.tail(self.fref(g), args, kw) is None and k == "resize":
                args.append(self.fref(g))
            return {"fn": f"{c}.{k}", "a": args, "kw": kw}
        if k == "round":
            rnd = self.rnd()
            g = f_round(f, f[2] + r.choice([-4, -2, -1, -1, 0, 1]), rnd)
            return {"fn": f"{c}.round", "a": [x, self.fref(g), vrnd(rnd)]}
        if k == "saturate":
            g = self.rfmt_near(f)
            g = (g[0], g[1], f[2])
            if g[1] + g[2] < 0 or sum(g) < 1 or (c == "N" and is_wide(g)):
                return None
            return {"fn": f"{c}.saturate", "a": [x, self.fref(g), vsat(self.sat())]}
        if k == "in_range":
            return {"fn": "N.in_range", "a": [x, self.fref(self.rfmt_near(f)), vrnd(self.rnd())]} if c == "N" else None
        if k in ("add", "sub", "mult", "addsub", "op", "cmp"):
            f2 = self.fmt()
            y = self.num_of(c, f2, sh)
            if y is None:
                return None
            if k == "op":
                return {"fn": f"{c}.{r.choice(['op+', 'op-', 'op*'])}", "a": [x, y]} if r.random() < 0.7 else \
                    {"fn": f"{c}.{r.choice(['opneg'])}", "a": [x]}
            if k == "cmp":
                return {"fn": f"{c}.{r.choice(['op==', 'op!=', 'op<', 'op<=', 'op>', 'op>='])}", "a": [x, y]}
            args = [x, y]
            if k == "addsub":
                if r.random() < 0.5 or not sh or not small:
                    args.append(vpy(r.random() < 0.5))
                else:
                    args.append({"t": "arr", "dt": "?", "sh": list(sh), "v": [r.random() < 0.5 for _ in range(int(np.prod(sh)))]})
            mid = (max(f[0], f2[0]), max(f[1], f2[1]) + 1, max(f[2], f2[2])) if k != "mult" else (max(f[0], f2[0]), f[1] + f2[1], f[2] + f2[2])
            g = self.rfmt_near(mid)
            if c == "N" and is_wide(g) and r.random() < 0.9:
                return None
            self.tail(self.fref(g), args, kw)
            return {"fn": f"{c}.{k}", "a": args, "kw": kw}
        if k == "shift":
            s = r.randint(-4, 4)
            if r.random() < 0.3:
                return {"fn": f"{c}.op<<", "a": [x, vpy(s)]}
            g = self.rfmt_near((f[0], f[1] + s, f[2] - s))
            if c == "N" and is_wide(g):
                return None
            S = vpy(s)
            if c == "N" and len(sh) == 1 and small and r.random() < 0.3:
                S = {"t": "arr", "dt": "i8", "sh": list(sh), "v": [r.randint(-3, 3) for _ in range(sh[0])]}
            args = [x, S]
            self.tail(self.fref(g), args, kw)
            return {"fn": f"{c}.shift", "a": args, "kw": kw}
        if k == "acc":
            return {"fn": f"{c}.{r.choice(['data', 'fmt', 'data', 'fmt', 'to_integer' if c == 'N' else 'to_real', 'len' if c == 'W' else 'data'])}", "a": [x]}
        if k == "static":
            if c == "N":
                return {"fn": "W.from_narrowfix", "a": [x]}
            return {"fn": f"{c}.{r.choice(['max_value', 'min_value'])}", "a": [self.fref(f)]}
        if k == "text":
            return {"fn": f"W.{r.choice(['str', 'repr'])}", "a": [x]} if c == "W" else None
        if k == "new":
            d = self.raw(f, sh, allow_list=False)
            if c == "W" and not is_wide(f):
                return None
            return {"fn": ("W" if is_wide(f) else "N") + ".new", "a": [d, self.fref(f)]}
        if k == "align" and c == "W":
            y = self.num_of("W", self.fmt(), sh)
            return {"fn": "W.align_binary_points", "a": [{"t": "refs", "v": [x, y]}]} if y else None
        if k == "pack" and c == "W":
            return {"fn": "W.to_uint64_array", "a": [x]}
        return None

    def c_matlab(self):
        r = self.rng
        f = self.fmt()
        if not is_wide(f):
            f = gen_fmt(r, r.choice(["wide", "huge"]))
        sh = self.shape()
        if r.random() < 0.5:
            return {"fn": "to_uint64_array", "a": [self.raw(f, sh, allow_list=False), self.fref(f)]}
        n = (width(f) + 63) // 64
        sh2 = [s for s in sh if s <= 8] + [n]
        m = int(np.prod(sh2))
        mask = (1 << (width(f) - 64 * (n - 1))) - 1
        v = []
        for i in range(m):
            x = r.choice([0, r.getrandbits(64), 2 ** 64 - 1])
            v.append(x & mask if i % n == n - 1 else x)
        a = {"t": "arr", "dt": "u8", "sh": sh2, "v": v, "lay": self.layout(sh2)}
        return {"fn": "from_uint64_array", "a": [self.obj(("u64", f, tuple(sh2)), lambda: a), self.fref(f)]}

    def c_random(self):
        r = self.rng
        return {"fn": "cl_fix_random", "a": [vpy(r.randint(1, 4)), self.fref(self.fmt())]}


CALLS = [("fmt2", 4), ("fmt1", 4), ("unary", 8), ("binary", 8), ("shift", 2), ("convert", 5), ("number", 10), ("matlab", 2)]
WARN_CALLS = [("unary", 8), ("binary", 6), ("shift", 2), ("convert", 6), ("number", 8), ("fmt1", 1)]
