"""Simulated machine for the VHDL file I/O packages: seeded histories of several clients, reference model, verdicts."""
import os
import shutil
import subprocess

from simlib import core
from simlib.core import HarnessError, ddmin, rng_for
from . import build, gen_fileio_tb

BIN, DEC, HEX = 0, 1, 2
STYPES, UTYPES = ["nbs", "nss", "slvs", "bvs"], ["nbu", "nsu", "slvu", "bvu"]
CRASH = 77
N_CLIENTS = 3


class Illegal(Exception):
    pass


def bits(v, n):
    return format(v & ((1 << n) - 1), f"0{n}b")


def fits(v, n, signed):
    return -(1 << (n - 1)) <= v < (1 << (n - 1)) if signed else 0 <= v < (1 << n)


def signed_type(ty):
    return ty in STYPES or ty in ("suls", "int")


def cell(v, w, signed, mode):
    return ["cell", v, w, int(signed), mode]


def fmtcell(f):
    return ["fmt", list(f)]


def fmt_width(f):
    return f[0] + f[1] + f[2]


def compatible(c, ty_signed, n, mode):
    if c[0] != "cell" or c[4] != mode:
        return False
    if mode == DEC:
        return fits(c[1], n, ty_signed)
    if c[2] != n:
        return False
    return mode == BIN or n % 4 == 0 or bool(c[3]) == ty_signed


def text_of(c, style=0):
    """A foreign program's way to write a cell."""
    if c[0] == "fmt":
        return ["({}, {}, {})", "({},{},{})"][style % 2].format(*c[1])
    _, v, w, s, mode = c
    if mode == DEC:
        if style == 1 and v >= 0:
            return "0" * (style + 2) + str(v)
        return str(v)
    if mode == BIN:
        return bits(v, w)
    n = (w + 3) // 4
    t = format((v if s else v & ((1 << w) - 1)) & ((1 << (4 * n)) - 1), f"0{n}x")
    return t.upper() if style == 0 else t


def parse_cell(tok, c):
    """Does the text hold the value of the cell? (as any reader of the file would understand it)"""
    try:
        if c[0] == "fmt":
            t = tok.strip()
            return t[0] == "(" and t[-1] == ")" and [int(x) for x in t[1:-1].split(",")] == c[1]
        _, v, w, s, mode = c
        if mode == DEC:
            return int(tok) == v
        if mode == BIN:
            return len(tok) == w and int(tok, 2) == v & ((1 << w) - 1)
        n = (w + 3) // 4
        want = (v if s else v & ((1 << w) - 1)) & ((1 << (4 * n)) - 1)
        return len(tok) == n and int(tok, 16) == want
    except (ValueError, IndexError):
        return False


# Rows: lists of items: cells, ["fmt", ...], ["sep", text]; a header row is [["text", string]]


def row_text_ok(line, row):
    """Does the line of a file hold this row?"""
    if len(row[0]) == 3 and row[0][2] == "any":
        return True
    pos = 0
    k = 0
    while k < len(row):
        it = row[k]
        if it[0] in ("text", "sep"):
            if not line.startswith(it[1], pos):
                return False
            pos += len(it[1])
        else:
            end = len(line)
            if k + 1 < len(row):
                if row[k + 1][0] != "sep":
                    return False
                end = line.find(row[k + 1][1], pos)
                if end < 0:
                    return False
            if not parse_cell(line[pos:end], it):
                return False
            pos = end
        k += 1
    return pos == len(line)


def row_cells(row):
    return [i for i in row if i[0] in ("cell", "fmt")]


class Model:
    """Interprets a history; tells what every operation must return and what every file must hold."""

    def __init__(self, foreign):
        self.files = {n: {"rows": [list(map(list, r)) for r in d["rows"]], "whole": False} for n, d in foreign.items()}
        self.h = {}         # (client, slot) -> ["r", name, pos] or ["w", name]
        self.lines = {}     # (client, slot) -> {"items": [...], "read": bool}

    def readers(self, name):
        return sum(1 for s in self.h.values() if s[0] == "r" and s[1] == name)

    def writers(self, name):
        return sum(1 for s in self.h.values() if s[0] == "w" and s[1] == name)

    def need(self, cond):
        if not cond:
            raise Illegal()

    def complete(self, name):
        self.need(name in self.files and not self.writers(name))
        return self.files[name]["rows"]

    def line(self, o):
        return self.lines.setdefault((o["c"], o["l"]), {"items": [], "read": False})

    def take_row(self, o, skip):
        s = self.h.get((o["c"], o["f"]))
        self.need(s is not None and s[0] == "r")
        rows = self.files[s[1]]["rows"]
        self.need(s[2] + skip < len(rows))
        s[2] += skip + 1
        return rows[s[2] - 1]

    def matrix(self, name, skip):
        rows = self.complete(name)
        self.need(skip <= len(rows))
        data = rows[skip:]
        cells = [row_cells(r) for r in data]
        for r, c in zip(data, cells):
            self.need(len(c) == len(cells[0]) and len(c) > 0 and r[0][0] != "sep")
        return [x for r in cells for x in r]

    def step(self, o):
        """Expected result text of the operation (None: no result line)."""
        op = o["op"]
        slot = (o["c"], o["f"])
        if op in ("OR", "OW", "OA"):
            self.need(slot not in self.h)
            if op == "OR":
                self.complete(o["name"])
                self.h[slot] = ["r", o["name"], 0]
            else:
                self.need(not self.readers(o["name"]) and not self.writers(o["name"]))
                if op == "OA":
                    self.need(o["name"] in self.files and self.files[o["name"]].get("nl", True))
                    self.files[o["name"]]["whole"] = False
                else:
                    self.files[o["name"]] = {"rows": [], "whole": False}
                self.h[slot] = ["w", o["name"]]
            return None
        if op == "CL":
            self.need(slot in self.h)
            del self.h[slot]
            return None
        if op == "SK":
            s = self.h.get(slot)
            self.need(s is not None and s[0] == "r" and s[2] + o["n"] <= len(self.files[s[1]]["rows"]))
            s[2] += o["n"]
            return None
        if op == "NL":
            L = self.line(o)
            row = self.take_row(o, 0)
            L["items"], L["read"], L["file"] = [list(i) for i in row], True, True
            return None
        if op == "WL":
            L = self.line(o)
            s = self.h.get(slot)
            self.need(s is not None and s[0] == "w" and L["items"] and not L["read"])
            self.files[s[1]]["rows"].append(L["items"])
            self.lines[(o["c"], o["l"])] = {"items": [], "read": False}
            return None
        if op == "DL":
            self.lines[(o["c"], o["l"])] = {"items": [], "read": False}
            return None
        if op == "LS":
            L = self.line(o)
            self.need(not L["read"])
            if not L["items"]:
                L["items"].append(["text", o["text"]])
            else:
                self.need(L["items"][-1][0] in ("cell", "fmt"))
                L["items"].append(["sep", o["text"]])
            return None
        if op in ("LW", "XLW", "MLW"):
            L = self.line(o)
            self.need(not L["read"] and (not L["items"] or L["items"][-1][0] == "sep"))
            L["items"].append(list(o["cell"]))
            return None
        if op in ("LR", "XLR", "MLR"):
            L = self.line(o)
            self.need(L["items"] and L["items"][0][0] in ("cell", "fmt"))
            c = L["items"][0]
            L["read"] = True
            if op == "MLR":
                self.need(c[0] == "fmt" and len(L["items"]) == 1)
                L["items"] = []
                return "{} {} {}".format(*c[1])
            self.need(compatible(c, o["signed"], o["n"], o["mode"]))
            L["items"] = L["items"][1:]
            if L["items"] and L["items"][0][0] == "sep":
                if o["mode"] == DEC or len(L["items"]) > 1:
                    L["items"] = L["items"][1:]
            return bits(c[1], o["n"])
        if op in ("FW", "XFW", "MFW"):
            s = self.h.get(slot)
            self.need(s is not None and s[0] == "w")
            self.files[s[1]]["rows"].append([list(o["cell"])])
            return None
        if op in ("FR", "XFR", "MFR"):
            row = self.take_row(o, o["skip"])
            self.need(row[0][0] in ("cell", "fmt"))
            if op == "MFR":
                self.need(row[0][0] == "fmt" and len(row) == 1)
                r = "{} {} {}".format(*row[0][1])
            else:
                self.need(compatible(row[0], o["signed"], o["n"], o["mode"]))
                r = bits(row[0][1], o["n"])
            if o["close"]:
                del self.h[slot]
            return r
        if op in ("WF", "XWF", "MWF"):
            self.need(not self.readers(o["name"]) and not self.writers(o["name"]))
            rows = [[["text", o["header"]]]] if o.get("header") else []
            self.files[o["name"]] = {"rows": rows + [[list(c)] for c in o["cells"]], "whole": True}
            return None
        if op in ("RF", "XRF"):
            cells = self.matrix(o["name"], o["skip"])
            for c in cells:
                self.need(compatible(c, o["signed"], o["n"], o["mode"]))
            return " ".join([str(len(cells))] + [bits(c[1], o["n"]) for c in cells])
        if op == "MRF":
            cells = self.matrix(o["name"], o["skip"])
            for c in cells:
                self.need(c[0] == "fmt")
            return " ".join([str(len(cells))] + ["{} {} {}".format(*c[1]) for c in cells])
        if op == "SZ":
            return str(len(self.complete(o["name"])))
        if op == "CO":
            rows = self.complete(o["name"])
            self.need(o["skip"] <= len(rows))
            if o["skip"] == len(rows):
                return "0"
            c = row_cells(rows[o["skip"]])
            self.need(c and all(x[0] == "cell" and x[4] == o["mode"] for x in c))
            return str(len(c))
        if op == "EX":
            return None
        raise Illegal()


def quote(s):
    return "".join(f"{ord(c):02x}" for c in s) or "-"


def cmd(o, t, k):
    """Command line of an operation."""
    op = o["op"]
    a = []
    F = lambda f: f"{f[0]} {f[1]} {f[2]}"  # noqa: E731
    if op in ("OR", "OW", "OA", "SZ"):
        a = [o["name"]]
    elif op == "SK":
        a = [o["n"]]
    elif op == "LS":
        a = [quote(o["text"])]
    elif op == "LW":
        a = [o["ty"], o["mode"], o["form"], o["d"], bits(o["cell"][1], o["cell"][2])]
    elif op == "LR":
        a = [o["ty"], o["mode"], o["form"], o["d"], o["n"]]
    elif op == "FW":
        a = [o["ty"], o["mode"], o["d"], bits(o["cell"][1], o["cell"][2])]
    elif op == "FR":
        a = [o["ty"], o["mode"], o["form"], o["d"], o["n"], o["skip"], o["close"]]
    elif op == "RF":
        a = [o["name"], o["ty"], o["mode"], o["d"], o["n"], o["skip"]]
    elif op == "WF":
        a = [o["name"], o["ty"], o["mode"], o["d"], o["n"], quote(o["header"]), o["base"], len(o["cells"])] + [bits(c[1], c[2]) for c in o["cells"]]
    elif op == "XLW":
        a = [F(o["fmt"]), o["mode"], o["d"], bits(o["cell"][1], o["cell"][2])]
    elif op == "XLR":
        a = [F(o["fmt"]), o["mode"], o["d"]]
    elif op == "XFW":
        a = [F(o["fmt"]), o["mode"], o["d"], bits(o["cell"][1], o["cell"][2])]
    elif op == "XFR":
        a = [F(o["fmt"]), o["mode"], o["d"], o["skip"], o["close"]]
    elif op == "XRF":
        a = [o["name"], F(o["fmt"]), o["mode"], o["d"], o["skip"]]
    elif op == "XWF":
        a = [o["name"], F(o["fmt"]), o["mode"], o["d"], quote(o["header"]), o["base"], len(o["cells"])] + [bits(c[1], c[2]) for c in o["cells"]]
    elif op in ("MLW", "MFW"):
        a = [F(o["cell"][1])]
    elif op == "MFR":
        a = [o["d"], o["skip"], o["close"]]
    elif op == "MWF":
        a = [o["name"], o["base"], len(o["cells"])] + [F(c[1]) for c in o["cells"]]
    elif op == "MRF":
        a = [o["name"], o["d"], o["skip"]]
    elif op == "CO":
        a = [o["name"], o["skip"], o["mode"], o["d"]]
    elif op == "EX":
        a = [CRASH]
    return " ".join(str(x) for x in [t, k, o["f"], o["l"], op] + a)


# ---------------------------------------------------------------------------------------------------
# Generation
# ---------------------------------------------------------------------------------------------------


def gen_width(r):
    return r.choice([r.randint(1, 9), r.randint(1, 9), r.randint(8, 36), r.choice([31, 32, 33]), r.choice([1, 4, 8, 53, 63, 64, 65]), r.randint(30, 140)])


def gen_value(r, w, signed):
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    k = r.random()
    if k < 0.3:
        return r.choice([lo, hi, 0, min(1, hi), max(-1, lo)])
    if k < 0.5:
        return max(lo, min(hi, r.choice([10 ** r.randint(0, 30), -10 ** r.randint(0, 30), 10 ** r.randint(0, 30) - 1])))
    if k < 0.7:
        return r.randint(lo, hi) >> r.randint(0, w)
    return r.randint(lo, hi)


def gen_format(r):
    """Fields over the range every VHDL implementation has (-(2**31-1) .. 2**31-1), mostly formats the Python model accepts."""
    big = [2 ** 31 - 1, -(2 ** 31 - 1), 10 ** 9, -10 ** 9, 999, -999]
    k = r.random()

    def one():
        return r.choice(big) if k < 0.25 else r.randint(-150, 150) if k < 0.6 else r.randint(-9, 40)
    f = [r.randint(0, 1), one(), one()]
    return f if r.random() < 0.2 else model_ok(f)


def model_ok(f):
    """The nearest format with a width the Python model allows."""
    return f if f[1] + f[2] >= 0 else [f[0], -f[2], f[2]] if f[1] < 0 else [f[0], f[1], -f[1]]


def gen_spec(r):
    return {"mode": r.choice([BIN, DEC, DEC, DEC, HEX]), "w": gen_width(r), "signed": r.random() < 0.5, "cols": r.choice([1, 1, 1, 2, 3, 5])}


SEPS = {DEC: [" ", ", ", ",", ";", "\t", " | ", ": "], BIN: [" ", "  ", "\t"], HEX: [" ", "\t", "   "]}
HEADERS = ["# a", "values 1 2 3", "-5", "x", "0101 ff", "# AFmt (1,2,3)", "  indented"]


def gen_row(r, spec):
    if spec.get("fmt"):
        return [fmtcell(gen_format(r))]
    row = []
    for k in range(spec["cols"]):
        if k:
            row.append(["sep", r.choice(SEPS[spec["mode"]])])
        row.append(cell(gen_value(r, spec["w"], spec["signed"]), spec["w"], spec["signed"], spec["mode"]))
    return row


def pick_read(r, c_mode, w, signed):
    """A way to read a value back: (family, type, n)."""
    n, was = w, signed
    if c_mode == DEC and r.random() < 0.25:
        n = w + r.choice([1, 1, 2, 7, 40])
        if not signed and r.random() < 0.3:
            signed = True
            n = max(n, w + 1)
    opts = list(STYPES if signed else UTYPES) + ["fix"]
    if (c_mode == DEC and w <= 31) or (w == 32 and was):
        opts.append("int")
    if n == 1 and not signed:
        opts += ["sl", "bit"]
    ty = r.choice(opts)
    if ty == "int":
        signed, n = True, 32
        if w == 32 and c_mode != DEC:
            pass
        elif c_mode != DEC:
            ty = r.choice(STYPES if signed else UTYPES)
    return ty, n, signed


def gen_history(seed, i, profile):
    """One history: foreign files, operations (with times) of all clients, and the fault it ends with."""
    r = rng_for(seed, "fileio", profile, i)
    foreign = {}
    specs = {}
    n_files = r.randint(1, 5)
    p_fmt = {"data": 0.05, "fmt": 0.8}[profile]

    def new_spec():
        s = gen_spec(r)
        if r.random() < p_fmt:
            s["fmt"], s["cols"] = True, 1
        return s
    for k in range(r.randint(0, 3)):
        name = f"in{k}.txt"
        s = new_spec()
        h = r.choice([0, 1, 1, 1, 2, 3])
        rows = [[["text", r.choice(HEADERS)]] for _ in range(h)]
        rows += [gen_row(r, s) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 30]))]
        foreign[name] = {"rows": rows, "style": r.randint(0, 1), "eol": "\r\n" if r.random() < 0.25 and not s.get("fmt") else "\n",
                         "final": bool(r.random() < 0.7), "python": bool(s.get("fmt")) and h == 1}
        if foreign[name]["python"]:
            foreign[name]["eol"] = "\n"
            rows[0][0].append("any")       # the model writes its own header
            for row in rows[1:]:
                row[0][1] = model_ok(row[0][1])
        specs[name] = (s, h)
    m = Model(foreign)
    for name, d in foreign.items():
        if (not d["final"] or d.get("python")) and d["rows"]:
            m.files[name]["nl"] = False
    ops = []
    plans = {}           # (client, slot) -> what the open file is used for
    length = r.choice([4, 10, 20, 40])
    p_other = r.random() * 0.4
    n_cl = r.randint(1, N_CLIENTS)

    def emit(o, **kw):
        o = dict(o, **kw)
        o.setdefault("l", 0)
        o.setdefault("f", 0)
        m.step(o)
        o["dt"] = r.choice([1, 1, 2, 5, 100])
        ops.append(o)

    def readable():
        return [n for n in m.files if not m.writers(n) and n in specs]

    def writable():
        names = [f"f{k}.txt" for k in range(n_files)] + list(foreign)
        return [n for n in names if not m.readers(n) and not m.writers(n)]

    def dflt(cond):
        return int(bool(cond) and r.random() < 0.6)

    def fix_fmt(w, signed):
        I = r.randint(-3, w + 3)
        return [int(signed), I, w - int(signed) - I]

    def lw(c, l, cl):
        if cl[0] == "fmt":
            return emit({"op": "MLW", "c": c, "l": l, "cell": cl})
        _, v, w, s, mode = cl
        if r.random() < 0.15:
            return emit({"op": "XLW", "c": c, "l": l, "cell": cl, "fmt": fix_fmt(w, s), "mode": mode, "d": dflt(mode == DEC)})
        tys = STYPES if s else UTYPES
        ty = r.choice(tys + (["int"] if w == 32 and s else []))
        emit({"op": "LW", "c": c, "l": l, "ty": ty, "mode": mode, "form": r.randint(0, 2), "d": dflt(mode == DEC), "cell": cl})

    def write_row(c, f, name):
        s, h = specs[name]
        row = gen_row(r, s)
        cl = row[0]
        if len(row) == 1 and r.random() < 0.6:
            if cl[0] == "fmt":
                return emit({"op": "MFW", "c": c, "f": f, "cell": cl})
            _, v, w, sg, mode = cl
            if r.random() < 0.2:
                return emit({"op": "XFW", "c": c, "f": f, "cell": cl, "fmt": fix_fmt(w, sg), "mode": mode, "d": dflt(mode == DEC)})
            return emit({"op": "FW", "c": c, "f": f, "ty": r.choice(STYPES if sg else UTYPES), "mode": mode, "d": dflt(mode == DEC), "cell": cl})
        l = f
        for it in row:
            if it[0] == "sep":
                emit({"op": "LS", "c": c, "l": l, "text": it[1]})
            else:
                lw(c, l, it)
            if r.random() < p_other:
                other(c)
        if r.random() < 0.05 and len(row) == 1 and cl[0] == "cell":
            # Read it straight back from the line instead of writing it to the file.
            ty, n, sg = pick_read(r, cl[4], cl[2], bool(cl[3]))
            line_read(c, l, cl, ty, n, sg)
            emit({"op": "DL", "c": c, "l": l})
            return None
        return emit({"op": "WL", "c": c, "f": f, "l": l})

    def line_read(c, l, cl, ty, n, sg):
        if ty == "fix":
            emit({"op": "XLR", "c": c, "l": l, "fmt": fix_fmt(n, sg), "mode": cl[4], "d": dflt(cl[4] == DEC), "n": n, "signed": sg})
        else:
            emit({"op": "LR", "c": c, "l": l, "ty": ty, "mode": cl[4], "form": r.randint(0, 2), "d": dflt(cl[4] == DEC), "n": n, "signed": sg})

    def read_row(c, f, name):
        s, h = specs[name]
        st = m.h[(c, f)]
        rows = m.files[name]["rows"]
        pos = st[2]
        if pos >= len(rows):
            plans.pop((c, f))
            return emit({"op": "CL", "c": c, "f": f})
        skip = 0
        while pos + skip < len(rows) and rows[pos + skip][0][0] == "text":
            skip += 1
        if r.random() < 0.1:
            skip += r.randint(0, 2)
        if pos + skip >= len(rows):
            plans.pop((c, f))
            return emit({"op": "CL", "c": c, "f": f})
        if skip and r.random() < 0.4:
            emit({"op": "SK", "c": c, "f": f, "n": skip})
            skip = 0
        row = rows[m.h[(c, f)][2] + skip]
        cl = row[0]
        if r.random() < 0.5 or len(row) == 1 and r.random() < 0.7:
            close = int(r.random() < 0.08)
            if close:
                plans.pop((c, f))
            if cl[0] == "fmt":
                return emit({"op": "MFR", "c": c, "f": f, "skip": skip, "close": close, "d": dflt(not skip and not close)})
            ty, n, sg = pick_read(r, cl[4], cl[2], bool(cl[3]))
            d = dflt(cl[4] == DEC and not skip and not close)
            if ty == "fix":
                return emit({"op": "XFR", "c": c, "f": f, "fmt": fix_fmt(n, sg), "mode": cl[4], "d": d, "skip": skip, "close": close, "n": n, "signed": sg})
            return emit({"op": "FR", "c": c, "f": f, "ty": ty, "mode": cl[4], "form": r.randint(0, 2), "d": d, "n": n, "signed": sg, "skip": skip, "close": close})
        if skip:
            emit({"op": "SK", "c": c, "f": f, "n": skip})
        l = f
        emit({"op": "NL", "c": c, "f": f, "l": l})
        for it in row_cells(row):
            if it[0] == "fmt":
                emit({"op": "MLR", "c": c, "l": l})
            else:
                ty, n, sg = pick_read(r, it[4], it[2], bool(it[3]))
                line_read(c, l, it, ty, n, sg)
            if r.random() < p_other:
                other(c)
            elif r.random() < 0.05:
                break
        return emit({"op": "DL", "c": c, "l": l})

    def whole_write(c):
        names = writable()
        if not names:
            return
        name = r.choice(names)
        s = new_spec()
        s["cols"] = 1
        cells = [gen_row(r, s)[0] for _ in range(r.choice([0, 1, 2, 3, 6, 20]))]
        base = r.choice([0, 0, 1, -3, 100])
        foreign_nl = m.files.get(name)
        if foreign_nl:
            foreign_nl.pop("nl", None)
        if s.get("fmt"):
            emit({"op": "MWF", "c": c, "name": name, "cells": cells, "base": base})
            specs[name] = (s, 0)
            return
        header = r.choice(["", "", *HEADERS])
        specs[name] = (s, int(bool(header)))
        d = dflt(s["mode"] == DEC and not header)
        if r.random() < 0.2:
            emit({"op": "XWF", "c": c, "name": name, "cells": cells, "base": base, "header": header, "fmt": fix_fmt(s["w"], s["signed"]), "mode": s["mode"], "d": d})
            return
        ty = r.choice((STYPES + ["suls"] if s["signed"] else UTYPES + ["sulu"]) + (["int", "int"] if s["signed"] and s["w"] == 32 else []))
        emit({"op": "WF", "c": c, "name": name, "ty": ty, "mode": s["mode"], "d": d, "n": s["w"], "header": header, "base": base, "cells": cells})

    def whole_read(c, name=None):
        names = [name] if name else readable()
        if not names:
            return
        name = r.choice(names)
        s, h = specs[name]
        if r.random() < 0.12:
            return emit({"op": "SZ", "c": c, "name": name})
        if s.get("fmt"):
            return emit({"op": "MRF", "c": c, "name": name, "skip": h, "d": dflt(h == 1)})
        if r.random() < 0.12:
            return emit({"op": "CO", "c": c, "name": name, "skip": h, "mode": s["mode"], "d": dflt(h == 1 and s["mode"] == DEC)})
        ty, n, sg = pick_read(r, s["mode"], s["w"], s["signed"])
        d = dflt(h == 1 and s["mode"] == DEC)
        if ty == "fix" or ty in ("sl", "bit"):
            return emit({"op": "XRF", "c": c, "name": name, "fmt": fix_fmt(n, sg), "mode": s["mode"], "d": d, "skip": h, "n": n, "signed": sg})
        if ty != "int" and r.random() < 0.15:
            ty = "suls" if sg else "sulu"
        return emit({"op": "RF", "c": c, "name": name, "ty": ty, "mode": s["mode"], "d": d, "n": n, "skip": h, "signed": sg})

    def other(c):
        """Something else, by this or another client, while a row is half done."""
        k = r.random()
        (whole_write if k < 0.5 else whole_read)(r.randrange(n_cl))

    def attempt(fn, *a):
        try:
            fn(*a)
        except Illegal:
            pass        # the choice is not allowed in this state; nothing was recorded
    while len(ops) < length:
        c = r.randrange(n_cl)
        k = r.random()
        if k < 0.15:
            attempt(whole_write, c)
            continue
        if k < 0.3:
            attempt(whole_read, c)
            continue
        f = r.randrange(3)
        plan = plans.get((c, f))
        if plan is None:
            if r.random() < 0.5 and readable():
                name = r.choice(readable())
                emit({"op": "OR", "c": c, "f": f, "name": name})
                plans[(c, f)] = ("r", name)
            elif writable():
                name = r.choice(writable())
                if name in m.files and name in specs and m.files[name].get("nl", True) and r.random() < 0.4:
                    emit({"op": "OA", "c": c, "f": f, "name": name})
                    plans[(c, f)] = ("w", name)
                else:
                    if name in m.files:
                        m.files[name].pop("nl", None)
                    emit({"op": "OW", "c": c, "f": f, "name": name})
                    plans[(c, f)] = ("w", name)
                    s = new_spec()
                    h = r.choice([0, 0, 1, 2])
                    specs[name] = (s, h)
                    for _ in range(h):
                        emit({"op": "LS", "c": c, "l": f, "text": r.choice(HEADERS)})
                        emit({"op": "WL", "c": c, "f": f, "l": f})
            continue
        if r.random() < 0.12:
            plans.pop((c, f))
            emit({"op": "CL", "c": c, "f": f})
            continue
        for _ in range(r.choice([1, 1, 2, 4])):
            if (c, f) in plans:
                (read_row if plan[0] == "r" else write_row)(c, f, plan[1])
    if r.random() < 0.8:
        # Close what is open, then read the files back.
        for c, f in sorted(plans):
            emit({"op": "CL", "c": c, "f": f})
        plans.clear()
        names = sorted(n for n in m.files if n in specs)
        r.shuffle(names)
        for name in names:
            if r.random() < 0.2:
                continue
            c, f = r.randrange(n_cl), r.randrange(3)
            if specs[name][0]["cols"] == 1 and r.random() < 0.5:
                whole_read(c, name)
                continue
            emit({"op": "OR", "c": c, "f": f, "name": name})
            plans[(c, f)] = ("r", name)
            while (c, f) in plans:
                read_row(c, f, name)
    fault = gen_fault(r, m, specs, foreign, ops, plans, n_cl, profile)
    return {"foreign": foreign, "ops": ops, "fault": fault, "asserts": int(r.random() < 0.3)}


def gen_fault(r, m, specs, foreign, ops, plans, n_cl, profile):
    """The fault this history ends with: kind and the operation that must fail (or the crash)."""
    c = r.randrange(n_cl)
    kind = r.choice(["none", "crash", "crash", "missing", "past-end", "torn", "torn", "skip-past-end", "line-end", "oversized"])
    d = {"dt": 3, "c": c, "f": 0, "l": 0}

    def reader(spec):
        ty, n, sg = pick_read(r, spec["mode"], spec["w"], spec["signed"])
        return ty, n, sg
    if kind == "crash":
        ops.insert(r.randint(0, len(ops)) if r.random() < 0.5 else len(ops), dict(d, op="EX"))
        return {"kind": "crash"}
    if kind == "missing":
        if profile == "fmt" and r.random() < 0.7:
            o = dict(d, op="MRF", name="absent.txt", skip=r.randint(0, 2), d=0)
        else:
            o = r.choice([dict(d, op="RF", name="absent.txt", ty=r.choice(STYPES + UTYPES + ["int", "suls", "sulu"]), mode=r.randint(0, 2), d=0, n=r.choice([1, 8, 33]), skip=r.randint(0, 2)),
                          dict(d, op="XRF", name="absent.txt", fmt=[1, 3, 4], mode=r.randint(0, 2), d=0, skip=1),
                          dict(d, op="MRF", name="absent.txt", skip=1, d=1), dict(d, op="SZ", name="absent.txt"), dict(d, op="CO", name="absent.txt", skip=1, mode=1, d=1)])
        ops.append(o)
        return {"kind": kind}
    free = [f for f in range(3) if (c, f) not in m.h]
    if kind in ("past-end", "skip-past-end"):
        names = [n for n in m.files if not m.writers(n) and n in specs]
        if not names:
            return {"kind": "none"}
        name = r.choice(names)
        s, h = specs[name]
        n_rows = len(m.files[name]["rows"])
        if kind == "skip-past-end" and r.random() < 0.6:
            skip = n_rows + r.randint(1, 3)
            if s.get("fmt"):
                ops.append(dict(d, op="MRF", name=name, skip=skip, d=0))
            else:
                ty, n, sg = reader(s)
                if ty in ("sl", "bit", "fix"):
                    ops.append(dict(d, op="XRF", name=name, fmt=[int(sg), n, -int(sg)], mode=s["mode"], d=0, skip=skip))
                else:
                    ops.append(dict(d, op="RF", name=name, ty=ty, mode=s["mode"], d=0, n=n, skip=skip))
            return {"kind": kind}
        if not free:
            return {"kind": "none"}
        f = r.choice(free)
        pre = r.randint(0, n_rows)
        ops.append(dict(d, op="OR", f=f, name=name))
        ops.append(dict(d, op="SK", f=f, n=pre))
        skip = n_rows - pre + (r.randint(0, 2) if kind == "skip-past-end" else 0)
        if s.get("fmt"):
            ops.append(dict(d, op="MFR", f=f, skip=skip, close=0, d=0))
        else:
            ty, n, sg = reader(s)
            if ty == "fix":
                ops.append(dict(d, op="XFR", f=f, fmt=[int(sg), n, -int(sg)], mode=s["mode"], d=0, skip=skip, close=0))
            else:
                ops.append(dict(d, op="FR", f=f, ty=ty, mode=s["mode"], form=r.choice([0, 2]), d=0, n=n, skip=skip, close=0))
        return {"kind": kind}
    if kind == "line-end":
        free_l = [l for l in range(3) if not m.lines.get((c, l), {}).get("items")]
        if not free_l:
            return {"kind": "none"}
        l = r.choice(free_l)
        s = gen_spec(r)
        row = gen_row(r, s)
        name = "torn.txt"
        foreign[name] = {"rows": [row], "style": 0, "eol": "\n", "final": True, "python": False}
        if not free:
            del foreign[name]
            return {"kind": "none"}
        f = r.choice(free)
        ops.append(dict(d, op="OR", f=f, name=name))
        ops.append(dict(d, op="NL", f=f, l=l))
        for k in range(s["cols"] + 1):
            ty = r.choice(STYPES if s["signed"] else UTYPES)
            ops.append(dict(d, op="LR", l=l, ty=ty, mode=s["mode"], form=0, d=0, n=s["w"], signed=s["signed"]))
        return {"kind": kind}
    if kind == "oversized":
        # A decimal value which the requested width cannot hold.
        s = dict(gen_spec(r), mode=DEC)
        h = r.choice([0, 1, 1, 2])
        data = [gen_row(r, s) for _ in range(r.randint(1, 6))]
        row = r.choice(data)
        k = 2 * r.randrange(s["cols"])
        w = s["w"]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s["signed"] else (0, (1 << w) - 1)
        v = r.choice([hi + 1, (1 << w) + row[k][1], (1 << w) + hi, hi * 10 + 10, r.randint(hi + 1, 4 * hi + 4)] + ([lo - 1, row[k][1] - (1 << w), 10 * lo - 1] if s["signed"] else []))
        v = hi + 1 if lo <= v <= hi else v
        row[k] = cell(v, v.bit_length() + 1, s["signed"], DEC)
        foreign["torn.txt"] = {"rows": [[["text", r.choice(HEADERS)]] for _ in range(h)] + data, "style": r.randint(0, 1), "eol": "\n", "final": r.random() < 0.7, "python": False}
        sg = s["signed"]
        ty = r.choice((STYPES if sg else UTYPES) + ["fix"] + (["int"] if sg and w == 32 else []))
        if ty == "fix":
            ops.append(dict(d, op="XRF", name="torn.txt", fmt=[int(sg), w, -int(sg)], mode=DEC, d=0, skip=h))
        else:
            ops.append(dict(d, op="RF", name="torn.txt", ty=ty, mode=DEC, d=0, n=w, skip=h))
        return {"kind": kind}
    if kind == "torn":
        s = gen_spec(r)
        if r.random() < 0.6:
            s["cols"] = r.randint(2, 4)
        h = r.choice([0, 1, 1, 2])
        rows = [[["text", r.choice(HEADERS)]] for _ in range(h)]
        data = [gen_row(r, s) for _ in range(r.randint(2, 6))]
        k = r.randint(1, len(data) - 1)
        keep = r.randint(0, s["cols"] - 1)
        last = keep > 0 and r.random() < 0.5
        torn = []
        for it in data[k]:
            if it[0] != "sep" and len(row_cells(torn)) == keep:
                break
            if it[0] == "sep" and len(row_cells(torn)) == keep and r.random() < 0.5:
                break
            torn.append(it)
        if keep == 0:
            torn = []
        data[k] = torn
        if last:
            data = data[:k + 1]
        foreign["torn.txt"] = {"rows": rows + data, "style": r.randint(0, 1), "eol": "\n", "final": not (last and r.random() < 0.7), "python": False}
        ty, n, sg = reader(s)
        if ty in ("sl", "bit", "fix"):
            ops.append(dict(d, op="XRF", name="torn.txt", fmt=[int(sg), n, -int(sg)], mode=s["mode"], d=0, skip=h))
        else:
            if ty != "int" and r.random() < 0.2:
                ty = "suls" if sg else "sulu"
            ops.append(dict(d, op="RF", name="torn.txt", ty=ty, mode=s["mode"], d=0, n=n, skip=h))
        return {"kind": kind}
    return {"kind": "none"}


# ---------------------------------------------------------------------------------------------------
# Execution and verdict
# ---------------------------------------------------------------------------------------------------


def compile_sim(outdir):
    build.imports(outdir)
    src = os.path.join(outdir, "fileio_sim.vhd")
    with open(src, "w") as f:
        f.write(gen_fileio_tb.generate())
    return build.make(outdir, "lib", [src], ["fileio_sim"])["fileio_sim"]


def foreign_bytes(d):
    out = []
    for row in d["rows"]:
        out.append("".join(i[1] if i[0] in ("text", "sep") else text_of(i, d["style"]) for i in row))
    t = d["eol"].join(out)
    return t + (d["eol"] if d["final"] and out else "")


def execute(exe, hist, wd):
    """Run one history. Returns (rc, {client: log lines}, {name: text})."""
    if os.path.isdir(wd):
        shutil.rmtree(wd)
    os.makedirs(wd)
    for name, d in hist["foreign"].items():
        if d.get("python"):
            write_with_model(os.path.join(wd, name), d)
        else:
            with open(os.path.join(wd, name), "w", newline="") as f:
                f.write(foreign_bytes(d))
    t = 0
    cmds = {c: [] for c in range(N_CLIENTS)}
    for k, o in enumerate(hist["ops"]):
        t += o["dt"]
        cmds[o["c"]].append(cmd(o, t, k))
    for c, lines in cmds.items():
        with open(os.path.join(wd, f"client{c}.cmd"), "w") as f:
            f.write("".join(x + "\n" for x in lines))
    args = ["--assert-level=error", "--max-stack-alloc=0"] + ([] if hist["asserts"] else ["--ieee-asserts=disable"])
    try:
        p = subprocess.run([exe] + args, cwd=wd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, text=True, errors="replace")
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        rc, out = "timeout", ""
    logs, files = {}, {}
    for c in range(N_CLIENTS):
        try:
            with open(os.path.join(wd, f"client{c}.log")) as f:
                logs[c] = f.read().split("\n")[:-1]
        except FileNotFoundError:
            logs[c] = []
    for n in os.listdir(wd):
        if n.endswith(".txt"):
            with open(os.path.join(wd, n), newline="", errors="replace") as f:
                files[n] = f.read()
    shutil.rmtree(wd)
    return rc, logs, files, out, t


class PythonWriter(Exception):
    pass


def write_with_model(path, d):
    """Have the real Python model write a format list (one header line), then remove the final newline if asked to."""
    import en_cl_fix_pkg as m
    cells = [r[0][1] for r in d["rows"][1:]]
    fmts = [m.FixFormat(*f) for f in cells]
    try:
        m.cl_fix_write_formats(fmts[0] if len(fmts) == 1 and d["style"] else fmts, ["AFmt"] * (1 + d["style"]), path)
    except Exception as e:  # noqa: BLE001 - reported
        raise PythonWriter(f"cl_fix_write_formats of {len(cells)} formats raised {type(e).__name__}: {e}") from None
    if not d["final"]:
        with open(path) as f:
            t = f.read()
        with open(path, "w") as f:
            f.write(t[:-1] if t.endswith("\n") else t)


def describe(o):
    keep = {k: v for k, v in o.items() if k not in ("dt",)}
    return " ".join(f"{k}={v}" for k, v in keep.items())[:300]


def expectations(hist):
    """Per operation: expected result or None; index of the operation that must not succeed; final model."""
    m = Model(hist["foreign"])
    for name, d in hist["foreign"].items():
        if (not d["final"] or d.get("python")) and d["rows"]:
            m.files[name]["nl"] = False
    exp = []
    fault = hist["fault"]["kind"]
    last = len(hist["ops"]) - 1
    for k, o in enumerate(hist["ops"]):
        if o["op"] == "EX":
            return exp, ("crash", k), m
        if fault not in ("none", "crash") and k == last:
            return exp, (fault, k), m
        if o["op"] in ("OW", "WF", "XWF", "MWF") and o["name"] in m.files:
            m.files[o["name"]].pop("nl", None)
        exp.append(m.step(o))
    return exp, None, m


def check_file(text, rows):
    lines = text.split("\n")
    if lines[-1] != "":
        return "the last line has no line end"
    lines = lines[:-1]
    if len(lines) != len(rows):
        return f"{len(lines)} lines instead of {len(rows)}"
    for k, (ln, row) in enumerate(zip(lines, rows)):
        if not row_text_ok(ln, row):
            return f"line {k + 1} is {ln[:120]!r}, expected {[i[1] for i in row]!r}"[:300]
    return None


def verdict(exe, hist, wd):
    """(None or (kind, detail)), stats"""
    exp, stop, m = expectations(hist)
    try:
        rc, logs, files, out, t = execute(exe, hist, wd)
    except PythonWriter as e:
        shutil.rmtree(wd, ignore_errors=True)
        return ("python-writer", str(e)), {"ops": 0, "ns": 0, "stop": "none", "rc": None}
    st = {"ops": len(exp), "ns": t, "stop": stop[0] if stop else "none", "rc": rc}
    got = {}
    for c in range(N_CLIENTS):
        for ln in logs[c]:
            k, _, rest = ln.partition(" ")
            got.setdefault(int(k), []).append(rest)
    if rc == "timeout":
        return ("hang", "the simulation did not end"), st
    for k, e in enumerate(exp):
        want = ([e] if e is not None else []) + ["done"]
        g = got.get(k, [])
        if g != want:
            if g and g[-1] == "done":
                return ("wrong-value", f"operation {k} ({describe(hist['ops'][k])}) returned {g[0][:200]}, expected {want[0][:200]}"), st
            if e is not None and g and g[0] != e:
                return ("wrong-value", f"operation {k} ({describe(hist['ops'][k])}) returned {g[0][:200]}, expected {e[:200]}"), st
            return ("stopped", f"operation {k} ({describe(hist['ops'][k])}) stopped the simulation (exit {rc}): {first_error(out)}"), st
    if stop is None:
        if rc != 0:
            return ("stopped", f"the simulation ended with exit status {rc} after all operations: {first_error(out)}"), st
    else:
        kind, k = stop
        if kind == "crash":
            if rc != CRASH:
                raise HarnessError(f"crash point gave exit status {rc}")
        else:
            g = got.get(k, [])
            if g:
                return (f"not-loud:{kind}", f"operation {k} ({describe(hist['ops'][k])}) returned {g[0][:200]} instead of stopping the simulation"), st
            if rc == 0:
                return (f"not-loud:{kind}", f"the simulation reports success although operation {k} ({describe(hist['ops'][k])}) had no data"), st
    crashed = stop is not None
    for name, d in m.files.items():
        if m.writers(name) or (crashed and not d["whole"]):
            continue
        if name in hist["foreign"] and not any(o.get("name") == name and o["op"] in ("OW", "OA", "WF", "XWF", "MWF") for o in hist["ops"][:len(exp)]):
            continue
        if name not in files:
            return ("lost" if crashed else "content", f"file {name} does not exist"), st
        rows = d["rows"]
        text = files[name]
        if name in hist["foreign"] and any(o.get("name") == name and o["op"] == "OA" for o in hist["ops"][:len(exp)]):
            text = text.replace("\r\n", "\n")
        p = check_file(text, rows)
        if p:
            return ("lost-after-crash" if crashed else "content", f"{name}: {p}"), st
    return None, st


def first_error(out):
    for ln in out.split("\n"):
        if "error" in ln or "failure" in ln or "assert" in ln:
            return ln[-220:]
    return out[:200]


def minimise(exe, hist, kind, wd):
    def fails(ops):
        h = dict(hist, ops=list(ops))
        try:
            d, _ = verdict(exe, h, wd)
        except Illegal:
            return False
        return d is not None and d[0] == kind
    if hist["fault"]["kind"] in ("none", "crash"):
        head, tail = hist["ops"], []
    else:
        head, tail = hist["ops"][:-1], hist["ops"][-1:]
    if tail and fails(tail):
        best = tail
    else:
        best = ddmin(head, lambda x: fails(x + tail), 250) + tail if len(head) > 1 else head + tail
    h = dict(hist, ops=best)
    used = {o.get("name") for o in best}
    h["foreign"] = {n: d for n, d in hist["foreign"].items() if n in used}
    d, _ = verdict(exe, h, wd)
    if d is None or d[0] != kind:
        h = hist
        d, _ = verdict(exe, h, wd)
    return h, d
