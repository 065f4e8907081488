"""Simulator for the clocked hardware stages: waveform/fault generator, reference model, GHDL driver."""
import glob
import os
import subprocess

from simlib.core import REPO, VERIF, HarnessError

TRUNC = 0
ROUND_NAMES = ["Trunc", "NonSymPos", "NonSymNeg", "SymInf", "SymZero", "ConvEven", "ConvOdd"]
SAT_NAMES = ["None", "Warn", "Sat", "SatWarn"]
REG_NAMES = ["Auto", "Yes", "No"]

# -------------------------------------------------------------------------------------------------
# Exact value model (integers only; independent of the code under test)
# -------------------------------------------------------------------------------------------------


def width(f):
    return f[0] + f[1] + f[2]


def fmin(f):
    return -(1 << (f[1] + f[2])) if f[0] else 0


def fmax(f):
    return (1 << (f[1] + f[2])) - 1


def round_fmt(a, rF, rnd):
    S, I, F = a
    if rF < F and rnd != TRUNC:
        I += 1
    if S + I + rF < 1:
        I = -S - rF + 1
    return (S, I, rF)


def round_int(x, aF, rF, rnd):
    """x * 2**-aF rounded to a multiple of 2**-rF, returned as an integer multiple."""
    if rF >= aF:
        return x << (rF - aF)
    d = aF - rF
    q, rem = x >> d, x & ((1 << d) - 1)
    half = 1 << (d - 1)
    if rnd == 0:
        return q
    if rem != half:
        return q + (1 if rem > half else 0)
    up = {1: True, 2: False, 3: x >= 0, 4: x < 0, 5: (q & 1) == 1, 6: (q & 1) == 0}[rnd]
    return q + (1 if up else 0)


def sat_int(x, f, sat):
    if sat in (2, 3):
        return min(max(x, fmin(f)), fmax(f))
    w = width(f)
    x &= (1 << w) - 1
    if f[0] and x >> (w - 1):
        x -= 1 << w
    return x


def expected(cfg, x):
    k = cfg["kind"] % 3
    a, r = cfg["a"], cfg["r"]
    if k == 0:
        return sat_int(round_int(x, a[2], r[2], cfg["rnd"]), r, 0)
    if k == 1:
        return sat_int(x, r, cfg["sat"])
    return sat_int(round_int(x, a[2], r[2], cfg["rnd"]), r, cfg["sat"])


def latency(cfg):
    """Documented latency in clock cycles."""
    k, a, r, reg = cfg["kind"] % 3, cfg["a"], cfg["r"], cfg["reg"]
    rnd_lat = 0 if cfg["rnd"] == TRUNC or r[2] >= a[2] else 1
    m = round_fmt(a, r[2], cfg["rnd"]) if k == 2 else a
    sat_lat = 0 if cfg["sat"] in (0, 1) or (r[1] >= m[1] and r[0] == m[0]) else 1
    if reg == 1:
        return 2 if k == 2 else 1
    if reg == 2:
        return 0
    return {0: rnd_lat, 1: sat_lat, 2: rnd_lat + sat_lat}[k]


def to_bits(x, w):
    return format(x & ((1 << w) - 1), f"0{w}b") if w else ""


def from_bits(s, signed):
    v = int(s, 2)
    if signed and s[0] == "1":
        v -= 1 << len(s)
    return v


# -------------------------------------------------------------------------------------------------
# Configuration and workload generation
# -------------------------------------------------------------------------------------------------


def gen_format(rng, maxw):
    w = rng.choice([rng.randint(1, 6), rng.randint(1, 20), rng.randint(15, 40), rng.choice([31, 32, 33, 34]),
                    rng.choice([52, 53, 54, 55]), rng.choice([63, 64, 65, 66]), rng.randint(1, maxw)])
    w = min(w, maxw)
    S = rng.randint(0, 1)
    n = w - S
    c = rng.random()
    if c < 0.6:
        I = rng.randint(0, n)
    elif c < 0.8:
        I = -rng.randint(0, 12)
    else:
        I = n + rng.randint(0, 12)
    return (S, I, n - I)


def gen_cfg(rng, maxw=132):
    while True:
        kind = rng.choice([0, 1, 2, 2, 2, 2])
        a = gen_format(rng, maxw)
        rnd, sat, reg = rng.randint(0, 6), rng.randint(0, 3), rng.choice([0, 0, 1, 2])
        c = rng.random()
        if c < 0.7:
            rF = a[2] - rng.randint(1, max(1, min(width(a) + 2, rng.choice([1, 2, 4, 8, 200]))))
        elif c < 0.85:
            rF = a[2]
        else:
            rF = a[2] + rng.randint(1, rng.choice([1, 3, 40]))
        chk = 1
        if kind == 0:
            r = round_fmt(a, rF, rnd)
            if rng.random() < 0.15:
                # The designer may override the derived format when the data is known to fit.
                r = (r[0], r[1] + rng.choice([-1, 1, 2, 5]), r[2])
                chk = 0
        else:
            if kind == 1:
                rF = a[2]
                m = a
            else:
                m = round_fmt(a, rF, rnd)
            rS = m[0] if rng.random() < 0.6 else 1 - m[0]
            rI = m[1] + rng.choice([0, 0, -1, -1, -2, 1, 2, -rng.randint(0, max(0, width(m))), rng.randint(0, 10)])
            r = (rS, rI, rF)
        if r[1] + r[2] < 0 or width(r) < 1 or width(r) > maxw + 40:
            continue
        if chk == 0 and width(r) < 1:
            continue
        meta = rng.choice([0, 1, 2, 8, 8, 16, 33, 70])
        kind += 3 if rng.random() < 0.12 else 0
        if kind >= 3:
            meta = 0
        return {"kind": kind, "a": a, "r": r, "rnd": rnd, "sat": sat, "reg": reg, "meta": meta, "chk": chk}


def cfg_line(c):
    return " ".join(str(v) for v in (c["kind"], *c["a"], *c["r"], c["rnd"], c["sat"], c["reg"], c["meta"], c["chk"]))


def describe(c):
    k = ["round", "saturate", "resize"][c["kind"] % 3]
    return (f"{k} {c['a']}->{c['r']} {ROUND_NAMES[c['rnd']]} {SAT_NAMES[c['sat']]} reg={REG_NAMES[c['reg']]} "
            f"meta={c['meta']}" + ("" if c["chk"] else " fmt_check=off") + (" default-meta" if c["kind"] > 2 else ""))


def value_pool(rng, cfg):
    """Values which stress extremes, ties and the saturation boundaries of this configuration."""
    a, r = cfg["a"], cfg["r"]
    lo, hi = fmin(a), fmax(a)
    d = a[2] - r[2]
    pool = [lo, hi, 0, lo + 1, hi - 1, 1, -1, (lo + hi) // 2]
    edges = [fmin(r), fmax(r), fmax(r) + 1, fmin(r) - 1, 0, fmin((1, r[1], r[2])), 2 * fmax(r)]
    for e in edges:
        x = e << d if d >= 0 else e >> -d
        pool += [x, x - 1, x + 1]
        if d > 0:
            h = 1 << (d - 1)
            pool += [x + h, x + h - 1, x + h + 1, x - h, x - h - 1, x - h + 1]
    if d > 0:
        h = 1 << (d - 1)
        for _ in range(12):
            q = rng.randint(lo >> d, hi >> d) << d
            pool += [q + h, q + h - 1, q + h + 1, q, q - 1]
    pool = [x for x in pool if lo <= x <= hi]
    if cfg["kind"] % 3 == 0 and not cfg["chk"]:
        f = cfg["r"]
        pool = [x for x in pool if fmin(f) <= round_int(x, a[2], f[2], cfg["rnd"]) <= fmax(f)] or [0]
    return pool


def gen_value(rng, cfg, pool):
    a = cfg["a"]
    if rng.random() < 0.55:
        return rng.choice(pool)
    for _ in range(4):
        x = rng.randint(fmin(a), fmax(a))
        if rng.random() < 0.3:
            x >>= rng.randint(0, max(0, width(a) - 1))
        if cfg["chk"] or fmin(cfg["r"]) <= round_int(x, a[2], cfg["r"][2], cfg["rnd"]) <= fmax(cfg["r"]):
            return x
    return rng.choice(pool)


FAULTS = ["reset_pulse", "reset_long", "powerup_unknown", "unknown_idle_data", "unknown_midcycle", "midcycle_glitch",
          "reset_glitch_midcycle", "clock_stall", "post_edge_change", "bubble"]


def gen_node(rng, profile, beats):
    """One node: configuration plus a list of cycles; a cycle is a list of events.

    Event = [dt_ps, mode, clk, rst, valid, meta, data]; all values of every signal at every event.
    """
    cfg = gen_cfg(rng)
    aw, mw = width(cfg["a"]), cfg["meta"]
    pool = value_pool(rng, cfg)
    faulty = profile == "reset"
    stats = dict.fromkeys(FAULTS, 0)
    # Swarm: each node enables its own subset of behaviours.
    p_valid = rng.choice([1.0, 0.9, 0.5, 0.5, 0.2])
    p_burst = rng.choice([0, 0, 0.1, 0.3])
    p_glitch = rng.choice([0, 0, 0.1, 0.5])
    p_post = rng.choice([0, 0.2, 1.0])
    p_stall = rng.choice([0, 0.01, 0.05])
    p_sample = rng.choice([0, 0.1, 0.5])
    p_rst = rng.choice([0.02, 0.1, 0.3]) if faulty else 0
    p_rstglitch = rng.choice([0, 0.05]) if faulty else 0
    idle_unknown = rng.random() < (0.8 if faulty else 0.3)
    glitch_unknown = faulty and rng.random() < 0.5
    period = rng.choice([10000, 4000, 7300, 2])
    jitter = rng.choice([0, 0, period // 3])
    unk = "UX-ZW" if faulty else "X"
    repeat_val = rng.random() < 0.15

    def rbits(n):
        return to_bits(rng.getrandbits(n), n) if n else ""

    def unknown(n):
        if rng.random() < 0.5:
            return rng.choice(unk) * n
        return "".join(rng.choice("01" + unk) for _ in range(n))

    def idle(n):
        if idle_unknown and rng.random() < 0.7:
            stats["unknown_idle_data"] += 1
            return unknown(n)
        return rbits(n)

    def beat_data():
        return to_bits(gen_value(rng, cfg, pool), aw)

    cycles = []
    cur = [0, "N", "0", "0", "0", idle(mw), idle(aw)]
    first = []
    if faulty and rng.random() < 0.7:
        stats["powerup_unknown"] += 1
        first.append([0, "N", "U", "U", "U", "U" * mw, "U" * aw])
        first.append([rng.randint(1, period), "N", "0", rng.choice("U01X"), rng.choice("U0X1"), unknown(mw), unknown(aw)])
        n_pre = rng.choice([0, 0, 1, 3])
    else:
        n_pre = rng.choice([0, 0, 1, 3])
        first.append([0, "N", "0", "0", "0", idle(mw), idle(aw)])
    cycles.append(first)
    rst_left = rng.choice([1, 1, 1, 2, 4])
    if not faulty and rng.random() < 0.2:
        rst_left = 0 if False else rst_left
    sent = 0
    burst = 0
    k = 0
    last = None
    while sent < beats and k < beats * 6 + 40:
        k += 1
        if n_pre > 0:
            # Clock edges before the first reset: everything may still be unknown.
            n_pre -= 1
            rst, valid = (rng.choice("U01") if faulty else "0"), (rng.choice("U01X") if faulty else "0")
        elif rst_left > 0:
            rst_left -= 1
            rst, valid = "1", (rng.choice("01UX") if faulty else rng.choice("01"))
        else:
            rst = "0"
            if burst > 0:
                burst -= 1
                valid = "1"
            else:
                valid = "1" if rng.random() < p_valid else "0"
                if valid == "1" and rng.random() < p_burst:
                    burst = rng.randint(2, 12)
                elif valid == "0" and rng.random() < 0.1:
                    pass
            if p_rst and rng.random() < p_rst:
                rst_left = rng.choice([0, 0, 1, 3, 8])
                stats["reset_long" if rst_left else "reset_pulse"] += 1
                rst = "1"
        if valid == "1":
            meta, data = rbits(mw), beat_data()
            if repeat_val and last is not None and rng.random() < 0.5:
                meta, data = last
            last = (meta, data)
            sent += 1
        else:
            stats["bubble"] += 1
            meta, data = idle(mw), idle(aw)
        t_low = max(1, period // 2 + (rng.randint(-jitter, jitter) if jitter else 0) // 2)
        t_high = max(1, period - period // 2)
        if rng.random() < p_stall:
            t_low += rng.randint(1, 400) * 1000
            stats["clock_stall"] += 1
        ev = []
        # Activity while the clock is low, before the inputs settle.
        while rng.random() < p_glitch and len(ev) < 4:
            u = glitch_unknown and rng.random() < 0.5
            stats["unknown_midcycle" if u else "midcycle_glitch"] += 1
            dt = rng.choice([0, 0, 1, max(1, t_low // 4)])
            g_rst = rst
            if p_rstglitch and rng.random() < 0.3:
                g_rst = rng.choice("01")
                stats["reset_glitch_midcycle"] += 1
            ev.append([dt, "S" if dt > 0 and rng.random() < p_sample else "N", "0", g_rst, rng.choice("01U") if u else rng.choice("01"),
                       unknown(mw) if u else rbits(mw), unknown(aw) if u else rbits(aw)])
        ev.append([max(1, t_low // 2), "S" if rng.random() < p_sample else "N", "0", rst, valid, meta, data])
        ev.append([max(1, t_low - t_low // 2), "S" if rng.random() < p_sample else "N", "1", rst, valid, meta, data])
        # Inputs changing right after the edge (next delta), as driven by an upstream register.
        h_meta, h_data, h_valid = meta, data, valid
        if rng.random() < p_post:
            stats["post_edge_change"] += 1
            h_meta, h_data, h_valid = idle(mw), idle(aw), rng.choice("01")
            ev.append([0, "N", "1", rst, h_valid, h_meta, h_data])
        ev.append([t_high, "S" if rng.random() < p_sample else "N", "0", rst, h_valid, h_meta, h_data])
        cycles.append(ev)
    # Flush
    for _ in range(4):
        m, d = idle(mw), idle(aw)
        cycles.append([[period, "N", "0", "0", "0", m, d], [max(1, period // 2), "N", "1", "0", "0", m, d],
                       [max(1, period // 2), "S", "0", "0", "0", m, d]])
    return {"cfg": cfg, "cycles": cycles, "stats": stats, "beats": sent}


# -------------------------------------------------------------------------------------------------
# Reference model of one node over its event list
# -------------------------------------------------------------------------------------------------


def model_log(cfg, events):
    """Expected log: list of (tag, valid, meta, data); valid None = unspecified, payload only if valid == '1'."""
    L = latency(cfg)
    aw, rw, mw = width(cfg["a"]), width(cfg["r"]), cfg["meta"]
    signed = cfg["a"][0] == 1
    cache = {}

    def f(data):
        if data not in cache:
            cache[data] = to_bits(expected(cfg, from_bits(data, signed)), rw) if set(data) <= {"0", "1"} else None
        return cache[data]

    pipe = [(None, None, None)] * L      # output end last
    clk, rst, valid, meta, data = "U", "U", "U", "U" * mw, "U" * aw
    out = []
    info = {"delivered": 0, "flushed": 0, "edges": 0, "reset_edges": 0, "pairs": {}, "time_ps": 0, "prefix": []}
    edge = 0
    for dt, mode, nclk, nrst, nvalid, nmeta, ndata in events:
        info["time_ps"] += dt
        if mode == "S":
            if L == 0:
                out.append(("S", valid if valid in "01" else None, meta, f(data) if valid == "1" else None, data))
            else:
                v, m, d = pipe[-1]
                out.append(("S", v, m, f(d) if v == "1" else None, d))
        if clk == "0" and nclk == "1":
            # Rising edge: inputs are those that were settled before it.
            if L == 0:
                out.append(("E", valid if valid in "01" else None, meta, f(data) if valid == "1" else None, data))
                if valid == "1" and rst == "0":
                    info["delivered"] += 1
                    info["pairs"][data] = f(data)
            else:
                v, m, d = pipe[-1]
                if rst != "0":
                    v = None
                out.append(("E", v, m, f(d) if v == "1" else None, d))
                if v == "1":
                    info["delivered"] += 1
                    info["pairs"][d] = f(d)
                new = []
                prev = (valid if valid in "01" else None, meta, data)
                for s in range(L):
                    pv, pm, pd = prev
                    if rst == "1":
                        if pv == "1":
                            info["flushed"] += 1
                        nv = "0"
                    elif pv == "0":
                        nv = "0"
                    elif rst == "0":
                        nv = pv
                    else:
                        nv = None
                    prev = pipe[s]
                    new.append((nv, pm, pd))
                pipe = new
            info["edges"] += 1
            if rst == "1":
                info["reset_edges"] += 1
        clk, rst, valid, meta, data = nclk, nrst, nvalid, nmeta, ndata
    return out, info


def compare(cfg, events, log, info_out=None):
    """None, or (kind, detail) of the first deviation from the model."""
    exp, info = model_log(cfg, events)
    if info_out is not None:
        info_out.update(info)
    mw, rw = cfg["meta"], width(cfg["r"])
    if not log or log[-1] != "END":
        return "aborted", f"simulation of this node ended early after {len(log)} observations ({describe(cfg)})"
    log = log[:-1]
    if len(log) != len(exp):
        raise HarnessError(f"log length {len(log)} != {len(exp)}")
    for n, (line, (tag, v, m, r, d)) in enumerate(zip(log, exp)):
        if line[0] != tag:
            raise HarnessError(f"log line {n}: {line[0]} != {tag}")
        if v is None:
            continue
        gv, gm, gd = line[2], line[3:3 + mw], line[3 + mw:]
        where = f"observation {n} ({'clock edge' if tag == 'E' else 'between edges'}), {describe(cfg)}"
        if v == "0":
            if gv != "0":
                return "spurious-valid", f"out_valid={gv}, expected 0 at {where}"
            continue
        if gv != "1":
            return "lost-beat", f"out_valid={gv}, expected 1 at {where}"
        if gm != m:
            return "wrong-metadata", f"out_meta={gm}, expected {m} at {where}"
        if r is not None and gd != r:
            return "wrong-data", f"out_data={gd}, expected {r} for input {d} at {where}"
    return None


# -------------------------------------------------------------------------------------------------
# GHDL driver
# -------------------------------------------------------------------------------------------------


def ghdl(args, cwd, timeout=300):
    env = dict(os.environ, GHDL_BACKEND="gcc")
    return subprocess.run(["/usr/bin/ghdl"] + args, cwd=cwd, env=env, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)


def compile_rtl(outdir):
    os.makedirs(outdir, exist_ok=True)
    flags = ["--std=08", "-frelaxed", "--warn-no-hide", "--warn-no-specs", "--warn-no-unused"]
    src = sorted(glob.glob(os.path.join(REPO, "hdl", "*.vhd"))) + [os.path.join(VERIF, "rtlsim", "rtlsim_tb.vhd")]
    for step in (["-i"] + flags + src, ["-m"] + flags + ["rtlsim_tb"]):
        p = ghdl(step, outdir)
        if p.returncode:
            raise HarnessError("GHDL failed: " + p.stdout[-3000:])
    return os.path.join(outdir, "rtlsim_tb")


def run_nodes(exe, nodes, wd, timeout=300):
    """Simulate nodes = [(cfg, events)]; returns list of logs (lists of lines)."""
    os.makedirs(wd, exist_ok=True)
    with open(os.path.join(wd, "cfg.txt"), "w") as f:
        f.write(f"{len(nodes)}\n")
        for cfg, _ in nodes:
            f.write(cfg_line(cfg) + "\n")
    for i, (cfg, events) in enumerate(nodes):
        with open(os.path.join(wd, f"node{i}.ev"), "w") as f:
            f.write("".join(f"{e[0]} {e[1]} {e[2]}{e[3]}{e[4]}{e[5]}{e[6]}\n" for e in events))
    try:
        p = subprocess.run([exe, "--ieee-asserts=disable", "--max-stack-alloc=0"], cwd=wd, stdout=subprocess.DEVNULL,
                           stderr=open(os.path.join(wd, "err.txt"), "w"), timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    logs = []
    for i in range(len(nodes)):
        path = os.path.join(wd, f"node{i}.log")
        try:
            with open(path) as f:
                logs.append(f.read().split("\n")[:-1])
            os.remove(path)
        except FileNotFoundError:
            logs.append([])
        os.remove(os.path.join(wd, f"node{i}.ev"))
    with open(os.path.join(wd, "err.txt"), errors="replace") as f:
        f.seek(0, 2)
        f.seek(max(0, f.tell() - 2000))
        err = f.read()
    return rc, logs, err
