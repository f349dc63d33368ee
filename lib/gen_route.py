"""Scenarios for registration and dispatch."""
import itertools
from scen import *

LITS = ["a", "b", "ab", "A", "x y", "é", "a%2Fb", "0", "日本", "a+b", "~", "index.html", "a;b", "q?"]


def proc(method, entry):
    n = sum(1 for s in entry if s is None)
    return {"method": method, "entry": list(entry), "path": ["str"] * n if n else None}


def rand_entry(r, lits, maxlen=4):
    return [None if r.random() < 0.4 else r.choice(lits) for _ in range(r.randint(0, maxlen))]


def paths_near(r, entries, lits):
    """A path (as decoded segments) derived from the entry points."""
    x = r.random()
    if x < 0.06:
        return [r.choice(lits + ["", "zz"]) for _ in range(r.randint(1, 5))]
    e = list(r.choice(entries)) or [""]
    segs = []
    for s in e:
        if s is None:
            segs.append(r.choice(lits + ["v", "7", "", "zz/y"]))
        elif r.random() < 0.12:
            segs.append(r.choice(lits + [s.upper(), s + "x", s[:-1], ""]))
        else:
            segs.append(s)
    y = r.random()
    if y < 0.08:
        segs.append("")
    elif y < 0.14:
        segs.append(r.choice(lits))
    elif y < 0.20 and len(segs) > 1:
        segs.pop()
    elif y < 0.23 and len(segs) > 1:
        del segs[r.randrange(len(segs))]
    return segs


def target(r, segs):
    return "/" + "/".join(pct(s, r, 0.15) for s in segs)


def bad_dot(segs):
    return any(s in (".", "..") for s in segs)


def dispatch(n, prefix, r, reqs=24, methods=METHODS):
    """Random registration sets with requests around them."""
    out = []
    for k in range(n):
        lits = r.sample(LITS, r.randint(2, 5))
        ms = r.sample(methods, r.randint(1, 3))
        entries, procs = [], []
        for _ in range(r.randint(1, 10)):
            e = rand_entry(r, lits, r.choice([1, 2, 3, 4]))
            entries.append(e)
            procs.append(proc(r.choice(ms), e))
        order = list(range(len(procs)))
        r.shuffle(order)
        ops = [server(order), open_("c"), open_("d")]
        for _ in range(reqs):
            c = r.choice("cd")
            segs = paths_near(r, entries, lits)
            if bad_dot(segs):
                continue
            m = r.choice(ms) if r.random() < 0.85 else r.choice(methods)
            ops += exchange(c, m, target(r, segs))
        ops += leftover("c") + leftover("d")
        out.append({"id": f"{prefix}{k}", "procs": procs, "ops": ops})
    return out


def wide(n, prefix, r, reqs=40):
    """Many procedures, long entry points."""
    out = []
    for k in range(n):
        lits = r.sample(LITS, 4) + ["l%d" % i for i in range(12)]
        base = [r.choice(lits[:4] + [None]) for _ in range(r.choice([0, 1, 3, 6, 10]))]
        entries, procs = [], []
        for _ in range(24):
            e = base[:r.randint(0, len(base))] + [None if r.random() < 0.3 else r.choice(lits) for _ in range(r.choice([0, 1, 1, 2, 4]))]
            if e and r.random() < 0.2:
                e[-1] = r.choice(["long" * 60, "long" * 60 + "x", e[-1]])
            entries.append(e)
            procs.append(proc(r.choice(METHODS), e))
        ops = [server(list(range(24))), open_("c")]
        for _ in range(reqs):
            segs = paths_near(r, entries, lits)
            if not bad_dot(segs):
                ops += exchange("c", r.choice(METHODS), target(r, segs))
                p = r.choice(procs)
                segs = ["v" if x is None else x for x in p["entry"]] or [""]
                ops += exchange("c", p["method"], target(r, segs))
        out.append({"id": f"{prefix}{k}", "procs": procs, "ops": ops + leftover("c")})
    return out


def grid(n, prefix, r, size=3):
    """Small registration sets, each with every path of up to three segments."""
    segs = ["a", "b", None]
    entries = [[]] + [list(e) for k in (1, 2) for e in itertools.product(segs, repeat=k)]
    regs = [(m, e) for e in entries for m in ("GET", "POST")]
    paths = [list(p) for k in (1, 2, 3) for p in itertools.product(["a", "b", "c"], repeat=k)] + [[""], ["a", ""]]
    out = []
    for k in range(n):
        chosen = r.sample(regs, r.randint(1, size))
        procs = [proc(m, e) for m, e in chosen]
        ops = [server(list(range(len(procs)))), open_("c")]
        for p in paths:
            for m in ("GET", "POST"):
                ops += exchange("c", m, "/" + "/".join(p))
        out.append({"id": f"{prefix}{k}", "procs": procs, "ops": ops})
    return out


def registrations(n, prefix, r):
    """Registration histories with repetitions, then a request for everything."""
    out = []
    for k in range(n):
        lits = r.sample(LITS, 3)
        ms = r.sample(METHODS, 2)
        distinct = []
        for _ in range(r.randint(2, 7)):
            e = rand_entry(r, lits, 3)
            distinct.append((r.choice(ms), e))
            if r.random() < 0.5:      # a near miss: one thing differs
                m2, e2 = r.choice(ms), list(e)
                if e2 and r.random() < 0.7:
                    i = r.randrange(len(e2))
                    e2[i] = None if e2[i] is not None else r.choice(lits)
                elif r.random() < 0.5:
                    e2.append(r.choice(lits + [None]))
                distinct.append((m2, e2))
        distinct = distinct[:12]
        procs = [proc(m, e) for m, e in distinct]
        hist = [r.randrange(len(procs)) for _ in range(r.randint(len(procs), 2 * len(procs) + 2))]
        ops = [server(hist), open_("c")]
        for m, e in distinct + [(r.choice(METHODS), r.choice(distinct)[1]) for _ in range(3)]:
            segs = [r.choice(["v", "w 1"]) if s is None else s for s in e] or [""]
            ops += exchange("c", m, target(r, segs))
        ops += leftover("c")
        out.append({"id": f"{prefix}{k}", "procs": procs, "ops": ops})
    return out


def replays(hists, prefix, r, maxpath=3):
    """Histories of MCRoute: the registrations, then every path of up to three segments with every method."""
    out = []
    for k, h in enumerate(hists):
        lit = {97: r.choice(LITS), 98: "b"}
        ms = {"GET": r.choice(METHODS[:1] * 4 + METHODS[3:]), "PUT": r.choice(["HEAD", "POST", "POST"])}
        procs, hist, seen = [], [], {}
        for g in h:
            e = [None if s["k"] == "var" else lit[s["x"][0]] if s["x"] else "" for s in g["entry"]]
            key = (g["method"], tuple(e))
            if key not in seen:
                seen[key] = len(procs)
                procs.append(proc(ms[g["method"]], e))
            hist.append(seen[key])
        n = max(len(p["entry"]) for p in procs) + 1
        texts = [lit[97], "b", "zz"] if any(98 in s["x"] for g in h for s in g["entry"]) else [lit[97], "zz"]
        ops = [server(hist), open_("c")]
        ops += exchange("c", ms["GET"], "/")
        for m in range(1, min(n, maxpath) + 1):
            for p in itertools.product(texts, repeat=m):
                for x in ms.values():
                    ops += exchange("c", x, target(r, p))
        ops += exchange("c", ms["GET"], target(r, [lit[97], ""])) + leftover("c")
        out.append({"id": f"{prefix}{k}", "procs": procs, "ops": ops})
    return out
