"""Scenarios in which the real client calls a real server (through a recording proxy)."""
from scen import *
from values import *

VIA = [{"op": "proxy", "id": "p", "addr": 1, "to": 0}]


def call(id, n, args, addr=1, wait=True, pool=None):
    op = {"op": "call", "id": id, "proc": n, "addr": addr, "args": args}
    if pool:
        op["pool"] = pool
    return [op, {"op": "wait_call", "id": id}] if wait else [op]


def scenario(id, procs, calls, plans=None, seg=None, gap=1, wire=True, pool=None):
    """calls: [(proc, args)]"""
    px = dict(VIA[0])
    if seg:
        px["seg"], px["gap"] = seg, gap
    ops = [server(list(range(len(procs)))), px]
    if pool:
        ops.append({"op": "pool", "id": "P", "size": pool})
    for k, (n, args) in enumerate(calls):
        ops += call(f"k{k}", n, args, pool="P" if pool else None)
    ops.append(SETTLE)
    if wire:
        ops.append({"op": "wire", "id": "p"})
    sc = {"id": id, "procs": procs, "ops": ops}
    if plans:
        sc["proc_plans"] = plans
    return sc


def chunks(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


QUIET = {"status": 200, "header": [None], "body": ""}


# ---------------------------------------------------------------- path
def path_proc(tys, entry=None, method="GET", ts=False):
    entry = [None] * len(tys) if entry is None else entry
    return {"method": method, "entry": entry, "path": {"ts": list(tys)} if ts else list(tys), "body": "ignore"}


def path_boundary(prefix):
    """Every boundary value of every type and every ASCII character in a path of its own shape."""
    out = []
    for t in SCALARS + ["new:str", "new:u8", "new:bool"]:
        vals = boundary(t)
        if t == "str":
            vals = vals + ascii_each()
        procs = [path_proc([t], ["p", None]), path_proc([t], [None, "q"], "POST"), path_proc([t, "u8"], ["r", None, None], "PUT", ts=True)]
        calls = []
        for v in vals:
            calls.append((0, {"path": [v]}))
            if t != "str" or v in STRINGS:
                calls.append((1, {"path": [v]}))
                calls.append((2, {"path": [v, "7"]}))
        for k, cs in enumerate(chunks(calls, 30)):
            out.append(scenario(f"{prefix}{t}-{k}", procs, cs, plans=[QUIET] * 3))
    # alone, first, last
    procs = [path_proc(["str"]), path_proc(["str", "str"], None, "POST"), path_proc(["str", "str", "str"], None, "PUT"),
             path_proc(["str", "str"], [None, "mid", None], "DELETE"), path_proc([], [], "GET"), path_proc([], ["x", "y"], "PATCH")]
    procs[4] = {"method": "OPTIONS", "entry": ["o"], "path": "unit", "body": "ignore"}
    procs[5] = {"method": "PATCH", "entry": ["x", "y z", "é", "a%b"], "path": "unit", "body": "ignore"}
    calls = [(4, {}), (5, {})]
    for s in STRINGS:
        calls += [(0, {"path": [s]}), (1, {"path": [s, "z"]}), (1, {"path": ["z", s]}), (2, {"path": ["z", s, "w"]}),
                  (3, {"path": [s, s]})]
    for k, cs in enumerate(chunks(calls, 40)):
        out.append(scenario(f"{prefix}pos-{k}", procs, cs, plans=[QUIET] * len(procs)))
    root = [{"method": m, "entry": [], "path": "unit", "body": "ignore"} for m in ("GET", "POST", "OPTIONS")]
    out.append(scenario(f"{prefix}root", root, [(0, {}), (1, {}), (2, {}), (0, {})], plans=[QUIET] * 3))
    return out


def path_random(n, prefix, r, calls=16):
    out = []
    lits = ["a", "b c", "é", "%41", "x.y", "~", "a+b", "[1]", "A"]
    for k in range(n):
        procs = []
        ms = r.sample(METHODS, r.randint(1, 3))
        for m in ms:
            nv = r.choice([1, 1, 2, 3, 4, 6, 9, 12])
            tys = [r.choice(SCALARS + ["str", "str", "new:str", "new:i32"]) for _ in range(nv)]
            # (several procedures are kept apart by their first segments)
            entry = ["m-" + m] if len(ms) > 1 else []
            for _ in tys:
                while r.random() < 0.25:
                    entry.append(r.choice(lits))
                entry.append(None)
            if r.random() < 0.4:
                entry.append(r.choice(lits))
            procs.append(path_proc(tys, entry, m, r.random() < 0.3))
        cs = []
        for _ in range(calls):
            i = r.randrange(len(procs))
            p = procs[i]["path"]
            p = p["ts"] if isinstance(p, dict) else p
            cs.append((i, {"path": [rand_val(r, t) for t in p]}))
        out.append(scenario(f"{prefix}{k}", procs, cs, plans=[QUIET] * len(procs)))
    return out


def escaped(c):
    """The octets of a character in a URL (at most)."""
    return 1 if c.isalnum() and c.isascii() else 3 * len(c.encode())


SEGS = [None, [1000], [1024], [1, 4000], [512, 1], [4096], [300]]


def path_long(prefix, r):
    out = []
    procs = [path_proc(["str"], ["p", None]), path_proc(["str", "str", "u8"], [None, "q", None, None], "POST")]
    for k, lens in enumerate(chunks(LONG, 3)):
        calls = []
        for n in lens:
            s = long_str(r, n, escaped)
            calls += [(0, {"path": [s]}), (1, {"path": ["a", s, "3"]})]
        out.append(scenario(f"{prefix}{k}", procs, calls, plans=[QUIET] * 2, seg=SEGS[k % len(SEGS)]))
    return out


def query_long(prefix, r):
    out = []
    procs = [query_proc([["q", "str"]]), query_proc([["n" * 100, "opt:str"], ["a", "opt:str"], ["b", "u8"]], ("s",), "PUT")]
    for k, lens in enumerate(chunks(LONG, 3)):
        calls = []
        for n in lens:
            s = long_str(r, n, escaped)
            calls += [(0, {"query": [s]}), (1, {"query": [s, None, "3"]})]
        out.append(scenario(f"{prefix}{k}", procs, calls, plans=[QUIET] * 2, seg=SEGS[k % len(SEGS)]))
    return out


def path_many(prefix, r):
    """Many variables, long entry points."""
    out = []
    for n in (15, 16, 17, 25, 33, 64):
        tys = [r.choice(SCALARS + ["str", "new:str"]) for _ in range(n)]
        entry = [x for k in range(n) for x in ([None] if k % 3 else ["s%d" % k, None])]
        procs = [path_proc(tys, entry, "PUT"), path_proc(["u8"], ["x"] * n + [None] + ["y"] * n), path_proc(tys, None, "POST", True)]
        calls = [(i, {"path": [short_val(r, t) for t in (["u8"] if i == 1 else tys)]}) for i in (0, 1, 2, 0, 2)]
        out.append(scenario(f"{prefix}{n}", procs, calls, plans=[QUIET] * 3))
    return out


def short_val(r, t):
    while True:
        v = rand_val(r, t)
        if v is None or not isinstance(v, str) or (len(v.encode()) <= 24 and v not in (".", "..") and not set(v) & set("\t\r\n")):
            return v or v is False and v or (v if v != "" else "e")


def query_many(prefix, r):
    """Many fields."""
    out = []
    for n in (9, 15, 16, 17, 31, 32, 33, 64, 100):
        fields = [["f%d" % k, ("opt:" if r.random() < 0.4 else "") + r.choice(SCALARS + ["str"])] for k in range(n)]
        r.shuffle(fields)
        procs = [query_proc(fields), query_proc({"form": "map", "fields": [[x, "opt:u16"] for x, _ in fields]}, ("s",), "PUT")]
        calls = [(0, {"query": [short_val(r, t) for _, t in fields]}) for _ in range(3)] + [(1, {"query": [rand_val(r, "opt:u16") for _ in fields]}) for _ in range(2)]
        out.append(scenario(f"{prefix}{n}", procs, calls, plans=[QUIET] * 2))
    return out


# ---------------------------------------------------------------- query
QNAMES = ["q", "a", "b", "name", "x-y", "a b", "é", "a&b", "a=b", "k[]", "A", "0", "日本", "a%b", "a+b", "_", "query", "path"]


def query_proc(fields, entry=("s",), method="GET", path=None):
    return {"method": method, "entry": list(entry), "path": path, "query": fields, "body": "ignore"}


def query_boundary(prefix):
    out = []
    for t in SCALARS + ["new:str", "new:i64"]:
        vals = boundary(t)
        if t == "str":
            vals = vals + WORDS + ascii_each()
        procs = [query_proc([["q", t]]), query_proc([["a", "opt:" + t], ["b", "opt:str"]], ("s", None), "POST", ["str"]),
                 query_proc([["x", "opt:" + t], ["é&=", t], ["z", "opt:u8"]], ("s",), "PUT")]
        calls = []
        for v in vals:
            calls.append((0, {"query": [v]}))
            if t != "str" or v in STRINGS:
                calls.append((1, {"path": ["w"], "query": [v, None]}))
                calls.append((1, {"path": ["w"], "query": [None, "y"]}))
                calls.append((2, {"query": [v, v, "5"]}))
                calls.append((2, {"query": [None, v, None]}))
        for k, cs in enumerate(chunks(calls, 30)):
            out.append(scenario(f"{prefix}{t}-{k}", procs, cs, plans=[QUIET] * 3))
    # names
    calls, procs = [], []
    for k, grp in enumerate(chunks(QNAMES, 6)):
        procs.append(query_proc([[n, "opt:str"] for n in grp], ("n", str(k))))
        for mask in range(64):
            if mask % 7 == 0 or bin(mask).count("1") in (1, 5, 6):
                calls.append((k, {"query": [("v%d" % i if i % 2 else "") if mask >> i & 1 else None for i in range(len(grp))]}))
    procs.append(query_proc([], ("none",)))
    calls += [(len(procs) - 1, {"query": []})] * 2
    for k, cs in enumerate(chunks(calls, 30)):
        out.append(scenario(f"{prefix}names-{k}", procs, cs, plans=[QUIET] * len(procs)))
    return out


def rand_fields(r, names, n, scalars=SCALARS):
    names = r.sample(names, min(n, len(names)))
    return [[x, ("opt:" if r.random() < 0.5 else "") + ("new:" if r.random() < 0.1 else "") + r.choice(scalars + ["str", "str"])]
            for x in names]


def query_random(n, prefix, r, calls=14):
    out = []
    for k in range(n):
        procs = []
        for m in r.sample(METHODS, r.randint(1, 3)):
            nv = r.choice([0, 0, 1, 2])
            procs.append(query_proc(rand_fields(r, QNAMES, r.choice([1, 2, 3, 5, 8, 16])), ["s"] + [None] * nv, m,
                                    ["str"] * nv if nv else r.choice([None, "unit"])))
        cs = []
        for _ in range(calls):
            i = r.randrange(len(procs))
            nv = len(procs[i]["entry"]) - 1
            cs.append((i, {"path": ["v%d" % j for j in range(nv)],
                           "query": [rand_val(r, t) for _, t in procs[i]["query"]]}))
        out.append(scenario(f"{prefix}{k}", procs, cs, plans=[QUIET] * len(procs)))
    return out


def query_numbers(n, prefix, r, calls=10):
    """Queries which are maps from numbers."""
    out = []
    for k in range(n):
        names = sorted(set(r.choice([0, 1, -1, 7, 10, 2**31 - 1, -2**31, r.randint(-10**9, 10**9)]) for _ in range(r.randint(1, 8))))
        t = r.choice(["opt:str", "str", "opt:u64", "opt:bool", "i8", "f64"])
        fields = [[str(x), t] for x in names]
        p = query_proc({"form": "intmap", "fields": fields})
        cs = [(0, {"query": [rand_val(r, t) for _ in fields]}) for _ in range(calls)]
        out.append(scenario(f"{prefix}{k}", [p], cs, plans=[QUIET]))
    return out


# ---------------------------------------------------------------- headers
HNAMES = ["x-a", "x-b", "accept", "authorization", "x_c", "x.d", "a", "etag", "x-very-long-header-name-0123456789",
          "content-type", "user-agent", "cookie", "x!y", "x#y", "x~", "x'y", "x|y", "x^", "1", "x-z"]


def carriable(v):
    return True


def header_proc(req, resp, method="POST"):
    return {"method": method, "entry": ["h"], "header": req, "resp": {"struct": resp}, "body": "ignore"}


def header_case(id, cases, method="POST"):
    """cases: [(fields, request values, response values)]: one procedure per distinct list of fields."""
    procs, calls, ops_plans = [], [], []
    for fields, rq, rs in cases:
        tok_fields = fields + [["x-tokn", "str"]]
        n = len(procs)
        procs.append(dict(header_proc(tok_fields, fields, method), entry=["h", str(n)], tok=["header", len(fields)]))
        calls.append((n, {"header": rq + ["t%d" % n]}))
        ops_plans.append({"status": 200, "header": rs, "body": ""})
    return scenario(id, procs, calls, plans=ops_plans)


def header_boundary(prefix):
    out = []
    for t in SCALARS + ["new:str", "new:u16"]:
        vals = boundary(t)
        if t == "str":
            vals = vals + ascii_each() + [chr(c) + "a" for c in range(33)] + ["a" + chr(c) for c in range(33)]
        cases = []
        for v in vals:
            if t == "str":
                # request and response separately, so that a refused request does not hide the response
                cases.append(([["x-a", t]], [v], ["ok"]))
                cases.append(([["x-a", t]], ["ok"], [v]))
            else:
                cases.append(([["x-a", t], ["x-b", "opt:" + t]], [v, None], [v, v]))
                cases.append(([["x-a", t], ["x-b", "opt:" + t]], [v, v], [v, None]))
        for k, cs in enumerate(chunks(cases, 12)):
            out.append(header_case(f"{prefix}{t}-{k}", cs))
    return out


def header_many(prefix, r):
    """Many fields at once, all names."""
    out = []
    for n in (1, 5, 12, 20, 28):
        names = (HNAMES + ["h%d" % i for i in range(20)])[:n]
        cases = []
        for _ in range(4):
            fs = [[x, r.choice(["str", "opt:str", "u32", "opt:i64", "bool"])] for x in names]
            mk = lambda: [v if v is None or t not in ("str", "opt:str") else "v " + x for (x, t), v in
                          ((f, rand_val(r, f[1])) for f in fs)]
            cases.append((fs, mk(), mk()))
        out.append(header_case(f"{prefix}{n}", cases))
    return out


def header_long(prefix, r):
    out = []
    for k, lens in enumerate(chunks(LONG, 3)):
        cases = []
        for n in lens:
            s = long_str(r, n, lambda c: len(c.encode())).strip() or "z"
            fs = [["x-a", "opt:str"], ["x-b", "opt:str"]]
            cases += [(fs, [s, None], [None, "k"]), (fs, ["k", None], ["v", s]), (fs, [s[:n // 2], s[n // 2:].strip()], [s[n // 2:].strip(), s[:n // 2].strip()])]
            cases[-1][1][0] = cases[-1][1][0].strip()
        out.append(header_case(f"{prefix}{k}", cases))
    return out


def header_random(n, prefix, r):
    out = []
    for k in range(n):
        cases = []
        for _ in range(10):
            fs = rand_fields(r, HNAMES, r.choice([1, 2, 3, 6]))
            cases.append((fs, [rand_val(r, t) for _, t in fs], [rand_val(r, t) for _, t in fs]))
        out.append(header_case(f"{prefix}{k}", cases, r.choice(["GET", "POST", "PUT", "HEAD"])))
    return out


# ---------------------------------------------------------------- bodies
LENGTHS = [0, 1, 2, 3, 255, 256, 511, 512, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8095, 8096, 8097, 8191, 8192, 8193,
           16383, 16384, 16385, 65535, 65536, 65537]


def body_spec(r, n):
    if n <= 64 and r.random() < 0.5:
        return [r.choice([0, 10, 13, 32, 37, 127, 128, 255, r.randrange(256)]) for _ in range(n)]
    return {"len": n, "seed": r.randrange(1 << 30)}


BODY_STATUSES = [200] * 8 + [101, 102, 201, 202, 203, 204, 205, 206, 226, 300, 304, 307, 308, 400, 401, 404, 405, 409, 418, 500, 503]


def body_calls(n, prefix, r, lengths=LENGTHS, methods=("POST", "PUT", "GET", "DELETE", "PATCH"), big=()):
    """Request and response bodies of all lengths under different segmentations."""
    out = []
    segs = [None, [1], [2, 3], [7], [1000], [1024], [4096], [1, 5000], [8096], [64, 1, 1]]
    for k in range(n):
        ms = r.sample(list(methods), min(3, len(methods)))
        procs = [{"method": m, "entry": ["b", None], "path": ["str"], "tok": ["path", 0],
                  "resp": {"struct": [["x-tok", "opt:str"]]}} for m in ms]
        seg = r.choice(segs)
        cs, plans = [], {}
        for j in range(6):
            i = r.randrange(len(procs))
            a, b = r.choice(lengths), r.choice(lengths)
            if big and r.random() < 0.3:
                a = r.choice(big)
            if big and r.random() < 0.3:
                b = r.choice(big)
            sg = seg
            tok = f"t{j}"
            cs.append((i, {"path": [tok], "body": body_spec(r, a)}))
            plans[tok] = {"status": r.choice(BODY_STATUSES), "header": "tok", "body": "echo" if r.random() < 0.2 else body_spec(r, b)}
        if seg and max(seg) < 50:
            # short segments only for short bodies
            for _, args in cs:
                if args["body"] and not isinstance(args["body"], list) and args["body"]["len"] > 3000:
                    args["body"]["len"] %= 1500
            for p in plans.values():
                if isinstance(p["body"], dict) and p["body"]["len"] > 3000:
                    p["body"]["len"] %= 1500
        sc = scenario(f"{prefix}{k}", procs, cs, seg=seg, gap=r.choice([0, 1, 4]), pool=r.choice([None, 2]))
        sc["plans"] = plans
        out.append(sc)
    return out


# ---------------------------------------------------------------- many calls, faults
TOKPROC = {"entry": ["c", None], "path": ["str"], "tok": ["path", 0], "resp": {"struct": [["x-tok", "opt:str"]]}}


def tokprocs(ms=("POST", "GET", "PUT")):
    return [dict(TOKPROC, method=m) for m in ms]


def hurt(c):
    return {"op": "note", "ev": {"e": "hurt", "id": c}}


def concurrent(n, prefix, r, calls=12):
    """Calls to one or two servers, plain and pooled, whose handlers finish in any order."""
    out = []
    for k in range(n):
        procs = tokprocs()
        ops = [server([0, 1, 2], 0, "s"), {"op": "proxy", "id": "p", "addr": 1, "to": 0}]
        two = r.random() < 0.5
        if two:
            ops += [server([0, 1, 2], 2, "s2"), {"op": "proxy", "id": "p2", "addr": 3, "to": 2}]
        if r.random() < 0.3:
            ops[1].update(seg=[r.choice([1, 5, 40, 100])], gap=r.choice([0, 1, 2]))
        for q in ("P", "Q"):
            ops.append({"op": "pool", "id": q, "size": r.choice([0, 1, 2, 4, 50])})
        plans, open_ = {}, []
        alike = r.choice([None, None, 1, 5, 20, 100, 1000, 4000])
        j = 0
        while j < calls or open_:
            x = r.random()
            if j < calls and (x < 0.55 or not open_):
                c = f"t{j}"
                j += 1
                plans[c] = {"status": r.choice(BODY_STATUSES), "header": "tok", "hold": True,
                            "body": twin(r, c, alike) if alike else {"len": r.choice([0, 1, 20, 1000, 5000]), "seed": r.randrange(1 << 20)}}
                ops += call(c, r.randrange(3), {"path": [c], "body": twin(r, c, alike)}, addr=r.choice([1, 3]) if two else 1,
                            wait=False, pool=r.choice([None, "P", "P", "Q"]))
                open_.append(c)
                if r.random() < 0.3:
                    ops.append({"op": "wait_invoke", "tok": c})
            else:
                c = r.choice(open_)
                open_.remove(c)
                ops += [{"op": "wait_invoke", "tok": c}, {"op": "release", "tok": c}]
                if r.random() < 0.7:
                    ops.append({"op": "wait_call", "id": c})
        ops += [SETTLE, {"op": "pending"}]
        ops += [{"op": "wire", "id": "p"}] if not two else [{"op": "wire", "id": "p"}, {"op": "wire", "id": "p2"}]
        out.append({"id": f"{prefix}{k}", "procs": procs, "ops": ops, "plans": plans})
    return out


def storms(n, prefix, r):
    """Many calls on several threads in real time."""
    out = []
    for k in range(n):
        plans, lines = {}, []
        for j in range(r.choice([8, 16, 24])):
            line = []
            for i in range(r.choice([6, 12])):
                c = f"s{j}-{i}"
                d = {"id": c, "proc": r.randrange(3), "addr": r.randrange(2), "args": {"path": [c], "body": twin(r, c)}}
                if r.random() < 0.7:
                    d["pool"] = "P"
                plans[c] = {"status": r.choice([200, 200, 201, 404, 500]), "header": "tok", "body": twin(r, c)}
                line.append(d)
            lines.append(line)
        out.append({"id": f"{prefix}{k}", "procs": tokprocs(), "plans": plans, "ops": [
            {"op": "storm", "threads": r.choice([2, 4, 8]), "size": r.choice([0, 1, 4, 32]),
             "servers": [{"addr": 0, "procs": [0, 1, 2]}, {"addr": 1, "procs": [0, 1, 2]}], "lines": lines}]})
    return out


def crowd(prefix, r, sizes):
    """Many calls at once; all their handlers run before the first of them answers."""
    out = []
    for k, n in enumerate(sizes):
        ops = [server([0, 1, 2], 0, "s"), {"op": "proxy", "id": "p", "addr": 1, "to": 0}, {"op": "pool", "id": "P", "size": r.choice([1, 8, n // 2, n])}]
        plans = {}
        for turn in range(2):
            cs = [f"t{turn}-{j}" for j in range(n)]
            for c in cs:
                plans[c] = {"status": 200, "header": "tok", "hold": True, "body": twin(r, c, r.choice([2, 20]))}
                ops += call(c, r.randrange(3), {"path": [c], "body": twin(r, c, r.choice([1, 20]))}, addr=r.choice([0, 1]), wait=False, pool=r.choice([None, "P", "P", "P"]))
            order = list(cs)
            r.shuffle(order)
            ops += [{"op": "wait_invoke", "tok": c} for c in order] + [{"op": "release", "tok": c} for c in order]
            ops += [SETTLE, {"op": "pending"}]
        out.append({"id": f"{prefix}{k}-{n}", "procs": tokprocs(), "ops": ops, "plans": plans})
    return out


def proxy_cuts(prefix, direction, r, pooled=False, step=1, hows=("close", "reset", "half"), method="POST", body=4):
    """The transport between a real client and a real server fails at every byte; the next call goes by
    another proxy."""
    out = []
    n = 0
    # Request and response have about this many bytes.
    for how in hows:
        for at in range(0, 110, step):
            procs = tokprocs((method,))
            ops = [server([0]), {"op": "proxy", "id": "p", "addr": 1, "to": 0, "cut": [direction, at, how]},
                   {"op": "proxy", "id": "q", "addr": 2, "to": 0}, {"op": "pool", "id": "P", "size": 2}]
            ops += call("t0", 0, {"path": ["t0"], "body": "x" * body}, addr=1, wait=False, pool="P" if pooled else None)
            ops += [hurt("t0"), SETTLE, {"op": "pending"}]
            ops += call("t1", 0, {"path": ["t1"], "body": "yy"}, addr=2, pool="P" if pooled else None)
            ops += [SETTLE]
            out.append({"id": f"{prefix}{how}-{at}", "procs": procs, "ops": ops,
                        "plans": {"t0": {"status": 200, "header": "tok", "body": "r" * body}, "t1": {"status": 200, "header": "tok", "body": "s"}}})
            n += 1
    return out


def troubled(n, prefix, r):
    """Histories of calls to a real server with cancellations and failing transports, plain and pooled."""
    out = []
    for k in range(n):
        procs = tokprocs()
        ops = [server([0, 1, 2]), {"op": "proxy", "id": "p", "addr": 1, "to": 0}, {"op": "pool", "id": "P", "size": r.choice([0, 1, 2, 5])}]
        plans = {}
        live = []
        for j in range(10):
            c = f"t{j}"
            pool = r.choice([None, "P", "P"])
            x = r.random()
            plans[c] = {"status": r.choice([200, 404]), "header": "tok", "body": {"len": r.choice([0, 3, 2000]), "seed": j}}
            if x < 0.3:
                at = 10 + j
                ops.append({"op": "proxy", "id": f"x{j}", "addr": [2, j], "to": 0,
                            "cut": [r.choice(["up", "down"]), r.randrange(0, 120), r.choice(["close", "reset", "half"])]})
                ops += call(c, r.randrange(3), {"path": [c], "body": "z" * r.choice([0, 5, 60])}, addr=[2, j], wait=False, pool=pool)
                ops += [hurt(c), SETTLE]
            elif x < 0.55:
                plans[c]["hold"] = True
                ops += call(c, r.randrange(3), {"path": [c], "body": "z"}, addr=r.choice([0, 1]), wait=False, pool=pool)
                y = r.random()
                if y < 0.3:
                    ops += [{"op": "rounds", "n": r.choice([0, 1, 2, 3, 5, 8])}]
                else:
                    ops += [{"op": "wait_invoke", "tok": c}]
                ops += [{"op": "drop_call", "id": c}]
                if y >= 0.3 and r.random() < 0.7:
                    ops += [{"op": "release", "tok": c}]
            else:
                ops += call(c, r.randrange(3), {"path": [c], "body": "z" * 5}, addr=r.choice([0, 1]), pool=pool)
        ops += [SETTLE, {"op": "pending"}]
        out.append({"id": f"{prefix}{k}", "procs": procs, "ops": ops, "plans": plans})
    return out


# ---------------------------------------------------------------- all histories of MCCallGen
def replay(hist, r, id):
    procs = tokprocs()
    ops = [server([0, 1, 2]), {"op": "proxy", "id": "p", "addr": 1, "to": 0}, server([0, 1, 2], 2, "s2"),
           {"op": "pool", "id": "P", "size": r.choice([0, 1, 1, 2, 3])}]
    plans = {}
    eager = r.random() < 0.3
    alike = r.choice([None, 20, 100])
    for h in hist:
        e, c, k, w = h["e"], f"t{h['c']}", h["k"], h["w"]
        if e == "issue":
            plans[c] = {"status": r.choice(BODY_STATUSES), "header": "tok", "hold": k == "hold", "body": "" if r.random() < 0.2 else twin(r, c, alike)}
            ops += call(c, r.randrange(3), {"path": [".." if k == "unfit" else c], "body": "" if r.random() < 0.2 else twin(r, c, alike)},
                        addr=2 if w == "other" else 1, wait=False, pool=None if w == "plain" else "P")
        elif e == "release":
            ops += [{"op": "wait_invoke", "tok": c}, {"op": "release", "tok": c}]
        else:
            ops += [{"op": "drop_call", "id": c}]
        if not eager or (e == "issue" and k == "hold"):
            ops += [SETTLE, {"op": "pending"}]
    ops += [SETTLE, {"op": "pending"}]
    ops += call("z", 0, {"path": ["z"], "body": "zz"}, addr=1, pool="P") + [SETTLE, {"op": "pending"}]
    plans["z"] = {"status": 200, "header": "tok", "body": "z"}
    return {"id": id, "procs": procs, "ops": ops, "plans": plans}


def replays(hists, prefix, r):
    return [replay(h, r, f"{prefix}{k}") for k, h in enumerate(hists)]
