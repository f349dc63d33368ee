"""Scenarios for response variants, statuses and problem documents."""
import os
import re
from core import SPEC
from gen_call import call, chunks, scenario, VIA
from scen import *
from values import *

CODES = {n: int(c) for n, c in re.findall(r"(\w+) \|-> (\d+)", open(os.path.join(SPEC, "Status.tla")).read())}
NAMES = list(CODES)
FIELDS = [["x-a", "opt:str"], ["x-n", "u32"]]


def plan_for(r, name, shape):
    p = {"v": name, "header": [], "body": {"len": r.choice([0, 1, 30]), "seed": r.randrange(99)}}
    if shape == "struct":
        p["header"] = [r.choice([None, "v w"]), str(r.randrange(1 << 20))]
    elif shape == "inner":
        p["header"] = [r.choice([None, "z"]), str(r.randrange(1 << 20))]
        p["status"] = CODES[name]
    elif shape == "problem":
        p["problem"] = {"kind": "about", "status": CODES[name]}
    return p


def variant(name, shape):
    return [name, shape, FIELDS] if shape in ("struct", "inner") else [name, shape]


def variants(prefix, r, method="POST", names=NAMES):
    """Every variant in every shape, in enums of different make-up."""
    out = []
    for shape in ("unit", "struct", "problem", "inner"):
        for k, grp in enumerate(chunks(names, 10)):
            enum = [variant(n, shape) for n in grp]
            r.shuffle(enum)
            procs = [{"method": method, "entry": ["v", None], "path": ["str"], "tok": ["path", 0], "body": "ignore", "resp": {"enum": enum}}]
            plans, calls = {}, []
            for j, n in enumerate(grp):
                plans[f"t{j}"] = plan_for(r, n, shape)
                if shape == "unit":
                    plans[f"t{j}"].pop("body")
                calls.append((0, {"path": [f"t{j}"]}))
            sc = scenario(f"{prefix}{shape}-{k}", procs, calls)
            sc["plans"] = plans
            out.append(sc)
    return out


def mixed(n, prefix, r, methods=METHODS):
    out = []
    for k in range(n):
        names = r.sample(NAMES, r.randint(1, 8))
        enum = [variant(x, r.choice(["unit", "struct", "problem", "inner", "struct"])) for x in names]
        shapes = {v[0]: v[1] for v in enum}
        m = r.choice(methods)
        procs = [{"method": m, "entry": ["v", None], "path": ["str"], "tok": ["path", 0], "body": "ignore", "resp": {"enum": enum}}]
        plans, calls = {}, []
        for j in range(10):
            n_ = r.choice(names)
            plans[f"t{j}"] = plan_for(r, n_, shapes[n_])
            if shapes[n_] == "unit":
                plans[f"t{j}"].pop("body")
            calls.append((0, {"path": [f"t{j}"]}))
        sc = scenario(f"{prefix}{k}", procs, calls, pool=r.choice([None, 1]))
        sc["plans"] = plans
        out.append(sc)
    return out


def numeric(prefix, r):
    """Numeric statuses of struct responses: all the registered ones and others."""
    out = []
    codes = sorted(set(list(CODES.values()) + [299, 399, 418, 420, 451, 499, 599]))
    for k, grp in enumerate(chunks(codes, 12)):
        procs = [{"method": "POST", "entry": ["s", None], "path": ["str"], "tok": ["path", 0], "body": "ignore"}]
        plans = {f"t{c}": {"status": c, "header": "tok", "body": "b%d" % c} for c in grp}
        sc = scenario(f"{prefix}{k}", procs, [(0, {"path": [f"t{c}"]}) for c in grp])
        sc["plans"] = plans
        out.append(sc)
    return out


def cross(n, prefix, r):
    """The caller's type differs from that of the handler: other variants, other fields, struct against enum."""
    out = []
    for k in range(n):
        names = r.sample(NAMES, 6)
        mk = lambda xs: {"enum": [variant(x, r.choice(["unit", "struct", "struct", "inner"])) for x in xs]}
        srv = mk(names[:4])
        for v in srv["enum"]:
            if v[1] in ("struct", "inner") and r.random() < 0.3:
                v[2] = [["x-a", "opt:str"], ["x-n", "i64"], ["x-more", "str"]]
        cl = r.choice([mk(names[1:]), mk(names[:4]), {"struct": r.choice([[], FIELDS, [["x-n", "opt:u8"]]])}, "problem"])
        procs = [{"method": "POST", "entry": ["v", None], "path": ["str"], "tok": ["path", 0], "body": "ignore", "resp": srv},
                 {"method": "POST", "entry": ["v", None], "path": ["str"], "tok": ["path", 0], "body": "ignore", "resp": cl}]
        plans, ops = {}, [server([0]), dict(VIA[0])]
        for j in range(8):
            v = r.choice(srv["enum"])
            p = plan_for(r, v[0], v[1])
            if v[1] == "unit":
                p.pop("body")
            elif len(v[2]) == 3:
                p["header"] = [None, str(r.choice([-5, 7, 300, 1 << 40])), "m"]
            plans[f"t{j}"] = p
            ops += call(f"k{j}", 1, {"path": [f"t{j}"]})
        out.append({"id": f"{prefix}{k}", "procs": procs, "ops": ops, "plans": plans})
    return out


def foreign(n, prefix, r):
    """A raw server answers with arbitrary statuses and headers."""
    out = []
    for k in range(n):
        names = r.sample(NAMES, r.randint(1, 5))
        resp = r.choice([{"enum": [variant(x, r.choice(["unit", "struct"])) for x in names]}, {"struct": FIELDS},
                         {"struct": []}, {"struct": [["x-b", "bool"], ["x-s", "opt:str"]]}])
        m = r.choice(["POST", "GET", "PUT"])
        procs = [{"method": m, "entry": ["v", None], "path": ["str"], "tok": ["path", 0], "resp": resp}]
        ops = [{"op": "listen", "id": "l", "addr": 1}]
        for j in range(6):
            c = f"k{j}"
            st = CODES[r.choice(names)] if r.random() < 0.6 else r.choice(list(CODES.values()) + [199, 250, 299, 333, 420, 499, 599, 600, 999])
            hs = []
            if r.random() < 0.8:
                hs.append([r.choice(["x-n", "X-N", "X-n"]), r.choice(["7", "0", "4294967295", "4294967296", "-1", "x", "", "1.5"])])
            if r.random() < 0.5:
                hs.append([r.choice(["x-a", "X-A"]), r.choice(["", "v", "a b", "é"])])
            if r.random() < 0.6:
                hs.append(["x-b", r.choice(["true", "false", "1", "True"])])
            if r.random() < 0.4:
                hs.append(["x-s", "s%d" % j])
            if r.random() < 0.4:
                hs += [["Server", "raw"], ["x-unknown", "1"]]
            r.shuffle(hs)
            seg = {} if r.random() < 0.6 else {"seg": [r.randint(1, 30)] * 10, "gap": 1}
            ops += call(c, 0, {"path": [c], "body": "b" * r.randint(0, 5)}, wait=False)
            ops += [{"op": "reply", "tok": c, "status": st, "reason": r.choice(["OK", "Whatever", "x y z"]), "headers": hs,
                     "body": {"len": r.choice([0, 0, 5, 2000]), "seed": j}, **seg},
                    {"op": "wait_call", "id": c}]
        out.append({"id": f"{prefix}{k}", "procs": procs, "ops": ops})
    return out


# ---------------------------------------------------------------- problem documents
TITLES = ["", "t", "Not Found", "é \"quoted\" \\ / \n \t \u0000 \u001f \u2028 😀", "x" * 300, "{\"status\": 200}", "null",
          "y\n" * 700, "é" * 2500, "z" * 20000]


def rand_problem(r, codes, status=None):
    st = status or r.choice(codes)
    if r.random() < 0.5:
        p = {"kind": "about", "status": st}
        if r.random() < 0.5:
            p["title"] = r.choice(TITLES)
        return p
    if r.random() < 0.4:
        p = {"kind": "error", "status": st, "text": r.choice(TITLES)}
        if r.random() < 0.6:
            p["source"] = r.choice(TITLES)
        if r.random() < 0.7:
            p["events"] = [r.choice(TITLES) for _ in range(r.choice([0, 1, 2, 3, 20, 70]))]
        return p
    p = {"kind": "trackable", "status": st, "cause": r.choice(["c", "é\n", ""]), "title": r.choice(TITLES)}
    if r.random() < 0.6:
        p["detail"] = r.choice(TITLES)
    if r.random() < 0.5:
        p["instance"] = r.choice(["http://h/p?q=1#f", "urn:x:y", "https://example.com/%20"])
    if r.random() < 0.6:
        p["history"] = [r.choice(TITLES) for _ in range(r.choice([0, 1, 2, 3, 40]))]
    return p


def problems(n, prefix, r):
    codes = list(CODES.values())
    out = []
    for k in range(n):
        shape = r.choice(["problem", "enum"])
        names = r.sample(NAMES, 6)
        resp = "problem" if shape == "problem" else {"enum": [[x, "problem"] for x in names]}
        m = r.choice(["GET", "POST", "HEAD", "DELETE"])
        procs = [{"method": m, "entry": ["v", None], "path": ["str"], "tok": ["path", 0], "body": "ignore", "resp": resp}]
        plans, calls = {}, []
        for j in range(8):
            x = r.choice(names)
            st = CODES[x] if shape == "enum" else None
            p = rand_problem(r, codes, st)
            if r.random() < 0.4:
                p["then"] = rand_problem(r, codes, st)
            plans[f"t{j}"] = {"v": x if shape == "enum" else "", "problem": p}
            calls.append((0, {"path": [f"t{j}"]}))
        sc = scenario(f"{prefix}{k}", procs, calls)
        sc["plans"] = plans
        out.append(sc)
    return out


def problem_each(prefix):
    """Every status, made directly and by replacement."""
    out = []
    procs = [{"method": "POST", "entry": ["v", None], "path": ["str"], "tok": ["path", 0], "body": "ignore", "resp": "problem"}]
    for k, grp in enumerate(chunks(list(CODES.values()), 10)):
        plans, calls = {}, []
        for i, c in enumerate(grp):
            other = grp[i - 1]
            for tag, p in (("a", {"kind": "about", "status": c}),
                           ("t", {"kind": "trackable", "status": c, "title": "T", "detail": "D", "history": []}),
                           ("e", {"kind": "error", "status": c, "text": "é", "source": "s" * 70, "events": ["a", "b"]}),
                           ("r", {"kind": "about", "status": other, "then": {"kind": "about", "status": c}}),
                           ("s", {"kind": "about", "status": other, "then": {"kind": "trackable", "status": c, "title": "x"}}),
                           ("u", {"kind": "trackable", "status": c, "title": "x", "then": {"kind": "about", "status": other}})):
                plans[f"{tag}{c}"] = {"v": "", "problem": p}
                calls.append((0, {"path": [f"{tag}{c}"]}))
        sc = scenario(f"{prefix}{k}", procs, calls)
        sc["plans"] = plans
        out.append(sc)
    return out
