#!/usr/bin/env python3
"""Tests the framework itself (no check uses it): models of broken specifications must fail, and damaged
traces must be rejected.  selftest.py [models] [traces]"""
import copy
import json
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import core
import gen_call
import gen_pool
import gen_server
import gen_helper

# (module to break, what is there, what comes instead, model, configuration)
BROKEN = [
    ("Pool.tla", "![x].st = Over(@), ![x].call = <<>>]\n  /\\ UNCHANGED <<pool, idle, block, net, now>>",
     "![x].st = \"idle\", ![x].call = <<>>]\n  /\\ idle' = (IF calls[c].conn >= 0 /\\ calls[c].st \\notin {\"ok\", \"err\", \"left\"} THEN Append(idle, calls[c].conn) ELSE idle)\n  /\\ UNCHANGED <<pool, block, net, now>>",
     "MCSystem", "MCSystem.cfg"),
    ("Pool.tla", "/\\ idle' = Without(idle, x)", "/\\ idle' = idle", "MCPool", "MCPoolReuse.cfg"),
    ("Pool.tla", "IF Len(all) > pool.size", "IF Len(all) > pool.size + 1", "MCPool", "MCPoolReuse.cfg"),
    ("Pool.tla", "~Suspended(a) /\\ IdleFor(a) = {}", "IdleFor(a) = {}", "MCPool", "MCPoolTime.cfg"),
    ("Pool.tla", "~calls[c].got /\\ ~calls[c].unfit", "~calls[c].unfit", "MCSystem", "MCSystem.cfg"),
    ("Pool.tla", "conns[x].st = \"new\" /\\ conns[x].addr = calls[c].addr", "conns[x].st \\in {\"new\", \"gone\"} /\\ conns[x].addr = calls[c].addr", "MCSystem", "MCSystem.cfg"),
    ("Server.tla", "!.st = \"run\", !.i = <<i>>]", "!.st = \"sent\", !.i = <<i>>]", "MCServer", "MCServer.cfg"),
    ("Server.tla", "ELSE \"idle\", !.q = <<>>, !.i = <<>>, !.a = <<>>]", "ELSE \"sent\", !.i = <<>>, !.a = <<>>]", "MCSystem", "MCSystem.cfg"),
    ("Server.tla", "  \\/ cn.fin\n", "  \\/ cn.st = \"sent\"\n", "MCServer", "MCServer.cfg"),
    ("Call.tla", "/\\ c \\in Known /\\ calls[c].i = <<>>", "/\\ c \\in Known", "MCCall", "MCCall.cfg"),
]


def models():
    bad = 0
    for k, (f, old, new, module, cfg) in enumerate(BROKEN):
        d = core.spec_dir(f"selftest{k}")
        p = os.path.join(d, f)
        s = open(p).read()
        assert s.count(old) >= 1, (k, f, old)
        open(p, "w").write(s.replace(old, new, 1))
        rc, out = core.java(["-config", cfg, "-workers", str(core.CORES), module + ".tla"], d, timeout=600, mem="6g")
        found = [x for x in out.splitlines() if "is violated" in x or "Temporal properties were violated" in x or "was violated" in x]
        print(f"model {k}: {f} -> {cfg}: " + (found[0] if found else f"NOT NOTICED (exit {rc})"), flush=True)
        if not found:
            bad += 1
            print(out[-600:])
    return bad


def damage(r, ev):
    """Makes one change to a trace, of a kind that always matters."""
    ev = copy.deepcopy(ev)
    at = lambda *es: [i for i, e in enumerate(ev) if e["e"] in es]
    kinds = []
    if at("resp"):
        kinds += ["status"]
    if at("invoke"):
        kinds += ["twice", "lose-invoke"]
    if at("ret"):
        kinds += ["flip-ret"]
    if at("ret") and at("quiet"):
        kinds += ["lose-ret"]
    if at("saccept"):
        kinds += ["another-conn"]
    if at("sreq"):
        kinds += ["sreq-twice"]
    if at("sclosed"):
        kinds += ["lose-sclosed"]
    if not kinds:
        return None, None
    k = r.choice(kinds)
    if k == "status":
        e = ev[r.choice(at("resp"))]
        e["status"] = 299 if e["status"] != 299 else 298
    elif k == "twice":
        i = r.choice(at("invoke"))
        ev.insert(i + 1, copy.deepcopy(ev[i]))
    elif k == "lose-invoke":
        del ev[r.choice(at("invoke"))]
    elif k == "lose-ret":
        del ev[r.choice(at("ret"))]
    elif k == "flip-ret":
        e = ev[r.choice(at("ret"))]
        e["ok"] = 1 - e["ok"]
        if e["ok"]:
            e.setdefault("status", 200), e.setdefault("tok", "x")
    elif k == "another-conn":
        i = r.choice(at("saccept"))
        e = copy.deepcopy(ev[i])
        e["conn"] = 100000
        ev.insert(i + 1, e)
    elif k == "sreq-twice":
        i = r.choice(at("sreq"))
        ev.insert(i + 1, copy.deepcopy(ev[i]))
    elif k == "lose-sclosed":
        del ev[r.choice(at("sclosed"))]
    return k, ev


def traces():
    core.build()
    r = random.Random(core.SEED)
    bad = 0
    for name, module, scs in (
            ("pool", "PoolTrace", gen_pool.random(60, "p", r, mix=gen_pool.REUSE)),
            ("faults", "PoolTrace", gen_pool.random(60, "f", r, mix=gen_pool.FAULTS)),
            ("sequences", "ServerTrace", gen_server.sequences(60, "s", r)),
            ("hostile", "ServerTrace", gen_server.hostile(60, "h", r)),
            ("calls", "CallTrace", gen_call.concurrent(40, "c", r)),
            ("paths", "CallTrace", gen_call.path_random(60, "q", r))):
        res = core.execute(scs, "selftest-" + name, core.CORES)
        recs, kinds = [], []
        for s in scs:
            ev = res[s["id"]]
            for _ in range(4):
                k, e = damage(r, ev)
                if k:
                    recs.append(core.record(s, e))
                    kinds.append(k)
        rejected = {i for i, _ in core.validate("selftest-" + name, module, recs)[0]}
        total, miss = {}, {}
        for i, k in enumerate(kinds):
            total[k] = total.get(k, 0) + 1
            if i not in rejected:
                miss[k] = miss.get(k, 0) + 1
                if miss[k] == 1:
                    json.dump(recs[i], open(os.path.join(core.WORK, f"selftest-{name}-{k}.json"), "w"), indent=1)
        print(f"{name}: {len(rejected)} of {len(recs)} damaged traces rejected; accepted: "
              + (", ".join(f"{k} {n}/{total[k]}" for k, n in sorted(miss.items())) or "none"), flush=True)
        bad += len(miss)
    return bad


what = sys.argv[1:] or ["models", "traces"]
n = 0
if "models" in what:
    n += models()
if "traces" in what:
    n += traces()
print("selftest:", "ok" if n == 0 else f"{n} to look at")
