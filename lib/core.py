"""Orchestration: builds the harness, executes scenarios against the real code, lets TLC decide."""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
WORK = os.path.join(VERIF, "work")
BIN = os.path.join(HARNESS, "target", "debug", "htrpc-conformance")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
CORES = 8
STALL = 90      # seconds without a finished scenario after which the rest is taken to be stuck
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


class TlcTimeout(ToolError):
    pass


def thorough():
    return TIER == "thorough"


def scale(quick, deep):
    return deep if thorough() else quick


def source_hash():
    h = hashlib.sha256()
    for top in ("/repo/src", "/repo/Cargo.toml", os.path.join(HARNESS, "src"), os.path.join(HARNESS, "Cargo.toml")):
        files = [top] if os.path.isfile(top) else sorted(os.path.join(d, f) for d, _, fs in os.walk(top) for f in fs)
        for f in files:
            h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


def build():
    """Builds the harness from /repo's working tree.  Cargo goes by modification times, which say nothing
    in a copied tree; so what has been built is identified by its contents."""
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTFLAGS="-Awarnings", RUSTC_WRAPPER="",
               CARGO_TARGET_DIR=os.path.join(HARNESS, "target"))
    stamp, want = os.path.join(HARNESS, "target", "built-from"), source_hash()
    have = open(stamp).read() if os.path.exists(stamp) else ""
    if have == want and os.path.exists(BIN):
        return
    if os.path.exists(stamp):
        os.remove(stamp)
    if os.path.isdir(os.path.join(HARNESS, "target")):
        for pkg in ("htrpc", "htrpc-conformance"):
            subprocess.run(["cargo", "clean", "--offline", "--quiet", "-p", pkg], cwd=HARNESS, env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("the harness does not build:\n" + r.stdout[-4000:])
    with open(stamp, "w") as f:
        f.write(want)


# ------------------------------------------------------------------ executing scenarios
def _run_harness(scenarios, tag, threads, base, timeout):
    d = os.path.join(WORK, tag)
    os.makedirs(d, exist_ok=True)
    inp, out = os.path.join(d, "scenarios.ndjson"), os.path.join(d, "raw.ndjson")
    with open(inp, "w") as f:
        for s in scenarios:
            f.write(json.dumps(s) + "\n")
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ, HARNESS_BASE=str(base))
    p = subprocess.Popen([BIN, "run", inp, out, str(threads)], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    deadline, size, grown = time.time() + timeout, -1, time.time()
    code = None
    while code is None:
        try:
            code = p.wait(timeout=1)
        except subprocess.TimeoutExpired:
            now, n = time.time(), os.path.getsize(out) if os.path.exists(out) else 0
            if n != size:
                size, grown = n, now
            if now > deadline or now - grown > STALL:
                p.kill()
                p.wait()
                code = "timeout"
    done, started = {}, []
    if os.path.exists(out):
        for line in open(out, errors="replace"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if "start" in d:
                started.append(d["start"])
            else:
                done[d["id"]] = d["events"]
    return code, done, [s for s in started if s not in done]


def execute(scenarios, tag, threads=CORES, base=0, budget=400):
    """Runs the scenarios; returns {id: events}.  A crash of the whole process is attributed to the
    scenarios in flight, each of which is run again alone."""
    todo = list(scenarios)
    result = {}
    deadline = time.time() + budget
    crashes = 0
    while todo:
        code, done, flight = _run_harness(todo, tag, threads, base, max(30, deadline - time.time()))
        result.update(done)
        base += len(todo)
        if code == 0:
            break
        if code == "timeout":
            for f in flight:
                result[f] = [{"e": "stuck"}]
            break
        for f in flight:
            sc = [s for s in todo if s["id"] == f]
            code1, done1, _ = _run_harness(sc, tag + "-alone", 1, base, 150)
            base += 1
            result[f] = done1.get(f, [{"e": "crash"}]) if code1 == 0 else [{"e": "crash"}]
            if result[f] == [{"e": "crash"}]:
                crashes += 1
            if crashes >= 3:
                break
        todo = [s for s in todo if s["id"] not in result]
        if crashes >= 3 or not flight:
            break
    return result


# ------------------------------------------------------------------ TLC
def java(args, cwd, env=None, timeout=600, mem="2g"):
    cmd = ["java", "-Xss64m", "-Xmx" + mem, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-Dfile.encoding=UTF-8", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE"] + args
    try:
        r = subprocess.run(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise TlcTimeout("TLC timed out: " + " ".join(args))
    return r.returncode, r.stdout


def stats(out):
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def spec_dir(tag):
    """A scratch copy of the specifications (TLC writes beside them)."""
    d = os.path.join(WORK, tag, "spec")
    if os.path.isdir(d):
        shutil.rmtree(d)
    shutil.copytree(SPEC, d)
    return d


def model_check(tag, module, cfg, workers=CORES, timeout=None, mem="6g", extra=()):
    """Checks a design model exhaustively; it is part of the framework, so an error is a tool error."""
    d = spec_dir(tag)
    timeout = timeout or scale(150, 3000)
    rc, out = java(["-config", cfg, "-workers", str(workers), *extra, module], d, timeout=timeout, mem=mem)
    if rc != 0:
        raise ToolError(f"model {module}/{cfg} is not right (exit {rc}):\n" + out[-3000:])
    gen, dist = stats(out)
    shutil.rmtree(d, ignore_errors=True)
    return {"model": cfg[:-4], "states": dist, "transitions": gen}


def histories(tag, module, constants, timeout=600):
    """All histories of the environment which a generating model prints (as lists of steps)."""
    d = spec_dir(tag)
    with open(os.path.join(d, module + ".cfg"), "a") as f:
        f.write("CONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in constants.items()))
    rc, out = java(["-config", module + ".cfg", "-workers", str(CORES), module + ".tla"], d, timeout=timeout, mem="6g")
    if rc != 0:
        raise ToolError(f"{module}: TLC failed (exit {rc}):\n" + out[-2500:])
    hs = {json.loads(line)[5:] for line in out.splitlines() if line.startswith('"HIST ')}
    shutil.rmtree(d, ignore_errors=True)
    return [json.loads(h) for h in sorted(hs)], stats(out)


def validate(tag, module, records, shards=None, timeout=None):
    """Checks trace records against a trace specification; returns [(index, position)] of the rejected
    ones and the statistics."""
    if not records:
        return [], (0, 0)
    timeout = timeout or scale(240, 1800)
    d = spec_dir(tag)
    n = shards or max(1, min(CORES, len(records) // 12 + 1))
    # Deal the records out by size so that the shards take about the same time.
    order = sorted(range(len(records)), key=lambda i: -len(json.dumps(records[i])))
    parts = [order[k::n] for k in range(n)]

    late = []

    def one(k):
        part = parts[k]
        if not part:
            return [], (0, 0)
        path = os.path.join(d, f"traces{k}.ndjson")
        with open(path, "w") as f:
            for i in part:
                f.write(json.dumps(records[i]) + "\n")
        try:
            rc, out = java(["-config", module + ".cfg", "-workers", "1", "-metadir", os.path.join(d, f"meta{k}"),
                            module + ".tla"], d, env={"TRACES": path}, timeout=timeout)
        except TlcTimeout as e:
            late.append(e)
            return [], (0, 0)
        checked = re.findall(r'<<"CHECKED", (\d+)>>', out)
        if rc != 0 or not checked or int(checked[-1]) != len(part):
            keep = os.path.join(WORK, "tlc-failure.txt")
            open(keep, "w").write(out)
            raise ToolError(f"{module}: TLC failed (exit {rc}):\n" + out[-2500:])
        bad = [(part[int(a) - 1], int(b)) for a, b in re.findall(r'<<"REJECTED", (\d+), (\d+)>>', out)]
        return bad, stats(out)

    with concurrent.futures.ThreadPoolExecutor(CORES) as ex:
        res = list(ex.map(one, range(n)))
    bad = sorted(b for r in res for b in r[0])
    if late and not bad:
        raise late[0]
    gen, dist = sum(r[1][0] for r in res), sum(r[1][1] for r in res)
    shutil.rmtree(d, ignore_errors=True)
    return bad, (gen, dist)


# ------------------------------------------------------------------ schemas for TLA+
def cps(s):
    return [ord(c) for c in s]


def norm_type(s):
    o = 0
    c = []
    while True:
        if s.startswith("opt:"):
            o, s = 1, s[4:]
        elif s.startswith("new:"):
            s = s[4:]
        elif s.startswith("const:"):
            c, s = cps(s[6:]), "const"
        else:
            return {"o": o, "t": s, "c": c}


def norm_fields(fs):
    if isinstance(fs, dict):
        fs = fs["fields"]
    return [{"n": cps(n), "t": norm_type(t)} for n, t in (fs or [])]


def norm_proc(p):
    path = p.get("path")
    if isinstance(path, dict):
        path = list(path.values())[0]
    if not isinstance(path, list):
        path = []
    r = p.get("resp")
    resp = {"k": "struct", "header": [], "variants": []}
    if r is None:
        resp["header"] = norm_fields([["x-tok", "opt:str"]])
    elif r == "problem":
        resp["k"] = "problem"
    elif "struct" in r:
        resp["header"] = norm_fields(r["struct"])
    else:
        resp["k"] = "enum"
        resp["variants"] = [{"n": v[0], "s": v[1], "header": norm_fields(v[2] if len(v) > 2 else [])}
                            for v in r["enum"]]
    b = p.get("body")
    return {"method": p["method"],
            "entry": [{"k": "var", "x": []} if s is None else {"k": "lit", "x": cps(s)} for s in p["entry"]],
            "path": [norm_type(t) for t in path],
            "query": norm_fields(p.get("query")), "header": norm_fields(p.get("header")),
            "body": "all" if b is None else "ignore" if b == "ignore" else "part",
            "bodyn": b if isinstance(b, int) else 0,
            "resp": resp}


def record(sc, events):
    return {"id": sc["id"], "procs": [norm_proc(p) for p in sc.get("procs", [])],
            "lits": sc.get("lits", []), "meta": sc.get("meta", {"x": 0}), "events": events}


def bare(ev):
    """An event without the text of its error (it names source lines)."""
    return {k: v for k, v in ev.items() if k != "err"}


def known_finding(prop, family, sc, ev, pos):
    """The description of the listed finding which is exactly this rejection, if any."""
    for k in json.load(open(os.path.join(VERIF, "known_findings.json"))):
        if (k["property"], k["family"], k["scenario"]) == (prop, family, sc["id"]) and pos <= len(ev) and bare(ev[pos - 1]) == k["event"]:
            return k["what"]
    return None


# ------------------------------------------------------------------ a check
class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.models = []
        self.traces = 0
        self.events = 0
        self.tstates = 0
        self.ttrans = 0
        self.families = {}
        self.samples = []
        self.violations = []
        self.notes = []
        self.distinct = set()
        self.assumptions = []
        self.known = []

    def log(self, msg):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s] {msg}", flush=True)

    def model(self, module, cfg, **kw):
        if self.violations:
            return None
        try:
            r = model_check(f"{self.prop}-{cfg[:-4]}", module, cfg, **kw)
        except TlcTimeout:
            if thorough():
                raise
            # The models do not depend on the code under test, and a slow machine is no reason to stop here.
            self.notes.append(f"model {cfg[:-4]}: not finished in time on this machine")
            return None
        self.models.append(r)
        self.log(f"model {r['model']}: {r['states']} states, {r['transitions']} transitions")
        return r

    def histories(self, module, sample=None, **constants):
        """The histories of a generating model; with `sample`, that many of them."""
        if self.violations:
            return []
        hs, (gen, dist) = histories(f"{self.prop}-{module}", module, constants)
        self.models.append({"model": module, "constants": {k: str(v) for k, v in constants.items()}, "states": dist,
                            "transitions": gen, "histories": len(hs)})
        if sample and len(hs) > sample:
            import random
            all_, hs = hs, random.Random(f"{SEED}:{self.prop}:{module}").sample(hs, sample)
            self.log(f"{module}: {len(hs)} of {len(all_)} histories")
        else:
            self.log(f"{module}: all {len(hs)} histories")
        return hs

    def conform(self, family, module, scenarios, threads=CORES, confirm=True):
        """Executes scenarios and validates the recorded traces.  After a violation, nothing more is explored."""
        if self.violations:
            self.notes.append(f"{family}: not explored any more after the violation")
            return []
        if not scenarios:
            raise ToolError(f"{family}: no scenarios")
        ids = [s["id"] for s in scenarios]
        assert len(set(ids)) == len(ids), "duplicate scenario ids"
        tag = f"{self.prop}-{family}"
        t = time.time()
        res = execute(scenarios, tag, threads)
        t_run = time.time() - t
        recs, scs, errors = [], [], []
        for s in scenarios:
            ev = res.get(s["id"])
            if ev is None:
                continue
            err = [e for e in ev if e["e"] == "harness_error"]
            if err:
                ev = self.retry(s, tag)
                if ev is None:
                    errors.append(f"{s['id']}: {err[0]['m']}")
                    if len(errors) > 5:
                        break
                    continue
            recs.append(record(s, ev))
            scs.append(s)
        if not recs:
            raise ToolError(f"{family}: no traces" + "".join("; " + e for e in errors))
        t = time.time()
        bad, (gen, dist) = validate(tag, module, recs)
        self.log(f"{family}: {len(recs)} of {len(scenarios)} traces, {sum(len(r['events']) for r in recs)} events; "
                 f"{len(bad)} rejected (run {t_run:.1f}s, TLC {time.time() - t:.1f}s)")
        self.traces += len(recs)
        self.events += sum(len(r["events"]) for r in recs)
        self.tstates += dist
        self.ttrans += gen
        self.families[family] = {"scenarios": len(scenarios), "traces": len(recs), "module": module}
        for r in recs:
            self.distinct.add(hashlib.md5(json.dumps([r["procs"], r["events"]], sort_keys=True).encode()).hexdigest())
        if recs:
            r = recs[min(len(recs) - 1, (SEED * 7919) % len(recs))]
            self.samples.append({"family": family, "scenario": r["id"],
                                 "events": [shorten(e) for e in r["events"][:12]]})
        confirmed = 0
        for i, pos in bad:
            if confirmed >= 3 or confirmed and time.time() - self.t0 > 240:
                break
            sc, ev = scs[i], recs[i]["events"]
            k = known_finding(self.prop, family, sc, ev, pos)
            if k:
                self.known.append(k)
                continue
            if confirm:
                ok = None
                for k in range(4):
                    res = execute([sc], tag + "-confirm", 1, 20000 + 10 * confirmed + k, 60)
                    ev2 = res.get(sc["id"], [{"e": "crash"}])
                    if any(e["e"] == "harness_error" for e in ev2):
                        continue
                    b, _ = validate(tag + "-confirm", module, [record(sc, ev2)])
                    if b:
                        ok = (ev2, b[0][1])
                        break
                if ok is None:
                    self.notes.append(f"{sc['id']}: a rejected trace could not be reproduced in 4 runs")
                    self.log(f"{sc['id']}: rejection at event {pos} not reproducible: "
                             + json.dumps(ev[pos - 1] if pos <= len(ev) else None)[:300])
                    keep = os.path.join(WORK, "unconfirmed-%s.json" % re.sub(r"[^\w-]", "_", sc["id"]))
                    json.dump({"scenario": sc, "trace": ev, "at": pos}, open(keep, "w"))
                    continue
                ev, pos = ok
            confirmed += 1
            self.violation(family, module, sc, ev, pos)
        if errors and not self.violations:
            raise ToolError("; ".join(errors))
        return recs

    def retry(self, sc, tag):
        for k in range(5):
            time.sleep(0.3)
            res = execute([sc], tag + "-retry", 1, 30000 + 7 * k, 60)
            ev = res.get(sc["id"])
            if ev is not None and not any(e["e"] == "harness_error" for e in ev):
                return ev
        return None

    def violation(self, family, module, sc, ev, pos):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        name = re.sub(r"[^\w-]", "_", f"{self.prop}-{family}-{sc['id']}")[:120] + ".json"
        path = os.path.join(d, name)
        e = ev[pos - 1] if pos <= len(ev) else {"e": "(end)"}
        with open(path, "w") as f:
            json.dump({"property": self.prop, "family": family, "module": module, "scenario": sc,
                       "rejected_at": pos, "rejected_event": e, "trace": ev}, f, indent=1)
        self.violations.append((sc["id"], pos, e, path))
        self.log(f"REJECTED {sc['id']} at event {pos}: {json.dumps(shorten(e))[:600]}")

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {
            "property": self.prop, "tier": "thorough" if thorough() else "quick", "seed": SEED,
            "level": "model_checking",
            "coverage": {
                "states": sum(m["states"] for m in self.models) + self.tstates,
                "transitions": sum(m["transitions"] for m in self.models) + self.ttrans,
                "traces_validated_against_impl": self.traces,
                "distinct_traces": len(self.distinct),
                "events_validated": self.events,
                "models": self.models,
                "families": self.families,
                "samples": self.samples[:6],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in sorted(set(self.known)):
            print(f"KNOWN-FINDING: property={self.prop} {k}", flush=True)
        for v in self.violations[:1]:
            print(f"VIOLATION property={self.prop} replay={v[3]}", flush=True)
        return 1 if self.violations else 0


def shorten(e):
    """Code point sequences as text, for reading."""
    if isinstance(e, list):
        if e and all(isinstance(x, int) and (32 <= x < 0x110000) for x in e):
            return "".join(chr(x) for x in e)
        return [shorten(x) for x in e]
    if isinstance(e, dict):
        return {k: shorten(v) for k, v in e.items()}
    return e
