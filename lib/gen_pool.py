"""Scenarios for plain clients and the pool, with raw peers under the control of the scenario."""
from scen import *
from values import twin

QUIET = {"op": "quiet"}
PROCS = [{"method": "POST", "entry": ["c", None], "path": ["str"], "tok": ["path", 0],
          "resp": {"struct": [["x-tok", "opt:str"]]}},
         {"method": "PUT", "entry": ["c", None], "path": ["str"], "tok": ["path", 0],
          "resp": {"struct": [["x-tok", "str"], ["x-n", "u8"]]}},
         {"method": "HEAD", "entry": ["c", None], "path": ["str"], "tok": ["path", 0],
          "resp": {"struct": [["x-tok", "opt:str"]]}}]
PROCS += [dict(PROCS[0], method=m) for m in ("GET", "DELETE", "PATCH", "OPTIONS", "TRACE", "CONNECT")]
# Addresses which differ in the port only, in the host only, or in both.
ADDRS = [[0, 0], [0, 1], [1, 0], [1, 1]]


def listen(a):
    return {"op": "listen", "id": f"l{a}", "addr": ADDRS[a]}


def unlisten(a):
    return {"op": "unlisten", "id": f"l{a}", "addr": ADDRS[a]}


def hang(a):
    return {"op": "hang", "id": f"l{a}", "addr": ADDRS[a]}


def issue(c, a, pool="P", body="", proc=0, unfit=False):
    d = {"op": "call", "id": c, "proc": proc, "addr": ADDRS[a], "args": {"path": [".." if unfit else c], "body": body}}
    if pool:
        d["pool"] = pool
    return d


STATUSES = [200] * 10 + [201, 202, 203, 206, 226, 300, 301, 302, 303, 307, 308, 400, 401, 403, 404, 404, 405, 409, 410, 418, 429, 451, 500, 500, 501, 503, 511]
NOISE = [["Server", "s/1.0"], ["date", "Tue, 17 Nov 2026 22:28:00 GMT"], ["Cache-Control", "no-cache"], ["X-Unknown", ""], ["ETag", "\"x\""],
         ["Connection", "keep-alive"], ["Content-Type", "text/plain"], ["Vary", "*"], ["x-z", "\u00e9"]]


def good(c, r, proc=0, **kw):
    d = {"op": "reply", "tok": c, "if": True, "status": r.choice(STATUSES),
         "headers": [["X-Tok", c]] + ([["x-n", "7"]] if proc == 1 else []), "body": twin(r, c)}
    if r.random() < 0.3:
        d["headers"] += r.sample(NOISE, r.randint(1, 4))
        r.shuffle(d["headers"])
    if proc == 2:
        d["nobody"] = True
    d.update(kw)
    return d


def unreadable(c, r, proc):
    """A complete response which does not fit the type of the caller (procedure 1)."""
    return good(c, r, proc, headers=r.choice([[], [["x-tok", c]], [["x-tok", c], ["x-n", "256"]], [["x-n", "1"]], [["x-tok", c], ["x-n", ""]]]))


JUNK = ["garbage\r\n\r\n", "HTTP/1.1 abc OK\r\n\r\n", "\u0000\u0001\u0002\r\n\r\n", "GET / HTTP/1.1\r\n\r\n",
        "HTTP/1.1 200 OK\r\nBad Header\r\n\r\n", "HTTP/1.1 99999 OK\r\n\r\n"]
JUNK_CL = ["HTTP/1.1 200 OK\r\nContent-Length: %s\r\n\r\n" % x for x in ("x", "-1", "99999999999999999999999", "1 2")]


def junk(c, r, proc=0):
    """Something that is no response (a HEAD response is read without its Content-Length)."""
    return {"op": "reply", "tok": c, "if": True, "kind": "junk", "raw": r.choice(JUNK if proc == 2 else JUNK + JUNK_CL)}


def sclose(c, how="close"):
    return {"op": "sclose", "tok": c, "how": how, "if": True}


def sclose_conn(k, how="close"):
    return {"op": "sclose", "conn": k, "how": how, "if": True}


def cancel(c):
    return {"op": "drop_call", "id": c}


def tick(ms):
    return {"op": "tick", "ms": ms}


def pool(size, suspend=1000, timeout=300):
    return {"op": "pool", "id": "P", "size": size, "suspend": suspend, "timeout": timeout}


def sc(id, ops, size=1):
    return {"id": id, "procs": PROCS, "ops": ops}


class Gen:
    """Random histories; knows roughly what is going on so that the steps are interesting."""

    def __init__(self, r, addrs=2, mix=None, settled=True, racy=0.0, size=None, procs=(0, 0, 0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8)):
        self.r = r
        self.addrs = addrs
        self.racy = racy
        self.k = 0
        self.live = []
        self.net = {}
        self.susp = r.choice([10, 500, 1000, 1500, 60000])
        self.tmo = r.choice([50, 300, 1000, 1700, 45000])
        self.size = r.choice([0, 1, 1, 2, 2, 3, 4]) if size is None else size
        self.mix = mix or {}
        self.ops = []
        self.proc = {}
        self.procs = procs
        for a in range(addrs):
            self.net[a] = "up"
            self.ops.append(listen(a))
        self.ops.append(pool(self.size, self.susp, self.tmo))

    def quiet(self, force=False):
        if force or self.r.random() >= self.racy:
            self.ops.append(QUIET)
        elif self.r.random() < 0.3:
            self.ops.append({"op": "rounds", "n": self.r.choice([1, 2, 5])})

    def new(self, a=None, pooled=None):
        c = f"k{self.k}"
        self.k += 1
        a = self.r.randrange(self.addrs) if a is None else a
        p = None if (pooled is None and self.r.random() < self.mix.get("plain", 0.08)) else "P"
        if p is None and self.net[a] == "hang":
            p = "P"
        n = self.r.choice(self.procs)
        unfit = self.r.random() < self.mix.get("unfit", 0.04)
        self.ops.append(issue(c, a, p, self.r.choice(["", "x", twin(self.r, c, 25), twin(self.r, c)]), n, unfit))
        self.proc[c] = n
        if not unfit:
            self.live.append((c, a))
        return c

    def good(self, c, **kw):
        return good(c, self.r, self.proc[c], **kw)

    def pick(self):
        return self.r.choice(self.live)[0]

    def done(self, c):
        self.live = [x for x in self.live if x[0] != c]

    def step(self):
        r, w = self.r, {"issue": 10, "burst": 3, "good": 12, "all": 3, "part": 2, "junk": 1.5, "close": 1.5, "cancel": 2.5,
                        "cancel_now": 1, "idle_close": 1, "net": 1.2, "tick": 1.5}
        w.update(self.mix)
        w.pop("plain", 0)
        w.pop("unfit", 0)
        if not self.live:
            for x in ("good", "all", "part", "junk", "close", "cancel"):
                w[x] = 0
        if len(self.live) > 5:
            w["issue"] = w["burst"] = 0
        what = r.choices(list(w), list(w.values()))[0]
        if what == "issue":
            self.new()
        elif what == "burst":
            a = r.randrange(self.addrs) if r.random() < 0.5 else None
            for _ in range(r.randint(2, 4)):
                self.new(a)
        elif what == "good":
            c = self.pick()
            x = r.random()
            if x < 0.6:
                self.ops.append(self.good(c))
            else:
                self.ops.append(self.good(c, seg=[r.choice([1, 3, 10, 40, 64])] * 60 if r.random() < 0.5 else [r.randint(1, 60)], gap=r.choice([0, 1, 3])))
            self.done(c)
        elif what == "all":
            xs = list(self.live)
            r.shuffle(xs)
            for c, _ in xs:
                self.ops.append(self.good(c))
                self.done(c)
        elif what == "part":
            c = self.pick()
            self.ops.append(self.good(c, cut=r.choice([1, 5, 9, 12, 17, 25, 40, -1, -2, -3])))
            self.quiet()
            if r.random() < 0.7:
                self.ops.append(sclose(c, r.choice(["close", "half", "reset"])))
            else:
                self.ops.append(cancel(c))
            self.done(c)
        elif what == "junk":
            c = self.pick()
            self.ops.append(unreadable(c, r, 1) if self.proc[c] == 1 and r.random() < 0.7 else junk(c, r, self.proc[c]))
            self.done(c)
        elif what == "close":
            c = self.pick()
            self.ops.append(sclose(c, r.choice(["close", "half", "reset"])))
            self.done(c)
        elif what == "cancel":
            c = self.pick()
            self.ops.append(cancel(c))
            self.done(c)
        elif what == "cancel_now":
            c = self.new()
            if r.random() < 0.5:
                self.ops.append({"op": "rounds", "n": r.choice([1, 2, 3])})
            self.ops.append(cancel(c))
            self.done(c)
        elif what == "idle_close":
            self.quiet(True)
            self.ops.append(sclose_conn(r.randrange(8), r.choice(["close", "half", "reset"])))
        elif what == "net":
            self.quiet(True)
            a = r.randrange(self.addrs)
            if self.net[a] == "up":
                self.ops.append(unlisten(a))
                self.net[a] = "down"
                if r.random() < 0.4:
                    self.ops.append(hang(a))
                    self.net[a] = "hang"
            elif self.net[a] == "down":
                self.ops.append(listen(a))
                self.net[a] = "up"
            else:
                # calls that are still connecting time out first
                self.ops += [tick(self.tmo + 5), QUIET, unlisten(a), listen(a)]
                self.net[a] = "up"
            self.quiet(True)
            return
        elif what == "tick":
            self.quiet(True)
            self.ops.append(tick(r.choice([1, self.tmo // 2, self.tmo - 5, self.tmo + 5, self.susp - 1, self.susp, self.susp + 1, 20, 100, 3 * self.susp, 31000, 61000, 7200000])))
            self.quiet(True)
            return
        self.quiet()

    def run(self, n, drop=0.0):
        for _ in range(n):
            self.step()
        if self.r.random() < drop:
            self.quiet()
            self.ops.append({"op": "drop_pool", "id": "P"})
            self.quiet()
            for _ in range(self.r.randint(1, 4)):
                self.new()
                self.quiet()
            if self.live and self.r.random() < 0.5:
                c = self.pick()
                self.ops.append(cancel(c))
                self.done(c)
        self.quiet(True)
        # everything that is still open is answered or times out
        for c, a in list(self.live):
            self.ops.append(self.good(c))
        self.quiet(True)
        if "hang" in self.net.values():
            self.ops.append(tick(self.tmo + 5))
            self.quiet(True)
        return self.ops


def random(n, prefix, r, steps=14, addrs=(1, 1, 2, 2, 3), racy=(0, 0, 0.4, 0.8), drop=0.0, **kw):
    out = []
    for k in range(n):
        g = Gen(r, addrs=r.choice(addrs), racy=r.choice(racy), **kw)
        out.append(sc(f"{prefix}{k}", g.run(steps, drop)))
    return out


def sixth(scenarios):
    """The same with IPv6 addresses for the first two (the harness makes no IPv6 address hang)."""
    for sc in scenarios:
        hung = {str(op["addr"]) for op in sc["ops"] if op["op"] == "hang"}
        m = {a: b for a, b in {"[0, 0]": [9, 0], "[0, 1]": [9, 1]}.items() if a not in hung}
        for op in sc["ops"]:
            if "addr" in op:
                op["addr"] = m.get(str(op["addr"]), op["addr"])
    return scenarios


def many(prefix, r, sizes):
    """Large pools: many connections are released, evicted and used again."""
    out = []
    for k, size in enumerate(sizes):
        ops = [listen(a) for a in range(3)] + [pool(size)]
        j = 0
        for turn in range(4):
            n = r.choice([size, size + 3, size // 2 + 1])
            cs = [(f"k{j + i}", r.randrange(3)) for i in range(n)]
            j += n
            for c, a in cs:
                ops += [issue(c, a, body=twin(r, c, 3)), QUIET]
            r.shuffle(cs)
            for i, (c, _) in enumerate(cs):
                ops.append(good(c, r))
                if i % 2:
                    ops.append(QUIET)
            ops.append(QUIET)
        for _ in range(size):
            c, j = f"k{j}", j + 1
            ops += [issue(c, r.randrange(3)), QUIET, good(c, r), QUIET]
        out.append(sc(f"{prefix}{k}-{size}", ops))
    return out


def defaults(prefix, r):
    """A pool of the default size (1024): two connections more are released."""
    ops = [listen(a) for a in range(3)] + [dict(pool(None), size=None)]
    cs = [(f"k{j}", r.randrange(3)) for j in range(1026)]
    for j, (c, a) in enumerate(cs):
        ops.append(issue(c, a))
        if j % 20 == 19:
            ops.append(SETTLE)
    ops.append(SETTLE)
    r.shuffle(cs)
    for j, (c, _) in enumerate(cs):
        ops.append(good(c, r))
        if j > 1015:
            ops.append(QUIET)
    for j in range(4):
        ops += [issue(f"z{j}", r.randrange(3)), QUIET, good(f"z{j}", r), QUIET]
    return [sc(f"{prefix}1024", ops)]


def herd(prefix, r, sizes):
    """Many idle connections, most of them to one address; some are used again."""
    out = []
    for k, n in enumerate(sizes):
        ops = [listen(0), listen(1), pool(n + 10)]
        cs = [f"k{j}" for j in range(n)]
        for j, c in enumerate(cs):
            ops.append(issue(c, 0 if j % 20 else 1))
            if j % 20 == 19:
                ops.append(QUIET)
        ops.append(QUIET)
        r.shuffle(cs)
        ops += [good(c, r) for c in cs] + [QUIET, tick(r.choice([1, 7000, 400000])), QUIET]
        cs = [f"z{j}" for j in range(20)]
        for j, c in enumerate(cs):
            ops += [issue(c, 0 if j % 5 else 1), QUIET]
        ops += [good(c, r) for c in cs] + [QUIET]
        out.append(sc(f"{prefix}{k}-{n}", ops))
    return out


def veterans(prefix, r, ages):
    """Pools which have had many connections released before (about `ages`)."""
    out = []
    for k, age in enumerate(ages):
        size, na = r.choice([2, 3]), 3
        ops = [listen(a) for a in range(na)] + [pool(size)]
        ops += [issue("a0", 0), QUIET, good("a0", r), QUIET]
        ops += [issue("a1", 1), QUIET, good("a1", r), QUIET]
        ops += [{"op": "warm", "id": "w", "pool": "P", "addr": ADDRS[0], "n": age - r.randint(3, 6)}, QUIET]
        j = 0
        for _ in range(5):
            batch = [f"k{j + i}" for i in range(r.randint(1, size + 1))]
            j += len(batch)
            ops += [issue(c, r.randrange(na)) for c in batch] + [QUIET]
            r.shuffle(batch)
            for c in batch:
                ops += [good(c, r), QUIET]
        out.append(sc(f"{prefix}{k}-{age}", ops))
    return out


def crowds(prefix, r, sizes):
    """Many addresses are suspended at once."""
    out = []
    for k, n in enumerate(sizes):
        at = [[10 + j % 200, j // 200] for j in range(n)]
        call = lambda c, a: {"op": "call", "id": c, "proc": 0, "addr": a, "pool": "P", "args": {"path": [c], "body": ""}}
        ops = [listen(0), pool(2, 60000)]
        for j, a in enumerate(at):
            ops.append(call(f"k{j}", a))
            if j % 10 == 9:
                ops += [QUIET, tick(10)]
        ops += [QUIET, issue("g", 0), QUIET, good("g", r), QUIET]
        # some of them get listeners, which must not see anything before the time has come
        some = sorted({0, 1, n // 2, n - 1} | set(r.sample(range(n), 12)))
        ops += [{"op": "listen", "id": f"s{j}", "addr": at[j]} for j in some]
        for t in range(2):
            for j in some + r.sample(range(n), min(n, 30)):
                c = f"l{t}-{j}-{len(ops)}"
                ops += [call(c, at[j]), QUIET, good(c, r), QUIET]
            ops += [QUIET, tick(r.choice([59000, 60000 - 10 * n // 20, 60000])), QUIET]
        out.append(sc(f"{prefix}{k}-{n}", ops))
    return out


def forever(prefix, r):
    """Suspensions and connect timeouts which are longer than anything (given as "seconds", or "max")."""
    out = []
    for how in ("down", "hang", "up"):
        for susp in ("3000000", "4294967296", "1000000000000", str(1 << 60), str((1 << 63) - 1), str(1 << 63), "max"):
            for tmo in ([300] if how == "hang" else [300, susp]):
                ops = [listen(1), pool(2, susp, tmo)]
                ops += [listen(0)] if how == "up" else [hang(0)] if how == "hang" else []
                ops += [issue("k0", 0), QUIET]
                ops += [tick(400), QUIET] if how == "hang" else []
                ops += [good("k0", r), QUIET]
                for j, d in enumerate((0, 1, 5000, 86400000)):
                    ops += ([tick(d), QUIET] if d else []) + [issue(f"k{j + 1}", 0), QUIET, good(f"k{j + 1}", r), QUIET]
                    ops += [issue(f"o{j}", 1), QUIET, good(f"o{j}", r), QUIET]
                out.append(sc(f"{prefix}{how}-{susp}-{tmo}", ops))
    for tmo in ("3000000", "4294967296", str(1 << 60), "max"):
        out.append(sc(f"{prefix}wait-{tmo}", [hang(0), pool(2, 1000, tmo), issue("k0", 0), QUIET, tick(86400000), QUIET]))
    return out


def lasting(prefix, r, lengths):
    """One connection serves many calls; many addresses are suspended at once."""
    out = []
    for k, n in enumerate(lengths):
        ops = [listen(0), listen(1), pool(r.choice([1, 2]))]
        for j in range(n):
            ops += [issue(f"k{j}", 0 if r.random() < 0.9 else 1, body="" if j % 2 else "b"), QUIET, good(f"k{j}", r), QUIET]
        out.append(sc(f"{prefix}{k}-{n}", ops))
    return out


# What the histories concentrate on.
CALM = {"part": 0, "junk": 0, "close": 0, "cancel": 0, "cancel_now": 0, "idle_close": 0, "net": 0, "tick": 0, "unfit": 0, "plain": 0.05}
CONCURRENT = dict(CALM, burst=10, issue=6, good=14, all=4)
REUSE = dict(CALM, issue=14, burst=2, good=16, all=3, plain=0.15)
SUSPEND = dict(CALM, net=6, tick=8, issue=14, burst=2, cancel_now=1, good=8)
FAULTS = dict(CALM, part=4, junk=3, close=4, cancel=4, cancel_now=3, idle_close=2, net=0.5, tick=1, unfit=0.1, issue=12, burst=3, good=8)


def fill(c, a, r, size=None):
    return [issue(c, a), QUIET]


def eviction(n, prefix, r):
    """k calls at once to several addresses, answered in some order, then calls which show what is left."""
    out = []
    for k in range(n):
        size = r.choice([0, 1, 2, 3, 4, 5])
        na = r.choice([1, 2, 3, 4])
        ops = [listen(a) for a in range(na)] + [pool(size)]
        j = 0
        for _ in range(r.randint(1, 3)):
            batch = []
            for _ in range(r.randint(1, size + 3)):
                c = f"k{j}"
                j += 1
                ops.append(issue(c, r.randrange(na)))
                batch.append(c)
            ops.append(QUIET)
            r.shuffle(batch)
            for c in batch:
                ops.append(good(c, r))
                if r.random() < 0.8:
                    ops.append(QUIET)
            ops.append(QUIET)
        out.append(sc(f"{prefix}{k}", ops))
    return out


def suspension(prefix):
    """Refused and timed out connections, and what calls do around the end of the suspension."""
    out = []
    n = 0
    for how in ("down", "hang"):
        for susp in (1, 10, 999, 1000, 1500, 60000, 3600000, 90000000):
            for at in sorted({0, 1, susp // 2, susp - 1, susp, susp + 1, susp + 1000, 2 * susp + 7}):
                for again in (False, True):
                    tmo = 300
                    ops = [listen(1), pool(2, susp, tmo)]
                    if how == "hang":
                        ops.append(hang(0))
                    ops += [issue("k0", 0), QUIET]
                    if how == "hang":
                        ops += [tick(tmo - 5), QUIET, tick(10), QUIET]
                    # the other address is not affected
                    ops += [issue("o1", 1), QUIET, {"op": "reply", "tok": "o1", "status": 200, "headers": [["x-tok", "o1"]], "body": "b"}, QUIET]
                    if not again and how == "down":
                        ops += [listen(0)]
                    if not again and how == "hang":
                        ops += [unlisten(0), listen(0)]
                    if at:
                        ops += [tick(at), QUIET]
                    ops += [issue("k1", 0), QUIET, issue("k2", 0), QUIET]
                    if again and how == "hang":
                        ops += [tick(tmo + 5), QUIET]
                    if not again:
                        for c in ("k1", "k2"):
                            ops.append({"op": "reply", "tok": c, "if": True, "status": 200, "headers": [["x-tok", c]], "body": c})
                        ops.append(QUIET)
                    # later on (the suspension may have begun anew)
                    for d in (susp // 2, susp - susp // 2 + 1):
                        c = f"l{d}-{n}"
                        ops += [tick(d), QUIET, issue(c, 0), QUIET]
                        if not again:
                            ops += [{"op": "reply", "tok": c, "if": True, "status": 200, "headers": [["x-tok", c]], "body": c}, QUIET]
                    if again and how == "hang":
                        ops += [tick(tmo + 5), QUIET]
                    out.append(sc(f"{prefix}{n}", ops))
                    n += 1
    # connect timeouts of all sizes
    for tmo in (1, 7, 250, 999, 1000, 1001, 2500, 29999, 31000, 61000, 601000, 86401000):
        ops = [hang(0), pool(2, 5000, tmo), issue("k0", 0), QUIET]
        if tmo > 10:
            ops += [tick(tmo // 2), QUIET, issue("k1", 0), QUIET, tick(tmo - tmo // 2 - 5), QUIET, tick(10), QUIET]
            ops += [issue("k2", 0), QUIET, tick(tmo), QUIET]
        else:
            ops += [tick(tmo + 5), QUIET, issue("k2", 0), QUIET]
        out.append(sc(f"{prefix}tmo-{tmo}", ops))
    # what must not suspend an address: failures after connecting, stale connections, cancelled calls, unfit calls
    for kind in ("junk", "close", "reset", "half", "part", "stale", "cancel", "cancel_conn", "unfit", "unreadable"):
        import random as rnd
        r = rnd.Random(kind)
        ops = [listen(0), pool(2, 60000, 300)]
        if kind == "cancel_conn":
            ops = [hang(0), pool(2, 60000, 300), issue("k0", 0), QUIET, cancel("k0"), QUIET, tick(400), QUIET, unlisten(0), listen(0)]
        elif kind == "unfit":
            ops += [issue("k0", 0, unfit=True), QUIET]
        elif kind == "unreadable":
            ops += [issue("k0", 0, proc=1), QUIET, unreadable("k0", r, 1), QUIET]
        else:
            ops += [issue("k0", 0), QUIET]
            if kind == "junk":
                ops += [junk("k0", r)]
            elif kind in ("close", "reset", "half"):
                ops += [sclose("k0", kind)]
            elif kind == "part":
                ops += [good("k0", r, cut=20), QUIET, sclose("k0")]
            elif kind == "cancel":
                ops += [cancel("k0")]
            elif kind == "stale":
                ops += [good("k0", r), QUIET, sclose("k0"), QUIET, issue("k1", 0)]
            ops += [QUIET]
        for c in ("z0", "z1"):
            ops += [issue(c, 0), QUIET, good(c, r), QUIET]
        out.append(sc(f"{prefix}not-{kind}", ops))
    return out


def reply_cuts(prefix, proc, pooled, step=1, hows=("close", "half", "reset"), body=21):
    """A response cut at every byte; afterwards another call."""
    import random as rnd
    r = rnd.Random(prefix)
    out = []
    # (an upper bound; beyond the end the response is complete)
    total = 120
    for how in hows:
        cuts = list(range(0, total, step))
        for j in range(0, len(cuts), 12):
            ops = [listen(0), pool(2)]
            for cut in cuts[j:j + 12]:
                c, d = f"k{cut}", f"n{cut}"
                P = "P" if pooled else None
                ops += [issue(c, 0, P, proc=proc), QUIET]
                ops += [good(c, r, proc, status=200, body="y" * body, cut=cut)]
                ops += [QUIET, sclose(c, how), QUIET]
                ops += [issue(d, 0, P, proc=proc), QUIET, good(d, r, proc), QUIET]
            out.append(sc(f"{prefix}{how}-{j}", ops))
    return out


def endless(prefix, r, n):
    """Responses without a length: those which have a body end with the connection, the others at once."""
    out = []
    for k in range(n):
        pooled = r.random() < 0.6
        ops = [listen(0)] + ([pool(2)] if pooled else [])
        for j in range(5):
            c, proc = f"k{j}", r.choice([0, 0, 0, 1, 2, 3, 4, 5, 6])
            bare = r.random() < 0.4
            kw = {"status": r.choice([204, 304]), "body": ""} if bare else {"body": twin(r, c) * r.choice([0, 1, 1, 5])}
            if r.random() < 0.4:
                kw.update(seg=[r.choice([1, 3, 10, 40])] * 60, gap=r.choice([0, 1, 3]))
            if r.random() < 0.1:
                kw.update(cut=r.choice([1, 9, 17]))
            ops += [issue(c, 0, "P" if pooled else None, proc=proc), QUIET, good(c, r, proc, cl=None, **kw), QUIET]
            if not bare or r.random() < 0.4:
                ops += [sclose(c, r.choice(["close", "close", "half", "reset"])), QUIET]
            # (whatever has become of the connection)
            ops += [issue(f"n{j}", 0, "P" if pooled else None), QUIET, good(f"n{j}", r), QUIET]
        out.append(sc(f"{prefix}{k}", ops))
    return out


def chunked(prefix, lengths):
    """Responses in the chunked coding, in one chunk (or none), to calls without a pool."""
    import random as rnd
    r = rnd.Random(prefix)
    out = []
    for n in lengths:
        ops = [listen(0)]
        for k in range(4):
            ops += [issue(f"k{k}", 0, None), QUIET, good(f"k{k}", r, body={"len": n, "seed": k}, chunks=[], **({"cut": -5} if k == 3 else {})), QUIET]
            ops += [sclose(f"k{k}", r.choice(["close", "half", "reset"])), QUIET]
        out.append(sc(f"{prefix}{n}", ops))
    return out


def chunk_findings(prefix, names):
    """Chunked responses which are not delivered as they are: see KNOWN_FINDINGS.md."""
    import random as rnd
    r = rnd.Random(prefix)
    reply = lambda c, **kw: good(c, r, status=200, body=[97, 98, 99, 100, 101, 102], **kw)
    head = len("HTTP/1.1 200 R\r\nX-Tok: k0\r\nTransfer-Encoding: chunked\r\n\r\n6\r\n")
    two = [listen(0), issue("k0", 0, None), QUIET, reply("k0", chunks=[3]), QUIET]
    cut = [listen(0), issue("k0", 0, None), QUIET, reply("k0", chunks=[], cut=head + 3), QUIET, sclose("k0"), QUIET]
    nxt = [listen(0), pool(2), issue("k0", 0), QUIET, reply("k0", chunks=[]), QUIET, issue("k1", 0), QUIET, reply("k1"), QUIET]
    return [sc(prefix + k, ops) for k, ops in (("two", two), ("cut", cut), ("next", nxt)) if k in names]


def cancels(prefix):
    """A call is abandoned after any number of rounds of the event loop, in different situations; then
    others are made."""
    import random as rnd
    r = rnd.Random(prefix)
    out = []
    for warm in (0, 1, 2):                   # idle connections
        for reply in (None, 0, 10, 30, -1, "all"):     # how much of a response has been sent
            for rounds in (0, 1, 2, 3, 4, 6, 9, 15):
                ops = [listen(0), listen(1), pool(2)]
                ws = [f"w{i}" for i in range(warm)]
                ops += [issue(w, 0) for w in ws] + [QUIET] + [good(w, r) for w in ws] + [QUIET]
                ops += [issue("k0", 0)]
                if reply is not None:
                    ops += [QUIET]
                    ops += [good("k0", r, **({} if reply == "all" else {"cut": reply}))]
                ops += [{"op": "rounds", "n": rounds}, cancel("k0")]
                if rounds % 2:
                    ops += [QUIET]
                for i in range(3):
                    ops += [issue(f"z{i}", 0)]
                    if rounds % 3:
                        ops += [QUIET, good(f"z{i}", r)]
                ops += [QUIET] + ([] if rounds % 3 else [good(f"z{i}", r) for i in range(3)]) + [QUIET]
                if reply != "all":
                    ops += [good("k0", r), QUIET]       # the peer answers the abandoned call in the end
                ops += [issue("y0", 0), issue("y1", 0), QUIET, good("y1", r), good("y0", r), QUIET]
                out.append(sc(f"{prefix}{warm}-{reply}-{rounds}", ops))
    return out


# ---------------------------------------------------------------- all histories of MCPoolGen
def replay_ops(hist, r, size=1, addrs=2, quiet=True):
    """The steps of a history of MCPoolGen; if not `quiet`, calls issued in a row start together (a tick is about the suspension, and longer than the timeout: a call which connects to a hung address has failed before that changes)."""
    ops = [listen(a) for a in range(addrs)] + [pool(size, 1000, 300)]
    proc, net = {}, {}
    for h in hist:
        e, c, a = h["e"], f"k{h['c']}", h["a"] - 1
        if e != "issue" and ops[-1] != QUIET:
            ops.append(QUIET)
        if e == "issue":
            proc[c] = 1 if h["c"] == 2 else 0
            ops.append(issue(c, a, None if h["x"] else "P", "" if h["c"] % 2 else twin(r, c, 25), proc[c]))
        elif e == "cancel":
            ops.append(cancel(c))
        elif e == "send":
            if h["m"] == "ok":
                ops.append(good(c, r, proc[c]))
            elif h["m"] == "part":
                ops.append(good(c, r, proc[c], cut=r.choice([1, 9, 12, 17, 25, -1])))
            else:
                ops.append(unreadable(c, r, 1) if proc[c] == 1 else junk(c, r, proc[c]))
        elif e == "close":
            ops.append(sclose_conn(h["x"] - 1, h["m"]))
        elif e == "net":
            if net.get(a, "up") != "down":
                ops.append(unlisten(a))
            if h["m"] != "down":
                ops.append({"up": listen, "hang": hang}[h["m"]](a))
            net[a] = h["m"]
        elif e == "tick":
            ops.append(tick(r.choice([1000, 1000, 1001, 999, 1003])))
        elif e == "drop":
            ops.append({"op": "drop_pool", "id": "P"})
        if quiet or e != "issue":
            ops.append(QUIET)
    ops.append(QUIET)
    begun = {f"k{h['c']}": h["m"] for h in hist if h["e"] == "send"}
    for c in proc:
        if c not in begun:
            ops.append(good(c, r, proc[c]))
        elif begun[c] == "part":
            ops.append(sclose(c))
    ops.append(QUIET)
    return ops


def replays(hists, prefix, r, size=1, quiet=True):
    return [sc(f"{prefix}{k}", replay_ops(h, r, size, quiet=quiet)) for k, h in enumerate(hists)]
