"""Building blocks for scenarios."""
import random
import struct

METHODS = ["GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "TRACE", "CONNECT", "PATCH"]
UNRESERVED = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~")


def rng(*key):
    from core import SEED
    return random.Random(":".join(str(k) for k in (SEED,) + key))


def pct(s, r=None, extra=0.0):
    """A percent-encoding of a path segment; with r: a random one among the standard encodings."""
    out = []
    for b in s.encode():
        c = chr(b)
        plain = b in UNRESERVED or (r is not None and c in "!$&'()*+,;=:@")
        if r is not None and plain and r.random() < extra:
            plain = False
        if plain:
            out.append(c)
        else:
            h = "%%%02X" % b
            if r is not None and r.random() < 0.4:
                h = h.lower()
            out.append(h)
    return "".join(out)


def form(s, r=None, extra=0.0):
    """A form-encoding of a text; with r: a random standard one."""
    out = []
    for b in s.encode():
        c = chr(b)
        if b == 32:
            out.append("+" if r is None or r.random() < 0.5 else "%20")
            continue
        plain = b in UNRESERVED or (r is not None and c in "!$'()*,;:@/?")
        if r is not None and plain and r.random() < extra:
            plain = False
        if plain:
            out.append(c)
        else:
            h = "%%%02X" % b
            if r is not None and r.random() < 0.4:
                h = h.lower()
            out.append(h)
    return "".join(out)


def latin(s):
    """The octets of a text as a string of code points < 256 (the form of raw octets in scenarios)."""
    return s.encode().decode("latin-1")


def f64(x):
    return struct.pack(">d", x).hex()


def f32(x):
    return struct.pack(">f", x).hex()


def server(procs, addr=0, id="s"):
    return {"op": "server", "id": id, "addr": addr, "procs": procs}


def open_(c, addr=0):
    return {"op": "open", "id": c, "addr": addr}


def req(c, method, target, headers=(), body=None, **kw):
    d = {"op": "req", "id": c, "method": method, "target": latin(target) if isinstance(target, str) else target,
         "headers": [[latin(k), latin(v) if isinstance(v, str) else v] for k, v in headers]}
    if body is not None:
        d["body"] = body
    d.update(kw)
    return d


def recv(c, method="GET"):
    return {"op": "recv", "id": c, "head": method == "HEAD"}


def exchange(c, method, target, headers=(), body=None, **kw):
    return [req(c, method, target, headers, body, **kw), recv(c, method)]


SETTLE = {"op": "settle"}


def leftover(c):
    return [SETTLE, {"op": "leftover", "id": c}]


FORMS = ["map", "variant", "newtype"]


def reform(r, scenarios, p=0.5):
    """The same scenarios with other kinds of types for some of the paths, queries and headers (maps, variants, newtypes)."""
    def fields(f):
        return {"form": r.choice(FORMS), "fields": f} if isinstance(f, list) and r.random() < p else f
    for sc in scenarios:
        for n, q in enumerate(sc["procs"]):
            q = dict(q)
            for k in ("query", "header"):
                if k in q:
                    q[k] = fields(q[k])
            if isinstance(q.get("resp"), dict) and "struct" in q["resp"]:
                q["resp"] = {"struct": fields(q["resp"]["struct"])}
            if q.get("path") == "unit" and r.random() < p:
                q["path"] = "unitstruct"
            elif q.get("path") is not None and q["path"] != "unit" and r.random() < p:
                t = list(q["path"].values())[0] if isinstance(q["path"], dict) else q["path"]
                q["path"] = {r.choice(["tv", "new", "ts"]): t}
            sc["procs"][n] = q
    return scenarios


AGES = [1, 999, 5000, 11000, 31000, 61000, 121000, 601000, 3601000, 86401000]


def aged(r, scenarios, p=0.5, per=3):
    """Some of the scenarios with time passing here and there (when nothing is going on)."""
    for sc in scenarios:
        if r.random() < p:
            ops = sc["ops"]
            for _ in range(r.randint(1, per)):
                at = r.randint(1, len(ops))
                ops[at:at] = [SETTLE, {"op": "tick", "ms": r.choice(AGES)}]
    return scenarios
