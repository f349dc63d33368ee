"""Values of random types for the field helpers, and documents of many spellings and damages."""
import json
import math
import struct

from scen import f32, f64, rng
from values import INT, STRINGS, rand_str

KINDS = ("json", "jsonp", "msgpack")


def T(k, n="", of=(), names=()):
    return {"k": k, "n": n, "of": list(of), "names": [[ord(c) for c in x] for x in names]}


NAMES = ["a", "b", "c", "long_name", "type", "日本", "x-y", "", " ", "A", "\"", "\\", "aa", "é"]


def rand_type(r, depth=3, opt=True, outer=None):
    scalars = ["bool", "int", "int", "float", "str", "str", "char", "unit"]
    comps = ["opt", "new", "seq", "tup", "map", "struct", "enum", "any", "help", "seq", "struct"]
    k = r.choice(scalars) if depth <= 0 or r.random() < 0.3 else r.choice(comps)
    if k in ("opt", "any", "unit") and not opt:
        k = "str"
    if k == "int":
        return T("int", r.choice(list(INT)))
    if k == "float":
        return T("float", r.choice(["f64", "f64", "f32"]))
    if k in ("bool", "str", "char", "unit", "any"):
        return T(k)
    if k == "opt":
        return T("opt", of=[rand_type(r, depth - 1, False)])
    if k == "new":
        return T("new", of=[rand_type(r, depth - 1, opt)])
    if k in ("seq", "map"):
        return T(k, of=[rand_type(r, depth - 1)])
    if k == "tup":
        return T(k, of=[rand_type(r, depth - 1) for _ in range(r.randint(1, 3))])
    if k == "struct":
        names = r.sample(NAMES, r.randint(1, 4))
        return T(k, of=[rand_type(r, depth - 1) for _ in names], names=names)
    if k == "help":
        return T("help", r.choice(KINDS), [rand_type(r, depth - 1)])
    names = r.sample(NAMES, r.randint(1, 4))
    of = []
    for _ in names:
        c = r.choice(["none", "new", "tup", "struct"])
        if c == "none":
            of.append(T("none"))
        elif c == "new":
            t = rand_type(r, depth - 2)
            while t["k"] in ("tup", "struct"):
                t = rand_type(r, depth - 2)
            of.append(t)
        elif c == "tup":
            of.append(T("tup", of=[rand_type(r, depth - 2) for _ in range(r.randint(2, 3))]))
        else:
            fs = r.sample(NAMES, r.randint(1, 3))
            of.append(T("struct", of=[rand_type(r, depth - 2) for _ in fs], names=fs))
    return T("enum", of=of, names=names)


F64S = [0.0, 1.0, -1.0, 1.5, -2.25, 0.1, 0.5, 123456789.125, 1e15, 65504.0, 2.0**52, -0.0078125, 3.0, 100.0, 1e-3]


def rand_json(r, depth=2):
    k = r.random()
    if depth <= 0 or k < 0.5:
        return r.choice([None, True, False, 0, 1, -1, r.randint(-2**63, 2**64 - 1), 2**64 - 1, -2**63, r.choice(F64S[1:]), 1.5, "", "a",
                         r.choice(STRINGS), rand_str(r), rand_str(r)])
    if k < 0.75:
        return [rand_json(r, depth - 1) for _ in range(r.randint(0, 3))]
    return {r.choice(NAMES + STRINGS): rand_json(r, depth - 1) for _ in range(r.randint(0, 3))}


def rand_value(r, t):
    k = t["k"]
    if k == "bool":
        return r.random() < 0.5
    if k == "int":
        lo, hi = INT[t["n"]]
        return str(r.choice([lo, hi, 0, 1, r.randint(lo, hi), r.randint(lo, hi) >> r.randint(0, 40), min(hi, 127), min(hi, 128), max(lo, -33), max(lo, -32), max(lo, -129)]))
    if k == "float":
        x = r.choice(F64S)
        return f32(x) if t["n"] == "f32" else f64(x)
    if k == "str":
        return r.choice(STRINGS) if r.random() < 0.4 else rand_str(r)
    if k == "char":
        s = ""
        while not s:
            s = r.choice(STRINGS) + rand_str(r)
        return r.choice(s)
    if k == "unit":
        return None
    if k == "any":
        return rand_json(r)
    if k == "opt":
        return None if r.random() < 0.4 else rand_value(r, t["of"][0])
    if k in ("new", "help"):
        return rand_value(r, t["of"][0])
    if k == "seq":
        return [rand_value(r, t["of"][0]) for _ in range(r.choice([0, 1, 2, 3, 5, 16 if t["of"][0]["k"] in ("int", "bool", "unit") else 2]))]
    if k == "tup" or k == "struct":
        return [rand_value(r, x) for x in t["of"]]
    if k == "map":
        keys = {r.choice(NAMES + STRINGS) for _ in range(r.randint(0, 3))}
        return [[x, rand_value(r, t["of"][0])] for x in sorted(keys)]
    i = r.randrange(len(t["names"]))
    return {"v": i, "c": None if t["of"][i]["k"] == "none" else rand_value(r, t["of"][i])}


def name(cps):
    return "".join(chr(c) for c in cps)


def fval(t, v):
    return struct.unpack(">f", bytes.fromhex(v))[0] if t["n"] == "f32" else struct.unpack(">d", bytes.fromhex(v))[0]


# -- neutral trees: ("null",) ("bool", b) ("int", n) ("float", x, width) ("str", s) ("arr", [..]) ("obj", [(k, v)]) ("struct", [(k, v)]) ("var", i, name, tree|None, kind)
def any_tree(v):
    if v is None:
        return ("null",)
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, int):
        return ("int", v)
    if isinstance(v, float):
        return ("float", v, 8)
    if isinstance(v, str):
        return ("str", v)
    if isinstance(v, list):
        return ("arr", [any_tree(x) for x in v])
    return ("obj", [(k, any_tree(x)) for k, x in v.items()])


def tree(t, v):
    k = t["k"]
    if k == "bool":
        return ("bool", v)
    if k == "int":
        return ("int", int(v))
    if k == "float":
        return ("float", fval(t, v), 4 if t["n"] == "f32" else 8)
    if k in ("str", "char"):
        return ("str", v)
    if k == "unit":
        return ("null",)
    if k == "any":
        return any_tree(v)
    if k == "opt":
        return ("null",) if v is None else tree(t["of"][0], v)
    if k == "new":
        return tree(t["of"][0], v)
    if k == "help":
        return ("help", t["n"], tree(t["of"][0], v))
    if k == "seq":
        return ("arr", [tree(t["of"][0], x) for x in v])
    if k == "tup":
        return ("arr", [tree(x, y) for x, y in zip(t["of"], v)])
    if k == "map":
        return ("obj", [(a, tree(t["of"][0], b)) for a, b in v])
    if k == "struct":
        return ("struct", [(name(n), tree(x, y)) for n, x, y in zip(t["names"], t["of"], v)])
    i = v["v"]
    return ("var", i, name(t["names"][i]), None if t["of"][i]["k"] == "none" else tree(t["of"][i], v["c"]))


class Render:
    """Spellings of trees; `odd` (0..1): how unusual."""

    def __init__(self, r, odd):
        self.r, self.odd, self.lits = r, odd, []

    def hit(self, p):
        return self.r.random() < p * self.odd

    def ws(self):
        return "".join(self.r.choice(" \t\n\r") for _ in range(self.r.randint(1, 2))) if self.hit(0.3) else ""

    def string(self, s):
        out = []
        for c in s:
            o = ord(c)
            if self.hit(0.15):
                for u in struct.unpack(">%dH" % (len(c.encode("utf-16-be")) // 2), c.encode("utf-16-be")):
                    out.append(("\\u%04x" if self.r.random() < 0.5 else "\\u%04X") % u)
            elif c in '"\\':
                out.append("\\" + c)
            elif o < 32:
                out.append({8: "\\b", 9: "\\t", 10: "\\n", 12: "\\f", 13: "\\r"}.get(o, "\\u%04x" % o))
            elif c == "/" and self.hit(0.5):
                out.append("\\/")
            else:
                out.append(c)
        return '"' + "".join(out) + '"'

    def num(self, x, w):
        if x == int(x) and abs(x) < 1e15 and self.r.random() < 0.5:
            s = "%d.0" % x if x or math.copysign(1, x) > 0 else "-0.0"
        else:
            s = repr(x)
        for t, p in (("f64", f64), ("f32", f32)):
            try:
                self.lits.append({"t": t, "s": [ord(c) for c in s], "v": "yes", "x": [ord(c) for c in "f:" + p(float(s))]})
            except OverflowError:
                pass
        return s

    def json(self, n):
        k = n[0]
        j = self._json(n)
        return self.ws() + j + self.ws()

    def _json(self, n):
        k = n[0]
        if k == "null":
            return "null"
        if k == "bool":
            return "true" if n[1] else "false"
        if k == "int":
            return str(n[1])
        if k == "float":
            return self.num(n[1], n[2])
        if k == "str":
            return self.string(n[1])
        if k == "arr":
            return "[" + ",".join(self.json(x) for x in n[1]) + (self.ws() if not n[1] else "") + "]"
        if k in ("obj", "struct"):
            ms = list(n[1])
            if self.hit(0.4):
                self.r.shuffle(ms)
            if k == "struct" and self.hit(0.2):
                ms.insert(self.r.randint(0, len(ms)), ("unknown", any_tree(rand_json(self.r, 1))))
            return "{" + ",".join(self.ws() + self.string(a) + self.ws() + ":" + self.json(b) for a, b in ms) + "}"
        if k == "help":
            if n[1] == "msgpack":
                return "[" + ",".join(self.ws() + str(b) + self.ws() for b in self.pack(n[2])) + "]"
            return self.string(self.json(n[2]))
        if n[3] is None:
            return self.string(n[2])
        return "{" + self.string(n[2]) + ":" + self.json(n[3]) + "}"

    def length(self, n, fix, forms):
        """Marker and length."""
        c = [f for f in forms if n < 256 ** f[1]]
        if fix is not None and n < fix[1] and not self.hit(0.2):
            return bytes([fix[0] + n])
        f = c[0] if not self.hit(0.3) else self.r.choice(c)
        return bytes([f[0]]) + n.to_bytes(f[1], "big")

    def pack(self, n):
        k = n[0]
        if k == "null":
            return b"\xc0"
        if k == "bool":
            return b"\xc3" if n[1] else b"\xc2"
        if k == "int":
            x = n[1]
            forms = []
            if 0 <= x < 128:
                forms.append(bytes([x]))
            if -32 <= x < 0:
                forms.append(bytes([256 + x]))
            for m, w in ((0xcc, 1), (0xcd, 2), (0xce, 4), (0xcf, 8)):
                if 0 <= x < 256 ** w:
                    forms.append(bytes([m]) + x.to_bytes(w, "big"))
            for m, w in ((0xd0, 1), (0xd1, 2), (0xd2, 4), (0xd3, 8)):
                if -(256 ** w) // 2 <= x < 256 ** w // 2:
                    forms.append(bytes([m]) + x.to_bytes(w, "big", signed=True))
            return self.r.choice(forms) if self.hit(0.5) else forms[0]
        if k == "float":
            return b"\xca" + struct.pack(">f", n[1]) if n[2] == 4 else b"\xcb" + struct.pack(">d", n[1])
        if k == "str":
            b = n[1].encode()
            return self.length(len(b), (0xa0, 32), [(0xd9, 1), (0xda, 2), (0xdb, 4)]) + b
        if k == "arr" or k == "struct":
            xs = n[1] if k == "arr" else [b for _, b in n[1]]
            return self.length(len(xs), (0x90, 16), [(0xdc, 2), (0xdd, 4)]) + b"".join(self.pack(x) for x in xs)
        if k == "obj":
            return self.length(len(n[1]), (0x80, 16), [(0xde, 2), (0xdf, 4)]) + b"".join(self.pack(("str", a)) + self.pack(b) for a, b in n[1])
        if k == "help":
            if n[1] == "msgpack":
                return self.pack(("arr", [("int", b) for b in self.pack(n[2])]))
            return self.pack(("str", self.json(n[2])))
        # enum variants
        return self.pack(("arr", [("int", n[1]), ("arr", [] if n[3] is None else [n[3]])]))


FOREIGN = [("null",), ("bool", True), ("int", 0), ("int", 1), ("int", -1), ("int", 255), ("int", 256), ("int", 65536), ("int", 2**32), ("int", 2**63),
           ("int", 2**64 - 1), ("int", -2**63), ("int", -129), ("int", -32769), ("float", 1.5, 8), ("float", 1.0, 8), ("str", ""), ("str", "a"), ("str", "ab"), ("str", "true"), ("str", "1"), ("str", "null"),
           ("str", "[]"), ("str", "{}"), ("arr", []), ("arr", [("int", 1)]), ("arr", [("int", 1), ("int", 2)]), ("obj", []), ("obj", [("a", ("int", 1))]), ("arr", [("int", 0xc0)]), ("arr", [("int", 256)])]


def spoil(r, n):
    """A tree with one part replaced by something else."""
    k = n[0]
    if k in ("arr",) and n[1] and r.random() < 0.7:
        c = r.random()
        xs = list(n[1])
        i = r.randrange(len(xs))
        if c < 0.15:
            del xs[i]
        elif c < 0.3:
            xs.insert(i, r.choice([xs[i], r.choice(FOREIGN)]))
        else:
            xs[i] = spoil(r, xs[i])
        return (k, xs)
    if k in ("obj", "struct") and n[1] and r.random() < 0.75:
        ms = list(n[1])
        i = r.randrange(len(ms))
        c = r.random()
        if c < 0.15:
            del ms[i]
        elif c < 0.25:
            ms.append(ms[i])
        elif c < 0.35:
            ms[i] = (ms[i][0] + "x", ms[i][1])
        elif c < 0.4:
            ms[i] = (ms[i][0].swapcase(), ms[i][1])
        else:
            ms[i] = (ms[i][0], spoil(r, ms[i][1]))
        return (k, ms)
    if k == "help" and r.random() < 0.8:
        return (k, n[1], spoil(r, n[2]))
    if k == "var" and n[3] is not None and r.random() < 0.6:
        return (k, n[1], n[2], spoil(r, n[3]))
    if k == "var" and r.random() < 0.5:
        return (k, n[1] + 7, n[2] + "z", n[3])
    if k == "int" and r.random() < 0.5:
        return (k, r.choice([n[1] + 1, -n[1], n[1] + 256, n[1] * 10, n[1] - 1, 2**64 - 1, 2**63, -2**63]) if n[1] * 10 < 2**63 and n[1] > -2**60 else 0)
    return r.choice(FOREIGN)


def damage(r, s):
    """One small damage of a text."""
    if not s:
        return s + r.choice("x]} ")
    i = r.randrange(len(s))
    c = r.random()
    if c < 0.25:
        return s[:i] + s[i + 1:]
    if c < 0.4:
        return s[:i]
    if c < 0.5:
        return s + r.choice(["x", "]", "}", ",", " 1", "null", '"', "\u0000", "\\"])
    x = r.choice('[]{},:"\\0123456789-+.eEtfnu \n\t\u0000\u0001aé\'/#')
    return s[:i] + x + s[i + (1 if c < 0.75 else 0):]


BIG = {0xc6, 0xdb, 0xdd, 0xdf, 0xc9}


def harmless(b):
    """No announcement of gigantic lengths (which readers would allocate)."""
    return not any(b[i] in BIG and any(b[i + 1:i + 3]) for i in range(len(b)))


def damage_bytes(r, b):
    for _ in range(20):
        i = r.randrange(len(b))
        c = r.random()
        if c < 0.3:
            d = b[:i]
        elif c < 0.5:
            d = b[:i] + b[i + 1:]
        elif c < 0.6:
            d = b + bytes([r.randrange(256)])
        else:
            d = b[:i] + bytes([r.choice([r.randrange(256), b[i] ^ (1 << r.randrange(8)), (b[i] + 1) % 256, 0xc1, 0xc0])]) + b[i + 1:]
        if harmless(d):
            return d
    return b[:len(b) // 2]


def wrap_json(rd, n, r):
    """{"v": ...} with the field n."""
    return rd._json(("struct", [("v", n)]))


def carries(n, tag, r):
    out = []
    for i in range(n):
        kind = KINDS[i % 3]
        t = T("help", kind, [rand_type(r, r.randint(0, 3))])
        ops = []
        for _ in range(4):
            v = rand_value(r, t)
            if len(json.dumps(v)) > 400:
                continue
            for f in ("j", "m") + (("t",) if kind != "msgpack" else ()):
                ops.append({"op": "carry", "f": f, "value": v})
        if ops:
            out.append({"id": f"{tag}{i}", "meta": {"ty": t}, "ops": ops})
    return out


SCALARS = [T("bool"), T("float", "f64"), T("float", "f32"), T("str"), T("char"), T("unit"), T("any")] + [T("int", x) for x in INT]


def boundary(tag):
    """Every boundary value of the scalar types, and every string, through every helper and format."""
    from values import boundary as bv
    out = []
    for t in SCALARS:
        if t["k"] == "int":
            vs = bv(t["n"])
        elif t["k"] == "bool":
            vs = [True, False]
        elif t["k"] == "float":
            vs = [(f32 if t["n"] == "f32" else f64)(x) for x in F64S]
        elif t["k"] == "str":
            vs = STRINGS + [chr(c) for c in range(128)] + ["x" * n for n in (31, 32, 33, 255, 256, 257)]
        elif t["k"] == "char":
            vs = [s for s in STRINGS if len(s) == 1] + [chr(c) for c in range(128)]
        elif t["k"] == "unit":
            vs = [None]
        else:
            vs = [None, [], {}, [[]], [{}], {"a": {}}, {"": None}, [1, [2, [3, [4]]]], {"a": [1, {"b": [True, None]}]}, "\n", [" ", "  "], {"  a": "  b"}, {"k\n": "v\n  w"}]
        for kind in KINDS:
            h = T("help", kind, [t])
            for j in range(0, len(vs), 25):
                ops = [{"op": "carry", "f": f, "value": v} for v in vs[j:j + 25] for f in (("j", "m", "t") if kind != "msgpack" else ("j", "m"))]
                out.append({"id": f"{tag}{t['k']}{t['n']}-{kind}-{j}", "meta": {"ty": h}, "ops": ops})
    # shapes
    for i, (t, v) in enumerate([
            (T("seq", of=[T("int", "u8")]), [str(x) for x in range(20)]), (T("seq", of=[T("int", "i16")]), [str(x) for x in range(17)]),
            (T("opt", of=[T("str")]), None), (T("opt", of=[T("str")]), ""), (T("opt", of=[T("str")]), "null"),
            (T("map", of=[T("str")]), []), (T("map", of=[T("str")]), [[str(x).zfill(2), "v"] for x in range(17)]),
            (T("seq", of=[T("str")]), []), (T("seq", of=[T("opt", of=[T("int", "u8")])]), [None, "1", None]),
            (T("help", "json", [T("help", "jsonp", [T("help", "json", [T("str")])])]), "a\"\\\n"),
            (T("help", "msgpack", [T("help", "json", [T("help", "msgpack", [T("str")])])]), "é")]):
        for kind in KINDS:
            ops = [{"op": "carry", "f": f, "value": v} for f in (("j", "m", "t") if kind != "msgpack" else ("j", "m"))]
            out.append({"id": f"{tag}shape{i}-{kind}", "meta": {"ty": T("help", kind, [t])}, "ops": ops})
    for d in (10, 60, 90):
        v = 1
        for _ in range(d):
            v = [v] if d % 20 else {"a": v}
        for kind in ("json", "jsonp") if d < 80 else ("json",):
            out.append({"id": f"{tag}deep{d}-{kind}", "meta": {"ty": T("help", kind, [T("any")])}, "ops": [{"op": "carry", "f": f, "value": v} for f in "jmt"]})
    return out


def big(tag, sizes):
    """Long strings, lists and maps; they are recorded as digests."""
    out = []
    for n in sizes:
        for kind in KINDS:
            ops = lambda v: [{"op": "carry", "f": f, "value": v, "big": True} for f in (("j", "m", "t") if kind != "msgpack" else ("j", "m"))]
            for x, t, v in (("s", T("str"), ["\\é\n\"z", n // 5 + 1]), ("a", T("str"), ["a", n]), ("l", T("seq", of=[T("int", "u16")]), [str(i % 65536) for i in range(n // 2)]),
                            ("b", T("seq", of=[T("int", "u8")]), [str(i % 251) for i in range(n)]),
                            ("m", T("map", of=[T("str")]), [["k%05d" % i, "v%d" % i] for i in range(n // 16)])):
                out.append({"id": f"{tag}{x}{n}-{kind}", "meta": {"ty": T("help", kind, [t])}, "ops": ops(v)})
    return out


def reads(n, tag, r):
    """Documents in every spelling, spoiled and damaged, read by a helper field."""
    out = []
    i = 0
    while len(out) < n:
        i += 1
        kind = KINDS[i % 3]
        t = T("help", kind, [rand_type(r, r.randint(0, 3))])
        ops, lits = [], []
        for _ in range(8):
            v = rand_value(r, t)
            if len(json.dumps(v)) > 300:
                continue
            n0 = tree(t, v)
            f = r.choice("jm")
            rd = Render(r, r.choice([0, 0.5, 1]))
            c = r.random()
            if c < 0.35:
                n0 = spoil(r, n0)
            if f == "j":
                if c > 0.75 and n0[0] == "help" and kind != "msgpack":
                    doc = "{" + '"v":' + rd.string(damage(r, rd.json(n0[2]))) + "}"
                elif c > 0.75 and n0[0] == "help":
                    doc = '{"v":%s}' % json.dumps(list(damage_bytes(r, rd.pack(n0[2]))))
                else:
                    doc = wrap_json(rd, n0, r)
                if 0.7 < c < 0.75:
                    doc = damage(r, doc)
                if len(doc) > 900 or not harmless_doc(n0, kind, doc):
                    continue
                ops.append({"op": "read", "f": "j", "doc": doc})
            else:
                if c > 0.75 and n0[0] == "help" and kind == "msgpack":
                    inner = damage_bytes(r, rd.pack(n0[2]))
                    b = rd.pack(("arr", [("arr", [("int", x) for x in inner])]))
                elif c > 0.75 and n0[0] == "help":
                    b = rd.pack(("arr", [("str", damage(r, rd.json(n0[2])))]))
                else:
                    b = rd.pack(("arr", [n0]))
                    if c > 0.75:
                        b = damage_bytes(r, b)
                if len(b) > 900 or not harmless(b):
                    continue
                ops.append({"op": "read", "f": "m", "doc": list(b)})
            lits += rd.lits
        if ops:
            seen = {json.dumps([x["t"], x["s"]]): x for x in lits}
            out.append({"id": f"{tag}{len(out)}", "meta": {"ty": t}, "ops": ops, "lits": list(seen.values())})
    return out


def harmless_doc(n, kind, doc):
    """Byte arrays inside JSON must not announce gigantic lengths either."""
    import re
    for m in re.findall(r"\[[\s\d,]+\]", doc):
        b = [int(x) for x in re.findall(r"\d+", m)]
        if any(x in BIG and any(b[i + 1:i + 3]) for i, x in enumerate(b)):
            return False
    return True


# ---------------------------------------------------------------- in requests and responses
def small_json(r, null=True):
    while True:
        v = rand_json(r)
        if (v is None and not null) or len(json.dumps(v)) > 120:
            continue
        return v


def calls(n, tag, r):
    """JSON values in paths, queries and headers (of requests and responses) of calls."""
    import gen_call
    out = []
    for k in range(n):
        procs = [
            {"method": "GET", "entry": ["p", None, None], "path": ["json", "str"], "query": [["a", "json"], ["b", "opt:json"], ["c", "opt:str"]], "body": "ignore"},
            {"method": "POST", "entry": ["q"], "query": [["x", "jsonp"], ["y", "opt:jsonp"]], "header": [["x-j", "opt:json"], ["x-k", "opt:u8"]], "body": "ignore",
             "resp": {"struct": [["x-r", "opt:json"], ["x-s", "json"]]}},
            {"method": "PUT", "entry": ["h"], "header": [["x-j", "json"], ["x-l", "opt:json"]], "body": "ignore"}]
        ok = lambda v: v is None or all(ord(c) != 127 for c in json.dumps(v, ensure_ascii=False))
        cs = []
        plan = [small_json(r, False), small_json(r)]
        while not all(map(ok, plan)):
            plan = [small_json(r, False), small_json(r)]
        for _ in range(12):
            j = lambda: small_json(r)
            o = lambda: None if r.random() < 0.4 else small_json(r, False)
            i = r.randrange(3)
            if i == 0:
                cs.append((0, {"path": [j(), "w"], "query": [j(), o(), r.choice([None, "t"])]}))
            elif i == 1:
                cs.append((1, {"query": [j(), o()], "header": [o(), r.choice([None, "7"])]}))
            else:
                cs.append((2, {"header": [j(), o()]}))
        out.append(gen_call.scenario(f"{tag}{k}", procs, cs, plans=[gen_call.QUIET, {"status": 200, "header": plan, "body": ""}, gen_call.QUIET]))
    return out


def foreign(n, tag, r):
    """JSON texts in every spelling, and damaged ones, in the requests of foreign clients."""
    from scen import exchange, form, leftover, open_, pct, server
    out = []
    procs = [{"method": "GET", "entry": ["p", None], "path": ["json"], "query": [["a", "opt:json"], ["b", "opt:jsonp"]], "header": [["x-j", "opt:json"]], "body": "ignore"}]
    for k in range(n):
        ops = [server([0]), open_("c")]

        def txt(where):
            while True:
                s = Render(r, r.choice([0, 0.5, 1])).json(any_tree(small_json(r)))
                if r.random() < 0.35:
                    s = damage(r, s)
                if len(s) > 150:
                    continue
                if where == "path" and s in (".", "..", ""):
                    continue
                if where == "header" and (s != s.strip(" \t") or any(ord(c) < 32 or ord(c) == 127 for c in s)):
                    continue
                return s
        for _ in range(12):
            t = "/p/" + pct(txt("path"), r)
            qs = [q + "=" + form(txt("query"), r) for q in "ab" if r.random() < 0.4]
            if qs:
                t += "?" + "&".join(qs)
            hs = [["X-J", txt("header")]] if r.random() < 0.4 else []
            ops += exchange("c", "GET", t, hs)
        ops += leftover("c")
        out.append({"id": f"{tag}{k}", "procs": procs, "ops": ops})
    return out


def precise(tag):
    """Numbers with 16 and more significant digits, one scenario each (some are known findings)."""
    return [{"id": f"{tag}{x!r}", "meta": {"ty": T("help", kind, [T("float", "f64")])}, "ops": [{"op": "carry", "f": "j", "value": f64(x)}]}
            for kind, x in (("json", 207840.07719238894), ("msgpack", 3.141592653589793), ("msgpack", 1e300), ("msgpack", 5e-324), ("msgpack", float("inf")),
                            ("json", 0.30000000000000004), ("json", 2.718281828459045), ("jsonp", 1 / 3))]
