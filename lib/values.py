"""Values of field types, with their boundaries."""
from scen import *

INT = {"i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1),
       "u8": (0, 255), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1)}
SCALARS = ["bool"] + list(INT) + ["f32", "f64", "str"]

STRINGS = ["", "a", " ", "  two", "end ", "a b", "a  b", "a/b", "/", "//", "a%2Fb", "%2f", "%", "%%", "%zz", "%4", "%41", "+", "a+b",
           "a&b=c", "=", "==", "&", "&&", "#", "a#b", "?", "a?b", "a?b#c/d", "é", "日本語", "😀", "a😀b", "\u0000", "a\u0000b", "\u0001",
           "\u001f", "\t", "a\tb", "\ta", "\n", "a\nb", "\r", "\r\n", "a\r\nb: c", "\u007f", "\u0080", "\u0085", "\u00a0", "\u00ff", "\u0100",
           "\u07ff", "\u0800", "\u2028", "\ud7ff", "\ue000", "\ufffd", "\uffff", "\U00010000", "\U0010ffff", "\ufeffx",
           ".", "..", "...", ".a", "a.", "a..b", "%2e", "%2E%2e", "\\", "a\\b", ";", "a;b", ":", "a:b", "@", "~", "!", "$", "*", "(", ")",
           ",", "'", '"', "<", ">", "[x]", "{y}", "|", "^", "`", "-", "_", "true", "false", "0", "-1", "null", "None", "nil", "A", "aA",
           "http://h/p?q#f", "a=b&c=d", "x-tok: 1", "é/è", "=?utf-8?", "a,b", "\"q\"", "e\u0301", "İ", "ß", "ﬁ", "\u200b", "Content-Length: 5"]


WORDS = ["X-Forwarded-For", "Mixed CASE Text", "Basic QWxhZGRpbjpvcGVuIHNlc2FtZQ==", "gzip, deflate;q=0.5", "W/\"e-1\"", "text/html; charset=UTF-8",
         "Mon, 16 Nov 2026 08:12:31 GMT", "keep-alive", "close", "chunked", "100-continue", "Not a Number", "1e5", "+5", "007", "0x1F", "TRUE",
         "C:\\dir", "/abs/path", "../up", "a=1; b=2", "*/*", "<b>&amp;</b>", "${x}", "{0}", "%s %d", "''", "\"\"", "-- x", "\u202eabc"]
LONG = [127, 128, 255, 256, 257, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 6000, 7000]


def long_str(r, n, size=lambda c: 1):
    """A text of about n encoded octets."""
    out = []
    alphabet = r.choice(["abcXYZ019-_", "ab", "a%&=+ /?#", "xé日"])
    while n > 0:
        c = r.choice(alphabet)
        out.append(c)
        n -= size(c)
    s = "".join(out)
    return s[:-1] + "z" if s else s


def ascii_each():
    return [chr(c) for c in range(128)] + ["x" + chr(c) + "y" for c in range(128)]


def rand_str(r, n=None):
    n = r.randint(0, 12) if n is None else n
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.35:
            out.append(chr(r.randint(32, 126)))
        elif k < 0.5:
            out.append(r.choice("%+&=/?#; .\\"))
        elif k < 0.6:
            out.append(chr(r.randint(0, 31)))
        elif k < 0.75:
            out.append(chr(r.randint(0x80, 0x7ff)))
        elif k < 0.9:
            c = r.randint(0x800, 0xffff)
            out.append(chr(c if not 0xd800 <= c <= 0xdfff else 0x3042))
        else:
            out.append(chr(r.randint(0x10000, 0x10ffff)))
    return "".join(out)


FLOATS = [0.0, -0.0, 1.0, -1.0, 1.5, -2.25, 0.1, 1 / 3, 1e21, 1e-7, 123456789.125, float("inf"), float("-inf"), float("nan")]
F64 = FLOATS + [1e300, -1e300, 2.2250738585072014e-308, 5e-324, 1.7976931348623157e308, 9007199254740993.0, 3.141592653589793]
F32 = FLOATS[:6] + [16777216.0, 3.4028234663852886e38, 1.401298464324817e-45, 1.1754943508222875e-38, 0.5, float("inf"), float("-inf"), float("nan"), 2**-10]


def boundary(t):
    """Boundary values of a type, in the argument form of scenarios."""
    if t.startswith("opt:"):
        return [None] + boundary(t[4:])
    if t.startswith("new:"):
        return boundary(t[4:])
    if t.startswith("const:"):
        return [None]
    if t == "bool":
        return [True, False]
    if t in INT:
        lo, hi = INT[t]
        vs = {lo, hi, lo + 1, hi - 1, 0, 1, 9, 10, 99, 100, hi // 2, hi // 10}
        if lo < 0:
            vs |= {-1, -9, -10, -100, lo // 10}
        return [str(v) for v in sorted(vs) if lo <= v <= hi]
    if t == "f64":
        return [f64(x) for x in F64]
    if t == "f32":
        return [f32(x) for x in F32]
    if t == "str":
        return list(STRINGS)
    raise KeyError(t)


def rand_val(r, t):
    if t.startswith("opt:"):
        return None if r.random() < 0.35 else rand_val(r, t[4:])
    if t.startswith("new:"):
        return rand_val(r, t[4:])
    if t.startswith("const:"):
        return None
    if t in INT and r.random() < 0.6:
        lo, hi = INT[t]
        v = r.randint(lo, hi)
        return str(v >> r.randint(0, max(1, hi.bit_length())))
    if t == "str" and r.random() < 0.6:
        return rand_str(r) if r.random() < 0.8 else r.choice(WORDS)
    if t == "f64" and r.random() < 0.4:
        return f64(r.uniform(-1e6, 1e6) * 10 ** r.randint(-20, 20))
    if t == "f32" and r.random() < 0.4:
        return f32(r.uniform(-1e6, 1e6))
    return r.choice(boundary(t))


def canon(t, v):
    """The canonical literal of a value (None: absent)."""
    if t.startswith(("opt:", "new:")):
        return canon(t[4:], v)
    if t == "bool":
        return "true" if v else "false"
    if t in INT or t == "str":
        return v
    raise KeyError(t)


def bad_literals(t):
    """Texts which are not literals of the type."""
    if t.startswith(("opt:", "new:")):
        return bad_literals(t[4:])
    if t == "bool":
        return ["", "1", "0", "True", "TRUE", "yes", "t", "true ", " true", "truee", "falsee", "tru", "on", "null"]
    if t in INT:
        lo, hi = INT[t]
        bad = ["", " ", "x", "1x", "x1", " 1", "1 ", "1.0", "1e2", "0x10", "1_000", "--1", "-", "+", "1-", "true", "１", "1,0",
               "99999999999999999999999999", "-99999999999999999999999999", "1\u0000", "NaN", "inf", "1+", "+-1",
               str(hi + 1), str(lo - 1), str(hi * 10), str(hi + 256), str(2**64), str(2**64 + 1), "340282366920938463463374607431768211456"]
        if lo == 0:
            bad += ["-1", "-5", "-%d" % (hi + 1)]
        return bad
    if t in ("f32", "f64"):
        return ["", "x", "1.2.3", "--1", "1,5", " 1", "1 ", "0x1", "e5", "1e", "true", "-", "+", "."]
    return []


def twin(r, tok, n=None):
    """The body of a call: equal to those of other calls in length, at its ends and almost everywhere else."""
    n = r.choice([0, 1, 3, 20, 60, 600, 3000]) if n is None else n
    return "x" * n + "%-6s" % tok + "x" * n
