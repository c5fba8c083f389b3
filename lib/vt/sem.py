"""Reference semantics of SPVM values and operators, written from the language documents."""
import ctypes, math, struct

INTS = ("byte", "short", "int", "long")
FLTS = ("float", "double")
NUM = INTS + FLTS
BITS = {"byte": 8, "short": 16, "int": 32, "long": 64}
RANK = {t: i for i, t in enumerate(NUM)}
SFX = {"byte": "b", "short": "s", "int": "i", "long": "l", "float": "f", "double": "d"}
CHR = {"byte": "b", "short": "h", "int": "i", "long": "l", "float": "f", "double": "d"}


class Die(Exception):
    """An SPVM exception in flight: msg grows by one stack-trace line per frame."""
    def __init__(self, msg, err="Error"):
        Exception.__init__(self, msg)
        self.msg = msg if isinstance(msg, bytes) else msg.encode()
        self.err = err


class UB(Exception):
    """The program leaves the defined domain (the case is discarded)."""


def lo(t):
    return -(1 << (BITS[t] - 1))


def hi(t):
    return (1 << (BITS[t] - 1)) - 1


def wrap(t, v):
    b = BITS[t]
    v &= (1 << b) - 1
    return v - (1 << b) if v >> (b - 1) else v


def f32(x):
    return ctypes.c_float(x).value


def int_to_f32(n):
    """Correctly rounded (one rounding) int -> binary32."""
    a = abs(n)
    e = a.bit_length() - 24
    if e <= 0:
        return float(n)
    q, r = divmod(a, 1 << e)
    h = 1 << (e - 1)
    if r > h or (r == h and q & 1):
        q += 1
    v = math.ldexp(q, e)
    return -v if n < 0 else v


def promote(t):
    return "int" if t in ("byte", "short") else t


def bin_type(a, b):
    a, b = promote(a), promote(b)
    return a if RANK[a] >= RANK[b] else b


def conv(src, dst, v):
    """Numeric conversion of v from type src to dst."""
    if src == dst:
        return v
    if dst in BITS:
        if src in BITS:
            return wrap(dst, v)
        if v != v or math.isinf(v):
            raise UB
        n = math.trunc(v)
        if not lo(dst) <= n <= hi(dst):
            raise UB
        return n
    if dst == "float":
        return int_to_f32(v) if src in BITS else f32(v)
    return float(v)


def fdiv(a, b):
    if b != 0:
        return a / b
    if a != a or a == 0:
        return math.nan
    neg = (math.copysign(1, a) < 0) != (math.copysign(1, b) < 0)
    return -math.inf if neg else math.inf


def _rnd(t, x):
    return f32(x) if t == "float" else x


DIV0 = "A value of an integer type cannnot be divided by 0."


def arith(op, t, a, b):
    """+ - * / on two values of the same promoted type t."""
    if t in BITS:
        if op == "+":
            return wrap(t, a + b)
        if op == "-":
            return wrap(t, a - b)
        if op == "*":
            return wrap(t, a * b)
        if op == "/":
            if b == 0:
                raise Die(DIV0)
            q = abs(a) // abs(b)
            return wrap(t, q if (a < 0) == (b < 0) else -q)
        if op == "%":
            if b == 0:
                raise Die(DIV0)
            return a % b
        u = (1 << BITS[t]) - 1
        if op in ("div_uint", "div_ulong"):
            if b == 0:
                raise Die(DIV0)
            return wrap(t, (a & u) // (b & u))
        if op in ("mod_uint", "mod_ulong"):
            if b == 0:
                raise Die(DIV0)
            return wrap(t, (a & u) % (b & u))
        if op == "&":
            return a & b
        if op == "|":
            return a | b
        if op == "^":
            return a ^ b
        raise AssertionError(op)
    try:
        if op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            r = a * b
        elif op == "/":
            r = fdiv(a, b)
        else:
            raise AssertionError(op)
    except OverflowError:
        raise AssertionError
    return _rnd(t, r)


def shift(op, t, a, n):
    w = BITS[t]
    if not 0 <= n < w:
        raise UB
    if op == "<<":
        return wrap(t, a << n)
    if op == ">>":
        return a >> n
    return wrap(t, (a & ((1 << w) - 1)) >> n)


def compare(op, a, b):
    if op == "==":
        return int(a == b)
    if op == "!=":
        return int(a != b)
    if op == ">":
        return int(a > b)
    if op == ">=":
        return int(a >= b)
    if op == "<":
        return int(a < b)
    if op == "<=":
        return int(a <= b)
    if op == "<=>":
        return 1 if a > b else -1 if a < b else 0
    raise AssertionError(op)


def scmp(op, a, b):
    """String comparison; undef is smaller than everything and equal to itself only."""
    ka, kb = (0, b"") if a is None else (1, a), (0, b"") if b is None else (1, b)
    c = (ka > kb) - (ka < kb)
    return {"eq": int(c == 0), "ne": int(c != 0), "gt": int(c > 0), "ge": int(c >= 0), "lt": int(c < 0), "le": int(c <= 0), "cmp": c}[op]


def truth(t, v):
    """Condition evaluation."""
    if t in ("byte", "short", "int"):
        return v
    if t in NUM:
        return int(v != 0)  # NaN is true
    return int(v is not None)


def num_to_str(t, v):
    if t in BITS:
        return b"%d" % v
    if v != v:
        raise UB()      # the sign of a NaN is not defined
    return ("%g" % v).encode()


def _strtoll(s):
    i = 0
    n = len(s)
    while i < n and s[i:i + 1] in b" \t\n\v\f\r" and s[i:i + 1]:
        i += 1
    neg = False
    if i < n and s[i:i + 1] in (b"+", b"-"):
        neg = s[i:i + 1] == b"-"
        i += 1
    j = i
    while j < n and 48 <= s[j] <= 57:
        j += 1
    v = int(s[i:j]) if j > i else 0
    v = -v if neg else v
    return max(-(1 << 63), min((1 << 63) - 1, v))


_libc = ctypes.CDLL(None)
_libc.strtod.restype = ctypes.c_double
_libc.strtod.argtypes = [ctypes.c_char_p, ctypes.c_void_p]
_libc.strtof.restype = ctypes.c_float
_libc.strtof.argtypes = [ctypes.c_char_p, ctypes.c_void_p]


def str_to_num(t, s):
    if s is None:
        return 0 if t in BITS else 0.0
    z = s.find(b"\0")
    if z >= 0:
        s = s[:z]
    if t in BITS:
        return max(lo(t), min(hi(t), _strtoll(s)))
    if t == "float":
        return _libc.strtof(s, None)
    return _libc.strtod(s, None)


def bits32(x):
    return struct.unpack("<I", struct.pack("<f", x))[0]


def bits64(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def rec(t, v):
    """The driver's trace record of a numeric value; every NaN is one NaN."""
    if t in BITS:
        return v
    if t == "float":
        return ("f", "nan") if v != v else ("f", bits32(v))
    return ("d", "nan") if v != v else ("d", bits64(v))


def norm(x):
    """Normalise a decoded record: all NaNs are equal."""
    if isinstance(x, tuple):
        if x[0] == "f" and isinstance(x[1], int) and (x[1] & 0x7fffffff) > 0x7f800000:
            return ("f", "nan")
        if x[0] == "d" and isinstance(x[1], int) and (x[1] & ((1 << 63) - 1)) > 0x7ff0000000000000:
            return ("d", "nan")
    return x


EDGE = {t: sorted({0, 1, -1, 2, -2, 3, 7, 10, -10, lo(t), lo(t) + 1, hi(t), hi(t) - 1, hi(t) // 2, lo(t) // 2, 100, -100}
                  | {v for k in range(BITS[t]) for v in ((1 << k), (1 << k) - 1, -(1 << k), -(1 << k) - 1) if lo(t) <= v <= hi(t)}, key=lambda v: (abs(v), v < 0))
        for t in INTS}
FEDGE = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 1.5, -2.25, 3.0, 10.0, 0.1, -0.1, 1e10, -1e10, 16777216.0, 16777217.0, 1e-3, 123456.789, 1e15, 2147483647.0, 2147483648.0,
         -2147483648.0, 4294967296.0, 9.007199254740993e15, 9.2e18, 127.0, 128.0, -129.0, 32767.5, 65536.0, 3.4028234663852886e38, 1e-38, 1e-45, 1e300, -1e300, 5e-324, -0.0]


def draw_num(src, t):
    """A numeric value of type t: small, edge or uniform."""
    if t in BITS:
        k = src.weighted([(5, 0), (3, 1), (2, 2)])
        if k == 0:
            return src.choice([0, 1, -1, 2, 3, -2, 5, 7, -3, 10, 4, 6, 8, 9, 12, 100, -7])
        if k == 1:
            return src.choice(EDGE[t])
        return wrap(t, src.below(1 << BITS[t]))
    k = src.weighted([(3, 0), (3, 1), (2, 2), (1, 3)])
    if k == 0:
        v = src.choice([0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 3.0, 1.25, -2.5, 10.0, 100.0])
    elif k == 1:
        v = src.choice(FEDGE)
    elif k == 2:
        v = src.int(-1000000, 1000000) / 64.0
    elif t == "float":
        b = src.below(1 << 32)
        v = struct.unpack("<f", struct.pack("<I", b))[0]
    else:
        b = src.below(1 << 64)
        v = struct.unpack("<d", struct.pack("<Q", b))[0]
    if t == "float":
        v = f32(v)
    return 1.0 if v != v or math.isinf(v) else v


def flit(t, v):
    """Source text of a non-negative floating point literal."""
    s = repr(float(v)) if t == "double" else shortest32(v)
    if "e" in s:
        m, e = s.split("e")
        if "." not in m:
            m += ".0"
        s = m + "e" + e
    elif "." not in s:
        s += ".0"
    return s + ("f" if t == "float" else "")


def shortest32(v):
    for p in range(6, 10):
        s = "%.*g" % (p, v)
        if f32(float(s)) == v and _libc.strtof(s.encode(), None) == v:
            return s
    return "%.9g" % v
