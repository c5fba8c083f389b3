import ctypes, re, struct
from vt import matrix, sem, pbt
from vt.matrix import Op
from vt.pbt import Suite
from vt.sem import Die

TITLE = "Fn's functions compute what their documentation says for every argument"
RULE = ("One case calls 60 randomly chosen Fn functions (each function x each way of passing arguments) with generated strings, offsets, lengths, "
        "arrays, code points and undefined values; it is non-trivial when at least one result or exception was compared with the reference.")
ASSUMPTIONS = ["C locale for the number parsers, whose reference is the C library's strtod, strtof and strtoll",
               "numbers whose conversion underflows (ERANGE on denormals) are excluded"]

libc = ctypes.CDLL(None, use_errno=True)
libc.strtod.restype = ctypes.c_double
libc.strtof.restype = ctypes.c_float
libc.strtoll.restype = ctypes.c_longlong
ERANGE = 34
DIE = "*"
I32 = (1 << 31)


def need(*xs):
    if any(x is None for x in xs):
        raise Die(DIE)


def w32(v):
    return ((v + I32) & 0xffffffff) - I32


def arr(t, xs):
    return ("N", t + "[]", struct.pack("<%d%s" % (len(xs), {"byte": "b", "short": "h", "int": "i", "long": "q", "float": "f", "double": "d"}[t]), *xs))


def strs(xs):
    return ("A", "string[]", list(xs))


# ---------------------------------------------------------------- generators
UNI = ["a", "b", "z", "A", "Z", "0", "9", "é", "ß", "あ", "ん", "０", "９", "\U0001F600", "\U0010FFFF", "￿", "\x7f", "\x80", "߿", "ࠀ", "퟿", "", "\0"]


def text(src):
    """A string: short over a small alphabet, words with blanks, UTF-8, or bytes."""
    k = src.weighted([(5, 0), (3, 1), (3, 2), (2, 3), (1, 4)])
    if k == 0:
        return bytes(src.choice(b"ab,") for _ in range(src.below(10)))
    if k == 1:
        return bytes(src.choice(b"aZzA09 \t\n\r\x0b\x0c\x08\x0e!~_-.@`[{^\x1f/:\x7f") for _ in range(src.below(12)))
    if k == 2:
        return "".join(src.choice(UNI) for _ in range(src.below(8))).encode()
    if k == 3:
        return bytes(src.choice([0, 10, 13, 32, 65, 97, 127, 128, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff, 0x9f, 0xa0, 0x90, 0x8f]) for _ in range(src.below(6)))
    return src.bytes(src.below(40))


def ustr(src):
    """Mostly valid UTF-8."""
    return text(src) if src.chance(1, 6) else "".join(src.choice(UNI) for _ in range(src.below(9))).encode()


def opt(f, n=16):
    return lambda src: None if src.chance(1, n) else f(src)


def off(src, n):
    """An offset or length around 0..n, sometimes negative or huge."""
    k = src.weighted([(14, 0), (2, 1), (1, 2)])
    if k == 0:
        return src.int(0, n + 1)
    if k == 1:
        return src.int(-3, n + 3)
    return src.choice([2147483647, -2147483648, 2147483646, 2147483647 - n, -n, 1 << 30])


def cp(src):
    k = src.below(4)
    if k == 0:
        return src.int(-2, 260)
    if k == 1:
        return src.choice([0xD7FF, 0xD800, 0xDFFF, 0xE000, 0x10FFFF, 0x110000, 0xFFFF, 0x10000, 0x7FF, 0x800, 0x7F, 0x80, -1, 2147483647, -2147483648])
    if k == 2:
        return src.int(0, 0x10FFFF)
    return src.int(0, 127)


def chars(b):
    """Strict UTF-8: the characters, or dies."""
    try:
        return b.decode("utf8")
    except UnicodeDecodeError:
        raise Die(DIE)


# ---------------------------------------------------------------- references
def f_index(s, sub, b=0, e=-1):
    need(s, sub)
    n = len(s)
    if not 0 <= b <= n:
        raise Die(DIE)
    if e < 0:
        e = n
    if e > n or e < b:
        raise Die(DIE)
    if not sub:
        return b
    if e == n:
        e -= 1
    for i in range(b, e + 1):
        if i + len(sub) - 1 <= e and s[i:i + len(sub)] == sub:
            return i
    return -1


def f_rindex(s, sub, e=-1, b=0):
    need(s, sub)
    n = len(s)
    if not 0 <= b <= n:
        raise Die(DIE)
    if e < 0:
        e = n
    if e > n or e < b:
        raise Die(DIE)
    if not sub:
        return e
    if e == n:
        e -= 1
    for i in range(e, b - 1, -1):
        if i + len(sub) - 1 <= e and s[i:i + len(sub)] == sub:
            return i
    return -1


def span(n, o, l, neg=True):
    """Range check of offset and length against n (l < 0: to the end)."""
    if o < 0:
        raise Die(DIE)
    if l < 0:
        if not neg:
            raise Die(DIE)
        l = n - o
    if o + l > n or l < 0:
        raise Die(DIE)
    return o, l


def f_substr(s, o, l=-1, r=None):
    need(s)
    if o < 0:
        raise Die(DIE)
    if l < 0:
        l = len(s) - o
    if o + l > len(s) or l < 0:
        raise Die(DIE)
    return s[o:o + l] if r is None else s[:o] + r + s[o + l:]


def f_chomp(s):
    need(s)
    return s[:-2] if s.endswith(b"\r\n") else s[:-1] if s.endswith(b"\n") else s


def f_chr(c):
    if 0 <= c <= 0x10FFFF and not 0xD800 <= c <= 0xDFFF:
        return chr(c).encode()
    return None


def f_split(sep, s, limit=0):
    need(sep, s)
    if not sep:
        raise Die(DIE)
    p = s.split(sep, limit - 1 if limit > 0 else -1)
    if limit == 0:
        while p and not p[-1]:
            p.pop()
    return strs(p)


def code_point_at(s, o):
    need(s)
    if not 0 <= o < len(s):
        raise Die(DIE)
    b = s[o]
    n = 1 if b < 0x80 else 2 if 0xc2 <= b <= 0xdf else 3 if 0xe0 <= b <= 0xef else 4 if 0xf0 <= b <= 0xf4 else 0
    if not n:
        raise Die(DIE)
    return ord(chars(s[o:o + n])), n


def f_hex(s):
    need(s)
    if not 1 <= len(s) <= 8 or not re.fullmatch(b"[0-9a-fA-F]+", s):
        raise Die(DIE)
    return w32(int(s, 16))


def f_pow(bits):
    def f(b, e):
        if e < 0 or (b == 0 and e == 0):
            raise Die(DIE)
        m = 1 << bits
        return ((pow(b, e, m) + m // 2) % m) - m // 2
    return f


def f_tr(s, p, r):
    need(s, p, r)
    P, R = rng(p), rng(r)
    out = []
    o = 0
    while o < len(s):
        c, n = code_point_at(s, o)
        o += n
        if P[0] <= c <= P[1]:
            c = R[0] + c - P[0]
        x = f_chr(c)
        if x is None:
            raise Die(DIE)
        out.append(x)
    return b"".join(out)


def rng(p):
    t = chars(p)
    if len(t) == 1:
        return ord(t), ord(t)
    if len(t) != 3 or t[1] != "-" or ord(t[0]) > ord(t[2]):
        raise Die(DIE)
    return ord(t[0]), ord(t[2])


def f_usubstr(s, o, l=-1):
    need(s)
    if o < 0:
        raise Die(DIE)
    t = ""
    i = 0
    # reads only as far as the range goes
    while i < len(s):
        if l >= 0 and len(t) > o and len(t) >= o + l + (0 if l else 1):
            pass
        c, n = code_point_at(s, i)
        i += n
        t += chr(c)
        if l >= 0 and len(t) - 1 >= o + l:
            t = t[:-1]
            break
    if l >= 0:
        if o + l > len(t):
            raise Die(DIE)
        return t[o:o + l].encode()
    return t[o:].encode()


def number(fn, lo=None, hi=None, base=None):
    def f(s, b=base):
        need(s)
        if b is not None and b not in (2, 8, 10, 16):
            raise Die(DIE)
        buf = ctypes.create_string_buffer(s)
        end = ctypes.c_void_p()
        ctypes.set_errno(0)
        v = fn(buf, ctypes.byref(end), *([b] if b is not None else []))
        e = ctypes.get_errno()
        used = end.value - ctypes.addressof(buf)
        if used == 0 or used != len(s):
            raise Die(DIE)
        if e == ERANGE:
            if b is None and abs(v) < 1:
                raise sem.UB
            raise Die(DIE)
        if lo is not None and not lo <= v <= hi:
            raise Die(DIE)
        return v
    return f


to_int, to_long = number(libc.strtoll, -I32, I32 - 1, 10), number(libc.strtoll, None, None, 10)
to_double, to_float = number(libc.strtod), number(libc.strtof)


def numtext(src):
    k = src.below(10)
    if k == 0:
        return text(src)
    if k == 1:
        return src.choice([b"", b" ", b"+", b"-", b"0x", b"0x1g", b"1 ", b" 1", b"\t-1", b"1\0", b"\0", b"1\x002", b"--1", b"+-1", b"1e", b"1e+", b".", b"-.", b"0b1", b"08", b"1_0"])
    if k == 2:
        return src.choice([b"inf", b"-INF", b"infinity", b"nan", b"infi", b"0x1p3", b"0x.8p-1", b"1e400", b"-1e400", b"1e39", b"3.4028235e38", b"3.4028236e38", b"1.7976931348623157e308", b"1.7976931348623159e308"])
    v = src.choice([0, 1, -1, I32, I32 - 1, -I32, -I32 - 1, 1 << 63, (1 << 63) - 1, -(1 << 63), -(1 << 63) - 1, src.int(-1000, 1000), src.int(-(1 << 62), 1 << 62), src.int(-(1 << 31), 1 << 31), 1 << 64, 10 ** 30])
    sg = b"-" if v < 0 else src.choice([b"", b"", b"+"])
    v = abs(v)
    if k == 3:
        return sg + src.choice([b"", b"0x", b"0X"]) + b"%x" % v
    if k == 4:
        return sg + b"%o" % v
    if k == 5:
        return sg + bin(v)[2:].encode()
    if k in (6, 7):
        m = b"%d.%d" % (v if src.chance(1, 2) else src.below(100), src.below(100000)) if src.chance(2, 3) else b".%d" % src.below(1000)
        return sg + m + (b"" if src.chance(1, 2) else src.choice([b"e", b"E"]) + b"%d" % src.int(-40, 40))
    return sg + b"%d" % v


def crand(seed):
    s = seed & 0xffffffff
    m = 0xffffffff
    s = (s * 1103515245 + 12345) & m
    r = (s // 65536) % 2048
    s = (s * 1103515245 + 12345) & m
    r = (r << 10) ^ ((s // 65536) % 1024)
    s = (s * 1103515245 + 12345) & m
    r = (r << 10) ^ ((s // 65536) % 1024)
    return r, w32(s)


SIZES = {"byte": 1, "short": 2, "int": 4, "long": 8, "float": 4, "double": 8}


def anyval(src, n=None):
    """An argument of type object and what it is: undef, string, numeric array, string array."""
    k = src.weighted([(6, 0), (8, 1), (2, 2), (1, 3)])
    if k == 0:
        return text(src)
    if k == 1:
        t = src.choice(list(SIZES))
        m = src.below(7) if n is None else n
        return ("arr", sem.CHR[t], [sem.conv(t, t, sem.draw_num(src, t)) if t in sem.BITS else float(src.int(-50, 50)) for _ in range(m)])
    if k == 2:
        return ("strs", [opt(text, 8)(src) for _ in range(src.below(5))])
    return None


TN = {v: k for k, v in sem.CHR.items()}
FMT = {"byte": "b", "short": "h", "int": "i", "long": "q", "float": "f", "double": "d"}


def rawof(v):
    """The bytes of a string or numeric array."""
    if isinstance(v, bytes):
        return v
    return struct.pack("<%d%s" % (len(v[2]), FMT[TN[v[1]]]), *v[2])


def back(v, raw):
    if isinstance(v, bytes):
        return raw
    return ("N", TN[v[1]] + "[]", raw)


def isstrs(v):
    return isinstance(v, tuple) and v[0] == "strs"


def ismem(v):
    need(v)
    if isinstance(v, tuple) and v[0] == "strs":
        raise Die(DIE)


def f_mem(d, do, s, so, l):
    ismem(d)
    ismem(s)
    D, S = bytearray(rawof(d)), rawof(s)
    if l < 0:
        raise Die(DIE)
    if do < 0 or so < 0 or do + l > len(D) or so + l > len(S):
        raise Die(DIE)
    D[do:do + l] = S[so:so + l]
    return back(d, bytes(D))


def f_memself(d, do, so, l):
    return f_mem(d, do, d, so, l)


def f_memcmp(d, do, s, so, l):
    ismem(d)
    ismem(s)
    D, S = rawof(d), rawof(s)
    if l < 0 or do < 0 or so < 0 or do + l > len(D) or so + l > len(S):
        raise Die(DIE)
    a, b = D[do:do + l], S[so:so + l]
    return (a > b) - (a < b)


def gmem(src):
    d, s = anyval(src), anyval(src)
    def nb(v):
        return 5 if v is None or isstrs(v) else len(rawof(v))
    if src.chance(1, 4):
        s = d
    return [d, off(src, nb(d)), s, off(src, nb(s)), src.int(0, min(nb(d), nb(s))) if src.chance(4, 5) else off(src, nb(d))]


def gself(src):
    d = anyval(src)
    n = 5 if d is None or isstrs(d) else len(rawof(d))
    return [d, off(src, n), off(src, n), src.int(0, n) if src.chance(4, 5) else off(src, n)]


def isarr(v):
    return isinstance(v, tuple)


def lenof(v):
    return len(v) if isinstance(v, bytes) else len(v[2] if v[0] == "arr" else v[1])


def f_reverse(v):
    need(v)
    if isinstance(v, bytes):
        return v[::-1]
    if v[0] == "strs":
        return strs(v[1][::-1])
    return ("N", TN[v[1]] + "[]", rawof((v[0], v[1], v[2][::-1])))


def f_copy(v):
    if v is None or isinstance(v, bytes):
        return v
    return strs(v[1]) if v[0] == "strs" else ("N", TN[v[1]] + "[]", rawof(v))


def f_slice(v, o, l):
    need(v)
    if isinstance(v, bytes) or o < 0 or l < 0 or o + l > lenof(v):
        raise Die(DIE)
    if v[0] == "strs":
        return strs(v[1][o:o + l])
    return ("N", TN[v[1]] + "[]", rawof((v[0], v[1], v[2][o:o + l])))


def f_sortnum(rev):
    def f(v):
        need(v)
        if isinstance(v, bytes) or v[0] == "strs":
            raise Die(DIE)
        return ("N", TN[v[1]] + "[]", rawof((v[0], v[1], sorted(v[2], reverse=rev))))
    return f


def f_endian(b, n, o=0):
    need(b)
    if n <= 0 or o < 0 or o + n > len(b):
        raise Die(DIE)
    return b[:o] + b[o:o + n][::-1] + b[o + n:]


def f_same(b, n, o=0):
    return b


def f_fill(s, c, o=0, l=-1, neg=True):
    need(s)
    if l < 0:
        l = len(s) - o
    if o + l > len(s):
        raise Die(DIE)
    if o < 0 and l > 0:
        raise Die(DIE)
    if o < 0 and neg:
        raise Die(DIE)
    if l < 0:
        raise sem.UB  # an offset behind the end: not documented
    return s[:o] + bytes([c & 255]) * l + s[o + l:]


def die():
    raise Die(DIE)


def truthy(v):
    return v is not None


CT = {  # documented character classes over code points
    "is_alnum": lambda c: 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122,
    "is_alpha": lambda c: 65 <= c <= 90 or 97 <= c <= 122,
    "is_cntrl": lambda c: 0 <= c <= 0x1f or c == 0x7f,
    "is_digit": lambda c: 48 <= c <= 57,
    "is_graph": lambda c: 0x21 <= c <= 0x7e,
    "is_hex_digit": lambda c: 48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102,
    "is_xdigit": lambda c: 48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102,
    "is_lower": lambda c: 97 <= c <= 122,
    "is_upper": lambda c: 65 <= c <= 90,
    "is_perl_space": lambda c: c in (9, 10, 12, 13, 32),
    "is_perl_word": lambda c: 48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122 or c == 95,
    "is_print": lambda c: 0x20 <= c <= 0x7e,
    "is_punct": lambda c: 0x21 <= c <= 0x2f or 0x3a <= c <= 0x40 or 0x5b <= c <= 0x60 or 0x7b <= c <= 0x7e,
    "is_space": lambda c: 9 <= c <= 13 or c == 32,
}


def build():
    O = []

    def add(params, ret, body, ref, tag, gen, w=1):
        O.extend([Op(params, ret, body, ref, tag, gen) for _ in range(1)])

    T1 = opt(text)
    U1 = opt(ustr)
    add(["mutable string"], "string", "Fn->chomp($a); return $a;", f_chomp, "chomp", lambda s: [None if s.chance(1, 16) else text(s) + s.choice([b"", b"\n", b"\r\n", b"\r", b"\n\n", b"\n\r"])])
    add(["string"], "string", "return Fn->chompr($a);", f_chomp, "chompr", lambda s: [None if s.chance(1, 16) else text(s) + s.choice([b"", b"\n", b"\r\n", b"\r", b"\n\n"])])
    add(["int"], "string", "return Fn->chr($a);", f_chr, "chr", lambda s: [cp(s)])
    add(["int"], "int", "return Fn->ord(Fn->chr($a));", (lambda c: c if f_chr(c) is not None else die()), "ord", lambda s: [cp(s)])
    add(["string"], "int", "return Fn->ord($a);", (lambda s: code_point_at(s, 0)[0]), "ord", lambda s: [U1(s)])

    def gidx(s):
        x = T1(s)
        n = len(x or b"")
        if x and s.chance(2, 3):
            i = s.below(n)
            y = x[i:i + 1 + s.below(3)]
        else:
            y = T1(s) if s.chance(1, 3) else bytes(s.choice(b"ab,") for _ in range(s.below(3)))
        return x, y, n
    for nm, f in (("index", f_index), ("rindex", f_rindex)):
        add(["string", "string"], "int", "return Fn->%s($a, $b);" % nm, f, nm, lambda s: list(gidx(s)[:2]))
        def g3(s):
            x, y, n = gidx(s)
            return [x, y, off(s, n)]
        def g4(s):
            x, y, n = gidx(s)
            p, q = off(s, n), off(s, n)
            return [x, y, p, q]
        add(["string", "string", "int"], "int", "return Fn->%s($a, $b, $c);" % nm, f, nm + "3", g3)
        add(["string", "string", "int", "int"], "int", "return Fn->%s($a, $b, $c, $d);" % nm, f, nm + "4", g4)
    add(["string", "string"], "int", "return Fn->contains($a, $b);", (lambda x, y: int(f_index(x, y) >= 0)), "contains", lambda s: list(gidx(s)[:2]))
    add(["string", "string", "int", "int"], "int", "return Fn->contains($a, $b, $c, $d);", (lambda *v: int(f_index(*v) >= 0)), "contains4", g4)
    add(["string"], "string", "my $c = Fn->copy_string($a); if ($a) { if ($c == $a) { return \"same\"; } } return $c;", (lambda x: x), "copy_string", lambda s: [T1(s)])
    add(["int"], "int", "my $s = $a; my $r = Fn->crand(\\$s); VT->i(0); return $r;", (lambda a: crand(a)[0]), "crand", lambda s: [sem.draw_num(s, "int")])
    add(["int"], "int", "my $s = $a; Fn->crand(\\$s); return $s;", (lambda a: crand(a)[1]), "crand-seed", lambda s: [sem.draw_num(s, "int")])
    add(["int", "int"], "double", "my $s = $a; return Fn->rand(\\$s, $b);", (lambda a, b: crand(a)[0] / 2147483648.0 * b), "rand", lambda s: [sem.draw_num(s, "int"), sem.draw_num(s, "int")])
    add(["int"], "double", "my $s = $a; return Fn->rand(\\$s);", (lambda a: crand(a)[0] / 2147483648.0), "rand", lambda s: [sem.draw_num(s, "int")])

    def geq(s):
        x = T1(s)
        y = x if s.chance(1, 2) else T1(s)
        if x and y and s.chance(1, 2):
            k = s.below(3)
            y = bytes(s.choice(b"ab") for _ in range(k)) + x
            i = s.below(len(x) + 1)
            return [x, i, y, i + k, s.int(0, len(x) - i + 1)]
        return [x, off(s, len(x or b"")), y, off(s, len(y or b"")), max(0, off(s, len(x or b"")))]

    def feq(x, i, y, j, n):
        need(x, y)
        if i < 0 or j < 0:
            raise Die(DIE)
        if i + n > len(x) or j + n > len(y):
            return 0
        return int(x[i:i + n] == y[j:j + n])
    add(["string", "int", "string", "int", "int"], "int", "return Fn->equals_string_range($a, $b, $c, $d, $e);", feq, "equals_string_range", geq)
    def gcp(s):
        x = U1(s)
        return [x, off(s, len(x or b""))]
    add(["string", "int"], "int", "my $o = $b; return Fn->get_code_point($a, \\$o);", (lambda x, o: code_point_at(x, o)[0]), "get_code_point", gcp)
    add(["string", "int"], "int", "my $o = $b; Fn->get_code_point($a, \\$o); return $o;", (lambda x, o: o + code_point_at(x, o)[1]), "get_code_point-offset", gcp)
    add(["string", "int"], "int", "my $o = $b; my $c = Fn->look_code_point($a, \\$o); unless ($o == $b) { die \"moved\"; } return $c;", (lambda x, o: code_point_at(x, o)[0]), "look_code_point", gcp)

    def invalid(x, o):
        need(x)
        if not 0 <= o < len(x):
            return 0
        try:
            code_point_at(x, o)
        except Die:
            return 1
        return 0
    add(["string", "int"], "int", "my $o = $b; eval { Fn->get_code_point($a, \\$o); }; unless ($o == $b || !$@) { return -1; } if (eval_error_id isa_error Error::Unicode::InvalidUTF8) { return 1; } return 0;", (lambda x, o: invalid(x, o) if x is not None else 0), "InvalidUTF8", gcp)
    add(["string"], "int", "return Fn->hex($a);", f_hex, "hex", lambda s: [None if s.chance(1, 16) else bytes(s.choice(b"0123456789abcdefABCDEF") for _ in range(s.below(10))) if s.chance(7, 8) else bytes(s.choice(b"09afAFgG:/`@ ") for _ in range(1 + s.below(4)))])
    for nm, f in sorted(CT.items()):
        add(["int"], "int", "return Fn->%s($a);" % nm, (lambda c, f=f: int(f(c))), nm, lambda s: [cp(s)])
        add(["int"], "int", "my $n = 0; for (my $i = $a; $i < $a + 40; $i++) { $n = ($n * 2 + Fn->%s($i)) %% 1000003; } return $n;" % nm,
            (lambda a, f=f: __import__("functools").reduce(lambda n, c: (n * 2 + int(f(c))) % 1000003, range(a, a + 40), 0)), nm, lambda s: [s.int(-10, 300)])
    add(["int"], "int", "return Fn->to_lower($a);", (lambda c: c + 32 if 65 <= c <= 90 else c), "to_lower", lambda s: [cp(s)])
    add(["int"], "int", "return Fn->to_upper($a);", (lambda c: c - 32 if 97 <= c <= 122 else c), "to_upper", lambda s: [cp(s)])
    add(["int"], "int", "return Fn->abs($a);", (lambda a: w32(abs(a))), "abs", None)
    add(["long"], "long", "return Fn->labs($a);", (lambda a: sem.wrap("long", abs(a))), "labs", None)
    add(["string", "string[]"], "string", "return Fn->join($a, $b);", (lambda a, b: (need(a, b), a.join(x or b"" for x in b))[1]), "join", lambda s: [T1(s), None if s.chance(1, 16) else [opt(text, 6)(s) for _ in range(s.below(6))]])
    for nm, f in (("lc", lambda x: bytes(c + 32 if 65 <= c <= 90 else c for c in x)), ("uc", lambda x: bytes(c - 32 if 97 <= c <= 122 else c for c in x))):
        add(["string"], "string", "return Fn->%s($a);" % nm, (lambda x, f=f: (need(x), f(x))[1]), nm, lambda s: [T1(s)])
        add(["string"], "string", "return Fn->%sfirst($a);" % nm, (lambda x, f=f: (need(x), f(x[:1]) + x[1:])[1]), nm + "first", lambda s: [T1(s)])
    add(["int", "int"], "int", "return Fn->powi($a, $b);", f_pow(32), "powi", lambda s: [s.choice([sem.draw_num(s, "int"), s.int(-12, 12)]), s.int(-2, 40)])
    add(["long", "long"], "long", "return Fn->powl($a, $b);", f_pow(64), "powl", lambda s: [s.choice([sem.draw_num(s, "long"), s.int(-12, 12)]), s.int(-2, 70)])
    add(["string", "int"], "string", "return Fn->repeat($a, $b);", (lambda x, n: (need(x), x * n if n >= 0 else die())[1]), "repeat", lambda s: [T1(s), s.int(-2, 12)])
    add(["mutable string", "int", "int"], "string", "Fn->replace_chars($a, $b, $c); return $a;",
        (lambda x, p, q: (need(x), bytes((q & 255) if (c if c < 128 else c - 256) == p else c for c in x))[1]), "replace_chars",
        lambda s: [T1(s), s.choice(list(b"ab,aZ \n\t") + [-1, -128, 0, 255, 128]), s.choice(list(b"xyz") + [0, -1, 255, 256, 300])])

    def gshort(s):
        x = T1(s)
        return [x, off(s, len(x or b""))]
    add(["mutable string", "int"], "string", "Fn->shorten($a, $b); return $a;", (lambda x, n: (need(x), die() if n < 0 else x[:n])[1]), "shorten", gshort)
    add(["mutable string"], "string", "Fn->shorten_null_char($a); return $a;", (lambda x: (need(x), x.split(b"\0")[0])[1]), "shorten_null_char", lambda s: [T1(s) if s.chance(1, 2) else text(s) + b"\0" + text(s)])
    add(["string", "string"], "string[]", "return Fn->split($a, $b);", f_split, "split", lambda s: [s.choice([b",", b"a", b"ab", b"aa", b"", None, b",a"]) if s.chance(9, 10) else T1(s), T1(s)])
    add(["string", "string", "int"], "string[]", "return Fn->split($a, $b, $c);", f_split, "split3", lambda s: [s.choice([b",", b"a", b"ab", b"aa", b",a"]), T1(s), s.int(-2, 6)])

    def gsub(s):
        x = T1(s)
        n = len(x or b"")
        o = s.int(0, n) if s.chance(4, 5) else off(s, n)
        return [x, o, s.int(0, max(0, n - o)) if s.chance(3, 4) else off(s, n)]
    add(["string", "int"], "string", "return Fn->substr($a, $b);", f_substr, "substr", lambda s: gsub(s)[:2])
    add(["string", "int", "int"], "string", "return Fn->substr($a, $b, $c);", f_substr, "substr3", gsub)
    add(["string", "int", "int", "string"], "string", "return Fn->substr($a, $b, $c, $d);", f_substr, "substr4", lambda s: gsub(s) + [opt(text, 5)(s)])
    add(["string", "int", "int", "string"], "string", "my $k = copy $a; my $r = Fn->substr($a, $b, $c, $d); unless ($a eq $k) { return \"changed\"; } return $r;", f_substr, "substr-pure", lambda s: gsub(s) + [text(s)])
    add(["string"], "int[]", "return Fn->to_code_points($a);", (lambda x: (need(x), arr("int", [ord(c) for c in chars(x)]))[1]), "to_code_points", lambda s: [U1(s)])
    add(["string"], "string[]", "return Fn->to_utf8_chars($a);", (lambda x: (need(x), strs([c.encode() for c in chars(x)]))[1]), "to_utf8_chars", lambda s: [U1(s)])
    add(["string"], "int", "return Fn->utf8_length($a);", (lambda x: (need(x), len(chars(x)))[1]), "utf8_length", lambda s: [U1(s)])

    def gus(s):
        x = U1(s)
        n = len((x or b"").decode("utf8", "replace"))
        o = s.int(0, n) if s.chance(4, 5) else off(s, n)
        return [x, o, s.int(0, max(0, n - o)) if s.chance(3, 4) else off(s, n)]
    add(["string", "int"], "string", "return Fn->utf8_substr($a, $b);", f_usubstr, "utf8_substr", lambda s: gus(s)[:2])
    add(["string", "int", "int"], "string", "return Fn->utf8_substr($a, $b, $c);", f_usubstr, "utf8_substr3", gus)
    add(["string"], "int", "return Fn->to_int($a);", to_int, "to_int", lambda s: [opt(numtext)(s)])
    add(["string"], "long", "return Fn->to_long($a);", to_long, "to_long", lambda s: [opt(numtext)(s)])
    gb = lambda s: [opt(numtext)(s), s.choice([2, 8, 10, 16, 16]) if s.chance(9, 10) else s.choice([0, 1, 3, 7, 9, 36, -1])]
    add(["string", "int"], "int", "return Fn->to_int_with_base($a, $b);", to_int, "to_int_with_base", gb)
    add(["string", "int"], "long", "return Fn->to_long_with_base($a, $b);", to_long, "to_long_with_base", gb)
    add(["string"], "double", "return Fn->to_double($a);", to_double, "to_double", lambda s: [opt(numtext)(s)])
    add(["string"], "float", "return Fn->to_float($a);", to_float, "to_float", lambda s: [opt(numtext)(s)])
    RG = ["a-z", "a-c", "b", "0-9", "０-９", "あ-ん", "x-z", "z-a", "a-", "--a", "a-zz", "abc", "", "A-Z", "\U0001F600-\U0001F610", "\x7f", "-", "퟾-퟿", "\U0010FFFE"]

    def gtr(s):
        return [U1(s), (T1(s) if s.chance(1, 10) else s.choice(RG).encode()), (T1(s) if s.chance(1, 10) else s.choice(RG).encode())]

    def ftr(x, p, r):
        need(x, p, r)
        return f_tr(x, p, r)
    add(["string", "string", "string"], "string", "return Fn->tr($a, $b, $c);", ftr, "tr", gtr)
    add(["string"], "string", "return Fn->trim($a);", (lambda x: (need(x), x.strip(b"\t\n\x0b\x0c\r "))[1]), "trim", lambda s: [None if s.chance(1, 16) else bytes(s.choice(b" \t\n\r\x0b\x0c\x08\x0e") for _ in range(s.below(3))) + text(s) + bytes(s.choice(b" \t\n\r\x0b\x0c\x08\x0e") for _ in range(s.below(3)))])

    def gfill(s):
        x = T1(s)
        n = len(x or b"")
        o = s.int(0, n) if s.chance(3, 4) else off(s, n)
        return [x, s.int(-3, 300), o, s.int(0, max(0, n - o)) if s.chance(3, 4) else off(s, n)]
    add(["mutable string", "int", "int", "int"], "string", "Fn->memset_char($a, $b, $c, $d); return $a;", f_fill, "memset_char", gfill)
    add(["mutable string", "int"], "string", "Fn->memset_char($a, $b); return $a;", f_fill, "memset_char", lambda s: gfill(s)[:2])
    add(["mutable string", "int", "int"], "string", "Fn->memset_char($a, $b, $c); return $a;", f_fill, "memset_char", lambda s: gfill(s)[:3])

    def finit(x, c=0, o=0, l=-1):
        if o < 0:
            raise sem.UB  # not documented
        return f_fill(x, c, o, l)
    add(["mutable string", "int", "int", "int"], "string", "Fn->init_string($a, $b, $c, $d); return $a;", finit, "init_string", gfill)
    add(["mutable string"], "string", "Fn->init_string($a); return $a;", finit, "init_string", lambda s: gfill(s)[:1])
    # -- memory
    for nm in ("memcpy", "memmove"):
        add(["object", "int", "object", "int", "int"], "object", "Fn->%s($a, $b, $c, $d, $e); return $a;" % nm, f_mem, nm, gmem)
    add(["object", "int", "int", "int"], "object", "Fn->memmove($a, $b, $a, $c, $d); return $a;", f_memself, "memmove-overlap", gself)
    add(["object", "int", "object", "int", "int"], "int", "my $r = Fn->memcmp($a, $b, $c, $d, $e); return $r <=> 0;", f_memcmp, "memcmp", gmem)
    RO = "my $s = copy $a; make_read_only $s; "
    add(["string"], "int", RO + "Fn->memcpy($s, 0, \"abc\", 0, 1); return 1;", lambda a: die(), "read-only", lambda s: [text(s) + b"a"])
    add(["string"], "int", RO + "Fn->memmove($s, 0, \"abc\", 0, 1); return 1;", lambda a: die(), "read-only", lambda s: [text(s) + b"a"])
    add(["string"], "int", RO + "Fn->reverse_inplace($s); return 1;", lambda a: die(), "read-only", lambda s: [text(s) + b"a"])
    # -- arrays and strings
    g1 = lambda s: [anyval(s)]
    add(["object"], "object", "return Fn->reverse($a);", f_reverse, "reverse", g1)
    add(["object"], "object", "my $k = Fn->copy($a); Fn->reverse($a); return $a;", (lambda v: f_copy(v) if v is not None else die()), "reverse-pure", g1)
    add(["object"], "object", "Fn->reverse_inplace($a); return $a;", f_reverse, "reverse_inplace", g1)
    add(["object"], "object", "return Fn->copy($a);", f_copy, "copy", g1)
    add(["object"], "object", "return Fn->copy($a, 1);", f_copy, "copy-shallow", g1)
    add(["string[]", "int"], "int", "my $c = (string[])Fn->copy($a, $b); my $n = 0; for (my $i = 0; $i < @$a; $i++) { if ($a->[$i] && $a->[$i] == $c->[$i]) { $n++; } } if ($c == $a) { $n = -1; } return $n;",
        (lambda v, sh: sum(x is not None for x in v) if sh else 0), "copy-identity", lambda s: [[opt(text, 5)(s) for _ in range(s.below(5))], s.below(2)])
    add(["object"], "int", "my $c = Fn->copy($a); return $c == $a;", (lambda v: int(v is None)), "copy-identity", g1)

    def gsl(s):
        v = anyval(s)
        n = lenof(v) if v is not None else 3
        o = s.int(0, n) if s.chance(4, 5) else off(s, n)
        return [v, o, s.int(0, max(0, n - o)) if s.chance(3, 4) else off(s, n)]
    add(["object", "int", "int"], "object", "return Fn->slice($a, $b, $c);", f_slice, "slice", gsl)
    add(["object"], "object", "return Fn->sort_asc($a);", f_sortnum(False), "sort_asc", g1)
    add(["object"], "object", "return Fn->sort_desc($a);", f_sortnum(True), "sort_desc", g1)
    add(["object"], "object", "Fn->sort_asc($a); return $a;", (lambda v: (f_sortnum(False)(v), f_copy(v))[1]), "sort-pure", g1)
    add(["object"], "int", "return Fn->length($a);", (lambda v: (need(v), lenof(v))[1]), "length", g1)
    add(["object"], "int", "return Fn->array_length($a);", (lambda v: (need(v), lenof(v) if isarr(v) else die())[1]), "array_length", g1)
    size = lambda v: 8 if v[0] == "strs" else SIZES[TN[v[1]]]
    add(["object"], "int", "return Fn->get_elem_size($a);", (lambda v: (need(v), size(v) if isarr(v) else die())[1]), "get_elem_size", g1)
    add(["object"], "int", "return Fn->get_elem_or_char_size($a);", (lambda v: (need(v), size(v) if isarr(v) else 1)[1]), "get_elem_size", g1)
    add(["object"], "string", "return Fn->get_elem_type_name($a);", (lambda v: (need(v), (b"string" if v[0] == "strs" else TN[v[1]].encode()) if isarr(v) else die())[1]), "get_elem_type_name", g1)
    add(["object"], "int", "return Fn->is_array($a);", (lambda v: int(isarr(v))), "is_array", g1)
    add(["object"], "int", "return Fn->is_numeric_array($a);", (lambda v: int(isarr(v) and v[0] == "arr")), "is_numeric_array", g1)
    add(["object"], "int", "return Fn->is_any_numeric_array($a);", (lambda v: int(isarr(v) and v[0] == "arr")), "is_numeric_array", g1)
    add(["object"], "int", "return Fn->is_string_array($a);", (lambda v: int(isarr(v) and v[0] == "strs")), "is_string_array", g1)
    add(["object"], "int", "return Fn->is_object_array($a);", (lambda v: int(isarr(v) and v[0] == "strs")), "is_object_array", g1)
    add(["object"], "int", "return Fn->is_class($a) + Fn->is_mulnum_array($a) + Fn->is_pointer_class($a);", (lambda v: 0), "is_class", g1)
    add(["int"], "int", "return Fn->is_class(Int->new(1)) * 100 + Fn->is_mulnum_array(new Complex_2d[$a]) * 10 + Fn->is_pointer_class(Int->new(3)) + Fn->is_any_numeric_array(new Complex_2f[2]) * 1000 + Fn->is_object_array(new Int[1]) * 10000 + Fn->is_object_array(new int[][1]) * 100000 + Fn->is_numeric_array(new Point_3i[2]);",
        (lambda a: 111110), "is_*", lambda s: [s.below(4)])
    # -- endian
    def gend(s):
        x = T1(s)
        n = len(x or b"")
        o = s.int(0, n) if s.chance(3, 4) else off(s, n)
        return [x, s.int(0, max(0, n - o)) if s.chance(3, 4) else off(s, n), o]
    for nm, f in (("change_endian", f_endian), ("big_endian_to_system_endian", f_endian), ("system_endian_to_big_endian", f_endian), ("little_endian_to_system_endian", f_same), ("system_endian_to_little_endian", f_same)):
        add(["mutable string", "int", "int"], "string", "Fn->%s($a, $b, $c); return $a;" % nm, f, nm, gend)
    add(["mutable string", "int"], "string", "Fn->change_endian($a, $b); return $a;", f_endian, "change_endian", lambda s: gend(s)[:2])
    # -- options and callbacks
    SA = lambda s: None if s.chance(1, 16) else [opt(text, 8)(s) for _ in range(s.below(7))]
    def lst(v):
        return ("A", "object[]", v)
    add(["string[]", "string[]"], "object[]", "my $x = (object[])undef; if ($a) { $x = new object[@$a]; for (my $i = 0; $i < @$a; $i++) { $x->[$i] = $a->[$i]; } } my $y = (object[])undef; if ($b) { $y = new object[@$b]; for (my $i = 0; $i < @$b; $i++) { $y->[$i] = $b->[$i]; } } return Fn->merge_options($x, $y);",
        (lambda a, b: lst((a or []) + (b or [])) if len(a or []) % 2 == 0 and len(b or []) % 2 == 0 else die()), "merge_options", lambda s: [SA(s), SA(s)])
    NM = [b"x", b"y", b"foo", b"", b"bar"]

    def gopt(s):
        o = []
        for _ in range(s.below(4)):
            o += [s.choice(NM), text(s)]
        return [None if s.chance(1, 10) else o, [s.choice(NM) for _ in range(s.below(5))]]

    def fopt(o, av):
        for x in (o or [])[::2]:
            if x not in av:
                raise Die(b'The "' + x + b'" option is not available.')
        return 1
    add(["string[]", "string[]"], "int", "my $x = (object[])undef; if ($a) { $x = new object[@$a]; for (my $i = 0; $i < @$a; $i++) { $x->[$i] = $a->[$i]; } } Fn->check_option_names($x, $b); return 1;", fopt, "check_option_names", gopt)
    PR = {"length (string)$e > 2": lambda x: len(x) > 2, "(string)$e lt \"b\"": lambda x: x < b"b", "0": lambda x: 0, "5": lambda x: 1, "-1": lambda x: 1}
    SD = lambda s: None if s.chance(1, 16) else [text(s) for _ in range(s.below(7))]
    for k, f in PR.items():
        add(["string[]"], "object[]", "return Fn->grep($a, method : int ($e : object) { return %s; });" % k, (lambda a, f=f: (need(a), strs([x for x in a if f(x)]))[1]), "grep", lambda s: [SD(s)])
    add(["string[]"], "object[]", "return Fn->map($a, method : object ($e : object) { return (string)$e . \"!\"; });", (lambda a: (need(a), strs([x + b"!" for x in a]))[1]), "map", lambda s: [SD(s)])
    add(["string[]"], "object[]", "return Fn->map($a, method : object ($e : object) { return undef; });", (lambda a: (need(a), strs([None for x in a]))[1]), "map", lambda s: [SD(s)])
    add(["string[]", "int"], "object[]", "return Fn->map_expand($a, [has n : int = $b] method : object[] ($e : object) { my $r = new string[$self->{n}]; for (my $i = 0; $i < $self->{n}; $i++) { $r->[$i] = (string)$e . $i; } return $r; });",
        (lambda a, n: (need(a), die() if n < 0 and a else strs([x + b"%d" % i for x in a for i in range(n)]))[1]), "map_expand", lambda s: [SD(s), s.int(-1, 3)])
    add(["string[]"], "object[]", "return Fn->grep($a, undef);", lambda a: die(), "grep", lambda s: [SD(s)])
    add(["object", "object"], "object", "return Fn->or($a, $b);", (lambda a, b: a if a is not None else b), "or", lambda s: [T1(s), T1(s)])
    add(["int", "object", "object"], "object", "return Fn->if($a, $b, $c);", (lambda c, a, b: a if c else b), "if", lambda s: [s.int(-2, 2), T1(s), T1(s)])

    def ctn(n, d, f):
        need(n)
        if not 0 <= d <= 255:
            raise Die(DIE)
        return (b"mutable " if f & 2 else b"") + n + b"[]" * d + (b"*" if f & 1 else b"")
    add(["string", "int", "int"], "string", "return Fn->get_compile_type_name($a, $b, $c);", ctn, "get_compile_type_name", lambda s: [s.choice([b"int", b"string", b"Foo", b"My::X", None]), s.choice([0, 1, 2, 3, 255, 256, -1]), s.below(4)])
    add(["string"], "int", "return Fn->get_basic_type_id($a) >= 0;", (lambda n: 1 if n in (b"int", b"string", b"Int", b"Fn", b"T", b"object") else die()), "get_basic_type_id", lambda s: [s.choice([b"int", b"string", b"Int", b"Fn", b"T", b"object", b"NoSuch", b"", None, b"int "])])
    add(["int"], "int", "my $n = 0; { my $g = Fn->defer([has r : int = $a] method : void () { VT->i($self->{r}); }); VT->i(1); } return $a;", (lambda a: a), "defer", None)
    add(["string"], "int", "my $o = (object)$a; return Fn->object_to_long($o) == Fn->object_to_long($a) && (int)Fn->object_to_long($o) == Fn->object_to_int($o);", (lambda a: 1), "object_to_int", lambda s: [T1(s)])
    add(["string", "string"], "int", "return (Fn->to_address($a) eq Fn->to_address($b)) == ($a == $b);", (lambda a, b: 1), "to_address", lambda s: [text(s), text(s)])
    add(["object"], "int", "my $x = Address->new; my $y = Address->new; unless (Fn->has_null_pointer($x) && Fn->eq_pointer($x, $y) && Fn->has_null_pointer(Fn->get_pointer($x))) { return 0; } Fn->set_pointer($x, $y); return Fn->eq_pointer($x, $y);", (lambda a: 1), "pointer", lambda s: [None])
    consts = dict(BYTE_MAX=127, BYTE_MIN=-128, INT16_MAX=32767, INT16_MIN=-32768, INT32_MAX=I32 - 1, INT32_MIN=-I32, INT8_MAX=127, INT8_MIN=-128, INT_MAX=I32 - 1, INT_MIN=-I32, RAND_MAX=I32 - 1,
                  SHORT_MAX=32767, SHORT_MIN=-32768, UBYTE_MAX=-1, UINT16_MAX=-1, UINT32_MAX=-1, UINT8_MAX=-1, UINT_MAX=-1, USHORT_MAX=-1, sizeof_native_int=4, sizeof_native_pointer=8, system_is_little_endian=1)
    for nm, v in consts.items():
        add([], "int", "return Fn->%s;" % nm, (lambda v=v: v), "constants", lambda s: [])
    for nm, v in dict(INT64_MAX=(1 << 63) - 1, INT64_MIN=-(1 << 63), LONG_MAX=(1 << 63) - 1, LONG_MIN=-(1 << 63), UINT64_MAX=-1, ULONG_MAX=-1).items():
        add([], "long", "return Fn->%s;" % nm, (lambda v=v: v), "constants", lambda s: [])
    for nm, v in dict(DBL_MAX=1.7976931348623157e308, DBL_MIN=2.2250738585072014e-308, DOUBLE_MAX=1.7976931348623157e308, DOUBLE_MIN=2.2250738585072014e-308).items():
        add([], "double", "return Fn->%s;" % nm, (lambda v=v: v), "constants", lambda s: [])
    for nm, v in dict(FLT_MAX=3.4028234663852886e38, FLT_MIN=1.1754943508222875e-38, FLOAT_MAX=3.4028234663852886e38, FLOAT_MIN=1.1754943508222875e-38).items():
        add([], "float", "return Fn->%s;" % nm, (lambda v=v: v), "constants", lambda s: [])
    return O


# constants are few inputs: keep them from dominating the choice
OPS = build()
CON = [o for o in OPS if o.tag == "constants"]
OPS = [o for o in OPS if o.tag != "constants"]
USES = ["Fn", "VT", "Int", "Complex_2d", "Complex_2f", "Address", "Point_3i", "Error::Unicode::InvalidUTF8"]
POINT = [("Point_3i", "class Point_3i : mulnum_t public { has x : int; has y : int; has z : int; }")]


def probe(body):
    def f(d):
        d.program([("T", "class T { use Fn; use Comparator; static method main : int () { %s } }" % body)])
        c = d.call("T", "main")
        return c.status != "ok" or c.ret != 1
    return f


KNOWN = [
    ("is_blank", "Fn->is_blank returns 1 for every code point >= 0x20 or <= 0x09, not only for SP and HT (an existing test requires it)", probe("return Fn->is_blank(' ') && Fn->is_blank('\\t') && !Fn->is_blank('a') && !Fn->is_blank('\\0');")),
    ("Fn-sort", "Fn->sort sorts the array it is given and returns the unsorted copy (an existing test requires it)", probe(
        "my $a = (object[])[(object)\"b\", \"a\"]; my $r = Fn->sort($a, method : int ($x : object, $y : object) { return (string)$x cmp (string)$y; }); return (string)$r->[0] eq \"a\" && (string)$a->[0] eq \"b\";")),
]

E18 = dict(uses=USES, classes=POINT)
SUITES = [
    Suite("functions", matrix.matrix_case(OPS, "p18", 60, **E18), 3000, 60000, chunk=150),
    Suite("functions-precompiled", matrix.matrix_case(OPS, "p18p", 60, precompile=True, **E18), 2500, 40000, chunk=150),
    Suite("constants", matrix.matrix_case(CON, "p18c", 60, **E18), 4, 20, chunk=4),
    Suite("functions-asan", matrix.matrix_case(OPS, "p18a", 60, variant="asan", **E18), 200, 10000, variants=("asan",), chunk=50),
]

META = dict(
    statement="Every function of the Fn class returns the documented result for all arguments: searching, cutting, splitting, joining, trimming, case and range conversion of byte and UTF-8 strings, code points, number parsing, powers, random numbers, memory copies and comparisons, endianness, array copies, slices, reversals and sorts, option and callback helpers. Undefined, negative, overflowing or out-of-range arguments throw an exception and never access memory outside the objects, and arguments that are not documented to change do not change.",
    over=["inputs"], quant="all strings (any bytes), offsets, lengths, code points, arrays and undefined values passed to the Fn functions",
    why="each function is tested with a few fixed strings; wrong results hide at boundaries (empty strings, negative or huge offsets, invalid UTF-8, signed bytes) that tests do not enumerate",
    files=["lib/SPVM/Fn.spvm", "lib/SPVM/Fn.c", "lib/SPVM/Fn.pm"],
    mech=[("range checks before native memory operations", "lib/SPVM/Fn.c"), ("UTF-8 decoder and encoder", "lib/SPVM/Fn.c"), ("string searching and cutting loops", "lib/SPVM/Fn.spvm")],
    observe=["return values, changed arguments, exceptions, memory blocks left and sanitizer reports of calls of Fn functions"],
    technique="property-based testing against a reference implementation of each function",
    note="All functions with sampled arguments, interpreted, precompiled and with address sanitizer; the reference follows Fn.pm (index: the end may equal the length).")
