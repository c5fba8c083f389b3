import struct
from vt import sem, pbt
from vt.pbt import Suite
from props.p18 import text, cp

TITLE = "sprintf and pack/unpack produce exactly the described text and bytes"
RULE = ("One case formats, packs or unpacks one generated template with generated values and compares the result or exception with a reference "
        "(C-style formatting, struct packing); non-trivial when the template has at least one conversion.")
ASSUMPTIONS = ["a precision together with an integer conversion, a width together with a precision in %s, zero padding of infinities and a precision without digits are not described, so they are not generated",
               "a hex string longer than an odd number of digits to pack is not generated"]

HFMT = """class HFmt {
  use VT; use Format; use Fn; use Packer; use Byte; use Short; use Int; use Long; use Float; use Double;
  static method objects : object[] ($kinds : int[], $i : long[], $d : double[], $s : string[]) {
    my $o = new object[@$kinds];
    my $p = 0; my $q = 0; my $r = 0;
    for (my $k = 0; $k < @$kinds; $k++) {
      my $n = $kinds->[$k] / 16;
      switch ($kinds->[$k] % 16) {
        case 0: { $o->[$k] = $s->[$r++]; break; }
        case 1: { $o->[$k] = Byte->new((int)$i->[$p++]); break; }
        case 2: { $o->[$k] = Short->new((int)$i->[$p++]); break; }
        case 3: { $o->[$k] = Int->new((int)$i->[$p++]); break; }
        case 4: { $o->[$k] = Long->new($i->[$p++]); break; }
        case 5: { $o->[$k] = Float->new((float)$d->[$q++]); break; }
        case 6: { $o->[$k] = Double->new($d->[$q++]); break; }
        case 7: { my $x = new byte[$n]; for (my $j = 0; $j < $n; $j++) { $x->[$j] = (byte)$i->[$p++]; } $o->[$k] = $x; break; }
        case 8: { my $x = new short[$n]; for (my $j = 0; $j < $n; $j++) { $x->[$j] = (short)$i->[$p++]; } $o->[$k] = $x; break; }
        case 9: { my $x = new int[$n]; for (my $j = 0; $j < $n; $j++) { $x->[$j] = (int)$i->[$p++]; } $o->[$k] = $x; break; }
        case 10: { my $x = new long[$n]; for (my $j = 0; $j < $n; $j++) { $x->[$j] = $i->[$p++]; } $o->[$k] = $x; break; }
        case 11: { my $x = new float[$n]; for (my $j = 0; $j < $n; $j++) { $x->[$j] = (float)$d->[$q++]; } $o->[$k] = $x; break; }
        case 12: { my $x = new double[$n]; for (my $j = 0; $j < $n; $j++) { $x->[$j] = $d->[$q++]; } $o->[$k] = $x; break; }
      }
    }
    return $o;
  }
  static method fmt : string ($w : int, $f : string, $kinds : int[], $i : long[], $d : double[], $s : string[]) {
    my $o = &objects($kinds, $i, $d, $s);
    if ($w) { return Fn->sprintf($f, $o); }
    return Format->sprintf($f, $o);
  }
  static method pack : string ($w : int, $f : string, $kinds : int[], $i : long[], $d : double[], $s : string[]) {
    my $o = &objects($kinds, $i, $d, $s);
    if ($w) { return Fn->pack($f, $o); }
    return Packer->new->pack($f, $o);
  }
  static method unpack : void ($w : int, $f : string, $b : string) {
    my $o = (object[])undef;
    if ($w) { $o = Fn->unpack($f, $b); } else { $o = Packer->new->unpack($f, $b); }
    VT->o($o);
  }
}"""


def load(ctx, pre, variant):
    key = ("p21", pre, variant)
    d = ctx.drv(variant)
    if ctx.memo.get("loaded") == key:
        return d
    ctx.memo["loaded"] = None
    cl = [("T", "class T { use HFmt; static method main : int () { return 1; } }"), ("HFmt", HFMT)]
    if pre:
        r = d.precompiled(ctx.infos[variant], cl, ["HFmt"], ctx.scratch(), opt="-O2", cache=True)
    else:
        r = d.program(cl)
    if r.code:
        raise pbt.Violation("the helper class does not compile: %s" % "; ".join(r.errors[:2]), "rejected")
    ctx.memo["loaded"] = key
    return d


class Args:
    """Objects encoded for HFmt.objects."""

    def __init__(self):
        self.k, self.i, self.d, self.s, self.shown = [], [], [], [], []

    def add(self, kind, v):
        n = len(v) if kind >= 7 else 0
        self.k.append(kind + 16 * n)
        vs = v if kind >= 7 else [v]
        (self.s if kind == 0 else self.i if kind in (1, 2, 3, 4, 7, 8, 9, 10) else self.d).extend(vs)
        self.shown.append("%s" % ("string Byte Short Int Long Float Double byte[] short[] int[] long[] float[] double[]".split()[kind],) + " %r" % (v,))

    def enc(self):
        return ("arr", "i", self.k), ("arr", "l", self.i), ("arr", "d", self.d), ("strs", self.s)


def f32(v):
    try:
        return struct.unpack("<f", struct.pack("<f", v))[0]
    except OverflowError:
        return float("inf") if v > 0 else float("-inf")


def flt(src):
    k = src.weighted([(4, 0), (3, 1), (3, 2), (1, 3), (2, 4)])
    if k == 0:
        return float(src.int(-2000, 2000)) / src.choice([1, 2, 4, 8, 10, 100])
    if k == 1:
        return float(src.int(-999999, 999999)) * 10.0 ** src.int(-12, 12)
    if k == 2:
        return src.choice([1.0, -1.0]) * src.int(1, 9) * 10.0 ** src.int(-300, 300)
    if k == 3:
        return src.choice([float("inf"), float("-inf"), float("nan")])
    return src.choice([0.0, -0.0, 0.5, 1.5, 2.5, 0.125, 1e15, 999999.5, 1e-5, 123456789.0, 5e-324, 1.7976931348623157e308, 9.5, 0.05])


# ---------------------------------------------------------------- sprintf
class DieX(Exception):
    pass


def sprintf_case(pre=False, variant="plain"):
    def case(src, ctx):
        d = load(ctx, pre, variant)
        args = Args()
        f, exp, tags = b"", b"", set()
        die = None
        n = src.size(6)
        for _ in range(n):
            k = src.weighted([(4, 0), (1, 1), (14, 2), (1, 3)])
            if k == 0:
                t = text(src).replace(b"%", b"")
                f += t
                exp += t
                continue
            if k == 1:
                f += b"%%"
                exp += b"%"
                continue
            if k == 3 and src.chance(1, 3):
                f += b"%" + src.choice([b"", b"5", b"-", b"0", b"k", b"i", b"lk", b"l", b"llu", b" d", b"#x", b"5%", b".2", b"hd"])
                die = die or "bad"
                # what follows may complete the conversion: end here
                break
            fl, left, zero, plus = b"", False, False, False
            for _ in range(src.choice([0, 0, 1, 1, 2, 3])):
                c = src.choice("0+-")
                fl += c.encode()
                left |= c == "-"
                zero |= c == "0"
                plus |= c == "+"
            w = src.choice([0, 0, src.int(1, 12), src.int(1, 60)])
            c = src.choice(["d", "u", "x", "X", "ld", "lu", "lx", "lX", "c", "s", "f", "g", "f", "g"])
            pr = None
            wrong = src.chance(1, 50)
            if c in ("f", "g"):
                single = src.chance(1, 3)
                v = flt(src)
                if single:
                    v = f32(v)
                if v != v or v in (float("inf"), float("-inf")):
                    fl = fl.replace(b"0", b"")
                    zero = False
                if src.chance(1, 2):
                    pr = src.choice([0, 1, 2, 3, 6, 10, 17, 40, src.int(0, 330)])
                    if c == "g" and pr > 40:
                        pr = 40
                val = abs(v) if v == v else v
                neg = struct.pack(">d", v)[0] >= 0x80
                if v != v:
                    return pbt.Discard("sign of nan") if False else _nan(ctx)
                body = (("%%.%d%s" % (6 if pr is None else pr, c)) % val).encode()
                sign = b"-" if neg else b"+" if plus else b""
                kind = 5 if single else 6
            elif c == "c":
                v = cp(src)
                if src.chance(1, 3):
                    kind, v = 1, sem.draw_num(src, "byte")
                else:
                    kind = 3
                try:
                    body = chr(v).encode("utf8") if v >= 0 else b"?"
                except (UnicodeEncodeError, ValueError, OverflowError):
                    body = b"?"
                sign = b""
            elif c == "s":
                v = text(src)
                kind = 0
                body, sign = v, b""
                if src.chance(1, 3):
                    pr = src.below(12)
                    w = 0
                    body = body[:pr]
            else:
                t = "long" if c[0] == "l" else "int"
                v = sem.draw_num(src, t)
                kind = 4 if t == "long" else 3
                u = v & (2 ** 64 - 1 if t == "long" else 2 ** 32 - 1)
                sign = b""
                if c[-1] == "d":
                    body = b"%d" % abs(v)
                    sign = b"-" if v < 0 else b"+" if plus else b""
                else:
                    body = {"u": b"%d", "x": b"%x", "X": b"%X"}[c[-1]] % u
            f += b"%" + fl + (b"%d" % w if w else b"") + (b".%d" % pr if pr is not None else b"") + c.encode()
            if wrong:
                kind = {0: 3, 1: 0, 3: 4, 4: 3, 5: 3, 6: 4}[kind]
                v = b"1" if kind == 0 else 1
                die = die or "type"
            if src.chance(1, 60):
                die = die or "missing"
                break
            args.add(kind, v)
            pad = w - len(sign) - len(body)
            if pad > 0:
                if left:
                    body = body + b" " * pad
                elif zero:
                    body = b"0" * pad + body
                else:
                    sign = b" " * pad + sign
            exp += sign + body
            tags.add(c)
            tags |= ({"left"} if left else set()) | ({"zero"} if zero else set()) | ({"plus"} if plus else set()) | ({"precision"} if pr is not None else set())
        if die == "type" and not tags:
            tags.add("type")
        extra = not die and src.chance(1, 10)
        if extra:
            args.add(3, 7)
        c = d.call("HFmt", "fmt", int(src.chance(1, 3)), f, *args.enc())
        what = "sprintf(%r, [%s])" % (f, ", ".join(args.shown))
        if c.leak:
            ctx.memo.clear()
            raise pbt.Violation("%s leaves %d memory blocks" % (what, c.leak), "leak")
        if die:
            if c.status == "ok":
                raise pbt.Violation("%s: expected an exception (%s), got %r" % (what, die, c.ret), die)
            tags.add("dies")
        elif c.status != "ok" or c.ret != exp:
            raise pbt.Violation("%s: expected %r, got %r" % (what, exp, c.ret if c.status == "ok" else c.msg), "sprintf")
        return pbt.Info(bool(tags), sorted(tags), "%s -> %r" % (what, exp), digest=[f, repr(args.shown)])
    return case


def _nan(ctx):
    raise pbt.Discard("the sign of NaN is unspecified")


# ---------------------------------------------------------------- pack
PK = {"c": 1, "C": 1, "s": 2, "S": 2, "l": 3, "L": 3, "q": 4, "Q": 4, "f": 5, "d": 6}
PF = {1: "b", 2: "h", 3: "i", 4: "q", 5: "f", 6: "d"}
PT = {1: "byte", 2: "short", 3: "int", 4: "long", 5: "float", 6: "double"}
BK = {1: "b", 2: "s", 3: "i", 4: "l", 5: "f", 6: "d"}
HEX = b"0123456789abcdefABCDEF"


def pval(src, kind):
    if kind >= 5:
        v = flt(src)
        return (f32(v) if kind == 5 else v)
    return sem.draw_num(src, PT[kind])


def swap(h):
    return bytes(b for i in range(0, len(h), 2) for b in (h[i + 1], h[i]))


def hexbytes(h, low):
    if len(h) % 2:
        h += b"0"
    if low:
        h = swap(h)
    return bytes.fromhex(h.decode())


def gen_part(src, last):
    """(template, kind or letter, length or None or '*', endian)"""
    c = src.choice(["a", "h", "H"] + list(PK) * 2)
    e = src.choice(["", "", "<", ">"]) if c in PK else ""
    if c == "a":
        l = src.choice(["*", src.int(1, 12)])
    else:
        l = src.weighted([(3, None), (2, "*"), (4, "n")])
        if l == "n":
            l = src.int(1, 7)
    return c, e, l


def order(e):
    return ">" if e == ">" else "<"


def numbytes(kind, vals, e):
    return b"".join(struct.pack(order(e) + PF[kind], v) for v in vals)


def box(kind, v):
    if kind >= 5:
        raw = struct.pack("<" + PF[kind], v)
        return ("B", BK[kind], struct.unpack("<I" if kind == 5 else "<Q", raw)[0])
    return ("B", BK[kind], v)


def same(g, w):
    if isinstance(w, tuple) and w[0] == "B":
        return isinstance(g, tuple) and g[0] == "B" and {"h": "s"}.get(g[1], g[1]) == w[1] and (g[2] == w[2] or (w[1] in "fd" and g[2] & (2 ** 64 - 1 if w[1] == "d" else 2 ** 32 - 1) == w[2]))
    return g == w


def pack_case(pre=False, variant="plain"):
    def case(src, ctx):
        d = load(ctx, pre, variant)
        w = int(src.chance(1, 3))
        if src.chance(2, 3):
            return do_pack(src, d, w, ctx)
        return do_unpack(src, d, w, ctx)
    return case


def tmpl(c, e, l):
    return (c + e + ("" if l is None else str(l))).encode()


def do_pack(src, d, w, ctx):
    """pack, then unpack of what was packed."""
    args = Args()
    f, exp, back, tags = b"", b"", [], set()
    die = None
    n = src.size(7)
    for k in range(n):
        c, e, l = gen_part(src, k == n - 1)
        lone = k == n - 1
        if c in PK:
            kind = PK[c]
            if l is None:
                v = pval(src, kind)
                if src.chance(1, 80):
                    die = "type"
                    args.add(kind % 6 + 1, 1)
                else:
                    args.add(kind, v)
                exp += numbytes(kind, [v], e)
                back.append(box(kind, v))
            else:
                m = src.below(9) if l == "*" else max(0, l + src.choice([0, 0, 0, 1, -1, 3]))
                vs = [pval(src, kind) for _ in range(m)]
                if src.chance(1, 80):
                    die = "type"
                    args.add(kind % 6 + 7, [1] * m)
                else:
                    args.add(kind + 6, vs)
                if l != "*":
                    vs = (vs + [0] * l)[:l]
                    if l == 0:
                        die = "length"
                exp += numbytes(kind, vs, e)
                back.append(("N", PT[kind] + "[]", numbytes(kind, vs, "<")) if l != "*" or lone else None)
        elif c == "a":
            v = text(src)
            args.add(0, v)
            p = v if l == "*" else v[:l] + b"\0" * (l - len(v))
            exp += p
            back.append(p if l != "*" or lone else None)
        else:
            m = src.below(9) if l == "*" else 1 if l is None else src.int(0, l + (2 if l % 2 == 0 else 0))
            v = bytes(src.choice(HEX) for _ in range(m))
            if m and src.chance(1, 30):
                i = src.below(m)
                v = v[:i] + src.choice([b"g", b"x", b" ", b"-", b"\xff"]) + v[i + 1:]
                die = "hex"
            args.add(0, v)
            if die != "hex":
                if l != "*":
                    q = 1 if l is None else l
                    v = v[:q] + b"0" * (q - len(v))
                p = hexbytes(v, c == "h")
                exp += p
                v = v.lower()
                if l == "*" and len(v) % 2:
                    v += b"0"
                back.append(v if l != "*" or lone else None)
        f += tmpl(c, e, l)
        tags |= {c, "endian" + e} if e else {c}
        tags.add("wildcard" if l == "*" else "single" if l is None else "array")
    if src.chance(1, 40):
        f += src.choice([b"z", b"a", b"l0", b" ", b"l**", b"l<>", b"l*2", b"l2*", b"l2<", b"l2147483648", b"x1", b"A2"])
        args.add(9, [1])
        args.add(9, [1])
        die = die or "syntax"
    elif src.chance(1, 40) and not die:
        f += b"l"
        die = "missing"
    elif src.chance(1, 10):
        args.add(3, 1)
    c = d.call("HFmt", "pack", w, f, *args.enc())
    what = "pack(%r, [%s])" % (f, ", ".join(args.shown))
    if c.leak:
        ctx.memo.clear()
        raise pbt.Violation("%s leaves %d memory blocks" % (what, c.leak), "leak")
    if die:
        if c.status == "ok":
            raise pbt.Violation("%s: expected an exception (%s), got %r" % (what, die, c.ret), die)
        return pbt.Info(True, ["dies-" + die], what, digest=[f, repr(args.shown)])
    if c.status != "ok" or c.ret != exp:
        raise pbt.Violation("%s: expected %r, got %r" % (what, exp, c.ret if c.status == "ok" else c.msg), "pack")
    if None not in back:
        c = d.call("HFmt", "unpack", w, f, exp)
        if c.status != "ok" or len(c.trace) != 1 or c.trace[0] is None or len(c.trace[0][2]) != len(back) or not all(same(x, y) for x, y in zip(c.trace[0][2], back)):
            raise pbt.Violation("%s gives %r, and unpack of it: expected %r, got %r" % (what, exp, back, c.trace if c.status == "ok" else c.msg), "round-trip")
        tags.add("round-trip")
    return pbt.Info(n > 0, sorted(tags), "%s -> %r" % (what, exp), digest=[f, repr(args.shown)])


def do_unpack(src, d, w, ctx):
    """unpack of arbitrary bytes."""
    n = src.size(6)
    parts = [gen_part(src, k == n - 1) for k in range(n)]
    f = b"".join(tmpl(*p) for p in parts)
    need = 0
    for c, e, l in parts:
        q = 1 if l is None else 0 if l == "*" else l
        need += {"a": q, "h": (q + 1) // 2, "H": (q + 1) // 2}.get(c, q * (struct.calcsize(PF[PK[c]]) if c in PK else 1))
    b = src.bytes(max(0, need + src.choice([0, 0, 1, 5, -1, 20])))
    big = src.chance(1, 30)
    if big:
        f += src.choice([b"l1073741825", b"q536870913", b"d1073741824", b"s2147483647", b"a2147483647", b"H2147483647", b"f1073741824"])
    exp, o, die = [], 0, None
    for c, e, l in parts:
        z = struct.calcsize(PF[PK[c]]) if c in PK else 1
        if l == "*":
            m = (len(b) - o) // z
        else:
            m = 1 if l is None else l
            if c in "hH":
                m = (m + 1) // 2
        if o + m * z > len(b):
            die = "short"
            break
        p = b[o:o + m * z]
        o += m * z
        if c == "a":
            exp.append(p)
        elif c in "hH":
            h = p.hex().encode()
            if c == "h":
                h = swap(h)
            exp.append(h if l == "*" else h[:1 if l is None else l])
        else:
            kind = PK[c]
            raw = b"".join(p[i:i + z][::-1] for i in range(0, len(p), z)) if e == ">" else p
            if l is None:
                v = struct.unpack("<" + {5: "I", 6: "Q"}.get(kind, PF[kind]), raw)[0]
                exp.append(("B", BK[kind], v))
            else:
                exp.append(("N", PT[kind] + "[]", raw))
    if big and not die:
        die = "short"
    c = d.call("HFmt", "unpack", w, f, b)
    what = "unpack(%r, %r)" % (f, b)
    if c.leak:
        ctx.memo.clear()
        raise pbt.Violation("%s leaves %d memory blocks" % (what, c.leak), "leak")
    if die:
        if c.status == "ok":
            raise pbt.Violation("%s: expected an exception (%s), got %r" % (what, die, str(c.trace)[:300]), die)
        return pbt.Info(True, ["unpack-" + die], what, digest=[f, b])
    if c.status != "ok" or len(c.trace) != 1 or c.trace[0] is None or len(c.trace[0][2]) != len(exp) or not all(same(x, y) for x, y in zip(c.trace[0][2], exp)):
        raise pbt.Violation("%s: expected %r, got %r" % (what, exp, c.trace if c.status == "ok" else c.msg), "unpack")
    return pbt.Info(n > 0, ["unpack"], "%s -> %r" % (what, exp), digest=[f, b])


SUITES = [
    Suite("sprintf", sprintf_case(), 12000, 300000, chunk=300),
    Suite("sprintf, precompiled", sprintf_case(True), 10000, 200000, chunk=300),
    Suite("pack and unpack", pack_case(), 10000, 250000, chunk=300),
    Suite("pack and unpack, precompiled", pack_case(True), 10000, 200000, chunk=300),
    Suite("sprintf, asan", sprintf_case(False, "asan"), 800, 20000, variants=("asan",), chunk=50),
    Suite("pack and unpack, asan", pack_case(False, "asan"), 800, 20000, variants=("asan",), chunk=50),
]

META = dict(
    statement="For every template and every list of values, sprintf renders each conversion (all specifiers, flags, widths, precisions) as C does and leaves other text alone, pack produces exactly the bytes that the specifiers, byte orders, counts and wildcards describe, unpack reads exactly those values back from any bytes, and an invalid template, a wrong value type, a missing value or too few bytes is an exception, never a read or write outside the data.",
    over=["inputs"], quant="all templates, values and input bytes",
    why="unit tests use one short template per specifier with small positive values; long results, zero padding of negative numbers, arrays in another byte order, small bytes in hex strings and sizes that overflow are never sampled",
    files=["lib/SPVM/Format.spvm", "lib/SPVM/Format.c", "lib/SPVM/Packer.spvm", "lib/SPVM/Packer/Specifier.spvm"],
    mech=[("template parsers", "lib/SPVM/Packer.spvm"), ("padding and sign placement", "lib/SPVM/Format.spvm"), ("result buffer of floating point conversions", "lib/SPVM/Format.c")],
    observe=["results and exceptions of Format->sprintf, Packer->pack, Packer->unpack and their aliases in Fn"],
    technique="property-based testing against a reference implementation, with round-trips",
    note="Generated templates with Python's C-compatible formatting and struct packing as the oracle, pack/unpack round-trips, interpreted, precompiled and with address sanitizer.")
