"""P22: values exchanged between Perl and SPVM."""
import struct
from vt import pbt, perlx, xc, sem
from vt.pbt import Suite
from vt.xc import NUM, CODE, MUL, FIELDS

TITLE = "Values keep their meaning when they cross between Perl and SPVM"
RULE = ("One case is a history of 10 to 40 operations of the exchange API on a pool of SPVM arrays, strings and objects held by Perl variables: calls with arguments of every type (converted from generated Perl scalars, array, hash and scalar references, or SPVM objects), creation by the new_* methods, get, set, length, to_elems, to_bin, to_strings. "
        "Non-trivial: at least 5 kinds of operations, and an array changed on one side and read on the other.")
ASSUMPTIONS = ["Perl's own pack is the reference for SvIV, SvUV and SvNV"]

SETUP = 'use B; use Scalar::Util; use SPVM "VX"; use SPVM "Int"; use SPVM "VX::N"; use SPVM "VX::C"; $API = SPVM::api();' + xc.HELP


def perl(ctx):
    p = ctx.memo.get("perl")
    if p is None or not p.alive():
        d = ctx.scratch() + "/spvmlib"
        xc.write(d)
        p = ctx.memo["perl"] = perlx.Perl(perlx.dist(), lib=d, setup=SETUP)
    return p


def quote(b):
    """a Perl literal of a byte string"""
    return '"' + "".join(chr(c) if 48 <= c < 58 or 65 <= c < 91 or 97 <= c < 123 or c == 32 else "\\x{%02x}" % c for c in b) + '"'


def number(src):
    """text of a Perl scalar that can be converted to a number"""
    k = src.below(16)
    if k < 5:
        return "%d" % src.int(-300, 300)
    if k < 8:
        b = src.choice([7, 8, 15, 16, 31, 32, 62])
        return "%d" % ((1 << b) * src.choice([1, -1]) + src.int(-2, 2))
    if k == 8:
        return src.choice(["9223372036854775807", "-9223372036854775808 + 0", "18446744073709551615", "9223372036854775808", "9223372036854775806", "-9223372036854775807"])
    if k == 9:
        return "%r" % (src.int(-10 ** 6, 10 ** 6) / 64.0)
    if k == 10:
        return src.choice(["1e30", "-1e30", "3.4028235e38", "1e-45", "-0.0", "9**9**9", "-9**9**9", "1e308", "2147483647.5", "-2147483648.9", "0.99999", "-0.5", "16777217.0", "1.1"])
    if k == 11:
        return '"%d"' % src.int(-10 ** 10, 10 ** 10)
    if k == 12:
        return src.choice(['"12abc"', '" 7 "', '""', '"abc"', '"0x10"', '"1e3"', '"-3.75"', '"+5"', '"99999999999999999999"', '"1_000"', '"inf"', '"\\x{3042}"'])
    if k == 13:
        return src.choice(["!!1", "!!0", "(5 == 5)", 'Scalar::Util::dualvar(%d, "abc")' % src.int(-500, 500), 'Scalar::Util::dualvar(2.5, "x")', "''.substr('x123', 1)", "do { my $y = 'abc'; $y = %d; $y }" % src.int(0, 300), "do { my $y = 17; \"$y\"; $y }"])
    return "%d" % src.int(-(1 << 63) + 2, (1 << 63) - 1)


BADNUM = ["undef", "[1]", "{}", "\\1", "sub {}", "SPVM::Int->new(1)", "$API->new_string('1')"]


def back(t, e):
    """text of an expression: Perl value of the packed bytes e as the code must give it"""
    return 'bk("%s", %s)' % (CODE[t], e)


def val(t, e):
    """text: how R() shows the value packed in e"""
    return '"%s" . %s' % ("i", back(t, e)) if t not in ("float", "double") else '"d" . h(pack("d>", %s))' % back(t, e)


def string(src):
    """(text, bytes) of a Perl string"""
    k = src.below(6)
    if k == 0:
        b = src.bytes(src.int(0, 12))
        return quote(b), b
    if k == 1:
        s = "".join(chr(src.choice([0x3042, 0xe9, 0x41, 0x1f600, 0x7ff, 0x800, 0, 0x80, 0xff, 0x100])) for _ in range(src.int(0, 8)))
        t = "".join("\\x{%x}" % ord(c) for c in s)
        if any(ord(c) > 255 for c in s):
            return '"%s"' % t, s.encode("utf8")
        if src.chance(1, 2):
            return 'do { my $y = "%s"; utf8::upgrade($y); $y }' % t, s.encode("utf8")
        return 'do { my $y = "%s"; utf8::downgrade($y); $y }' % t, s.encode("latin1")
    if k == 2:
        n = src.int(-1000, 10 ** 12)
        return "%d" % n, b"%d" % n
    if k == 3:
        return src.choice([("1.5", b"1.5"), ("!!1", b"1"), ("!!0", b""), ("'a' . 1", b"a1"), ("1e3", b"1000"), ("do { my $y = 'xyz'; chop $y; $y }", b"xy"), ("do { my $y = 'abc'; substr($y, 0, 1) = ''; $y }", b"bc"), ('"\\0"', b"\0"), ('"a\\0b"', b"a\0b")])
    if k == 4:
        n = src.choice([0, 1, 255, 1000, 70000])
        return "('ab' x %d)" % n, b"ab" * n
    b = bytes(src.int(97, 122) for _ in range(src.int(0, 6)))
    return quote(b), b


class G:
    def __init__(self, src):
        self.src = src
        self.L = []
        self.pool = []      # (name, kind, type, length)
        self.n = 0
        self.kinds = set()
        self.shared = False

    def ck(self, got, exp):
        self.L.append("ck { %s } %s;" % (got, exp))

    def new(self, kind, t, length):
        n = "k%d" % self.n
        self.n += 1
        v = [n, kind, t, length]
        return v

    def pick(self, kind=None, t=None):
        c = [v for v in self.pool if (kind is None or v[1] == kind) and (t is None or v[2] == t)]
        return self.src.choice(c) if c else None

    # -------- numbers
    def op_scalar(self):
        src, t = self.src, self.src.choice(NUM)
        x = number(src)
        c = CODE[t]
        if src.chance(1, 8):
            self.ck("SPVM::VX->%s_%s(%s)" % (src.choice(["echo", "raw"]), t, src.choice(BADNUM)), '"DIE"')
        elif src.chance(1, 3):
            self.ck("SPVM::VX->echo_%s(%s)" % (t, x), val(t, 'cv("%s", %s)' % (c, x)))
        elif src.chance(1, 2):
            self.ck("SPVM::VX->raw_%s(%s)" % (t, x), '"S" . h(cv("%s", %s))' % (c, x))
        else:
            y = number(src) if src.chance(1, 2) else None
            self.ck("SPVM::VX->def_%s(%s)" % (t, x if y is None else x + ", " + y), '"S" . h(cv("%s", %s) . cv("%s", %s))' % (c, x, c, "7" if y is None else y))

    def op_ref(self):
        src, t = self.src, self.src.choice(NUM)
        x, y = number(src), number(src)
        c = CODE[t]
        a = src.int(-100, 100)
        if src.chance(1, 8):
            self.ck("SPVM::VX->ref_%s(1, %s, 2)" % (t, src.choice(["5", "undef", "[]", "{}", "sub {}"])), '"DIE"')
            return
        if t in ("float", "double"):
            add = 'pack("%s", unpack("%s", cv("%s", %s)) + unpack("%s", cv("%s", %s)))' % (c, c, c, x, c, c, y)
        else:
            # the sum wraps around
            add = 'ad("%s", %s, %s)' % (c, x, y)
        self.ck("my $r = %s; my $z = SPVM::VX->ref_%s(%d, \\$r, %s); ($z, $r)" % (x, t, a, y), '"i%d;" . %s' % (a, val(t, add)))

    def op_mul(self):
        src, t = self.src, self.src.choice(NUM)
        c, fs = CODE[t], FIELDS[t]
        xs = [number(src) for _ in fs]
        hs = "{" + ", ".join("%s => %s" % z for z in zip(fs, xs)) + "}"
        k = src.below(5)
        if k == 0:
            bad = src.choice(["5", "undef", "[1, 2]", "\\1", "{%s}" % ", ".join("%s => 1" % f for f in fs[:-1]), "{}"])
            self.ck(src.choice(["SPVM::VX->m_echo_%s(%s)", "SPVM::VX->m_raw_%s(1, %s, 2)", "SPVM::VX->m_ref_%s(\\(%s), 1)"]) % (t, bad), '"DIE"')
        elif k < 3:
            self.ck("SPVM::VX->m_echo_%s(%s)" % (t, hs), '"{" . join(",", %s) . "}"' % ", ".join('"%s=" . %s' % (f, val(t, 'cv("%s", %s)' % (c, x))) for f, x in zip(fs, xs)))
        elif k == 3:
            y, a = number(src), src.int(-99, 99)
            self.ck("SPVM::VX->m_raw_%s(%d, %s, %s)" % (t, a, hs, y), '"S" . h(%s . "/%d")' % (" . ".join('cv("%s", %s)' % (c, x) for x in xs + [y]), a))
        else:
            y = src.int(0, 5)
            exp = []
            for f, x in zip(fs, xs):
                if t in ("float", "double"):
                    add = 'pack("%s", unpack("%s", cv("%s", %s)) + %d)' % (c, c, c, x, y)
                else:
                    add = 'ad("%s", %s, %d)' % (c, x, y)
                exp.append('"%s=" . %s' % (f, val(t, add)))
            self.ck("my $r = %s; SPVM::VX->m_ref_%s(\\$r, %d); $r" % (hs, t, y), '"{" . join(",", %s) . "}"' % ", ".join(exp))

    # -------- numeric arrays
    def make_num(self):
        src, t = self.src, self.src.choice(NUM)
        c = CODE[t]
        n = src.choice([0, 1, src.int(0, 9), src.int(0, 40)])
        k = src.below(5)
        if k == 4 and t in ("float", "double"):
            k = 0
        if src.chance(1, 10):
            bad = src.choice(["5", "'abc'", "{}", "sub {}", "\\1", "[1, undef, 2]", "[1, [2]]", "$API->new_string('x')", "SPVM::Int->new(1)", "$API->new_string_array(['a'])", "$API->new_%s_array([1])" % src.choice([x for x in NUM if x != t])])
            self.ck(src.choice(["$API->new_%s_array(%s)", "SPVM::VX->rawa_%s(%s)"]) % (t, bad), '"DIE"')
            return
        v = self.new("num", t, n)
        g = "$V{%s}" % v[0]
        m = "$M{%s}" % v[0]
        if k == 0 or k == 4:
            xs = [number(src) for _ in range(n)]
            f = "cv" if k == 0 else "cu"
            self.L.append("%s = $API->new_%s_array%s([%s]); %s = join('', %s);" % (g, t, "" if k == 0 else "_unsigned", ", ".join(xs), m, ", ".join('%s("%s", %s)' % (f, c, x) for x in xs) or "''"))
        elif k == 1:
            self.L.append("%s = $API->new_%s_array_len(%d); %s = pack('%s*', (0) x %d);" % (g, t, n, m, c, n))
        elif k == 2:
            w = struct.calcsize({"c": "b", "s": "h", "l": "i", "q": "q", "f": "f", "d": "d"}[c])
            if t in ("float", "double"):
                b = b"".join(struct.pack("<" + c, src.int(-1000, 1000) / 8.0) for _ in range(n))
            else:
                b = src.bytes(n * w)
            if w > 1 and src.chance(1, 8):
                self.ck("$API->new_%s_array_from_bin(%s)" % (t, quote(b + b"x")), '"DIE"')
                return
            self.L.append("%s = $API->new_%s_array_from_bin(%s); %s = %s;" % (g, t, quote(b), m, quote(b)))
        else:
            self.L.append("%s = SPVM::VX->new_%s(%d); %s = pack('%s*', (0) x %d);" % (g, t, n, m, c, n))
        self.pool.append(v)

    def op_num(self):
        src = self.src
        v = self.pick("num")
        if v is None:
            return self.make_num()
        n, _, t, ln = v
        c, g, m = CODE[t], "$V{%s}" % n, "$M{%s}" % n
        w = struct.calcsize({"c": "b", "s": "h", "l": "i", "q": "q", "f": "f", "d": "d"}[c])
        k = src.below(11)
        lst = '"[" . join(",", map { %s } unpack("(a%d)*", %s)) . "]"' % (val(t, "$_"), w, m)
        if k == 0:
            self.ck("%s->length" % g, '"i%d"' % ln)
        elif k == 1:
            self.ck("%s->to_elems" % g, lst)
        elif k == 2:
            self.ck("[@{%s}]" % g, lst)
        elif k == 3:
            self.ck("%s->to_bin" % g, '"sB" . h(%s)' % m)
        elif k == 4:
            i = src.int(-1, ln) if src.chance(1, 4) else src.int(0, ln - 1)
            self.ck("%s->get(%d)" % (g, i), val(t, "substr(%s, %d, %d)" % (m, i * w, w)) if 0 <= i < ln else '"DIE"')
        elif k == 5:
            i = src.int(-1, ln) if src.chance(1, 4) else src.int(0, ln - 1)
            x = number(src)
            if 0 <= i < ln:
                self.L.append('%s->set(%d, %s); substr(%s, %d, %d) = cv("%s", %s);' % (g, i, x, m, i * w, w, c, x))
                self.shared = True
            else:
                self.ck("%s->set(%d, %s)" % (g, i, x), '"DIE"')
        elif k == 6 and ln:
            i, x = src.int(0, ln - 1), number(src)
            self.L.append('SPVM::VX->set_%s(%s, %d, %s); substr(%s, %d, %d) = cv("%s", %s);' % (t, g, i, x, m, i * w, w, c, x))
            self.shared = True
        elif k == 7:
            self.ck("SPVM::VX->rawa_%s(%s)" % (t, g), '"S" . h(%s)' % m)
        elif k == 8:
            # the same object comes back
            z = self.new("num", t, ln)
            self.L.append("$V{%s} = %s; $M{%s} = undef;" % (z[0], src.choice(["SPVM::VX->echoa_%s(%s)" % (t, g), "SPVM::VX->echo_object(%s)" % g, "$API->new_%s_array(%s)" % (t, g)]), z[0]))
            self.ck("(SPVM::VX->same($V{%s}, %s), $V{%s})" % (z[0], g, z[0]), '"i1;A%s[]"' % t)
            i, x = (src.int(0, ln - 1), number(src)) if ln else (None, None)
            if ln:
                self.L.append('$V{%s}->set(%d, %s); substr(%s, %d, %d) = cv("%s", %s);' % (z[0], i, x, m, i * w, w, c, x))
        elif k == 9:
            xs = [number(src) for _ in range(src.int(0, 6))]
            self.ck("SPVM::VX->rawa_%s([%s])" % (t, ", ".join(xs)), '"S" . h(join("", %s))' % (", ".join('cv("%s", %s)' % (c, x) for x in xs) or "''"))
        else:
            self.ck("(SPVM::VX->rawa_%s(undef), SPVM::VX->echoa_%s(undef), $API->new_%s_array(undef))" % (t, t, t), '"u;u;u"')

    # -------- strings
    def op_string(self):
        src = self.src
        t, b = string(src)
        k = src.below(9)
        if k == 0:
            self.ck("SPVM::VX->echo_string(%s)" % t, '"S%s"' % b.hex())
        elif k == 1:
            self.ck("SPVM::VX->len_string(%s)" % t, '"i%d"' % len(b))
        elif k == 2:
            self.ck("SPVM::VX->chars_string(%s)->to_bin" % t, '"sB%s"' % b.hex())
        elif k == 3:
            u, c = string(src)
            self.ck("SPVM::VX->cat(%s, $API->new_string(%s))" % (t, u), '"S%s"' % (b + c).hex())
        elif k == 4:
            self.ck("SPVM::VX->%s(%s)" % (src.choice(["echo_string", "len_string"]), src.choice(["[]", "{}", "\\1", "SPVM::Int->new(1)", "$API->new_int_array([1])"])), '"DIE"')
        elif k == 5:
            self.ck("(SPVM::VX->echo_string(undef), SPVM::VX->len_string(undef), $API->new_string(undef))", '"u;i-1;u"')
        elif k == 6:
            self.ck("my $o = $API->new_string(%s); (SPVM::VX->same($o, SPVM::VX->echo_string($o)), SPVM::VX->same($o, SPVM::VX->echo_object($o)), SPVM::VX->tname($o))" % t, '"i1;i1;S%s"' % b"string".hex())
        elif k == 7:
            # decoded when it is UTF-8
            try:
                d = b.decode("utf8")
            except UnicodeDecodeError:
                d = None
            if d is not None:
                ascii_ = all(ord(x) < 128 for x in d)
                self.ck("my $s = SPVM::VX->echo_string(%s); my $x = $s->to_string; utf8::upgrade($x); (length($x), h(do { my $y = $x; utf8::encode($y); $y }), \"$s\" eq $x ? 1 : 0)" % t, '"i%d;sB%s;i1"' % (len(d), b.hex().encode().hex()))
        else:
            self.ck("SPVM::VX->from_bytes($API->new_byte_array_from_bin(%s))" % quote(b), '"S%s"' % b.hex())

    def op_strings(self):
        src = self.src
        v = self.pick("str") if src.chance(3, 4) else None
        if v is None:
            xs = [None if src.chance(1, 5) else string(src) for _ in range(src.int(0, 6))]
            v = self.new("str", "string", len(xs))
            v.append([None if x is None else x[1] for x in xs])
            t = ", ".join("undef" if x is None else x[0] if src.chance(2, 3) else "$API->new_string(%s)" % x[0] for x in xs)
            k = src.below(4)
            if k == 0:
                self.ck("SPVM::VX->join_string([%s])" % t, self.joined(v[4]))
                return
            if k == 1:
                v[3] = src.int(0, 6)
                v[4] = [None] * v[3]
                self.L.append("$V{%s} = $API->new_string_array_len(%d);" % (v[0], v[3]))
            elif k == 2 and src.chance(1, 3):
                self.ck("$API->new_string_array(%s)" % src.choice(["5", "{}", "['a', []]", "[{}]", "$API->new_int_array([1])", "SPVM::Int->new(2)", "[SPVM::Int->new(3)]"]), '"DIE"')
                return
            else:
                self.L.append("$V{%s} = %s([%s]);" % (v[0], src.choice(["$API->new_string_array", "SPVM::VX->echoa_string"]), t))
            self.pool.append(v)
            return
        g, ln, m = "$V{%s}" % v[0], v[3], v[4]
        k = src.below(9)
        show = ",".join("u" if x is None else "S" + x.hex() for x in m)
        if k == 0:
            self.ck("SPVM::VX->join_string(%s)" % g, self.joined(m))
        elif k == 1:
            self.ck("(%s->length, %s->to_elems)" % (g, g), '"i%d;[%s]"' % (ln, show))
        elif k == 2 and None not in m:
            self.ck("%s->to_bins" % g, '"[%s]"' % ",".join("sB" + x.hex() for x in m))
        elif k == 3:
            i = src.int(-1, ln) if src.chance(1, 4) else src.int(0, ln - 1)
            self.ck("%s->get(%d)" % (g, i), '"DIE"' if not 0 <= i < ln else '"%s"' % ("u" if m[i] is None else "S" + m[i].hex()))
        elif k == 4 and ln:
            i = src.int(0, ln - 1)
            t, b = (string(src) if src.chance(4, 5) else ("undef", None))
            self.L.append("SPVM::VX->set_string(%s, %d, %s);" % (g, i, t))
            m[i] = b
            self.shared = True
        elif k == 5 and ln:
            i = src.int(0, ln - 1)
            t, b = string(src)
            self.L.append("%s->set(%d, $API->new_string(%s));" % (g, i, t) if src.chance(4, 5) else "%s->set(%d, undef);" % (g, i))
            m[i] = b if "new_string" in self.L[-1] else None
            self.shared = True
        elif k == 6 and ln:
            self.ck("%s->set(%d, %s)" % (g, src.int(0, ln - 1), src.choice(["SPVM::Int->new(1)", "$API->new_int_array([1])", "$API->new_string_array(['x'])", "SPVM::VX::N->new(1)", "[]", "{}"])), '"DIE"')
            self.ck("SPVM::VX->join_string(%s)" % g, self.joined(m))
        elif k == 7:
            self.ck("%s->to_bin" % g, '"DIE"')
        else:
            self.ck("(SPVM::VX->same(%s, SPVM::VX->echoa_string(%s)), SPVM::VX->echoa_string(undef), %s)" % (g, g, g), '"i1;u;Astring[]"')

    def joined(self, m):
        return '"S%s"' % b"".join(b"u," if x is None else b"%d:" % len(x) + x + b"," for x in m).hex()

    # -------- multi-numeric arrays
    def op_mularr(self):
        src = self.src
        v = self.pick("mul") if src.chance(3, 4) else None
        if v is None:
            t = src.choice(NUM)
            fs, c, n = FIELDS[t], CODE[t], src.int(0, 5)
            v = self.new("mul", t, n)
            xs = [[number(src) for _ in fs] for _ in range(n)]
            g, m = "$V{%s}" % v[0], "$M{%s}" % v[0]
            lit = "[" + ", ".join("{" + ", ".join("%s => %s" % z for z in zip(fs, x)) + "}" for x in xs) + "]"
            cvs = "join('', %s)" % (", ".join('cv("%s", %s)' % (c, y) for x in xs for y in x) or "''")
            k = src.below(5)
            if k == 0:
                self.ck("SPVM::VX->m_rawa_%s(%s)" % (t, lit), '"S" . h(%s)' % cvs)
                return
            if k == 1:
                bad = src.choice(["5", "{}", "[1]", "[undef]", "[{%s => 1}]" % fs[0], "[{}]", "$API->new_int_array([1])", "[[1, 2]]"])
                self.ck(src.choice(["SPVM::VX->m_rawa_%s(%s)" % (t, bad), "$API->new_mulnum_array('%s[]', %s)" % (MUL[t], bad)]), '"DIE"')
                return
            if k == 2:
                self.L.append("%s = $API->new_mulnum_array_len('%s[]', %d); %s = pack('%s*', (0) x %d);" % (g, MUL[t], n, m, c, n * len(fs)))
            elif k == 3:
                self.L.append("%s = %s; %s = $API->new_mulnum_array_from_bin('%s[]', %s);" % (m, cvs, g, MUL[t], m))
            else:
                self.L.append("%s = %s; %s = $API->new_mulnum_array('%s[]', %s);" % (m, cvs, g, MUL[t], lit))
            self.pool.append(v)
            return
        n, _, t, ln = v
        fs, c = FIELDS[t], CODE[t]
        g, m = "$V{%s}" % n, "$M{%s}" % n
        w = struct.calcsize({"c": "b", "s": "h", "l": "i", "q": "q", "f": "f", "d": "d"}[c])
        k = src.below(6)
        if k == 0:
            self.ck("%s->to_bin" % g, '"sB" . h(%s)' % m)
        elif k == 1:
            self.ck("SPVM::VX->m_rawa_%s(%s)" % (t, g), '"S" . h(%s)' % m)
        elif k == 2:
            parts = ", ".join('"%s=" . do { my $q = substr($_, %d, %d); %s }' % (f, i * w, w, val(t, "$q")) for i, f in enumerate(fs))
            self.ck("%s->to_elems" % g, '"[" . join(",", map { "{" . join(",", %s) . "}" } unpack("(a%d)*", %s)) . "]"' % (parts, w * len(fs), m))
        elif k == 3 and ln:
            i, x = src.int(0, ln - 1), number(src)
            self.L.append('SPVM::VX->m_seta_%s(%s, %d, %s); substr(%s, %d, %d) = cv("%s", %s);' % (t, g, i, x, m, (i * len(fs) + 1) * w, w, c, x))
            self.shared = True
        elif k == 4:
            self.ck("(%s->length, SPVM::VX->same(%s, SPVM::VX->m_echoa_%s(%s)), SPVM::VX->m_echoa_%s(undef))" % (g, g, t, g, t), '"i%d;i1;u"' % ln)
        else:
            self.ck("eval { %s->%s }; SPVM::VX->m_rawa_%s(%s)" % (g, src.choice(["get(0)", "get(1)", "set(0, {x => 1})", "set(0, 5)", "set(0, undef)", "set(0, SPVM::Int->new(1))"]), t, g), '"S" . h(%s)' % m)

    # -------- objects and arrays of objects
    OBJ = [("SPVM::Int->new(%d)", "Int"), ("SPVM::VX::N->new(%d)", "VX::N"), ("SPVM::VX::C->new(%d)", "VX::C"), ("$API->new_string('s%d')", "string"), ("$API->new_int_array([%d])", "int[]"), ("$API->new_string_array(['%d'])", "string[]")]
    ISA = {"VX::N": {"VX::N", "VX::C"}, "VX::I": {"VX::N", "VX::C"}, "VX::C": {"VX::C"}, "Int": {"Int"}, "string": {"string"}, "int[]": {"int[]"}, "string[]": {"string[]"},
           "object": {"Int", "VX::N", "VX::C", "string", "int[]", "string[]"}}

    def obj(self, t=None):
        """an object of the pool (made when there is none)"""
        src = self.src
        v = None
        c = [v for v in self.pool if v[1] == "obj" and (t is None or v[2] in t)]
        if c and src.chance(2, 3):
            return src.choice(c)
        e, ty = src.choice([o for o in self.OBJ if t is None or o[1] in t])
        v = self.new("obj", ty, 0)
        self.L.append("$V{%s} = %s;" % (v[0], e % src.int(0, 99)))
        self.pool.append(v)
        return v

    def op_objarr(self):
        src = self.src
        v = self.pick("objs") if src.chance(3, 4) else None
        if v is None:
            t = src.choice(["object", "VX::N", "VX::I", "VX::C", "Int", "int[]", "string[]"])
            n = src.int(0, 5)
            es = [None if src.chance(1, 5) else self.obj(self.ISA[t]) for _ in range(n)]
            bad = n and src.chance(1, 6)
            txt = ["undef" if e is None else "$V{%s}" % e[0] for e in es]
            if bad:
                i = src.int(0, n - 1)
                o = self.obj()
                if o[2] in self.ISA[t]:
                    txt[i] = src.choice(["5", "[]", "{}", "\\1"])
                else:
                    txt[i] = "$V{%s}" % o[0]
            dim2 = t.endswith("[]")
            mk = "$API->new_%s_array('%s[]', [%s])" % ("muldim" if dim2 else "object", t, ", ".join(txt))
            if t == "object" and src.chance(1, 3):
                mk = "$API->new_any_object_array([%s])" % ", ".join(txt)
            f = {"object": "echoa_object", "VX::N": "echoa_n", "VX::I": "echoa_i", "int[]": "echo_ii", "string[]": "echo_ss"}.get(t)
            if f and src.chance(1, 3):
                mk = "SPVM::VX->%s([%s])" % (f, ", ".join(txt))
            if bad:
                self.ck(mk, '"DIE"')
                return
            v = self.new("objs", t, n)
            if src.chance(1, 6):
                mk = "$API->new_%s_array_len('%s[]', %d)" % ("muldim" if dim2 else "object", t, n)
                es = [None] * n
            v.append(es)
            self.L.append("$V{%s} = %s;" % (v[0], mk))
            self.pool.append(v)
            return
        g, t, ln, m = "$V{%s}" % v[0], v[2], v[3], v[4]
        k = src.below(8)
        same = lambda e, o: "(defined %s ? 'undef expected' : 1)" % e if o is None else "SPVM::VX->same(%s, $V{%s})" % (e, o[0])
        if k == 0:
            self.ck("(%s->length, SPVM::VX->count(%s), %s)" % (g, g, g), '"i%d;i%d;A%s[]"' % (ln, ln, t))
        elif k == 1:
            i = src.int(-1, ln) if src.chance(1, 4) else src.int(0, ln - 1)
            if 0 <= i < ln:
                self.ck("my $x = %s->get(%d); %s" % (g, i, same("$x", m[i])), '"i1"')
            else:
                self.ck("%s->get(%d)" % (g, i), '"DIE"')
        elif k == 2:
            self.ck("my $l = %s; (scalar(@$l)%s)" % (src.choice(["%s->to_elems" % g, "[@{%s}]" % g]), "".join(", " + same("$l->[%d]" % i, o) for i, o in enumerate(m))), '"i%d%s"' % (ln, ";i1" * ln))
        elif k == 3 and ln:
            i = src.int(0, ln - 1)
            o = self.obj(self.ISA[t]) if src.chance(4, 5) else None
            self.L.append("%s->set(%d, %s);" % (g, i, "undef" if o is None else "$V{%s}" % o[0]))
            m[i] = o
            self.shared = True
        elif k == 4 and ln:
            i = src.int(0, ln - 1)
            o = self.obj(self.ISA[t]) if src.chance(4, 5) else None
            self.L.append("SPVM::VX->set_object(%s, %d, %s);" % (g, i, "undef" if o is None else "$V{%s}" % o[0]))
            m[i] = o
            self.shared = True
        elif k == 5 and ln:
            i = src.int(0, ln - 1)
            o = self.obj()
            x = "$V{%s}" % o[0] if o[2] not in self.ISA[t] else src.choice(["5", "'abc'", "[]", "{}", "\\1"])
            f = "%s->set(%d, %s)" % (g, i, x) if x[0] != "$" or src.chance(1, 2) else "SPVM::VX->set_object(%s, %d, %s)" % (g, i, x)
            self.ck(f, '"DIE"')
        elif k == 6 and ln:
            i = src.int(0, ln - 1)
            self.ck("my $x = SPVM::VX->get_object(%s, %d); %s" % (g, i, same("$x", m[i])), '"i1"')
        else:
            self.ck("%s->to_bin" % g, '"DIE"')

    def op_obj(self):
        src = self.src
        k = src.below(7)
        f, need = src.choice([("echo_object", "object"), ("echo_n", "VX::N"), ("echo_i", "VX::I"), ("echo_c", "VX::C"), ("echo_string", "string"), ("echo_ai", "int[]"), ("echoa_int", "int[]"), ("echoa_string", "string[]")])
        if k == 0:
            self.ck("SPVM::VX->%s(undef)" % f, '"u"')
        elif k == 1:
            o = self.obj()
            if o[2] not in self.ISA[need]:
                self.ck("SPVM::VX->%s($V{%s})" % (f, o[0]), '"DIE"')
        elif k == 2:
            x = src.choice(["[]", "{}", "\\1", "sub {}", "1.5"])
            if not (x == "1.5" and need == "string") and not (x == "[]" and need.endswith("[]")):
                self.ck("SPVM::VX->%s(%s)" % (f, x), '"DIE"')
        elif k == 3:
            t, b = string(src)
            n = src.int(-99, 99)
            self.ck("(SPVM::VX->mix(%d, %s, [1, 2, 3], SPVM::VX::C->new(%d), 0.5, {x => 3, y => -4}, $API->new_string_array([]), %d))" % (n, t, n, n * 2), '"S" . h("%d|" . %s . "|3|%d|0.5|3,-4|string[]|%d")' % (n, quote(b), n, n * 2))
        elif k == 4:
            a = [number(src), number(src), None, None]
            n = src.int(1, 5)
            t, b = string(src)
            args = ["12", "-34", t, "1.25", "SPVM::VX::N->new(9)"][:n]
            exp = [b"12", b"-34" if n > 1 else b"11", b if n > 2 else b"", b"1.25" if n > 3 else b"2.5", b"9" if n > 4 else b""]
            self.ck("SPVM::VX->opt(%s)" % ", ".join(args), '"S%s"' % b"/".join(exp).hex())
        else:
            o = self.obj(self.ISA[need])
            self.ck("my $x = SPVM::VX->%s($V{%s}); (SPVM::VX->same($x, $V{%s}), $x)" % (f, o[0], o[0]), '"i1;%s"' % ("S\" . h($V{%s}->to_bin) . \"" % o[0] if o[2] == "string" else "A" + o[2] if o[2].endswith("[]") else "C" + o[2]))


OPS = ["scalar", "ref", "mul", "num", "num", "num", "string", "strings", "strings", "mularr", "mularr", "objarr", "objarr", "obj"]


def case(src, ctx):
    g = G(src)
    focus = src.choice([OPS, OPS, ["num", "scalar"], ["strings", "string"], ["mularr", "mul"], ["objarr", "obj"], ["ref", "mul", "scalar"]])
    for _ in range(src.int(10, 40)):
        k = src.choice(focus)
        g.kinds.add(k)
        getattr(g, "op_" + k)()
    code = "@BAD = (); $N = 0; %V = %M = ();\nmy $start = $API->get_memory_blocks_count;\n" + "\n".join(g.L) + "\n%V = (); %M = (); $API->set_exception(undef);\nck { $API->get_memory_blocks_count } \"i$start\"; push @REC, $N, @BAD;"
    p = perl(ctx)
    try:
        r = p.run(code)
    except perlx.PerlCrash as e:
        ctx.memo.pop("perl", None)
        raise pbt.Violation("%s\n%s\n%s" % (e, e.err.decode("utf8", "replace")[-1000:], code), "crash")
    if r[-1]:
        raise pbt.Violation("the snippet failed: %s\n%s" % (r[-1].decode("utf8", "replace")[:600], code), "snippet")
    if len(r) > 2:
        raise pbt.Violation("%s\n%s" % (b"\n".join(r[1:-1]).decode("utf8", "replace"), code), "values")
    return pbt.Info(g.shared or len(g.kinds) >= 5, sorted(g.kinds), "\n".join(g.L[:4])[:600], digest=code, evals=int(r[0]))


SUITES = [Suite("exchange", case, 4000, 120000, variants=(), chunk=30)]
META = dict(
    statement="A value that crosses the border between Perl and SPVM arrives as the same value and comes back as the same value: numbers are converted as SPVM's own narrowing conversions do, strings keep their bytes and characters, arrays, multi-numeric values, object arrays and references keep every element, what an SPVM method writes through a reference or into a shared array is what Perl sees afterwards, and a value that a type cannot hold is an exception that changes nothing.",
    over=["inputs", "histories"], quant="all element types, values, array shapes and sequences of conversions through SPVM::ExchangeAPI and SPVM::BlessedObject",
    why="the unit tests convert a few small values per type; rejected elements in the middle of an array, aliased arrays, dual values, strings with wide characters, multi-numeric arrays seen as object arrays and elements of an unrelated class are not sampled",
    files=["SPVM.xs", "lib/SPVM/ExchangeAPI.pm", "lib/SPVM/BlessedObject/Array.pm", "lib/SPVM/BlessedObject/String.pm", "lib/SPVM/BlessedObject/Class.pm"],
    mech=[("conversion of arguments and return values", "SPVM.xs _xs_call_method"), ("new_*_array, to_elems, to_bin, to_strings, get and set", "SPVM.xs"), ("argument checks", "lib/SPVM/ExchangeAPI.pm")],
    observe=["values seen from Perl and from SPVM methods", "exceptions", "number of live memory blocks"],
    technique="stateful property-based testing against a model of the exchanged values, with round-trips",
    note="Histories of conversions in one Perl process; the model keeps the bytes of every array, and the count of memory blocks must return to its start after each history.")
