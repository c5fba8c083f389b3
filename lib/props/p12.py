import functools
from vt import matrix, sem, pbt, lang
from vt.matrix import Op
from vt.pbt import Suite
from vt.sem import Die, UB
from props.p18 import text, opt, arr

TITLE = "Strings are byte sequences with exact operators and read-only protection"
RULE = ("One case is 60 random applications of string operators, or a generated history of 12 to 40 statements over eight string places that share strings; "
        "non-trivial: an operator result was compared, or a history with at least two places that share a string when one is written.")
ASSUMPTIONS = ["whether a mutable variable that already refers to a string may still write to it after make_read_only is not judged"]

S, B = "string", "byte[]"


def cat(a, b):
    if a is None or b is None:
        raise Die("*")
    return a + b


def at(s, i):
    if s is None or not 0 <= i < len(s):
        raise Die("*")
    return sem.wrap("byte", s[i])


def put(s, i, c):
    if s is None or not 0 <= i < len(s):
        raise Die("*")
    return s[:i] + bytes([c & 255]) + s[i + 1:]


def sarg(src):
    return opt(text, 14)(src)


def barg(src):
    s = sarg(src)
    return None if s is None else [sem.wrap("byte", c) for c in s]


def unb(b):
    return None if b is None else bytes(c & 255 for c in b)


def near(src):
    """Two strings that often share a prefix."""
    a = sarg(src)
    if a is None or src.chance(1, 3):
        return a, sarg(src)
    k = src.below(4)
    if k == 0:
        return a, bytes(a)
    i = src.int(0, len(a))
    b = a[:i] + (b"" if k == 1 else bytes([src.choice([0, 1, 65, 97, 127, 128, 255])])) + (a[i + 1:] if k == 3 else b"")
    return (a, b) if src.chance(1, 2) else (b, a)


def idx(src, s, t):
    n = len(s or b"")
    v = src.int(0, max(0, n - 1)) if src.chance(3, 4) else src.choice([-1, n, n + 1, -n, 127, -128, 32767, -32768, 2147483647, -2147483648, n + 256, n + 65536])
    return sem.wrap(t, v)


def numtext(src):
    if src.chance(1, 12):
        return sarg(src)
    k = src.below(5)
    pre = src.choice([b"", b"", b" ", b"\t\n", b"+", b"-", b" -", b"+-", b"\0", b"\v\f\r"])
    if k == 0:
        v = b"%d" % src.choice([0, 1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32769, 65536, 2147483647, 2147483648, -2147483649, 4294967296, 9223372036854775807, 9223372036854775808, -9223372036854775809, 10 ** 30])
    elif k == 1:
        v = b"%d" % src.below(1 << src.int(1, 66))
    elif k == 2:
        v = src.choice([b"0x1f", b"010", b"1e3", b"1_000", b"0b11", b"1.9", b"12abc", b"abc", b"", b"1 2", b"--1", b"1\x002"])
    elif k == 3:
        v = ("%.*g" % (src.int(1, 18), src.int(-10 ** 9, 10 ** 9) * 10.0 ** src.int(-30, 30))).encode()
    else:
        v = src.choice([b"1e400", b"1e-400", b"3.5e38", b"-3.5e38", b".5", b"5.", b"-.5e1", b"1e", b"1e+", b"0x1p4", b"3.4028235e38", b"3.4028236e38", b"1e-46", b"1.17549435e-38"])
    return pre + v + src.choice([b"", b"", b"", b" ", b"x"])


def ops():
    O = []

    def add(params, ret, body, ref, tag, gen):
        O.append(Op(params, ret, body, ref, tag, gen))
    pair = lambda s: list(near(s))

    def mixgen(ta, tb):
        def g(s):
            a, b = near(s)
            f = lambda t, v: v if t == S or v is None else [sem.wrap("byte", c) for c in v]
            return [f(ta, a), f(tb, b)]
        return g
    by = lambda t, v: v if t == S else unb(v)
    for ta in (S, B):
        for tb in (S, B):
            for op in ("eq", "ne", "gt", "ge", "lt", "le", "cmp"):
                add([ta, tb], "int", "return $a %s $b;" % op, (lambda a, b, o=op, x=ta, y=tb: sem.scmp(o, by(x, a), by(y, b))), "compare", mixgen(ta, tb))
            add([ta, tb], S, "return $a . $b;", (lambda a, b, x=ta, y=tb: cat(by(x, a), by(y, b))), "concat", mixgen(ta, tb))
    for op in ("eq", "lt", "cmp"):
        add([S], "int", "return $a %s undef;" % op if op != "eq" else "return $a %s (string)undef;" % op, (lambda a, o=op: sem.scmp(o, a, None)), "compare", lambda s: [sarg(s)]) if op == "eq" else None
        add([S, S], "int", "if ($a %s $b) { return 1; } return 0;" % op, (lambda a, b, o=op: int(sem.scmp(o, a, b) != 0)), "compare in a condition", pair)
        add([S, S], "int", "my $r = new string[2]; $r->[0] = $a; $r->[1] = $b; return !($r->[0] %s $r->[1]);" % op, (lambda a, b, o=op: int(not sem.scmp(o, a, b))), "compare elements", pair)
    for form, src_ in (("local", "my $x = $a; $x .= $b; return $x;"), ("field", "my $t = new T; $t->{f} = $a; $t->{f} .= $b; return $t->{f};"), ("class variable", "$G = $a; eval { $G .= $b; }; my $x = $G; $G = undef; if ($@) { die $@; } return $x;"), ("element", "my $x = [$a, $a]; $x->[1] .= $b; return $x->[1];")):
        add([S, S], S, src_, cat, "append to a " + form, pair)
        add([S, S], "int", {"local": "my $x = $a; my $y = $x; $x .= $b; return ($y eq $a) && $y == $a;", "field": "my $t = new T; $t->{f} = $a; my $y = $t->{f}; $t->{f} .= $b; return ($y eq $a) && $y == $a;",
                            "class variable": "$G = $a; my $y = $G; eval { $G .= $b; }; $G = undef; if ($@) { die $@; } return ($y eq $a) && $y == $a;", "element": "my $x = [$a, $a]; $x->[1] .= $b; return $x->[0] == $a;"}[form], (lambda a, b: (cat(a, b), 1)[1]), "append makes a new string", pair)
    add([S, S, S], S, "return $a . $b . $c;", lambda a, b, c: cat(cat(a, b), c), "concat", lambda s: list(near(s)) + [sarg(s)])
    add([S, S, S], S, "return \"<$a>$b${c}x\";", lambda a, b, c: cat(cat(cat(b"<", a) + b">", b), c) + b"x", "expansion", lambda s: list(near(s)) + [sarg(s)])
    add([S, S], S, "return $a . ($b . $a);", lambda a, b: cat(a, cat(b, a)), "concat", pair)
    add([S], S, "return $a . $a;", lambda a: cat(a, a), "concat", lambda s: [sarg(s)])
    add([S, "int"], S, "my $x = \"\"; for (my $i = 0; $i < $b; $i++) { $x .= $a; } return $x;", lambda a, n: cat(a, b"") * n if n > 0 else b"", "concat", lambda s: [sarg(s), s.int(0, 40)])
    for t in sem.NUM:
        add([S, t], S, "return $a . $b;", (lambda a, b, t=t: cat(a, sem.num_to_str(t, b))), "number . string", lambda s, t=t: [sarg(s), sem.draw_num(s, t)])
        add([t, S], S, "return $a . $b;", (lambda a, b, t=t: cat(sem.num_to_str(t, a), b)), "number . string", lambda s, t=t: [sem.draw_num(s, t), sarg(s)])
        add([t, t], S, "return $a . $b;", (lambda a, b, t=t: sem.num_to_str(t, a) + sem.num_to_str(t, b)), "number . number", lambda s, t=t: [sem.draw_num(s, t), sem.draw_num(s, t)])
        add([t, S], S, "my $x = $b; $x .= $a; return $x;", (lambda a, b, t=t: cat(b, sem.num_to_str(t, a))), "append a number", lambda s, t=t: [sem.draw_num(s, t), sarg(s)])
        add([t], S, "return (string)$a;", (lambda a, t=t: sem.num_to_str(t, a)), "number to string", lambda s, t=t: [sem.draw_num(s, t)])
        add([t], S, "my $x : string = $a; return $x;", (lambda a, t=t: sem.num_to_str(t, a)), "number to string", lambda s, t=t: [sem.draw_num(s, t)])
        add([t], S, "return \"v=$a;\";", (lambda a, t=t: b"v=" + sem.num_to_str(t, a) + b";"), "expansion", lambda s, t=t: [sem.draw_num(s, t)])
        add([t], "int", "my $x = (string)$a; my $y = (string)$a; return !is_read_only $x && $x eq $y && $x != $y;", (lambda a, t=t: (sem.num_to_str(t, a), 1)[1]), "number to string", lambda s, t=t: [sem.draw_num(s, t)])
        add([S], t, "return (%s)$a;" % t, (lambda a, t=t: sem.str_to_num(t, a)), "string to number", lambda s: [numtext(s)])
        if t in sem.INTS:
            add([t], t, "return (%s)(string)$a;" % t, (lambda a: a), "round trip", lambda s, t=t: [sem.draw_num(s, t)])
    for t in ("byte", "short", "int"):
        def g(s, t=t):
            a = sarg(s)
            return [a, idx(s, a, t)]
        add([S, t], "byte", "return $a->[$b];", at, "character", g)
        add([S, t], "int", "return $a->[$b] + 1;", lambda a, i: at(a, i) + 1, "character", g)

        def gp(s, t=t):
            a = sarg(s)
            return [a, idx(s, a, t), sem.draw_num(s, "byte")]
        add([S, t, "byte"], S, "my $x = (mutable string)copy $a; $x->[$b] = $c; return $x;", put, "set a character", gp)
        add([S, t, "byte"], "byte", "my $x = (mutable string)copy $a; return ($x->[$b] = $c);", lambda a, i, c: (put(a, i, c), c)[1], "value of setting a character", gp)
        add([S, t, "byte"], S, "my $x = (mutable string)copy $a; $x->[$b] += $c; return $x;", lambda a, i, c: put(a, i, sem.wrap("byte", at(a, i) + c)), "change a character", gp)
        add([S, t, "byte"], S, "my $x = (mutable string)copy $a; $x->[$b]++; --$x->[$b]; ++$x->[$b]; return $x;", lambda a, i, c: put(a, i, sem.wrap("byte", at(a, i) + 1)), "increment a character", gp)
        add([t], S, "return new_string_len $a;", (lambda n: b"\0" * n if n >= 0 else die()), "new_string_len", lambda s, t=t: [s.choice([0, 1, 2, 7, 8, 9, 100, -1, -2, sem.lo(t)] + ([70000] if t == "int" else []))])
        add([t], "int", "my $x = new_string_len $a; return is_read_only $x;", (lambda n: 0 if n >= 0 else die()), "new_string_len", lambda s, t=t: [s.int(-1, 9)])
    add([S], "int", "return length $a;", lambda a: len(a or b""), "length", lambda s: [sarg(s)])
    add([S, S], "int", "return length ($a . $b);", lambda a, b: len(cat(a, b)), "length", pair)
    add([S], S, "return copy $a;", lambda a: a, "copy", lambda s: [sarg(s)])
    add([S], "int", "my $c = copy $a; if (!$a) { return $c == undef; } return $c != $a && !is_read_only $c && $c eq $a;", lambda a: 1, "copy", lambda s: [sarg(s)])
    add([S, "byte"], S, "my $m = (mutable string)copy $a; make_read_only $m; my $c = (mutable string)copy $m; $c->[0] = $b; return $m . \"|\" . $c;", lambda a, c: cat(a, b"|") + put(a, 0, c), "copy of a read-only string", lambda s: [sarg(s), 65])
    add([S], "int", "my $c = copy $a; my $r = is_read_only $c; make_read_only $c; $r = $r * 2 + is_read_only $c; make_read_only $c; return $r * 2 + is_read_only $c;", lambda a: 3 if a is not None else 0, "make_read_only", lambda s: [sarg(s)])
    add([S], "int", "my $c = copy $a; make_read_only $c; eval { my $m = (mutable string)$c; }; if ($@) { return 1; } return 0;", lambda a: int(a is not None), "cast to mutable", lambda s: [sarg(s)])
    add([S], "int", "my $c = copy $a; my $m = (mutable string)$c; return $m == $c;", lambda a: 1, "cast to mutable", lambda s: [sarg(s)])
    add([S], "int", "my $o = (object)copy $a; make_read_only (string)$o; eval { my $m = (mutable string)$o; }; if ($@) { return 1; } return 0;", lambda a: int(a is not None), "cast to mutable", lambda s: [sarg(s)])
    add([S], B, "return (byte[])$a;", lambda a: None if a is None else arr("byte", [sem.wrap("byte", c) for c in a]), "string to bytes", lambda s: [sarg(s)])
    add([B], S, "return (string)$a;", unb, "bytes to string", lambda s: [barg(s)])
    add([S], S, "return (string)(byte[])$a;", lambda a: a, "round trip", lambda s: [sarg(s)])
    add([B], "int", "my $s = (string)$a; my $t = (mutable string)$s; if (@$a) { $t->[0] = 1; $a->[0] = 2; return $t->[0]; } return 1;", lambda a: 1 if a is not None else die(), "bytes to string copies", lambda s: [barg(s)])
    add([S], "int", "my $b = (byte[])$a; if (@$b) { my $c = $a->[0]; $b->[0] = (byte)($c + 1); return $a->[0] == $c; } return 1;", lambda a: 1 if a is not None else die(), "string to bytes copies", lambda s: [sarg(s)])
    for lit, v in (('"abc"', b"abc"), ("q'x'", b"x"), ('""', b"")):
        add([], "int", "my $s = %s; return is_read_only $s;" % lit, lambda: 1, "literal", lambda s: [])
        add([], S, "my $s = %s; return copy $s;" % lit, lambda v=v: v, "literal", lambda s: [])
        add([], "int", "my $s = %s; eval { my $m = (mutable string)$s; }; return $@ != undef;" % lit, lambda: 1, "literal", lambda s: [])
    add([S], "int", "return is_read_only $a;", lambda a: 0, "is_read_only", lambda s: [sarg(s)])
    add([S], "int", "if ($a) { return 1; } return 0;", lambda a: int(a is not None), "condition", lambda s: [sarg(s)])
    add([S], S, "return type_name $a;", lambda a: None if a is None else b"string", "type_name", lambda s: [sarg(s)])
    add([S], S, "my $n : int = 5; my $ref = \\$n; return \"$a$$ref\";", lambda a: cat(a, b"5"), "expansion", lambda s: [sarg(s)])
    add([S, S], S, "my $t = new T; $t->{f} = $a; my $x = [$b]; $G = $b; my $r : string; eval { $r = \"$t->{f}|$x->[0]|$G\"; }; $G = undef; if ($@) { die $@; } return $r;", lambda a, b: cat(cat(a, b"|"), cat(b, b"|")) + b, "expansion", pair)
    add([S, S], S, "my $t = new T; $t->{a} = [$a, $b]; $@ = $b; return \"$t->{a}[1]-$t->{a}->[0]-$@\";", lambda a, b: cat(cat(cat(b, b"-"), cat(a, b"-")), b), "expansion", pair)
    return O


def die():
    raise Die("*")


OPS = ops()
EXTRA = "  has f : string; has a : string[]; our $G : string;"


# ---------------------------------------------------------------- histories
class Str:
    __slots__ = ("b", "ro")

    def __init__(self, b, ro=False):
        self.b, self.ro = bytearray(b), ro


# eight places: (getter, may be mutable)
PL = ["$s0", "$s1", "$s2", "$o->{f}", "$G", "$a->[0]", "$a->[1]", "$o->{a}[0]"]
STATE = "".join("VT->o(%s); VT->i(is_read_only %s); " % (p, p) for p in PL) + "VT->i(" + " + ".join("(%s == %s) * %d" % (PL[i], PL[j], 1 << k) for k, (i, j) in enumerate([(i, j) for i in range(8) for j in range(i)])) + ");"
PAIRS = [(i, j) for i in range(8) for j in range(i)]


def q(b):
    return '"%s"' % "".join(chr(c) if c < 128 and chr(c).isalnum() else "\\x%02x" % c for c in b)


def history(pre, variant):
    def case(src, ctx):
        n = src.int(12, 40)
        v = [None] * 8
        exp, lines, shared = [], [], False
        tags = set()
        steps = n

        def small():
            return bytes(src.choice(b"abAB\0\xff0") for _ in range(src.below(5)))
        for step in range(n):
            a, b, c = src.below(8), src.below(8), src.below(8)
            live = [j for j in range(8) if v[j]]
            if live and src.chance(4, 5):
                b, c = src.choice(live), src.choice(live)
            k = "lit2" if step < 4 else src.weighted([(2, "lit"), (3, "lit2"), (5, "alias"), (5, "concat"), (5, "append"), (3, "copy"), (2, "new"), (7, "set"), (3, "ro"), (2, "bytes"), (2, "num"), (3, "get"), (2, "len"), (2, "cmp"), (3, "exp"), (1, "undef"), (2, "inc"), (2, "mut"), (2, "param")])
            A, Bp, C = PL[a], PL[b], PL[c]
            old = list(v)
            r = None
            try:
                if k == "lit":
                    w = small()
                    st = "%s = %s;" % (A, q(w))
                    v[a] = Str(w, True)
                elif k == "lit2":
                    w = small() + b"xyz"
                    st = "%s = copy %s;" % (A, q(w))
                    v[a] = Str(w)
                elif k == "alias":
                    st = "%s = %s;" % (A, Bp)
                    v[a] = v[b]
                elif k == "concat":
                    st = "%s = %s . %s;" % (A, Bp, C)
                    if v[b] is None or v[c] is None:
                        raise Die("*")
                    if len(v[b].b) + len(v[c].b) > 4000:
                        continue
                    v[a] = Str(v[b].b + v[c].b)
                elif k == "append":
                    st = "%s .= %s;" % (A, Bp)
                    if v[a] is None or v[b] is None:
                        raise Die("*")
                    if len(v[b].b) + len(v[a].b) > 4000:
                        continue
                    v[a] = Str(v[a].b + v[b].b)
                elif k == "copy":
                    st = "%s = copy %s;" % (A, Bp)
                    v[a] = None if v[b] is None else Str(v[b].b)
                elif k == "new":
                    m = src.int(-1, 6)
                    st = "%s = new_string_len %d;" % (A, m)
                    if m < 0:
                        raise Die("*")
                    v[a] = Str(b"\0" * m)
                elif k in ("set", "inc"):
                    i = src.int(-1, 5)
                    wr = [j for j in live if not v[j].ro]
                    if wr and src.chance(4, 5):
                        a = src.choice(wr)
                        A = PL[a]
                    ch = src.int(-128, 127)
                    st = "my $m = (mutable string)%s; $m->[%d] %s;" % (A, i, "= %d" % ch if k == "set" else src.choice(["++", "+= 1"]))
                    if v[a] is None or v[a].ro or not 0 <= i < len(v[a].b):
                        raise Die("*")
                    if any(v[j] is v[a] for j in range(8) if j != a):
                        shared = True
                    v[a].b[i] = (ch if k == "set" else v[a].b[i] + 1) & 255
                elif k == "ro":
                    st = "make_read_only %s;" % A
                    if v[a]:
                        v[a].ro = True
                elif k == "bytes":
                    st = "%s = (string)(byte[])%s;" % (A, Bp)
                    v[a] = None if v[b] is None else Str(v[b].b)
                elif k == "num":
                    if src.chance(1, 2):
                        x = sem.draw_num(src, "int")
                        st = "%s = (string)(int)%dL;" % (A, x)
                        v[a] = Str(b"%d" % x)
                    else:
                        st = "VT->i((int)%s);" % A
                        r = sem.str_to_num("int", None if v[a] is None else bytes(v[a].b))
                elif k == "get":
                    i = src.int(-1, 5)
                    st = "VT->i(%s->[%d]);" % (A, i)
                    if v[a] is None or not 0 <= i < len(v[a].b):
                        raise Die("*")
                    r = sem.wrap("byte", v[a].b[i])
                elif k == "len":
                    st = "VT->i(length %s);" % A
                    r = len(v[a].b) if v[a] else 0
                elif k == "cmp":
                    op = src.choice(["eq", "ne", "lt", "le", "gt", "ge", "cmp"])
                    st = "VT->i(%s %s %s);" % (A, op, Bp)
                    r = sem.scmp(op, None if v[a] is None else bytes(v[a].b), None if v[b] is None else bytes(v[b].b))
                elif k == "exp":
                    st = "my $x = %s; my $y = %s; %s = \"[$x]$y\";" % (Bp, C, A)
                    if v[b] is None or v[c] is None:
                        raise Die("*")
                    if len(v[b].b) + len(v[c].b) > 4000:
                        continue
                    v[a] = Str(b"[" + v[b].b + b"]" + v[c].b)
                elif k == "undef":
                    st = "%s = undef;" % A
                    v[a] = None
                elif k == "mut":
                    st = "%s = (mutable string)%s;" % (A, Bp)
                    if v[b] and v[b].ro:
                        raise Die("*")
                    v[a] = v[b]
                else:
                    st = "%s = &add(%s, %s);" % (A, Bp, C)
                    if v[b] is None or v[c] is None:
                        raise Die("*")
                    if len(v[b].b) + len(v[c].b) > 4000:
                        continue
                    v[a] = Str(v[b].b + b"-" + v[c].b)
                ok = 1
            except Die:
                ok = 0
                v = old
            tags.add(k if ok else k + " refused")
            lines.append("eval { %s $ok = 1; }; VT->i($ok); $ok = 0; " % st)
            if r is not None and ok:
                exp.append(r)
            exp.append(ok)
            lines.append("&st($o, $a, $s0, $s1, $s2);")
            for x in v:
                exp.append(None if x is None else bytes(x.b))
                exp.append(int(x is not None and x.ro))
            exp.append(sem.wrap("int", sum((v[i] is v[j]) << p for p, (i, j) in enumerate(PAIRS))))
        attr = "precompile " if pre else ""
        t = ("class T {\n use VT;\n has f : string;\n has a : string[];\n our $G : string;\n"
             " %sstatic method add : string ($x : string, $y : string) { $x .= \"-\"; $x .= $y; return $x; }\n"
             " %sstatic method st : void ($o : T, $a : string[], $s0 : string, $s1 : string, $s2 : string) { %s }\n"
             " %sstatic method main : void () {\n  my $ok = 0; my $s0 : string; my $s1 : string; my $s2 : string; my $a = new string[2]; my $o = new T; $o->{a} = new string[1];\n%s\n  $G = undef;\n }\n}") % (attr, attr, STATE, attr, "\n".join("  " + l for l in lines))
        d = ctx.drv(variant)
        r = d.precompiled(ctx.infos[variant], [("T", t)], ["T"], ctx.scratch(), opt="-O1") if pre else d.program([("T", t)])
        if r.code:
            raise pbt.Violation("rejected: %s\n%s" % (r.errors, t), "rejected")
        cr = d.call("T", "main")
        if cr.status != "ok" or cr.leak:
            raise pbt.Violation("the history ended with %s %r, leak %r\n%s" % (cr.status, cr.msg, cr.leak, t), "end")
        if cr.trace != exp:
            i = next((i for i, (x, y) in enumerate(zip(cr.trace, exp)) if x != y), min(len(exp), len(cr.trace)))
            raise pbt.Violation("record %d: expected %r, got %r\n%s" % (i, exp[i:i + 3], cr.trace[i:i + 3], t), "history")
        return pbt.Info(shared, sorted(tags), "\n".join(lines[::2][:8]), digest=t, evals=steps)
    return case


def suite(name, variant, pre, quick, thorough):
    return Suite(name, matrix.matrix_case(OPS, "p12" + variant + str(pre), 60, variant, pre, extra=EXTRA, uses=["VT"]), quick, thorough, variants=(variant,), chunk=50)


SUITES = [
    suite("operators", "plain", False, 1500, 40000),
    suite("operators, precompiled", "plain", True, 1500, 40000),
    suite("operators, asan", "asan", False, 120, 3000),
    Suite("histories", history(False, "plain"), 2500, 60000),
    Suite("histories, precompiled", history(True, "plain"), 160, 3000),
    Suite("histories, asan", history(False, "asan"), 200, 5000, variants=("asan",)),
]

META = dict(
    statement="A string is a sequence of bytes with a length. For all strings, also empty ones, ones with NUL and non-UTF-8 bytes, and undef: concatenation, append, variable expansion, length, comparison (bytewise, the shorter first; undef before every string), character access, copy, and the conversions from and to numbers and byte[] give the documented result; an index outside the string, undef where a string is needed, or a negative length throws. Append and copy make a new string, assignment shares it, and a write through a mutable string is seen through every place that shares it. A literal or a string made read-only can never be cast to mutable string; copies are writable again. Interpreted and precompiled code agree.",
    over=["inputs", "histories"], quant="all strings and numbers, and all histories of operations over shared strings",
    why="tests use a few short ASCII strings; the guarantees are about all bytes, lengths, indexes, sharing patterns and read-only states",
    files=["lib/SPVM/Builder/include/spvm_implement.h", "lib/SPVM/Builder/src/spvm_api.c", "lib/SPVM/Builder/src/spvm_opcode_builder.c", "lib/SPVM/Builder/src/spvm_vm.c", "lib/SPVM/Builder/src/spvm_precompile.c"],
    mech=[("string comparison, concatenation and conversions", "lib/SPVM/Builder/include/spvm_implement.h"), ("read-only flag and casts to mutable", "lib/SPVM/Builder/include/spvm_implement.h")],
    observe=["results, exceptions, contents, sharing and read-only state of strings after every statement"],
    technique="property-based testing: operators against a reference, histories against a model of shared strings",
    note="About 140 operator forms and model-based histories over eight places; interpreted, precompiled, address sanitizer.")
