import struct
from vt import matrix, sem, pbt
from vt.matrix import Op
from vt.pbt import Suite
from vt.sem import Die, UB
from props.p18 import arr, strs, text, opt

TITLE = "Arrays have a fixed length, and every access is bounds-checked and exact"
RULE = ("One case is 60 random array operations on arrays of every element type with indexes of every integer type, in and out of range; or a generated history of 20 to 60 statements over "
        "shared arrays, rows of arrays and arrays seen through wider types. Non-trivial: distinct operation and operands, or a history in which a shared array is written.")

NUM = sem.NUM
S = "string"


def num(src, t):
    return sem.draw_num(src, t)


def xs(src, t, mx=9):
    return [num(src, t) for _ in range(src.below(mx))]


def idx(src, n, t):
    v = src.int(0, max(0, n - 1)) if src.chance(3, 4) else src.choice([-1, n, n + 1, -n, 127, -128, 255, 32767, -32768, 65535, 2147483647, -2147483648, n + 256, n + 65536, -2147483648 + n])
    return sem.wrap(t, v)


def get(a, i):
    if a is None or not 0 <= i < len(a):
        raise Die("*")
    return a[i]


def put(t, a, i, v):
    get(a, i)
    return arr(t, a[:i] + [v] + a[i + 1:])


def ops():
    O = []

    def add(params, ret, body, ref, tag, gen):
        O.append(Op(params, ret, body, ref, tag, gen))
    for t in NUM:
        A = t + "[]"

        def ga(s, t=t):
            return None if s.chance(1, 20) else xs(s, t)
        for it in ("byte", "short", "int"):
            def g1(s, t=t, it=it, ga=ga):
                a = ga(s)
                return [a, idx(s, len(a or []), it)]

            def g2(s, t=t, it=it, ga=ga):
                a = ga(s)
                return [a, idx(s, len(a or []), it), num(s, t)]
            add([A, it], t, "return $a->[$b];", get, "element", g1)
            add([A, it, t], A, "$a->[$b] = $c; return $a;", (lambda a, i, v, t=t: put(t, a, i, v)), "set an element", g2)
            add([A, it, t], t, "return ($a->[$b] = $c);", (lambda a, i, v: (get(a, i), v)[1]), "value of setting", g2)
            if t != "byte" or True:
                def f_add(a, i, v, t=t):
                    x = get(a, i)
                    pt = sem.bin_type(t, t)
                    return put(t, a, i, sem.conv(pt, t, sem.arith("+", pt, sem.conv(t, pt, x), sem.conv(t, pt, v))))
                add([A, it, t], A, "$a->[$b] += $c; return $a;", f_add, "change an element", g2)

            def f_inc(a, i, t=t):
                x = get(a, i)
                return put(t, a, i, sem.wrap(t, x + 1) if t in sem.BITS else (sem.f32(x + 1.0) if t == "float" else x + 1.0))
            add([A, it], A, "$a->[$b]++; return $a;", f_inc, "increment an element", g1)

            def lng(s, it=it):
                return [sem.wrap(it, s.choice([0, 1, 2, 3, 7, 8, 16, 100, -1, -2, sem.lo(it)] + ([4000] if it != "byte" else [])))]
            add([it], A, "return new %s[$a];" % t, (lambda n, t=t: arr(t, [0] * n) if n >= 0 else die()), "new", lng)
        add([A], "int", "return @$a;", (lambda a: len(a) if a is not None else die()), "length", lambda s, ga=ga: [ga(s)])
        add([A], "int", "return scalar @$a + @{$a};", (lambda a: 2 * len(a) if a is not None else die()), "length", lambda s, ga=ga: [ga(s)])
        add([A], A, "return copy $a;", (lambda a, t=t: None if a is None else arr(t, a)), "copy", lambda s, ga=ga: [ga(s)])
        add([A, t], A, "my $c = copy $a; if (@$c) { $c->[0] = $b; $c->[@$c - 1] = $b; } return $a;", (lambda a, v, t=t: arr(t, a) if a is not None else die()), "copy is independent", lambda s, ga=ga, t=t: [ga(s), num(s, t)])
        add([A, t], A, "my $c = $a; if (@$c) { $c->[@$c - 1] = $b; } return $a;", (lambda a, v, t=t: die() if a is None else arr(t, a[:-1] + [v] if a else [])), "sharing", lambda s, ga=ga, t=t: [ga(s), num(s, t)])
        add([A], t, "my $r : %s = 0; for (my $i = 0; $i < @$a; $i++) { $r = $a->[$i]; } return $r;" % t, (lambda a: die() if a is None else a[-1] if a else 0), "loop", lambda s, ga=ga: [ga(s)])
        add([A], t, "my $r : %s = 0; for my $x (@$a) { $r = $x; } return $r;" % t, (lambda a: die() if a is None else a[-1] if a else 0), "for each", lambda s, ga=ga: [ga(s)])
        add([t, t, t], A, "return [$a, $b, $c];", (lambda a, b, c, t=t: arr(t, [a, b, c])), "initialisation", lambda s, t=t: [num(s, t) for _ in range(3)])
        add([A], "string", "return type_name $a;", (lambda a, A=A: None if a is None else A.encode()), "type_name", lambda s, ga=ga: [ga(s)])
        add([A], "int", "my $o = (object)$a; my $b = (%s)$o; return $b == $a;" % A, lambda a: 1, "cast", lambda s, ga=ga: [ga(s)])
        # elements of other types are widened
        for u in NUM:
            if sem.RANK[u] < sem.RANK[t]:
                add([t, u], A, "return [$a, $b];", (lambda a, b, t=t, u=u: arr(t, [a, sem.conv(u, t, b)])), "initialisation, widening", lambda s, t=t, u=u: [num(s, t), num(s, u)])
                add([A, u], A, "$a->[0] = $b; return $a;", (lambda a, b, t=t, u=u: put(t, a, 0, sem.conv(u, t, b))), "set, widening", lambda s, ga=ga, u=u: [ga(s), num(s, u)])
        # rows
        add([A, "int", "int"], t, "my $x = new %s[][3]; $x->[1] = $a; return $x->[$b][$c];" % t, (lambda a, i, j: get(a, j) if i == 1 else die()), "rows", lambda s, ga=ga: (lambda a: [a, s.weighted([(5, 1), (1, 0), (1, 2), (1, 3), (1, -1)]), idx(s, len(a or []), "int")])(ga(s)))
        add([A, "int", t], A, "my $x = [[new %s[2], $a]]; $x->[0][1][$b] = $c; return $x->[0]->[1];" % t, (lambda a, i, v, t=t: put(t, a, i, v)), "rows", lambda s, ga=ga, t=t: (lambda a: [a, idx(s, len(a or []), "int"), num(s, t)])(ga(s)))
        box = {"byte": "Byte", "short": "Short", "int": "Int", "long": "Long", "float": "Float", "double": "Double"}[t]
        add([t, "int"], t, "my $x = new %s[2]; $x->[0] = $a; return (%s)$x->[$b];" % (box, t), (lambda v, i: v if i == 0 else die()), "boxed elements", lambda s, t=t: [num(s, t), s.choice([0, 0, 0, 1, 2, -1])])
    W = S + "[]"

    def sa(s):
        return None if s.chance(1, 20) else [opt(text, 5)(s) for _ in range(s.below(7))]

    def gs(s):
        a = sa(s)
        return [a, idx(s, len(a or []), "int")]

    def gsv(s):
        a = sa(s)
        return [a, idx(s, len(a or []), "int"), opt(text, 5)(s)]

    def sput(a, i, v):
        get(a, i)
        return strs(a[:i] + [v] + a[i + 1:])
    add([W, "int"], S, "return $a->[$b];", get, "element", gs)
    add([W, "int", S], W, "$a->[$b] = $c; return $a;", sput, "set an element", gsv)
    add([W, "int", S], W, "my $o = (object[])$a; $o->[$b] = $c; return $a;", sput, "set through object[]", gsv)
    add([W, "int"], W, "my $o = (object[])$a; $o->[$b] = Int->new(1); return $a;", lambda a, i: die(), "set a wrong element", gs)
    add([W, "int"], W, "my $o = (object[])$a; eval { $o->[$b] = Int->new(1); }; return $a;", lambda a, i: strs(a) if a is not None else None, "set a wrong element", gs)
    add([W, "int"], W, "my $o = (object[])$a; $o->[$b] = undef; return $a;", lambda a, i: sput(a, i, None), "set undef", gs)
    add([W, "int", S], W, "$a->[$b] .= $c; return $a;", lambda a, i, v: sput(a, i, get(a, i) + v) if get(a, i) is not None and v is not None else die(), "append to an element", gsv)
    add([W], "int", "return @$a;", lambda a: len(a) if a is not None else die(), "length", lambda s: [sa(s)])
    add([W], "int", "my $n = 0; for my $x (@$a) { if ($x) { $n++; } } return $n;", lambda a: sum(x is not None for x in a) if a is not None else die(), "for each", lambda s: [sa(s)])
    add(["int"], W, "return new string[$a];", lambda n: strs([None] * n) if n >= 0 else die(), "new", lambda s: [s.int(-2, 20)])
    add([S, S], W, "return [$a, $b];", lambda a, b: strs([a, b]), "initialisation", lambda s: [opt(text, 5)(s), opt(text, 5)(s)])
    add([S, "int", "double"], "object[]", "return {$a => $b, \"k\" => $c};", lambda a, b, c: ("A", "object[]", [a, ("B", "i", b), b"k", ("B", "d", struct.unpack("<q", struct.pack("<d", c))[0])]), "key-value initialisation", lambda s: [opt(text, 5)(s), num(s, "int"), num(s, "double")])
    add([], "object[]", "return {};", lambda: ("A", "object[]", []), "key-value initialisation", lambda s: [])
    add([], "object[]", "return [];", lambda: ("A", "object[]", []), "initialisation", lambda s: [])
    add(["int", S], "object[]", "return [(object)$a, $b, undef];", lambda a, b: ("A", "object[]", [("B", "i", a), b, None]), "initialisation", lambda s: [num(s, "int"), opt(text, 5)(s)])
    add([W], S, "return type_name $a;", lambda a: None if a is None else b"string[]", "type_name", lambda s: [sa(s)])
    add(["int"], S, "my $x = new Point[][$a]; return type_name $x;", lambda n: b"Point[][]" if n >= 0 else die(), "type_name", lambda s: [s.int(-2, 5)])
    add(["int", "int"], "int", "my $x = new Point[$a]; $x->[$b] = Point->new(3, 4); return $x->[$b]->x + @$x;", lambda n, i: 3 + n if 0 <= i < n else die(), "class arrays", lambda s: [s.int(-1, 5), s.int(-1, 5)])
    add(["int", "int"], "int", "my $x = new Point[$a]; return $x->[$b] == undef;", lambda n, i: 1 if 0 <= i < n else die(), "class arrays", lambda s: [s.int(-1, 5), s.int(-1, 5)])
    add(["int", "int", "double"], "double", "my $x = new Complex_2d[$a]; $x->[$b]{re} = $c; my $y = $x->[$b]; $x->[$b]{im} += $c; return $y->{re} - $x->[$b]{im} + $x->[$b]{re} + $y->{im};", lambda n, i, v: (v - v) + v + 0.0 if 0 <= i < n else die(), "multi-numeric arrays", lambda s: [s.int(-1, 6), s.int(-1, 6), float(s.int(-9, 9))])
    return O


def die():
    raise Die("*")


OPS = ops()


# ---------------------------------------------------------------- histories
class Arr:
    __slots__ = ("t", "e")

    def __init__(self, t, e):
        self.t, self.e = t, e


def ser(x):
    if x is None or isinstance(x, bytes):
        return x
    if isinstance(x, tuple):
        return x
    t = x.t
    el = t[:-2]
    if el in NUM:
        return arr(el, x.e)
    return ("A", t, [ser(y) for y in x.e])


# places: (source, static type)
PL = [("$i0", "int[]"), ("$i1", "int[]"), ("$r0", "int[][]"), ("$r1", "int[][]"), ("$s0", "string[]"), ("$o0", "object[]"), ("$o1", "object"), ("$m->{i}", "int[]"), ("$m->{r}", "int[][]"), ("$m->{o}", "object[]"), ("$GI", "int[]"), ("$r0->[0]", "int[]"), ("$b0", "byte[]"), ("$d0", "double[]")]
STATE = " ".join("VT->o(%s);" % p for p, t in PL if not p.startswith("$r0->"))
IDS = [i for i, (p, t) in enumerate(PL) if not p.startswith("$r0->")]


def is_objarr(t):
    return t.endswith("[]") and t[:-2] not in NUM


def fits(dst, x):
    """The run-time assignment requirement for a value x."""
    if x is None or dst == "object":
        return True
    if dst == "object[]":
        return isinstance(x, Arr) and is_objarr(x.t)
    if dst == "string":
        return isinstance(x, bytes)
    return isinstance(x, Arr) and x.t == dst


def history(pre, variant):
    def case(src, ctx):
        n = src.int(20, 60)
        v = {p: None for p, t in PL if not p.startswith("$r0->")}
        exp, lines, tags = [], [], set()
        shared = False

        def val(p):
            if p == "$r0->[0]":
                r = v["$r0"]
                if r is None or not r.e:
                    raise Die("*")
                return r.e[0]
            return v[p]

        def setv(p, x):
            if p == "$r0->[0]":
                r = v["$r0"]
                if r is None or not r.e:
                    raise Die("*")
                r.e[0] = x
            else:
                v[p] = x

        def places(*ts):
            ps = [(p, t) for p, t in PL if t in ts]
            if src.chance(3, 4):
                live = [(p, t) for p, t in ps if not p.startswith("$r0->") and v[p] is not None]
                if live:
                    return src.choice(live)
            return src.choice(ps)

        def idx(p):
            try:
                a = val(p)
            except Die:
                a = None
            return src.int(0, len(a.e) - 1) if a is not None and a.e and src.chance(5, 6) else src.int(-1, 4)

        def refs(x):
            """how many places reach x directly"""
            return sum(y is x for y in v.values()) + sum(isinstance(y, Arr) and is_objarr(y.t) and any(z is x for z in y.e) for y in v.values())
        for step in range(n):
            k = "new" if step < 5 else src.weighted([(5, "new"), (3, "init"), (6, "alias"), (8, "set"), (4, "get"), (2, "len"), (3, "copy"), (3, "row"), (4, "oset"), (3, "cast"), (2, "cmp"), (1, "undef"), (2, "op"), (2, "each"), (2, "oget"), (1, "kv")])
            r = None
            try:
                if k == "new":
                    p, t = src.choice([x for x in PL if x[1] != "object"])
                    m = src.int(-1, 4)
                    st = "%s = new %s[%d];" % (p, t[:-2], m)
                    if m < 0:
                        raise Die("*")
                    z = 0.0 if t == "double[]" else 0 if t[:-2] in NUM else None
                    setv(p, Arr(t, [z] * m))
                elif k == "init":
                    p, t = places("int[]", "string[]", "int[][]", "object[]")
                    m = src.int(1, 3)
                    if t == "int[]":
                        xs_ = [src.int(-99, 99) for _ in range(m)]
                        st = "%s = [%s];" % (p, ", ".join(map(str, xs_)))
                    elif t == "string[]":
                        xs_ = [src.choice([b"a", b"bc", b""]) for _ in range(m)]
                        st = "%s = [%s];" % (p, ", ".join('"%s"' % x.decode() for x in xs_))
                    elif t == "int[][]":
                        q = [places("int[]")[0] for _ in range(m)]
                        st = "%s = [%s];" % (p, ", ".join(q))
                        xs_ = [val(x) for x in q]
                    else:
                        q = [places("int[]", "string[]", "int[][]", "object[]", "object")[0] for _ in range(m)]
                        st = "%s = [(object)%s];" % (p, ", ".join(q))
                        xs_ = [val(x) for x in q]
                        if any(x is not None and x is val("$o0") or x is v["$o1"] or x is v["$m->{o}"] for x in xs_):
                            continue        # no cycles
                    setv(p, Arr(t, xs_))
                elif k == "alias":
                    p, t = places("int[]", "int[][]", "object[]", "object")
                    q = places(t)[0] if t not in ("object", "object[]") else places("string[]", "int[][]", "object[]")[0] if t == "object[]" else places("int[]", "string[]", "byte[]", "int[][]", "object[]")[0]
                    st = "%s = %s;" % (p, q)
                    x = val(q)
                    setv(p, x)
                elif k in ("set", "op"):
                    p, t = places("int[]", "byte[]", "double[]")
                    i = idx(p)
                    x = src.int(-100, 100)
                    st = "%s->[%d] %s %d;" % (p, i, "=" if k == "set" else "+=", x)
                    a = val(p)
                    if a is None or not 0 <= i < len(a.e):
                        raise Die("*")
                    if refs(a) > 1:
                        shared = True
                    y = x if k == "set" else a.e[i] + x
                    a.e[i] = float(y) if t == "double[]" else sem.wrap(t[:-2], y)
                elif k == "get":
                    p, t = places("int[]")
                    i = idx(p)
                    st = "VT->i(%s->[%d]);" % (p, i)
                    a = val(p)
                    if a is None or not 0 <= i < len(a.e):
                        raise Die("*")
                    r = (a.e[i],)
                elif k == "len":
                    p, t = places("int[]", "int[][]", "object[]", "string[]", "byte[]")
                    st = "VT->i(@{%s});" % p
                    a = val(p)
                    if a is None:
                        raise Die("*")
                    r = (len(a.e),)
                elif k == "copy":
                    t = src.choice(["int[]", "int[]", "byte[]", "double[]"])
                    p, q = places(t)[0], places(t)[0]
                    st = "%s = copy %s;" % (p, q)
                    x = val(q)
                    setv(p, None if x is None else Arr(x.t, list(x.e)))
                elif k == "row":
                    p, t = places("int[][]")
                    i = idx(p)
                    q = places("int[]")[0]
                    st = "%s->[%d] = %s;" % (p, i, q)
                    x = val(q)
                    a = val(p)
                    if a is None or not 0 <= i < len(a.e):
                        raise Die("*")
                    if refs(a) > 1:
                        shared = True
                    a.e[i] = x
                elif k == "oset":
                    p, t = places("object[]")
                    i = idx(p)
                    q, tq = places("int[]", "string[]", "byte[]") if src.chance(2, 3) else ('"s%d"' % step, S)
                    st = "%s->[%d] = %s;" % (p, i, q)
                    x = val(q) if tq != S else q[1:-1].encode()
                    a = val(p)
                    if a is None or not 0 <= i < len(a.e) or not fits(a.t[:-2], x):
                        raise Die("*")
                    if refs(a) > 1:
                        shared = True
                    a.e[i] = x
                elif k == "oget":
                    p, t = places("object[]")
                    i = idx(p)
                    d, td = places("int[]", "string[]", "object")
                    st = "%s = %s%s->[%d];" % (d, "" if td == "object" else "(%s)" % td, p, i)
                    a = val(p)
                    if a is None or not 0 <= i < len(a.e) or not fits(td, a.e[i]):
                        raise Die("*")
                    x = a.e[i]
                    setv(d, x)
                elif k == "cast":
                    p, t = places("int[]", "int[][]", "string[]", "byte[]", "object[]")
                    q = places("object")[0]
                    st = "%s = (%s)%s;" % (p, t, q)
                    x = val(q)
                    if not fits(t, x):
                        raise Die("*")
                    setv(p, x)
                elif k == "cmp":
                    p = places("int[]", "int[][]", "object[]", "string[]", "object")[0]
                    q = places("int[]", "int[][]", "object[]", "string[]", "object")[0]
                    op = src.choice(["==", "!="])
                    st = "VT->i((object)%s %s (object)%s);" % (p, op, q)
                    x, y = val(p), val(q)
                    r = (int((x is y) == (op == "==")),)
                elif k == "each":
                    p = places("int[]")[0]
                    st = "my $n = 0; for my $x (@{%s}) { $n = $n * 3 + $x; } VT->i($n);" % p
                    a = val(p)
                    if a is None:
                        raise Die("*")
                    y = 0
                    for x in a.e:
                        y = sem.wrap("int", y * 3 + x)
                    r = (y,)
                elif k == "kv":
                    p = places("object[]")[0]
                    q = places("int[]")[0]
                    st = "%s = {a => %s, b => 5};" % (p, q)
                    x = val(q)
                    setv(p, Arr("object[]", [b"a", x, b"b", ("B", "i", 5)]))
                else:
                    p = src.choice([x for x in PL if x[0] != "$r0->[0]"])[0]
                    st = "%s = undef;" % p
                    setv(p, None)
                ok = 1
            except Die:
                ok = 0
            tags.add(k if ok else k + " refused")
            lines.append("eval { %s $ok = 1; }; VT->i($ok); $ok = 0; " % st)
            if r is not None and ok:
                exp.extend(r)
            exp.append(ok)
            lines.append("&st($m, $i0, $i1, $r0, $r1, $s0, $o0, $o1, $b0, $d0);")
            exp.extend(ser(v[PL[i][0]]) for i in IDS)
        attr = "precompile " if pre else ""
        loc = [(p, t) for p, t in PL if p[1:2] not in "mGr" or p in ("$r0", "$r1")]
        t = ("class T {\n use VT; use Int;\n has i : int[];\n has r : int[][];\n has o : object[];\n our $GI : int[];\n"
             " %sstatic method st : void ($m : T, $i0 : int[], $i1 : int[], $r0 : int[][], $r1 : int[][], $s0 : string[], $o0 : object[], $o1 : object, $b0 : byte[], $d0 : double[]) { %s }\n"
             " %sstatic method main : void () {\n  my $ok = 0; my $m = new T; %s\n%s\n  $GI = undef;\n }\n}") % (attr, STATE, attr, " ".join("my %s : %s;" % x for x in loc), "\n".join("  " + l for l in lines))
        d = ctx.drv(variant)
        r = d.precompiled(ctx.infos[variant], [("T", t)], ["T"], ctx.scratch(), opt="-O1") if pre else d.program([("T", t)])
        if r.code:
            raise pbt.Violation("rejected: %s\n%s" % (r.errors, t), "rejected")
        cr = d.call("T", "main")
        if cr.status != "ok" or cr.leak:
            raise pbt.Violation("the history ended with %s %r, leak %r\n%s" % (cr.status, cr.msg, cr.leak, t), "end")
        if cr.trace != exp:
            i = next((i for i, (x, y) in enumerate(zip(cr.trace, exp)) if x != y), min(len(exp), len(cr.trace)))
            raise pbt.Violation("record %d: expected %r, got %r\n%s" % (i, exp[i:i + 3], cr.trace[i:i + 3], t), "history")
        return pbt.Info(shared, sorted(tags), "\n".join(lines[::2][:8]), digest=t, evals=n)
    return case


def suite(name, variant, pre, quick, thorough):
    return Suite(name, matrix.matrix_case(OPS, "p13" + variant + str(pre), 60, variant, pre, uses=["VT", "Point", "Complex_2d", "Int", "Byte", "Short", "Long", "Float", "Double"]), quick, thorough, variants=(variant,), chunk=50)


SUITES = [
    suite("operations", "plain", False, 1200, 40000),
    suite("operations, precompiled", "plain", True, 1200, 40000),
    suite("operations, asan", "asan", False, 120, 3000),
    Suite("histories", history(False, "plain"), 2500, 60000),
    Suite("histories, precompiled", history(True, "plain"), 160, 3000),
    Suite("histories, asan", history(False, "asan"), 200, 5000, variants=("asan",)),
]

META = dict(
    statement="An array has the length it was created with and elements of its element type, first all zero or undef. For every element type, dimension, length and index of every integer type: reading gives the last value written to that element and nothing else changes it; an index below 0 or at or behind the length, an undefined array, a negative length, or an element of the wrong type in an array seen through a wider type throws and changes nothing. Initialisers build exactly the listed elements, widened to the type of the first; for-each visits all in order; copy makes an independent array of the same type; assignment shares; rows of arrays are arrays of their own. No access touches memory outside the elements. Interpreted and precompiled code agree.",
    over=["inputs", "histories"], quant="all element types, lengths, indexes and values, and all histories over shared and nested arrays",
    why="tests touch a few elements of small arrays; bounds, widths and sharing are statements about all indexes, types and aliasing patterns",
    files=["lib/SPVM/Builder/include/spvm_implement.h", "lib/SPVM/Builder/src/spvm_vm.c", "lib/SPVM/Builder/src/spvm_precompile.c", "lib/SPVM/Builder/src/spvm_opcode_builder.c", "lib/SPVM/Builder/src/spvm_api.c"],
    mech=[("bounds checks of element access", "lib/SPVM/Builder/include/spvm_implement.h"), ("creation of arrays", "lib/SPVM/Builder/src/spvm_api.c")],
    observe=["results, exceptions and the full contents of all arrays after every statement", "memory errors"],
    technique="property-based testing: operations against a reference, histories against a model of shared arrays",
    note="About 230 operation forms and model-based histories over 14 places; interpreted, precompiled, address sanitizer.")
