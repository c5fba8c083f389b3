import functools, struct
from vt import matrix, sem, pbt
from vt.matrix import Op
from vt.pbt import Suite
from vt.sem import Die, UB
from props.p18 import arr, strs, need, off, crand, text, opt, SIZES

TITLE = "Array and Sort functions compute what their documentation says"
RULE = ("One case calls 60 randomly chosen functions of Array and Sort with generated arrays, ranges (also negative, huge and overlapping ones), comparators and undefined "
        "values; non-trivial when at least one result or exception was compared with the reference.")
ASSUMPTIONS = ["the result of copying between overlapping ranges with memcpy is unspecified", "an offset behind the end together with a negative length is not judged for memset",
               "a comparator that is not an ordering leaves an unspecified permutation"]

CH = sem.CHR
FM = {"byte": "b", "short": "h", "int": "i", "long": "q", "float": "f", "double": "d"}
INTT = ("byte", "short", "int", "long")
BOX = {"byte": "Byte", "short": "Short", "int": "Int", "long": "Long", "float": "Float", "double": "Double"}


class Perm:
    """Equal to any array with the same elements in the range [b, e) in some order, and the same elements elsewhere."""

    def __init__(self, t, xs, b=0, e=None):
        self.t, self.xs, self.b, self.e = t, xs, b, len(xs) if e is None else e

    def parts(self, xs):
        return xs[:self.b], sorted(xs[self.b:self.e], key=lambda v: (v is None, v)), xs[self.e:]

    def __eq__(self, g):
        if isinstance(g, Perm):
            return self is g
        if self.t == "string":
            if not (isinstance(g, tuple) and g[0] == "A" and g[1] == "string[]"):
                return False
            return self.parts(list(g[2])) == self.parts(self.xs)
        if not (isinstance(g, tuple) and g[0] == "N" and g[1] == self.t + "[]"):
            return False
        n = SIZES[self.t]
        cut = lambda b: [b[i:i + n] for i in range(0, len(b), n)]
        return self.parts(cut(g[2])) == self.parts(cut(arr(self.t, self.xs)[2]))

    def __repr__(self):
        return "a permutation of %r in [%d, %d)" % (self.xs, self.b, self.e)


# ---------------------------------------------------------------- generators
def num(src, t):
    if t in INTT:
        return sem.draw_num(src, t) if src.chance(1, 2) else src.int(-12, 12)
    k = src.below(8)
    if k == 0:
        return src.choice([0.0, -0.0, float("inf"), float("-inf"), 1e30, -1e-30])
    v = float(src.int(-40, 40)) / 4
    return struct.unpack("<f", struct.pack("<f", v))[0] if t == "float" else v


def xs(t, mx=14):
    def g(src):
        n = src.below(mx + 1) if src.chance(7, 8) else src.below(70)
        if src.chance(1, 4):
            pool = [num(src, t) for _ in range(3)]
            return [src.choice(pool) for _ in range(n)]
        return [num(src, t) for _ in range(n)]
    return g


def ss(src):
    n = src.below(12) if src.chance(7, 8) else src.below(50)
    if src.chance(1, 2):
        return [bytes(src.choice(b"ab") for _ in range(src.below(4))) for _ in range(n)]
    return [opt(text, 12)(src) for _ in range(n)]


def sdef(src):
    return [x if x is not None else b"" for x in ss(src)]


def rng(arrgen, nullable=True):
    """[array, offset, length]"""
    def g(src):
        a = None if nullable and src.chance(1, 25) else arrgen(src)
        n = len(a or [])
        if src.chance(3, 4):
            o = src.int(0, n)
            return [a, o, src.int(0, n - o) if src.chance(3, 4) else -1]
        return [a, off(src, n), off(src, n)]
    return g


def two(arrgen):
    """[dest, dest_offset, source, source_offset, length]"""
    def g(src):
        a = None if src.chance(1, 25) else arrgen(src)
        b = None if src.chance(1, 25) else arrgen(src)
        n, m = len(a or []), len(b or [])
        if src.chance(3, 4):
            i, j = src.int(0, n), src.int(0, m)
            return [a, i, b, j, src.int(0, min(n - i, m - j))]
        return [a, off(src, n), b, off(src, m), off(src, min(n, m))]
    return g


def one(arrgen):
    """[array, dest_offset, source_offset, length] in one array"""
    def g(src):
        a = arrgen(src)
        n = len(a)
        if src.chance(4, 5):
            i, j = src.int(0, n), src.int(0, n)
            return [a, i, j, src.int(0, n - max(i, j))]
        return [a, off(src, n), off(src, n), off(src, n)]
    return g


def pair(arrgen):
    def g(src):
        a = None if src.chance(1, 12) else arrgen(src)
        k = src.below(4)
        if k == 0:
            b = list(a) if a is not None else None
        elif k == 1 and a:
            b = list(a)
            i = src.below(len(b))
            b[i] = (arrgen(src) or b)[0]
        else:
            b = None if src.chance(1, 12) else arrgen(src)
        return [a, b]
    return g


def nul(g, n=14):
    return lambda src: [None if src.chance(1, n) else g(src)]


# ---------------------------------------------------------------- references
def span(n, o, l, copy=True):
    """The range [o, e) that offset and length denote."""
    if o < 0:
        raise Die("*")
    if l < 0:
        if o > n:
            raise Die("*") if copy else UB()
        l = n - o
    if o + l > n:
        raise Die("*")
    return o, o + l


def f_copy(a, o=0, l=-1):
    need(a)
    b, e = span(len(a), o, l)
    return a[b:e]


def f_mem(d, i, s, j, l):
    need(d, s)
    if l < 0 or i < 0 or j < 0 or i + l > len(d) or j + l > len(s):
        raise Die("*")
    return d[:i] + s[j:j + l] + d[i + l:]


def f_set(a, v, o=0, l=-1):
    need(a)
    b, e = span(len(a), o, l, False)
    return a[:b] + [v] * (e - b) + a[e:]


def f_eq(a, b):
    if a is None or b is None:
        return int(a is b)
    return int(len(a) == len(b) and all(x == y for x, y in zip(a, b)))


def f_shuffle(a, seed):
    need(a)
    a = list(a)
    for i in range(len(a) - 1, 0, -1):
        r, seed = crand(seed)
        j = r % (i + 1)
        a[i], a[j] = a[j], a[i]
    return a


def f_sort(a, cmp, o=0, l=-1):
    need(a)
    if o < 0:
        raise Die("*")
    if o > len(a) or (l >= 0 and o + l > len(a)):
        raise Die("*")
    e = len(a) if l < 0 else o + l
    return a[:o] + sorted(a[o:e], key=functools.cmp_to_key(cmp)) + a[e:]


def c3(x, y):
    return (x > y) - (x < y)


def tdiv(x, k):
    return -(-x // k) if x < 0 else x // k


def fdiv(t, x):
    """The grouping key of the partial order for floats: the sign."""
    return (x > 0) - (x < 0)


UNSIGNED = {"byte": 0xff, "short": 0xffff, "int": 0xffffffff, "long": 0xffffffffffffffff}


def f_dump(t, a):
    if a is None:
        return b"undef"
    return b"[\n" + b"".join(b"  %d%s\n" % (x & UNSIGNED[t], b"," if i + 1 < len(a) else b"") for i, x in enumerate(a)) + b"] : " + t.encode() + b"[]"


def ops():
    O = []

    def add(params, ret, body, ref, tag, gen):
        O.append(Op(params, ret, body, ref, tag, gen))

    for t in SIZES:
        A = t + "[]"
        X = xs(t)
        p = "int" if t in ("byte", "short") else t
        R = lambda r, t=t: arr(t, r)
        add([A, "int", "int"], A, "return Array->copy_%s($a, $b, $c);" % t, (lambda *v, R=R: R(f_copy(*v))), "copy_num", rng(X))
        add([A], A, "my $r = Array->copy_%s($a); if ($r == $a) { die \"same\"; } return $r;" % t, (lambda a, R=R: R(f_copy(a))), "copy_num", nul(X))
        add([A, "int"], A, "return Array->copy_%s($a, $b);" % t, (lambda a, o, R=R: R(f_copy(a, o))), "copy_num", lambda s, X=X: rng(X)(s)[:2])
        add([A, "int", "int"], A, "my $r = Array->copy_any_numeric($a, $b, $c); return (%s)$r;" % A, (lambda *v, R=R: R(f_copy(*v))), "copy_any", rng(X))
        add([A, "int", A, "int", "int"], A, "Array->memcpy_%s($a, $b, $c, $d, $e); return $a;" % t, (lambda *v, R=R: R(f_mem(*v))), "memcpy_num", two(X))
        add([A, "int", A, "int", "int"], A, "Array->memmove_%s($a, $b, $c, $d, $e); return $a;" % t, (lambda *v, R=R: R(f_mem(*v))), "memmove_num", two(X))
        add([A, "int", "int", "int"], A, "Array->memmove_%s($a, $b, $a, $c, $d); return $a;" % t, (lambda a, i, j, l, R=R: R(f_mem(a, i, a, j, l))), "memmove_overlap", one(X))
        gs = lambda s, X=X, t=t: (lambda v: [v[0], num(s, t), v[1], v[2]])(rng(X)(s))
        add([A, t, "int", "int"], A, "Array->memset_%s($a, $b, $c, $d); return $a;" % t, (lambda a, v, o, l, R=R: R(f_set(a, v, o, l))), "memset_num", gs)
        add([A, t], A, "Array->memset_%s($a, $b); return $a;" % t, (lambda a, v, R=R: R(f_set(a, v))), "memset_num", lambda s, gs=gs: gs(s)[:2])
        add([A, A], A, "return Array->merge_%s($a, $b);" % t, (lambda a, b, R=R: (need(a, b), R(a + b))[1]), "merge_num", pair(X))
        add([A, A], "int", "return Array->equals_%s($a, $b);" % t, f_eq, "equals_num", pair(X))
        IX = (lambda s, X=X: [abs(v) if v == 0 else v for v in X(s)])  # equals compares the bytes of floats
        add([A, A], "int", "return Array->equals($a, $b);", f_eq, "equals_any", pair(IX))
        for u in SIZES:
            if u != t and SIZES[u] == SIZES[t]:
                add([A, u + "[]"], "int", "return Array->equals($a, $b, 0);", (lambda a, b: int(a is None and b is None)), "equals_types", lambda s, X=X, u=u: [nul(X)(s)[0], nul(xs(u))(s)[0]])
        add([A, "int"], A, "my $s = $b; Array->shuffle($a, \\$s); return $a;", (lambda a, s, R=R: R(f_shuffle(a, s))), "shuffle_num", lambda s, X=X: nul(X)(s) + [sem.draw_num(s, "int")])
        add([A, "int"], A, "my $s = $b; Array->shuffle_any_numeric($a, \\$s); return $a;", (lambda a, s, R=R: R(f_shuffle(a, s))), "shuffle_num", lambda s, X=X: nul(X)(s) + [sem.draw_num(s, "int")])
        add([A, "int"], A, "return (%s)Array->repeat($a, $b);" % A, (lambda a, n, R=R: (need(a), R(a * n if n >= 0 else need(None)))[1]), "repeat_num", lambda s, X=X: nul(X)(s) + [s.int(-1, 5)])
        add([A, "int"], A, "my $r = Array->new_proto_any($a, $b); return (%s)$r;" % A, (lambda a, n, R=R: (need(a), R([0] * n if n >= 0 else need(None)))[1]), "new_proto", lambda s, X=X: nul(X)(s) + [s.int(-2, 9)])
        B = BOX[t]
        add([A], A, "my $o = Array->to_object_array_%s($a); for (my $i = 0; $i < @$o; $i++) { unless ($o->[$i]->value == $a->[$i]) { die \"element\"; } } unless (type_name $o eq \"%s[]\") { die \"type\"; } return Array->to_array_%s($o);" % (t, B, t), (lambda a, R=R: R(f_copy(a))), "object_array", nul(X))
        add([A, "int"], A, "my $o = new %s[@$a]; for (my $i = 0; $i < @$a; $i++) { unless ($i == $b) { $o->[$i] = %s->new($a->[$i]); } } return Array->to_array_%s($o);" % (B, B, t), (lambda a, k, R=R: R(a if not 0 <= k < len(a) else need(None))), "to_array", lambda s, X=X: [X(s), s.int(-1, 12)])
        if t in INTT:
            add([A], "string", "my $s = Array->dump_unsigned_%s($a); if ($a) { return Fn->substr($s, 0, Fn->rindex($s, \"(\")); } return $s;" % t, (lambda a, t=t: f_dump(t, a)), "dump_unsigned", nul(X)) 
        # sorting
        G = rng(X)
        add([A, "int", "int"], A, "Sort->sort_%s_asc($a, $b, $c); return $a;" % t, (lambda a, o, l, R=R: R(f_sort(a, c3, o, l))), "sort_asc", G)
        add([A, "int", "int"], A, "Sort->sort_%s_desc($a, $b, $c); return $a;" % t, (lambda a, o, l, R=R: R(f_sort(a, lambda x, y: c3(y, x), o, l))), "sort_desc", G)
        add([A], A, "Sort->sort_%s_asc($a); return $a;" % t, (lambda a, R=R: R(f_sort(a, c3))), "sort_asc", nul(X))
        add([A, "int"], A, "Sort->sort_%s_desc($a, $b); return $a;" % t, (lambda a, o, R=R: R(f_sort(a, lambda x, y: c3(y, x), o))), "sort_desc", lambda s, G=G: G(s)[:2])
        M = "method : int ($x : %s, $y : %s)" % (p, p)
        if t in INTT:
            add([A, "int", "int"], A, "Sort->sort_%s($a, %s { return $x / 5 <=> $y / 5; }, $b, $c); return $a;" % (t, M), (lambda a, o, l, R=R: R(f_sort(a, lambda x, y: c3(tdiv(x, 5), tdiv(y, 5)), o, l))), "sort_stable", G)
            add([A], A, "Sort->sort_%s($a, %s { return (int)($x %% 3 - $y %% 3); }); return $a;" % (t, M), (lambda a, R=R: R(f_sort(a, lambda x, y: x % 3 - y % 3))), "sort_stable", nul(X))
        else:
            add([A, "int", "int"], A, "Sort->sort_%s($a, %s { my $i = 0; my $j = 0; if ($x > 0) { $i = 1; } if ($x < 0) { $i = -1; } if ($y > 0) { $j = 1; } if ($y < 0) { $j = -1; } return $i <=> $j; }, $b, $c); return $a;" % (t, M), (lambda a, o, l, R=R: R(f_sort(a, lambda x, y: fdiv("", x) - fdiv("", y), o, l))), "sort_stable", G)
            NX = lambda s, X=X: [float("nan") if s.chance(1, 5) else v for v in X(s)]
            add([A], A, "Sort->sort_%s_asc($a); return $a;" % t, (lambda a, t=t: Perm(t, a)), "sort_nan", lambda s, NX=NX: [NX(s)])
        add([A], A, "Sort->sort_%s($a, %s { return 0; }); return $a;" % (t, M), (lambda a, R=R: R(f_copy(a))), "sort_stable", nul(X))
        add([A, "int", "int"], A, "Sort->sort_%s($a, %s { return 1; }, $b, $c); return $a;" % (t, M), (lambda a, o, l, t=t: (need(a), Perm(t, a, *span(len(a), o, l)))[1]), "sort_wild", G)
        add([A, "int"], A, "my $n = [$b]; eval { Sort->sort_%s($a, [has n : int[] = $n] %s { if ($self->{n}[0]-- <= 0) { die \"stop\"; } return $x <=> $y; }); }; return $a;" % (t, M), (lambda a, n, t=t: Perm(t, a)), "sort_throw", lambda s, X=X: [X(s), s.below(20)])
        add([A, "int"], A, "Sort->sort_%s($a, undef); return $a;" % t, (lambda a, n: need(None)), "sort_undef", lambda s, X=X: [X(s), 0])

    # strings and objects
    S = "string[]"
    P = "object[]"
    add([S, "int", "int"], S, "my $r = Array->copy_string($a, $b, $c); for (my $i = 0; $i < @$r; $i++) { if ($r->[$i]) { if ($r->[$i] == $a->[$b + $i]) { die \"same\"; } } } return $r;", (lambda *v: strs(f_copy(*v))), "copy_string", rng(ss))
    add([S, "int", "int"], S, "my $r = Array->copy_string_address($a, $b, $c); for (my $i = 0; $i < @$r; $i++) { unless ($r->[$i] == $a->[$b + $i]) { die \"other\"; } } return $r;", (lambda *v: strs(f_copy(*v))), "copy_string", rng(ss))
    add([S, "int", "int"], S, "my $r = Array->copy_object_address($a, $b, $c); return (string[])$r;", (lambda *v: strs(f_copy(*v))), "copy_object", rng(ss))
    add([S, "int", "int"], S, "my $r = Array->copy_object($a, method : object ($o : object) { if ($o) { return (string)$o . \"!\"; } return undef; }, $b, $c); return (string[])$r;", (lambda *v: strs([x + b"!" if x is not None else None for x in f_copy(*v)])), "copy_object", rng(ss))
    add([S, "int", "int"], S, "my $r = Array->copy_object_with_proto($a, new object[0], method : object ($o : object) { if ($o) { return (string)$o . \"!\"; } return undef; }, $b, $c); unless (type_name $r eq \"object[]\") { die \"type\"; } my $z = new string[@$r]; for (my $i = 0; $i < @$r; $i++) { $z->[$i] = (string)$r->[$i]; } return $z;", (lambda *v: strs([x + b"!" if x is not None else None for x in f_copy(*v)])), "copy_proto", rng(ss))
    add([S, "int", "int"], S, "my $r = Array->copy_object_address_with_proto($a, undef, $b, $c); return (string[])$r;", (lambda *v: strs(f_copy(*v))), "copy_proto", rng(ss))
    add([S, "int", "int"], "int", "my $r = Array->copy_object_address_with_proto($a, new Int[0], $b, $c); return @$r;", (lambda *v: (lambda r: len(r) if all(x is None for x in r) else need(None))(f_copy(*v))), "copy_proto", rng(ss))
    for k, tag in (("string_address", "mem_string"), ("object_address", "mem_object")):
        add([S, "int", S, "int", "int"], S, "Array->memcpy_%s($a, $b, $c, $d, $e); return $a;" % k, (lambda *v: strs(f_mem(*v))), tag, two(ss))
        add([S, "int", S, "int", "int"], S, "Array->memmove_%s($a, $b, $c, $d, $e); return $a;" % k, (lambda *v: strs(f_mem(*v))), tag, two(ss))
        add([S, "int", "int", "int"], S, "Array->memmove_%s($a, $b, $a, $c, $d); return $a;" % k, (lambda a, i, j, l: strs(f_mem(a, i, a, j, l))), tag, one(ss))
    gss = lambda s: (lambda v: [v[0], opt(text, 8)(s), v[1], v[2]])(rng(ss)(s))
    add([S, "string", "int", "int"], S, "Array->memset_string($a, $b, $c, $d); return $a;", (lambda a, v, o, l: strs(f_set(a, v, o, l))), "memset_obj", gss)
    add([S, "string", "int", "int"], S, "Array->memset_object($a, $b, $c, $d); return $a;", (lambda a, v, o, l: strs(f_set(a, v, o, l))), "memset_obj", gss)
    add([S, S], S, "return Array->merge_string($a, $b);", (lambda a, b: (need(a, b), strs(a + b))[1]), "merge_obj", pair(ss))
    add([S, S], S, "my $r = Array->merge_object($a, $b); my $z = new string[@$r]; for (my $i = 0; $i < @$r; $i++) { $z->[$i] = (string)$r->[$i]; } return $z;", (lambda a, b: (need(a, b), strs(a + b))[1]), "merge_obj", pair(ss))
    add([S, S], "int", "return Array->equals_string($a, $b);", f_eq, "equals_obj", pair(ss))
    add([S, S], "int", "return Array->equals($a, $b);", f_eq, "equals_obj", pair(ss))
    add([S, S], "int", "return Array->equals_string_address($a, $b);", (lambda a, b: int(a is b is None or (a is not None and b is not None and len(a) == len(b) and all(x is None and y is None for x, y in zip(a, b))))), "equals_addr", pair(ss))
    add([S, S], "int", "return Array->equals($a, $b, 1);", (lambda a, b: int(a is b is None or (a is not None and b is not None and len(a) == len(b) and all(x is None and y is None for x, y in zip(a, b))))), "equals_addr", pair(ss))
    add([S], "int", "my $b = new string[@$a]; for (my $i = 0; $i < @$a; $i++) { $b->[$i] = $a->[$i]; } return Array->equals($a, $b, 1) + 2 * Array->equals_object_address($a, $b);", (lambda a: 3), "equals_addr", lambda s: [ss(s)])
    mk = "my $%s = (Point[])undef; if ($%s) { $%s = new Point[@$%s]; for (my $i = 0; $i < @$%s; $i++) { if ($%s->[$i] != 0) { $%s->[$i] = Point->new($%s->[$i], 1); } } }"
    small = lambda s: [s.int(-2, 2) for _ in range(s.below(6))]
    mk2 = mk % tuple("papaaapa") + " " + mk % tuple("qbqbbbqb")
    add(["int[]", "int[]"], "int", mk2 + " return Array->equals($p, $q);", f_eq, "equals_point", pair(small))
    add(["int[]", "int[]"], "int", mk2 + " return Array->equals_object($p, $q, EqualityChecker->default_equality_checker);", f_eq, "equals_point", pair(small))
    add(["int[]", "int[]"], "int", mk2 + " return Array->equals_object($p, $q, method : int ($x : object, $y : object) { if ($x && $y) { return ((Point)$x)->x / 2 == ((Point)$y)->x / 2; } return $x == $y; });", (lambda a, b: f_eq(a and [(x != 0, tdiv(x, 2)) for x in a], b and [(x != 0, tdiv(x, 2)) for x in b]) if a and b else f_eq(a, b)), "equals_checker", pair(small))
    add([S, "int"], S, "return (string[])Array->repeat($a, $b);", (lambda a, n: (need(a), strs(a * n if n >= 0 else need(None)))[1]), "repeat_obj", lambda s: nul(ss)(s) + [s.int(-1, 5)])
    add([S, "int"], S, "return Array->repeat_string($a, $b);", (lambda a, n: (need(a), strs(a * n if n >= 0 else need(None)))[1]), "repeat_obj", lambda s: nul(ss)(s) + [s.int(-1, 5)])
    add([S, "int"], S, "my $s = $b; Array->shuffle($a, \\$s); return $a;", (lambda a, s: strs(f_shuffle(a, s))), "shuffle_obj", lambda s: nul(ss)(s) + [sem.draw_num(s, "int")])
    add([S, "int"], S, "my $s = $b; Array->shuffle_object($a, \\$s); return $a;", (lambda a, s: strs(f_shuffle(a, s))), "shuffle_obj", lambda s: nul(ss)(s) + [sem.draw_num(s, "int")])
    add([S, "int"], S, "return (string[])Array->new_proto($a, $b);", (lambda a, n: (need(a), strs([None] * n if n >= 0 else need(None)))[1]), "new_proto", lambda s: nul(ss)(s) + [s.int(-2, 9)])
    add(["string", "int"], S, "return (string[])Array->new_array_proto_element($a, $b);", (lambda a, n: (need(a), strs([None] * n if n >= 0 else need(None)))[1]), "new_proto", lambda s: [opt(text, 6)(s), s.int(-2, 9)])
    for e, t in (("new int[1]", "int[][]"), ("new string[1]", "string[][]"), ("Int->new(1)", "Int[]"), ("new Int[][1]", "Int[][][]"), ("Point->new", "Point[]"), ("new Complex_2d[1]", "Complex_2d[][]")):
        add(["int"], "string", "my $r = Array->new_array_proto_element(%s, $a); unless (@$r == $a) { die \"length\"; } return type_name $r;" % e, (lambda n, t=t: t.encode() if n >= 0 else need(None)), "new_proto", lambda s: [s.int(-2, 9)])
        add(["int"], "string", "my $r = Array->new_proto(new %s[2], $a); unless (@$r == $a) { die \"length\"; } return type_name $r;" % t[:-2], (lambda n, t=t: t.encode() if n >= 0 else need(None)), "new_proto", lambda s: [s.int(-2, 9)])
    # multi-numeric arrays
    mm = "my $m = new Complex_2d[@$a]; for (my $i = 0; $i < @$a; $i++) { $m->[$i]{re} = $a->[$i]; $m->[$i]{im} = $i; } "
    out = " my $z = new double[2 * Fn->array_length($r)]; for (my $i = 0; $i < Fn->array_length($r); $i++) { $z->[2 * $i] = $r->(Complex_2d[])->[$i]{re}; $z->[2 * $i + 1] = $r->(Complex_2d[])->[$i]{im}; } return $z;"
    D = xs("double")
    flat = lambda p: arr("double", [v for q in p for v in q])
    pr = lambda a: [(x, float(i)) for i, x in enumerate(a)]
    add(["double[]", "int", "int"], "double[]", mm + "my $r = Array->copy_any_numeric($m, $b, $c);" + out, (lambda a, o, l: flat(f_copy(pr(a), o, l))), "mulnum", rng(D, False))
    add(["double[]", "int"], "double[]", mm + "my $s = $b; Array->shuffle($m, \\$s); my $r = (object)$m;" + out, (lambda a, s: flat(f_shuffle(pr(a), s))), "mulnum", lambda s: [D(s), sem.draw_num(s, "int")])
    add(["double[]", "int"], "double[]", mm + "my $r = Array->repeat($m, $b);" + out, (lambda a, n: flat(pr(a) * n)), "mulnum", lambda s: [D(s), s.below(4)])
    D0 = lambda s: [float(s.int(-9, 9)) for _ in range(s.below(6))]
    add(["double[]", "double[]"], "int", mm + mm.replace("$m ", "$n ").replace("$m->", "$n->").replace("$a", "$b") + "return Array->equals($m, $n);", f_eq, "mulnum", lambda s: (lambda v: [v[0] or [], v[1] or []])(pair(D0)(s)))
    # not arrays
    for f in ("Array->repeat($a, 2)", "Array->copy_any_numeric($a)"):
        add(["string"], "int", "%s; return 0;" % f, (lambda a: need(None)), "not_array", lambda s: [opt(text, 4)(s)])
    add(["string"], "int", "my $s = 1; Array->shuffle($a, \\$s); return 0;", (lambda a: need(None)), "not_array", lambda s: [opt(text, 4)(s)])
    add(["string", "string"], "int", "return Array->equals($a, $b);", (lambda a, b: int(a is b is None) if a is None or b is None else need(None)), "not_array", lambda s: [opt(text, 4)(s), opt(text, 4)(s)])
    # sorting strings and objects
    add([S, "int", "int"], S, "Sort->sort_string_asc($a, $b, $c); return $a;", (lambda a, o, l: strs(f_sort(a, c3, o, l))), "sort_string", rng(sdef))
    add([S, "int", "int"], S, "Sort->sort_string_desc($a, $b, $c); return $a;", (lambda a, o, l: strs(f_sort(a, lambda x, y: c3(y, x), o, l))), "sort_string", rng(sdef))
    add([S, "int", "int"], S, "Sort->sort_string($a, method : int ($x : string, $y : string) { return length $x <=> length $y; }, $b, $c); return $a;", (lambda a, o, l: strs(f_sort(a, lambda x, y: c3(len(x), len(y)), o, l))), "sort_string", rng(sdef))
    key = "method : int ($x : object, $y : object) { my $i = -1; my $j = -1; if ($x) { $i = length (string)$x; } if ($y) { $j = length (string)$y; } return $i <=> $j; }"
    ln = lambda x: -1 if x is None else len(x)
    add([S, "int", "int"], S, "Sort->sort_object($a, %s, $b, $c); return $a;" % key, (lambda a, o, l: strs(f_sort(a, lambda x, y: c3(ln(x), ln(y)), o, l))), "sort_object", rng(ss))
    add([S, "int", "int"], S, "Sort->sort_object($a, method : int ($x : object, $y : object) { return 1; }, $b, $c); return $a;", (lambda a, o, l: (need(a), Perm("string", a, *span(len(a), o, l)))[1]), "sort_wild", rng(ss))
    add([S, "int"], S, "my $n = [$b]; eval { Sort->sort_object($a, [has n : int[] = $n] method : int ($x : object, $y : object) { if ($self->{n}[0]-- <= 0) { die \"stop\"; } return Fn->to_int_with_base(\"1\", 10); }); }; $@ = undef; return $a;", (lambda a, n: Perm("string", a)), "sort_throw", lambda s: [ss(s), s.below(20)])

    def f_opts(a):
        need(a)
        if len(a) % 2:
            raise Die("*")
        ks = [(a[i], a[i + 1]) for i in range(0, len(a), 2)]
        if any(k is None for k, v in ks):
            raise Die("*")
        return strs([x for q in sorted(ks, key=lambda q: q[0]) for x in q])

    def g_opts(s):
        if s.chance(1, 15):
            return [None]
        r = []
        for _ in range(s.below(9)):
            r += [None if s.chance(1, 60) else bytes(s.choice(b"abc") for _ in range(s.below(4))), opt(text, 6)(s)]
        return [r[:-1] if s.chance(1, 12) else r]
    add([S], S, "Sort->sort_options_asc($a); return $a;", f_opts, "sort_options", g_opts)
    return O


OPS = ops()
USES = ["VT", "Fn", "Array", "Sort", "Point", "Complex_2d", "EqualityChecker", "Int", "Byte", "Short", "Long", "Float", "Double", "Cloner"]


def suite(name, variant, pre, quick, thorough, variants=("plain",)):
    return Suite(name, matrix.matrix_case(OPS, "p20" + variant + str(pre), 60, variant, pre, uses=USES), quick, thorough, variants=variants, chunk=50)


SUITES = [
    suite("functions", "plain", False, 1800, 50000),
    suite("functions, precompiled", "plain", True, 1200, 30000),
    suite("functions, asan", "asan", False, 120, 3000, ("asan",)),
]

META = dict(
    statement="For all argument values, every function of Array copies, moves, sets, merges, compares, repeats, shuffles and converts exactly the elements its documentation names and throws exactly where it says, and every function of Sort orders exactly the given range stably by the comparator; with any comparator, even an inconsistent or a throwing one, the array stays a permutation of itself.",
    over=["inputs"], quant="all arrays of all element types, all offsets and lengths including negative, huge and overlapping ranges, and all comparators",
    why="unit tests use one or two fixed arrays per function; ranges at the limits, overlap, type pairs, duplicates (stability) and comparators that throw in the middle of a merge are not sampled",
    files=["lib/SPVM/Array.spvm", "lib/SPVM/Array.c", "lib/SPVM/Sort.spvm", "lib/SPVM/EqualityChecker.spvm"],
    mech=[("range checks before moving elements", "lib/SPVM/Array.c"), ("merge step of the merge sort", "lib/SPVM/Sort.spvm")],
    observe=["results and exceptions of the functions of Array and Sort"],
    technique="property-based testing against a reference implementation",
    note="About 300 function x argument forms against Python references; interpreted, precompiled and with address sanitizer.")
