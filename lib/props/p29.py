"""P29: programs of any size.  One dimension of a program (lengths of names, numbers of declarations, depths of nesting, lines ...) is made large; the result follows from a formula."""
from vt import pbt, drv as drvmod
from vt.pbt import Suite

TITLE = "Programs of any size compile and run alike; documented limits are enforced"
RULE = ("One case is a program in which one or two dimensions (length of names, number of methods, fields, class variables, constants, string literals, cases, classes, arguments, dimensions, locals, lines, enumeration items, anonymous "
        "methods, elements; depth of expressions, blocks, evals, inheritance) have a size chosen log-uniformly up to a cap, compiled and run once; results, messages, traces and memory blocks follow from formulas. "
        "Non-trivial: a size of at least 60.")


def size(src, cap):
    """log-uniform, with the places where 8-bit and 16-bit counters and buffers end"""
    hi = 1
    while hi * 2 < cap and src.chance(5, 6):
        hi *= 2
    n = src.int(max(1, hi // 2), min(hi, cap))
    if src.chance(1, 4):
        n = min(cap, src.choice([15, 16, 31, 32, 63, 64, 127, 128, 200, 239, 240, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025]))
    return n


def word(n, ch="abcdefghij"):
    """a name of n characters"""
    return "".join(ch[(k * 7 + n) % len(ch)] for k in range(n))


def wrap(v):
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v


# every function: -> (classes [(name, text)], expected ret, expected message or None, size[, precompilable])
def names_len(src):
    n = size(src, 3000)
    m, f, v, a, cv, al = "m" + word(n), "f" + word(size(src, 2000)), "v" + word(size(src, 2000)), "a" + word(size(src, 2000)), "C" + word(size(src, 2000)), "k" + word(size(src, 500))
    t = "class T : public {\n  use VT;\n  use D;\n  our $%s : int;\n  has %s : public int;\n  static method %s : int ($%s : int) {\n    my $%s = new T;\n    $%s->{%s} = $%s;\n    $%s = $%s->{%s} + 1;\n    return $%s * 2;\n  }\n" % (
        cv, f, m, a, v, v, f, a, cv, v, f, cv)
    t += "  method i%s : int ($%s : int, $o%s : int = 3) { return $%s + $o%s; }\n" % (m, a, a, a, a)
    t += "  static method f : int ($x : int) {\n    my $o = new T;\n    my $r = &%s($x) + $o->i%s($x) + T->%s(1);\n    my $q = $o->i%s(1, 2);\n    return $r + $q + D->e%s($x);\n  }\n}\n" % (m, m, m, m, al)
    t2 = "class D : public {\n  enum { z%s = 7 }\n  static method e%s : int ($x : int) { return $x + D->z%s; }\n}\n" % (al, al, al)
    return [("T", t), ("D", t2)], lambda x: (x + 1) * 2 + x + 3 + 4 + 3 + x + 7, None, n


def class_len(src):
    parts = ["C" + word(min(size(src, 120), 200)) for _ in range(src.int(1, 6))]
    c = "::".join(parts)
    m, f = "m" + word(size(src, 400)), "f" + word(size(src, 400))
    t = "class T : public {\n  use VT;\n  use %s;\n  static method f : int ($x : int) {\n    my $o = %s->new;\n    my $s = 0;\n    eval { my $q = $o->%s($x, 1); $s = $q; };\n    if ($@) { VT->o($@); }\n    my $p = (object)$o;\n    if ($p isa %s) { $s += 1; }\n    VT->o(type_name $p);\n    VT->o(type_name new %s[][3]);\n    eval { my $w = (string)$p; };\n    VT->o($@);\n    return $s;\n  }\n}\n" % (c, c, m, c, c)
    t2 = "class %s : public {\n  has %s : int;\n  static method new : %s () { return new %s; }\n  method %s : int ($x : int, $y : int) {\n    if ($x < 0) {\n      die \"negative\";\n    }\n    $self->{%s} = $x;\n    return $self->{%s} * 2;\n  }\n}\n" % (c, f, c, c, m, f, f)
    t3 = []

    def tr(x):
        msg = "negative\n  %s->%s at %s.spvm line 6\n  T->f at T.spvm line 7" % (c, m, c.replace("::", "/"))
        out = [] if x >= 0 else [msg.encode()]
        return out + [c.encode(), (c + "[][]").encode()]
    return [("T", t), (c, t2)], lambda x: 2 * x + 1 if x >= 0 else 1, None, len(c), tr


def arg_names(src):
    """A call without its optional argument, a call with a wrong argument: the messages have the names."""
    c, m = "C" + word(size(src, 200)), "m" + word(size(src, 800))
    inst = src.chance(1, 2)
    kind = src.below(3)
    bad = ["", "undef", "1, 2, 3"][kind] if not src.chance(1, 3) else "1"
    t2 = "class %s : public {\n  %smethod %s : int ($x : int, $y : int = 4) { return $x + $y; }\n  static method new : %s () { return new %s; }\n}\n" % (c, "" if inst else "static ", m, c, c)
    t = "class T : public {\n  use %s;\n  static method f : int ($x : int) {\n    my $o = %s->new;\n    return %s->%s(%s);\n  }\n}\n" % (c, c, "$o" if inst else c, m, bad)
    return [("T", t), (c, t2)], (lambda x: 5) if bad == "1" else None, (None if bad == "1" else m), len(m)


def methods(src):
    n = size(src, 3000)
    t = "class T : public {\n" + "".join("  static method m%d : int ($x : int) { return $x + %d; }\n" % (k, k) for k in range(n))
    calls = [src.below(n) for _ in range(20)] + [0, n - 1]
    t += "  static method f : int ($x : int) {\n    return %s;\n  }\n}\n" % " + ".join("&m%d($x)" % k for k in calls)
    return [("T", t)], lambda x: sum(x + k for k in calls), None, n


def locals_(src):
    n = size(src, 4000)
    ty = src.choice(["int", "long", "string", "Int"])
    L = ["class T : public {", "  static method f : int ($x : int) {", "    my $s = 0;"]
    for k in range(n):
        L.append({"int": "    my $v%d = $x + %d;" % (k, k), "long": "    my $v%d = (long)$x + %dL;" % (k, k), "string": "    my $v%d = \"%d\" . $x;" % (k, k), "Int": "    my $v%d : Int = $x + %d;" % (k, k)}[ty])
    pick = [src.below(n) for _ in range(10)] + [0, n - 1]
    for k in pick:
        L.append({"int": "    $s += $v%d;" % k, "long": "    $s += (int)$v%d;" % k, "string": "    $s += length $v%d;" % k, "Int": "    $s += (int)$v%d;" % k}[ty])
    L += ["    return $s;", "  }", "}"]
    if ty == "string":
        return [("T", "\n".join(L) + "\n")], lambda x: sum(len("%d%d" % (k, x)) for k in pick), None, n
    return [("T", "\n".join(L) + "\n")], lambda x: sum(x + k for k in pick), None, n


def strings(src):
    n = size(src, 3000)
    ln = size(src, 20000) if n < 50 else size(src, 30)
    mk = lambda k: "%d:%s" % (k, word(ln))
    calls = [src.below(n) for _ in range(10)] + [0, n - 1]
    t = "class T : public {\n  static method s : string ($k : int) {\n    switch ($k) {\n" + "".join("      case %d : { return \"%s\"; }\n" % (k, mk(k)) for k in range(n)) + "    }\n    return undef;\n  }\n"
    t += "  static method f : int ($x : int) {\n    my $r = 0;\n" + "".join("    if (&s(%d) eq \"%s\") { $r += length &s(%d); }\n" % (k, mk(k), k) for k in calls) + "    return $r + $x;\n  }\n}\n"
    return [("T", t)], lambda x: sum(len(mk(k)) for k in calls) + x, None, max(n, ln)


def fields(src):
    n = size(src, 2500)
    ty = [src.choice(["int", "long", "byte", "string", "short", "double", "Int"]) for _ in range(7)]
    t = "class T : public {\n" + "".join("  has f%d : %s;\n" % (k, ty[k % 7]) for k in range(n))
    t += "".join("  our $V%d : int;\n" % k for k in range(n // 2))
    pick = sorted(set([src.below(n) for _ in range(12)] + [0, n - 1, n // 2]))
    setv = lambda k: {"string": "\"%d\" . $x" % (k % 50), "byte": "(byte)%d" % (k % 50), "short": "(short)%d" % (k % 50), "Int": "%d" % (k % 50), "double": "%d.0" % (k % 50)}.get(ty[k % 7], "%d" % (k % 50))
    L = ["    $o->{f%d} = %s;" % (k, setv(k)) for k in pick]
    g = ["    $s += %s;" % {"string": "length $o->{f%d}", "long": "(int)$o->{f%d}", "double": "(int)$o->{f%d}", "Int": "(int)$o->{f%d}"}.get(ty[k % 7], "$o->{f%d}") % k for k in pick]
    w = ["    $V%d = %d;\n    $s += $V%d;" % (k, k, k) for k in set([0, n // 2 - 1]) if 0 <= k < n // 2]
    t += "  static method f : int ($x : int) {\n    my $o = new T;\n    my $s = 0;\n" + "\n".join(L + g + w) + "\n    return $s;\n  }\n}\n"
    val = lambda k, x: len("%d%d" % (k % 50, x)) if ty[k % 7] == "string" else k % 50
    return [("T", t)], lambda x: sum(val(k, x) for k in pick) + sum(k for k in set([0, n // 2 - 1]) if 0 <= k < n // 2), None, n


def switch_(src):
    n = size(src, 3000)
    base = src.choice([0, -n // 2, 1000000, -2147483648, 2147483647 - 7 * n])
    step = src.int(1, 6)
    cases = [base + k * step for k in range(n)]
    lit = lambda v: str(v)
    order = list(cases)
    src.shuffle(order) if n < 400 else None
    t = "class T : public {\n  static method s : int ($k : int) {\n    switch ($k) {\n" + "".join("      case %s : { return %d; }\n" % (lit(v), (v * 3) % 1000) for v in order) + "      default : { return -1; }\n    }\n    return -2;\n  }\n"
    pick = [src.choice(cases) for _ in range(6)] + [cases[0], cases[-1]] + [v for v in (cases[0] - 1, cases[-1] + 1, cases[0] + 1) if -2**31 <= v < 2**31]
    t += "  static method f : int ($x : int) {\n    return %s;\n  }\n}\n" % " + ".join("&s(%s)" % lit(v) for v in pick)
    cs = set(cases)
    return [("T", t)], lambda x: sum((v * 3) % 1000 if v in cs else -1 for v in pick), None, n


def chain(src):
    n = size(src, 2500)
    op = src.below(4)
    if op == 0:
        e, f = " + ".join(["$x"] * n), lambda x: x * n
    elif op == 1:
        e, f = "length (%s)" % " . ".join(["\"ab\""] + ["$s"] * n), lambda x: 2 + n * len(str(x))
    elif op == 2:
        e, f = "(%s) ? 1 : 0" % " && ".join(["$x > 0"] * n), None
        e, f = "&b(%s)" % " && ".join(["$x > -100"] * n), lambda x: 1
        n = n
    else:
        e, f = "$x - " + " - ".join("%d" % (k % 10) for k in range(n)), lambda x: x - sum(k % 10 for k in range(n))
    t = "class T : public {\n  static method b : int ($v : int) { if ($v) { return 1; } return 0; }\n  static method f : int ($x : int) {\n    my $s = \"\" . $x;\n    return %s;\n  }\n}\n" % e
    return [("T", t)], f, None, n


def depth(src):
    n = size(src, 400)
    op = src.below(5)
    if op == 0:
        e = "(" * n + "$x" + " + 1)" * n
        body, f = "return %s;" % e, lambda x: x + n
    elif op == 1:
        n = min(n, 250)
        body = "".join("if ($x > %d) { " % -k for k in range(n)) + "return 1;" + " }" * n + " return 0;"
        f = lambda x: int(all(x > -k for k in range(n)))
    elif op == 2:
        n = min(n, 250)
        body = "my $r = 0; " + "".join("eval { $r++; " for k in range(n)) + "die \"x\";" + " };" + " if ($@) { $r++; } die \"y\"; };" * (n - 1) + " if ($@) { $r += 1000; } return $r;"
        f = lambda x: n + (n - 1) + 1000
    elif op == 3:
        e = "$x"
        for k in range(n):
            e = "&id(%s)" % e
        body, f = "return %s;" % e, lambda x: x + n
    else:
        n = min(n, 200)
        body = "my $r = 0; " + "".join("{ my $o%d = new T; my $v%d = $x + %d; " % (k, k, k) for k in range(n)) + "$r = " + " + ".join("$v%d" % k for k in range(0, n, 3)) + ";" + " }" * n + " return $r;"
        f = lambda x: sum(x + k for k in range(0, n, 3))
    t = "class T : public {\n  static method id : int ($v : int) { return $v + 1; }\n  static method f : int ($x : int) {\n    %s\n  }\n}\n" % body
    return [("T", t)], f, None, n


def args(src):
    n = size(src, 300)
    kind = src.below(3)
    cls = []
    if kind < 2:
        ty = ["int", "object"][kind]
        w = n
        decl = ", ".join("$a%d : %s" % (k, ty) for k in range(n))
        act = ", ".join("$x + %d" % k if ty == "int" else "\"%d\"" % k for k in range(n))
        val = lambda k: "$a%d" % k if ty == "int" else "length (string)$a%d" % k
        res = (lambda x: sum(x + k for k in pick)) if ty == "int" else (lambda x: sum(len(str(k)) for k in pick))
        cnt = n
        pre = ""
    else:
        m = src.choice([2, 3, 17, 255])
        cnt = max(1, n // m + src.below(2))
        w = cnt * m
        cls = [("N_%di" % m, "class N_%di : mulnum_t {\n%s}\n" % (m, "".join("  has v%d : int;\n" % k for k in range(m))))]
        decl = ", ".join("$a%d : N_%di" % (k, m) for k in range(cnt))
        act = ", ".join("$q" for k in range(cnt))
        pre = "my $q : N_%di; $q->{v0} = $x; $q->{v%d} = 5; " % (m, m - 1)
        val = lambda k: "$a%d->{v%d}" % (k, m - 1)
        res = lambda x: sum(5 for k in pick)
        if m == 1:
            res = None
    inst = src.chance(1, 3)
    pick = [src.below(cnt) for _ in range(4)] + [0, cnt - 1]
    t = "class T : public {\n%s  %smethod g : int (%s) {\n    return %s;\n  }\n  static method f : int ($x : int) {\n    my $o = new T;\n    %sreturn %s(%s);\n  }\n}\n" % (
        "".join("  use %s;\n" % c for c, _ in cls), "" if inst else "static ", decl, " + ".join(val(k) for k in pick), pre, "$o->g" if inst else "&g", act)
    if w + int(inst) > 255:
        return [("T", t)] + cls, None, "width of the arguments|arguments", w
    return [("T", t)] + cls, res, None, w


def mulnum(src):
    n = src.choice([1, 2, 100, 254, 255, 256, 257, 300])
    ty, l = src.choice([("int", "i"), ("byte", "b"), ("double", "d")])
    t2 = "class N_%d%s : mulnum_t {\n%s}\n" % (n, l, "".join("  has v%d : %s;\n" % (k, ty) for k in range(n)))
    t = "class T : public {\n  use N_%d%s;\n  static method f : int ($x : int) {\n    my $a = new N_%d%s[10];\n    my $q = $a->[3];\n    $q->{v%d} = (%s)7;\n    $q->{v0} = (%s)9;\n    $a->[9] = $q;\n    return (int)$a->[9]{v%d} * 1000 + (int)$a->[8]{v0} + (int)$a->[9]{v0};\n  }\n}\n" % (n, l, n, l, n - 1, ty, ty, n - 1)
    if n > 255:
        return [("T", t), ("N_%d%s" % (n, l), t2)], None, "255", n
    return [("T", t), ("N_%d%s" % (n, l), t2)], lambda x: 7009 if n > 1 else 9009, None, n


def inherit(src):
    n = size(src, 120)
    cls = []
    for k in range(n):
        ext = " extends C%d" % (k - 1) if k else ""
        cls.append(("C%d" % k, "class C%d%s : public {\n%s  has f%d : protected int;\n%s  method m%d : int () { return %d; }\n}\n" % (
            k, ext, "  use C%d;\n" % (k - 1) if k else "", k, "  method v : int () { return %d; }\n" % k if k == 0 or src.chance(1, 4) else "", k, k)))
    vs = [k for k, (_, s) in enumerate(cls) if "method v :" in s]
    p = src.below(n)
    t = "class T : public {\n%s  static method f : int ($x : int) {\n    my $o = new C%d;\n    my $r = $o->v * 1000 + $o->m%d;\n    my $z : object = $o;\n    if ($z isa C%d) { $r += 1000000; }\n    my $b : C0 = $o;\n    if ($b->v != $o->v) { $r = -1; }\n    my $h = new C%d;\n    if ((object)$h isa C%d) { $r += 5000000; }\n    return $r;\n  }\n}\n" % (
        "".join("  use C%d;\n" % k for k in range(n)), n - 1, p, p, p, n - 1)
    return [("T", t)] + cls, lambda x: max(vs) * 1000 + p + 1000000 + (5000000 if p == n - 1 else 0), None, n


def elements(src):
    n = size(src, 3000)
    kind = src.below(3)
    if kind == 0:
        init, get = "[%s]" % ", ".join("%d" % (k % 100) for k in range(n)), lambda k: "$a->[%d]" % k
        val = lambda k: k % 100
    elif kind == 1:
        init, get = "[%s]" % ", ".join("\"%d\"" % k for k in range(n)), lambda k: "length $a->[%d]" % k
        val = lambda k: len(str(k))
    else:
        init, get = "{%s}" % ", ".join("k%d => %d" % (k, k % 100) for k in range(n)), lambda k: "(int)$a->[%d]" % (2 * k + 1)
        val = lambda k: k % 100
    pick = [src.below(n) for _ in range(5)] + [0, n - 1]
    t = "class T : public {\n  static method f : int ($x : int) {\n    my $a = %s;\n    return @$a + %s;\n  }\n}\n" % (init, " + ".join(get(k) for k in pick))
    return [("T", t)], lambda x: (2 * n if kind == 2 else n) + sum(val(k) for k in pick), None, n


def lines(src):
    n = size(src, 100000)
    t = "class T : public {\n  static method f : int ($x : int) {" + "\n" * n + "    if ($x == 1) { die \"here\"; }\n    return $x;\n  }\n}\n"
    return [("T", t)], lambda x: x if x != 1 else ("here\n  T->f at T.spvm line %d" % (n + 2)), None, n


def code(src):
    """A long method with jumps over it."""
    n = size(src, 3000)
    t = "class T : public {\n  static method f : int ($x : int) {\n    my $r = 0;\n    for (my $i = 0; $i < 3; $i++) {\n      if ($i == $x) { next; }\n" + "".join(
        "      $r += $i * %d + length \"%s\";\n" % (k % 7, "a" * (k % 5)) for k in range(n)) + "      if ($r < 0) { last; }\n    }\n    return $r;\n  }\n}\n"
    return [("T", t)], lambda x: sum(i * (k % 7) + k % 5 for i in range(3) if i != x for k in range(n)), None, n


def dims(src):
    """Types of many dimensions, and an array initialization that adds one."""
    n = src.choice([1, 2, 3, 50, 100, 200, 254, 255, 256, 257, 300, 511, 512, 513])
    ty = src.choice(["int", "string", "T"])
    add = src.chance(1, 2)
    up = "    $o = [$a];\n    $r += 100000;\n" if add else ""
    t = "class T : public {\n  static method f : int ($x : int) {\n    my $a : %s%s;\n    $a = new %s%s[4];\n    my $o : object = $a;\n    my $r = @$a * 1000;\n%s    my $n = type_name $o;\n    return $r + length $n;\n  }\n}\n" % (ty, "[]" * n, ty, "[]" * (n - 1), up)
    if n + int(add) > 255:
        return [("T", t)], None, "255", n
    return [("T", t)], lambda x: 4000 + len(ty) + 2 * (n + int(add)) + (100000 if add else 0), None, n


def anon(src):
    n = size(src, 300)
    t = "class F : interface_t {\n  required method : int ($x : int);\n}\n"
    u = "class T : public {\n  use F;\n  static method f : int ($x : int) {\n    my $fs = new F[%d];\n" % n + "".join(
        "    $fs->[%d] = method : int ($y : int) { return $y + %d; };\n" % (k, k) if k % 2 else "    $fs->[%d] = [$x : int] method : int ($y : int) { return $x * 2 + $y + %d; };\n" % (k, k) for k in range(n)) + \
        "    my $r = 0;\n    for (my $i = 0; $i < %d; $i++) { $r += $fs->[$i]->(1); }\n    return $r;\n  }\n}\n" % n
    return [("T", u), ("F", t)], lambda x: sum((1 + k) if k % 2 else (x * 2 + 1 + k) for k in range(n)), None, n


def enums(src):
    n = size(src, 2000)
    t = "class T : public {\n  enum {\n" + "".join("    E%d%s,\n" % (k, " = %d" % (k * 3) if k % 10 == 0 else "") for k in range(n)) + "  }\n"
    val = lambda k: (k - k % 10) * 3 + k % 10
    pick = [src.below(n) for _ in range(6)] + [0, n - 1]
    t += "  static method f : int ($x : int) {\n    switch ($x) {\n      case T->E0 : { break; }\n    }\n    return %s;\n  }\n}\n" % " + ".join("T->E%d" % k for k in pick)
    return [("T", t)], lambda x: sum(val(k) for k in pick), None, n


def message(src):
    """Long messages of exceptions and calls from deep below."""
    n, d = size(src, 20000), src.int(1, 30)
    m = "g" + word(size(src, 300))
    t = "class T : public {\n  static method %s : void ($k : int) {\n    if ($k == 0) { die \"%s\"; }\n    &%s($k - 1);\n  }\n  static method f : int ($x : int) {\n    &%s(%d);\n    return 0;\n  }\n}\n" % (m, word(n), m, m, d)
    exp = word(n) + "\n  T->%s at T.spvm line 3" % m + ("\n  T->%s at T.spvm line 4" % m) * d + "\n  T->f at T.spvm line 7"
    return [("T", t)], lambda x: exp, None, n


KINDS = [names_len, class_len, arg_names, methods, locals_, strings, fields, switch_, chain, depth, args, mulnum, inherit, elements, lines, code, dims, anon, enums, message]


def case_for(variant, pre):
    def case(src, ctx):
        kind = src.choice(KINDS)
        r = kind(src)
        classes, f, err, n = r[:4]
        trace = r[4] if len(r) > 4 else None
        if pre:
            classes = [(c, t.replace("  static method f :", "  precompile static method f :")) for c, t in classes]
        name = kind.__name__.rstrip("_")
        show = "%s of size %d:\n%s" % (name, n, "\n".join(t[:1500] + (" ..." if len(t) > 1500 else "") for _, t in classes[:3]))
        try:
            drv = ctx.drv(variant)
            if pre:
                res = drv.precompiled(ctx.infos[variant], classes, ["T"], ctx.scratch(), "-O0")
            else:
                res = drv.program(classes)
            if err:
                import re
                if res.code == 0:
                    raise pbt.Violation("%s of size %d is accepted (a documented limit)\n%s" % (name, n, show[:800]), key="p29-limit-" + name)
                if res.code == -1000 or not any(re.search(err, e) for e in res.errors):
                    raise pbt.Violation("%s of size %d: errors %r" % (name, n, [e[:300] for e in res.errors[:2]]), key="p29-error-" + name)
                return pbt.Info(n >= 60, tags=[name, "limit"], sample=show[:400], digest=repr(classes), evals=1)
            if res.code:
                raise pbt.Violation("%s of size %d is rejected: %r\n%s" % (name, n, [e[:300] for e in res.errors[:2]], show), key="p29-rejected-" + name)
            for x in (src.int(-3, 9), 1):
                cr = drv.call("T", "f", x)
                want = f(x)
                if isinstance(want, str):
                    if cr.status == "ok" or cr.msg != want.encode():
                        raise pbt.Violation("%s of size %d: exception %r instead of %r\n%s" % (name, n, cr.msg and cr.msg[:300] + b" ... " + cr.msg[-300:], want[:300] + " ... " + want[-300:], show), key="p29-message-" + name)
                elif cr.status != "ok" or cr.ret != wrap(want):
                    raise pbt.Violation("%s of size %d: f(%d) is %r (status %r, message %r) instead of %d\n%s" % (name, n, x, cr.ret, cr.status, cr.msg and cr.msg[:300], wrap(want), show), key="p29-value-" + name)
                if trace:
                    w = trace(x)
                    got = [t for t in cr.trace if t is not None]
                    if got[:len(w)] != w:
                        raise pbt.Violation("%s of size %d: trace %r instead of %r" % (name, n, [t[:400] for t in got], [t[:400] for t in w]), key="p29-trace-" + name)
            drv.done()
        except drvmod.Crash as e:
            raise pbt.Violation("%s of size %d crashes: %s\n%s" % (name, n, str(e)[:800], show), key="p29-crash-" + name)
        return pbt.Info(n >= 60, tags=[name] + (["size>=%d" % (10 ** (len(str(n)) - 1))]), sample=show[:400], digest=repr(classes), evals=2)
    return case


SUITES = [
    Suite("vm", case_for("plain", False), 10000, 150000, variants=("plain",), chunk=10),
    Suite("asan", case_for("asan", False), 4000, 60000, variants=("asan",), chunk=5),
    Suite("precompiled", case_for("plain", True), 100, 1200, variants=("plain",), chunk=2),
]

META = dict(
    statement="The meaning of a program does not depend on its size: names of classes, methods, fields, variables and constants, numbers of declarations, literals, cases, elements and arguments, depths of nesting and inheritance, and lines may be "
              "arbitrarily large without a crash, a truncated name, message or line number, or a different result, in the virtual machine and precompiled; where a limit is documented (255 dimensions of a type, 255 fields of a multi-numeric type, "
              "a width of 255 of the arguments) it is enforced by a compilation error.",
    over=["programs", "inputs"], quant="all sizes of every dimension of a program, up to the documented limits and over them",
    why="the unit tests are small programs; fixed buffers, 8-bit and 16-bit counters, tables that grow and recursion in the compiler fail only at particular sizes",
    files=["lib/SPVM/Builder/src/spvm_check.c", "lib/SPVM/Builder/src/spvm_op.c", "lib/SPVM/Builder/src/spvm_toke.c", "lib/SPVM/Builder/src/spvm_opcode_builder.c", "lib/SPVM/Builder/src/spvm_vm.c", "lib/SPVM/Builder/src/spvm_string_buffer.c",
           "lib/SPVM/Builder/src/spvm_hash.c", "lib/SPVM/Builder/src/spvm_list.c", "lib/SPVM/Builder/src/spvm_api.c"],
    mech=[("limits", "spvm_check.c SPVM_CHECK_check_op_type, check_basic_types; spvm_op.c build_class"), ("names in messages", "spvm_check.c call_method arguments; spvm_compiler.c SPVM_COMPILER_error"),
          ("operands of opcodes and runtime variables", "spvm_opcode_builder.c"), ("growing tables", "spvm_hash.c, spvm_list.c, spvm_string_buffer.c"), ("traces", "spvm_api.c, spvm_vm.c")],
    observe=["compilation result and messages", "values", "exception messages with long names and line numbers", "crashes and memory errors (address sanitizer)", "memory blocks"],
    technique="property-based testing with generated programs of scaled size against closed formulas",
    note="20 kinds of programs, each with one or two dimensions of log-uniform size and with the sizes around 8-bit and power-of-two bounds; virtual machine, address sanitizer and precompiled; results by formula.")
