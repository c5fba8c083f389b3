import re
from vt import sem, types
from vt.pbt import Suite, Info, Violation
from vt.types import spell, NUM, BOX, UNBOX

TITLE = "Assignments and casts are accepted exactly when the type rules allow them"
RULE = ("One case is a random universe of classes and interfaces with 30 allowed uses compiled together and 12 forbidden ones each compiled alone; a use is a pair of types in one of 12 contexts. "
        "Non-trivial: the two types of a use differ.")
META = dict(
    statement="A value of one type may be assigned to a variable, argument, field, class variable, array element, optional argument, return value or array initialiser of another type exactly when the documented assignment requirement holds (widening, constant narrowing in range, boxing and unboxing, strings and mutable strings, super classes, structural interfaces, any object, arrays and their dimensions, multi-numeric and reference types), and cast exactly when the cast requirement holds. Everything else is a compile error at that line. The implicit conversions yield the documented value.",
    over=["programs"], quant="all pairs of types over all class hierarchies and interfaces, in all contexts that assign",
    why="the tests check selected pairs of types in one context each; soundness of the type checker is a statement about all pairs, hierarchies and contexts",
    files=["lib/SPVM/Builder/src/spvm_type.c", "lib/SPVM/Builder/src/spvm_check.c", "lib/SPVM/Builder/src/spvm_basic_type.c"],
    mech=[("assignment and cast requirement tables", "lib/SPVM/Builder/src/spvm_type.c"), ("interface requirement", "lib/SPVM/Builder/src/spvm_basic_type.c"), ("check of every assigning context and implicit conversions", "lib/SPVM/Builder/src/spvm_check.c")],
    observe=["compile result and errors of generated classes", "values after implicit conversions"],
    technique="property-based testing against a model of the documented type rules",
    note="Random universes and type pairs; pairs the documentation leaves open (numeric objects to interfaces, casts between multi-dimensional interface arrays) are not judged.")

CTX = ["init", "assign", "arg", "iarg", "optarg", "return", "field", "classvar", "elem", "cast", "arg2", "deref"]


def stmt(u, src, ctx, dst, st, i, members):
    """Statements that use a value of type st as dst in this context -> (pre+use text, offset of the line) or None."""
    pre = []
    kd, ks = u.kind(dst), u.kind(st)
    e = u.value(src, st, pre)
    p = " ".join(pre)
    if kd == "ref" and ctx in ("field", "classvar", "elem", "return", "optarg", "cast", "init", "assign", "deref"):
        return None
    if dst == ("undef", 0):
        return None
    d = spell(dst)
    if ctx == "init":
        return p, "my $d%d : %s = %s;" % (i, d, e)
    if ctx == "assign":
        return p + " my $d%d : %s;" % (i, d), "$d%d = %s;" % (i, e)
    if ctx in ("arg", "arg2", "iarg"):
        if ctx == "arg":
            members.append("  static method g%d : void ($x : %s) { }" % (i, d))
            return p, "&g%d(%s);" % (i, e)
        if ctx == "iarg":
            members.append("  method g%d : void ($x : %s) { }" % (i, d))
            return p + " my $t%d = new T;" % i, "$t%d->g%d(%s);" % (i, i, e)
        members.append("  static method g%d : void ($w : int, $x : %s, $z : int) { }" % (i, d))
        return p, "T->g%d(1, %s, 2);" % (i, e)
    if ctx == "optarg":
        if kd == "mulnum":
            return None
        members.append("  static method g%d : void ($x : %s = %s) { }" % (i, d, "0" if kd == "num" else "undef"))
        return p, "&g%d(%s);" % (i, e)
    if ctx == "return":
        if ks == "ref":
            return None
        members.append("  static method g%d : %s () { %s return %s; }" % (i, d, p, e))
        return "", "/*%d*/" % i
    if ctx == "field":
        if kd == "mulnum":
            return None
        members.append("  has h%d : %s;" % (i, d))
        return p + " my $t%d = new T;" % i, "$t%d->{h%d} = %s;" % (i, i, e)
    if ctx == "classvar":
        if kd == "mulnum":
            return None
        members.append("  our $V%d : %s;" % (i, d))
        return p, "$V%d = %s;" % (i, e)
    if ctx == "elem":
        if dst[0] == "object" and dst[1] >= 1 or dst[0] == "mstring":
            return None
        return p + " my $a%d = new %s[1];" % (i, d), "$a%d->[0] = %s;" % (i, e)
    if ctx == "cast":
        return p, "(%s)%s;" % (d, e)
    if ctx == "deref":
        if kd != "num":
            return None
        return p + " my $q%d : %s = 1; my $y%d = \\$q%d;" % (i, d, i, i), "$$y%d = %s;" % (i, e)


def klass(u, members, methods):
    return "class T {\n%s%s\n%s\n}\n" % (u.uses(), "\n".join(members), "\n".join(methods))


def near(u, src, t):
    """A type close to t, so that the relation is often interesting."""
    n, d = t
    k = src.below(8)
    if k == 0 and u.kind((n, 0)) == "class" and u.parent[n]:
        return (u.parent[n], d)
    if k == 1 and d:
        return (n, d + src.choice([-1, 1])) if n != "object" else ("object", 0)
    if k == 2:
        return ("object", src.below(2))
    if k == 3 and n in u.parent:
        return (src.choice(u.classes + u.ifaces), d)
    if k == 4 and n in u.req:
        return (src.choice(u.classes + u.ifaces), d)
    if k == 5 and n in NUM:
        return (src.choice(list(NUM) + [BOX[n]]), d)
    if k == 6 and n in UNBOX and d == 0:
        return (UNBOX[n], 0)
    return u.draw(src, undef=True)


def draw_use(u, src, i, want):
    for _ in range(200):
        dst = u.draw(src)
        st = near(u, src, dst) if src.chance(3, 4) else u.draw(src, undef=True)
        if st == ("object", 2):
            continue
        ctx = src.choice(CTX)
        ok = u.castable(dst, st) if ctx == "cast" else u.assignable(dst, st)
        if ok is None or ok != want:
            continue
        members = []
        s = stmt(u, src, ctx, dst, st, i, members)
        if s is None:
            continue
        return dst, st, ctx, members, s
    return None


def compile(d, cls, u):
    d.new("v")
    d.add("T", cls)
    for n, s in u.sources():
        d.add(n, s)
    r = d.compile("T")
    d.done()
    return r


def relation(src, ctx):
    u = types.Universe(src)
    d = ctx.drv("plain")
    pos = [x for x in (draw_use(u, src, i, True) for i in range(30)) if x]
    members, methods = [], []
    for i, (dst, st, c, ms, (p, s)) in enumerate(pos):
        members += ms
        methods.append("  static method m%d : void () { %s %s }" % (i, p, s if not s.startswith("/*") else ""))
    # ( /* */ is no comment in the language: the return context has no statement of its own )
    r = compile(d, klass(u, members, methods), u)
    if r.code:
        for i, (dst, st, c, ms, (p, s)) in enumerate(pos):
            one = klass(u, ms, ["  static method m%d : void () { %s %s }" % (i, p, s if not s.startswith("/*") else "")])
            r1 = compile(d, one, u)
            if r1.code:
                raise Violation("%s <- %s is allowed in the context %s but rejected: %s\n%s\n%s" % (spell(dst), spell(st), c, r1.errors[:2], one, u.sources()), "rejected %s %s %s" % (c, u.kind(dst), u.kind(st)))
        raise Violation("a class of allowed uses is rejected: %s" % r.errors[:2], "rejected")
    tags, dig = set(), []
    for dst, st, c, ms, s in pos:
        tags.add("%s ok" % c)
        if dst != st:
            dig.append((c, spell(dst), spell(st), 1))
    n = len(pos)
    for i in range(12):
        x = draw_use(u, src, i, False)
        if not x:
            continue
        dst, st, c, ms, (p, s) = x
        if s.startswith("/*"):
            s = ""
        one = klass(u, ms, ["  static method m : void () {\n %s\n\n %s\n }" % (p, s)])
        r1 = compile(d, one, u)
        n += 1
        what = "%s <- %s in the context %s" % (spell(dst), spell(st), c)
        if r1.code == 0:
            raise Violation("%s is forbidden but accepted\n%s\n%s" % (what, one, u.sources()), "accepted %s %s %s" % (c, u.kind(dst), u.kind(st)))
        m = re.search(r"at T\.spvm line (\d+)", "\n".join(r1.errors))
        want = one[:one.index("\n\n %s" % s) + 2].count("\n") + 1 if s else [k for k, l in enumerate(one.split("\n"), 1) if " g%d " % i in l][0]
        if not m or int(m.group(1)) != want:
            raise Violation("%s is rejected at the wrong place: %s, expected line %d\n%s" % (what, r1.errors, want, one), "place " + c)
        tags.add("%s error" % c)
        dig.append((c, spell(dst), spell(st), 0))
    return Info(bool(dig), sorted(tags), "; ".join("%s <- %s (%s)" % (spell(a), spell(b), c) for a, b, c, _, _ in pos[:6]), digest=dig, evals=n)


# ---- constants narrow only when they fit
def narrowing(src, ctx):
    items = []
    for i in range(40):
        dst = src.choice(["byte", "short", "int", "float", "long", "double"])
        lt = src.choice(["int", "long", "double", "char"])
        if lt == "double":
            lit, v, st = src.choice(["0.5", "-1.25", "3.0"]), None, "double"
        elif lt == "char":
            lit, v, st = "'a'", 97, "byte"
        else:
            b = src.choice(["byte", "short", "int", "long"])
            v = src.choice([sem.lo(b), sem.hi(b), sem.lo(b) - 1, sem.hi(b) + 1, 0, 1, -1, src.int(-300, 300), src.int(-70000, 70000)])
            v = max(sem.lo(lt), min(sem.hi(lt), v))
            lit, st = "%d%s" % (v, "L" if lt == "long" else ""), lt
        if sem.RANK[dst] >= sem.RANK[st]:
            ok = True
        elif st == "double":
            ok = dst == "float"
        elif dst in sem.INTS:
            ok = sem.lo(dst) <= v <= sem.hi(dst)
        else:
            ok = False
        c = src.choice(["init", "assign", "arg", "field", "elem", "return", "classvar"])
        mem = ""
        if c == "init":
            b = "my $x : %s = %s; return $x;" % (dst, lit)
        elif c == "assign":
            b = "my $x : %s; $x = %s; return $x;" % (dst, lit)
        elif c == "arg":
            mem = "  static method g%d : %s ($x : %s) { return $x; }" % (i, dst, dst)
            b = "return &g%d(%s);" % (i, lit)
        elif c == "field":
            mem = "  has h%d : %s;" % (i, dst)
            b = "my $o = new T; $o->{h%d} = %s; return $o->{h%d};" % (i, lit, i)
        elif c == "elem":
            b = "my $o = new %s[1]; $o->[0] = %s; return $o->[0];" % (dst, lit)
        elif c == "classvar":
            mem = "  our $V%d : %s;" % (i, dst)
            b = "$V%d = %s; return $V%d;" % (i, lit, i)
        else:
            b = "return %s;" % lit
        items.append((ok, dst, st, v if v is not None else float(lit), "  static method m%d : %s () { %s }" % (i, dst, b), mem, lit))
    d = ctx.drv("plain")
    good = [x for x in items if x[0]]
    text = "class T {\n" + "\n".join(x[5] + "\n" + x[4] for x in good) + "\n}"
    r = d.program([("T", text)])
    if r.code:
        raise Violation("allowed constants are rejected: %s\n%s" % (r.errors[:2], text), "rejected constant")
    for i, x in enumerate(items):
        if x[0]:
            c = d.call("T", "m%d" % i)
            exp = sem.rec(x[1], sem.conv(x[2], x[1], x[3]) if x[2] != x[1] else x[3])
            if c.status != "ok" or (sem.norm(c.ret) if isinstance(c.ret, tuple) else c.ret) != exp:
                raise Violation("%s: expected %r, got %r" % (x[4], exp, c), "constant value")
    d.done()
    n = 0
    for x in items:
        if not x[0] and n < 8:
            n += 1
            text = "class T {\n" + x[5] + "\n" + x[4] + "\n}"
            d.new("v")
            d.add("T", text)
            r = d.compile("T")
            d.done()
            if r.code == 0:
                raise Violation("the constant %s is accepted as %s\n%s" % (x[6], x[1], text), "accepted constant")
            if "at T.spvm line 3" not in r.errors[0]:
                raise Violation("located elsewhere: %s\n%s" % (r.errors, text), "place")
    return Info(True, ["rejected" if n else "all allowed"], items[0][4], digest=[(x[1], x[6]) for x in items], evals=len(good) + n)


# ---- the values implicit conversions give
def conversions(src, ctx):
    items = []
    for i in range(40):
        k = src.below(6)
        t = src.choice(NUM)
        v = sem.draw_num(src, t)
        pre = "$a : %s" % t
        if k == 0:      # box and unbox
            b = src.choice(["my $o : %s = $a; my $r : %s = $o; return $r;" % (BOX[t], t), "my $o : object = $a; my $r : %s = $o; return $r;" % t, "my $o : object = $a; return (%s)(%s)$o;" % (t, BOX[t]),
                            "my $o = [(object)$a]; my $r : %s = $o->[0]; return $r;" % t, "return (%s)%s->new($a)->value;" % (t, BOX[t]), "my $o = (%s)$a; return (%s)$o;" % (BOX[t], t)])
            items.append((t, b, t, v, v))
        elif k == 1:    # the boxed type is the static one
            b = "my $o : object = $a; return type_name $o;"
            items.append((t, b, "string", v, BOX[t].encode()))
        elif k == 2:    # to string
            b = src.choice(["my $s : string = $a; return $s;", "return $a;", "return (string)$a;", "return \"\" . $a;", "return \"$a\";"])
            items.append((t, b, "string", v, sem.num_to_str(t, v)))
        elif k == 3:    # widening in every context
            ts = [x for x in NUM if sem.RANK[x] >= sem.RANK[t]]
            to = src.choice(ts)
            b = src.choice(["my $r : %s = $a; return $r;" % to, "return $a;", "my $r = new %s[2]; $r->[1] = $a; return $r->[1];" % to, "return &id_%s($a);" % to])
            items.append((t, b, to, v, sem.conv(t, to, v)))
        elif k == 4:    # unboxing a wrong type or undef
            o = src.choice([x for x in NUM if x != t])
            bad = src.chance(1, 2)
            b = "my $o : object = %s; my $r : %s = $o; return $r;" % ("undef" if bad else "(%s)$a" % o if t not in sem.FLTS or o in sem.FLTS else "(byte)1", t)
            items.append((t, b, t, v, "die"))
        else:           # numeric object of another value keeps identity
            b = "my $o : %s = $a; my $q : object = $o; my $z = (%s)$q; my $y = (%s)$o; return $z == $o && $y == $o;" % (BOX[t], BOX[t], BOX[t])
            items.append((t, b, "int", v, 1))
    text = "class T {\n" + "".join("  use %s;" % b for b in BOX.values()) + "".join("  static method id_%s : %s ($x : %s) { return $x; }\n" % (t, t, t) for t in NUM) + "\n".join("  static method m%d : %s ($a : %s) { %s }" % (i, x[2], x[0], x[1]) for i, x in enumerate(items)) + "\n}"
    d = ctx.drv("plain")
    r = d.program([("T", text)])
    if r.code:
        raise Violation("rejected: %s\n%s" % (r.errors[:2], text), "rejected conversion")
    for i, (t, b, rt, v, e) in enumerate(items):
        c = d.call("T", "m%d" % i, ("f", v) if t == "float" else ("d", v) if t == "double" else v)
        if e == "die":
            if c.status == "ok":
                raise Violation("%s : %s with %r returns %r instead of throwing" % (b, rt, v, c.ret), "unboxing")
            continue
        exp = sem.rec(rt, e) if rt in NUM else e
        got = sem.norm(c.ret) if isinstance(c.ret, tuple) and rt in sem.FLTS else c.ret
        if c.status != "ok" or got != exp:
            raise Violation("%s : %s ($a : %s) with %r: expected %r, got %r" % (b, rt, t, v, exp, c), "conversion")
    d.done()
    return Info(True, [], items[0][1], digest=[(x[1], x[2], x[3]) for x in items], evals=len(items))


SUITES = [
    Suite("relation", relation, 4000, 20000, chunk=40),
    Suite("constants", narrowing, 1500, 8000, chunk=40),
    Suite("conversions", conversions, 1500, 8000, chunk=40),
]
