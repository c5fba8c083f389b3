from vt import sem, pbt
from vt.pbt import Suite
from vt.sem import Die, wrap

TITLE = "Calls, fields and class variables resolve through the class hierarchy"
RULE = ("One case is a generated hierarchy of 2 to 7 classes and 0 to 3 interfaces, with overridden, inherited, SUPER and class-qualified methods, fields, class variables, accessors, enumerations and "
        "destructors, and a history of 15 to 60 statements on places of class, interface and object types. Non-trivial: at least one call dispatched to a method of another class than the static type, and one SUPER or qualified call.")
ASSUMPTIONS = ["the order in which class INIT methods run is not judged", "a class-qualified call on an undefined invocant is not judged"]

FT = ["int", "byte", "short", "long", "float", "double", "string"]
ACC = ["private", "protected", "public"]


class Cls:
    pass


class Obj:
    __slots__ = ("c", "f")

    def __init__(self, c):
        self.c = c
        self.f = {n: None if t == "string" else 0 for n, t in allfields(c)}


def chain(c):
    while c is not None:
        yield c
        c = c.parent


def allfields(c):
    return [(n, t) for k in chain(c) for n, t, a, g in k.fields]


def is_sub(c, d):
    return any(k is d for k in chain(c))


def find(c, m):
    for k in chain(c):
        if m in k.methods:
            return k
    return None


def satisfies(c, i):
    return all(find(c, m) is not None for m in i.req)


def lit(t, v):
    return '"%s"' % v.decode() if t == "string" else "(%s)%d" % (t, v)


def draw_val(src, t):
    if t == "string":
        return src.choice([b"a", b"bc", b"d e", b""])
    return src.int(-300, 300)


def store(t, v):
    return v if t == "string" else sem.conv("int", t, v) if t in ("byte", "short") else v


def tr(t):
    return {"string": "VT->o(%s)", "float": "VT->f(%s)", "double": "VT->d(%s)"}.get(t, "VT->i(%s)")


def seen(t, v):
    return ("f", sem.bits32(float(v))) if t == "float" else ("d", sem.bits64(float(v))) if t == "double" else v


# ---------------------------------------------------------------- generation
def hierarchy(src, pre):
    ncls, nif, nm = src.int(2, 7), src.int(0, 3), src.int(2, 5)
    cs = []
    for i in range(ncls):
        c = Cls()
        c.name = src.choice(["C%d", "P::C%d", "K%dx"]) % i
        c.i = i
        c.parent = src.choice(cs) if cs and src.chance(4, 5) else None
        c.fields = [("f%d_%d" % (i, k), src.choice(FT), src.choice(ACC), src.choice(["", "ro", "wo", "rw"])) for k in range(src.int(0, 4))]
        c.cvars = [("V%d_%d" % (i, k), src.choice(FT), src.choice(ACC), src.choice(["", "ro", "wo", "rw"])) for k in range(src.int(0, 2))]
        c.methods, c.statics = {}, {}
        c.enum = []
        v = -1
        for k in range(src.int(0, 3)):
            e = src.int(-1000, 1000) if src.chance(1, 2) else None
            v = e if e is not None else v + 1
            c.enum.append(("E%d_%d" % (i, k), e, v))
        c.destroy = src.chance(1, 3)
        c.pre = pre and src.chance(3, 4)
        cs.append(c)
    ms = ["m%d" % k for k in range(nm)]
    for c in cs:
        for m in ms:
            if src.chance(2, 5):
                c.methods[m] = None
        for k in range(src.int(0, 2)):
            c.statics["s%d" % k] = None
    ifs = []
    for i in range(nif):
        f = Cls()
        f.name = "I%d" % i
        f.i = i
        f.all = [m for m in ms if src.chance(1, 2)] or [ms[0]]
        f.req = [m for m in f.all if src.chance(2, 3)]
        f.d = src.chance(1, 2)
        ifs.append(f)
    for c in cs:
        c.ifs = [f for f in ifs if satisfies(c, f) and src.chance(1, 2)]
    g = {n: (t, c) for c in cs for n, t, a, k in c.cvars}
    uid = [100]

    def body(c, static, name):
        uid[0] += 1
        out = [("trace", uid[0])]
        for _ in range(src.int(0, 4)):
            ks = [(2, "scall"), (2, "cvar")]
            if not static:
                ks += [(5, "virt"), (4, "super"), (3, "qual"), (3, "fset"), (3, "fget"), (1, "who"), (1, "acc")]
            if src.chance(1, 12):
                ks = [(1, "die")]
            k = src.weighted(ks)
            own = [(n, t, a, g_) for q in chain(c) for n, t, a, g_ in q.fields if q is c or a != "private"]
            if k == "scall":
                o = [(q, s) for q in cs for s in q.statics]
                if o:
                    out.append(("scall",) + src.choice(o))
            elif k == "cvar":
                o = [(n, t, q) for q in cs for n, t, a, _ in q.cvars if q is c or a == "public" or (a == "protected" and is_sub(c, q))]
                if o:
                    n, t, q = src.choice(o)
                    out.append(("cvar", n, t, q, draw_val(src, t)))
            elif k == "virt":
                o = [m for m in ms if find(c, m)]
                if o:
                    out.append(("virt", src.choice(o)))
            elif k == "super":
                o = [m for m in ms if c.parent and find(c.parent, m)]
                if o:
                    m = name if name in o and src.chance(3, 4) else src.choice(o)
                    out.append(("qual", find(c.parent, m), m, "SUPER"))
            elif k == "qual":
                o = [(q, m) for q in chain(c) for m in q.methods]
                if o:
                    q, m = src.choice(o)
                    out.append(("qual", q, m, q.name))
            elif k in ("fset", "fget") and own:
                n, t, a, _ = src.choice(own)
                out.append((k, n, t, draw_val(src, t)))
            elif k == "acc":
                o = [x for q in chain(c) for x in q.fields if x[3]]
                if o:
                    n, t, a, kk = src.choice(o)
                    out.append(("aget" if kk == "ro" or (kk == "rw" and src.chance(1, 2)) else "aset", n, t, draw_val(src, t)))
            elif k in ("who", "die"):
                out.append((k,))
        return out, (src.int(-9, 9), src.int(-99, 99))
    for c in cs:
        for m in c.methods:
            c.methods[m] = body(c, False, m)
        for s in c.statics:
            c.statics[s] = body(c, True, s)
    return cs, ifs, ms, g


def text(c, cs, ifs, pre):
    L = []
    attrs = "public" + (" precompile" if c.pre else "")
    L.append("class %s%s : %s {" % (c.name, " extends " + c.parent.name if c.parent else "", attrs))
    L.append("  use VT;")
    for q in cs:
        if q is not c:
            L.append("  use %s;" % q.name)
    for f in c.ifs:
        L.append("  use %s; interface %s;" % (f.name, f.name))
    if c.enum:
        L.append("  enum { %s }" % ", ".join(n if e is None else "%s = %d" % (n, e) for n, e, v in c.enum))
    for n, t, a, g in c.cvars:
        L.append("  our $%s : %s %s %s;" % (n, a, g, t))
    for n, t, a, g in c.fields:
        L.append("  has %s : %s %s %s;" % (n, a, g, t))
    for tab, st in ((c.methods, ""), (c.statics, "static ")):
        for m, (stmts, (k, z)) in tab.items():
            L.append("  %smethod %s : int ($x : int) {" % (st, m))
            for s in stmts:
                L.append("    " + emit(s, c))
            L.append("    return $x * %d + %d;" % (k, z))
            L.append("  }")
    if c.destroy:
        L.append("  method DESTROY : void () { VT->i(%d); }" % (10000 + c.i))
    L.append("}")
    return "\n".join(L)


def emit(s, c):
    k = s[0]
    if k == "trace":
        return "VT->i(%d);" % s[1]
    if k == "scall":
        q, m = s[1:]
        return "if ($x > 0) { VT->i(%s%s($x - 1)); }" % ("&" if q is c else q.name + "->", m)
    if k == "cvar":
        n, t, q, v = s[1:]
        nm = "$%s" % n if q is c else "$%s::%s" % (q.name, n)
        return "%s %s = %s;" % (tr(t) % nm + ";", nm, lit(t, v))
    if k == "virt":
        return "if ($x > 0) { VT->i($self->%s($x - 1)); }" % s[1]
    if k == "qual":
        return "if ($x > 0) { VT->i($self->%s::%s($x - 1)); }" % (s[3], s[2])
    if k == "fset":
        return "$self->{%s} = %s;" % (s[1], lit(s[2], s[3]))
    if k == "fget":
        return tr(s[2]) % ("$self->{%s}" % s[1]) + ";"
    if k == "aget":
        return tr(s[2]) % ("$self->%s" % s[1]) + ";"
    if k == "aset":
        return "$self->set_%s(%s);" % (s[1], lit(s[2], s[3]))
    if k == "who":
        return "VT->o(type_name $self);"
    return "if ($x == 1) { die \"d\"; }"


class Run:
    """the reference semantics of the method bodies"""

    def __init__(self, gv):
        self.t = []
        self.gv = gv
        self.stat = set()
        self.n = 0

    def call(self, c, body, o, x):
        self.n += 1
        if self.n > 3000:
            raise pbt.Discard("too long")
        stmts, (k, z) = body
        for s in stmts:
            q = s[0]
            if q == "trace":
                self.t.append(s[1])
            elif q == "scall":
                if x > 0:
                    self.t.append(self.call(s[1], s[1].statics[s[2]], None, x - 1))
            elif q == "cvar":
                n, t, _, v = s[1:]
                self.t.append(seen(t, self.gv[n]))
                self.gv[n] = store(t, v)
            elif q == "virt":
                if x > 0:
                    self.t.append(self.virt(c, o, s[1], x - 1))
            elif q == "qual":
                if x > 0:
                    self.stat.add("super" if s[3] == "SUPER" else "qualified")
                    self.t.append(self.call(s[1], s[1].methods[s[2]], o, x - 1))
            elif q in ("fset", "aset"):
                o.f[s[1]] = store(s[2], s[3])
            elif q in ("fget", "aget"):
                self.t.append(seen(s[2], o.f[s[1]]))
            elif q == "who":
                self.t.append(o.c.name.encode())
            elif q == "die" and x == 1:
                raise Die("*")
        return wrap("int", x * k + z)

    def virt(self, static, o, m, x):
        if o is None:
            raise Die("*")
        c = find(o.c, m)
        if c is None:
            raise Die("*")
        if static is None or c is not find(static, m):
            self.stat.add("dispatch")
        return self.call(c, c.methods[m], o, x)


def case_(pre, variant):
    def case(src, ctx):
        cs, ifs, ms, g = hierarchy(src, pre)
        places = [("$c%d" % c.i, c) for c in cs for _ in (0,)] + [("$d%d" % c.i, c) for c in cs] + [("$i%d" % f.i, f) for f in ifs] + [("$o0", None), ("$o1", None)]
        v = {p: None for p, _ in places}
        run = Run({n: None if t == "string" else 0 for n, (t, c) in g.items()})
        T = run.t
        lines, exp_ok, tags = [], 0, set()

        def ok_for(t, o):
            return t is None or o is None or (satisfies(o.c, t) if t in ifs else is_sub(o.c, t))

        def set_place(p, o):
            old = v[p]
            v[p] = o
            if old is not None and old is not o and not any(x is old for x in v.values()):
                for k in chain(old.c):
                    if k.destroy:
                        T.append(10000 + k.i)
                        tags.add("destructor")
                        break

        def cplace(live=True):
            ps = [(p, c) for p, c in places if c in cs]
            l = [(p, c) for p, c in ps if v[p] is not None]
            return src.choice(l) if l and live and src.chance(7, 8) else src.choice(ps)
        for step in range(src.int(15, 60)):
            k = "new" if step < 4 else src.weighted([(6, "new"), (6, "up"), (3, "down"), (3, "toobj"), (5, "fromobj"), (12, "call"), (6 if ifs else 0, "icall"), (6, "qual"), (4 if any(f.d for f in ifs) else 0, "idef"), (3, "static"),
                                                     (5, "fset"), (5, "fget"), (4, "acc"), (3, "cvar"), (2, "cacc"), (3, "isa"), (2, "enum"), (1, "undef"), (2, "name")])
            x = src.int(0, 3)
            st = None
            try:
                if k == "new":
                    p, c = src.choice([y for y in places if y[1] is None or y[1] in cs])
                    d = src.choice([q for q in cs if c is None or is_sub(q, c)])
                    st = "%s = new %s;" % (p, d.name)
                    set_place(p, Obj(d))
                elif k == "up":
                    p, c = cplace()
                    o = [q for q, d in places if d in cs and is_sub(c, d)]
                    q = src.choice(o)
                    st = "%s = %s;" % (q, p)
                    set_place(q, v[p])
                elif k == "down":
                    q, c = src.choice([y for y in places if y[1] in cs])
                    p = src.choice([p for p, d in places if d in cs and is_sub(c, d)])
                    st = "%s = (%s)%s;" % (q, c.name, p)
                    if not ok_for(c, v[p]):
                        raise Die("*")
                    set_place(q, v[p])
                elif k == "toobj":
                    p, c = src.choice([y for y in places if y[1] is not None])
                    q = src.choice(["$o0", "$o1"])
                    st = "%s = %s;" % (q, p)
                    set_place(q, v[p])
                elif k == "fromobj":
                    p = src.choice(["$o0", "$o1"])
                    q, c = src.choice([y for y in places if y[1] is not None] + [y for y in places if y[1] in ifs] * 2)
                    st = "%s = (%s)%s;" % (q, c.name, p)
                    if not ok_for(c, v[p]):
                        raise Die("*")
                    set_place(q, v[p])
                elif k == "call":
                    p, c = cplace()
                    o = [m for m in ms if find(c, m)]
                    if not o:
                        continue
                    m = src.choice(o)
                    st = "VT->i(%s->%s(%d));" % (p, m, x)
                    T.append(run.virt(c, v[p], m, x))
                elif k == "icall":
                    p, f = src.choice([y for y in places if y[1] in ifs])
                    m = src.choice(f.all)
                    st = "VT->i(%s->%s(%d));" % (p, m, x)
                    T.append(run.virt(None, v[p], m, x))
                elif k == "qual":
                    p, c = cplace()
                    o = [(q, m) for q in chain(c) for m in q.methods]
                    if not o or v[p] is None:
                        continue
                    q, m = src.choice(o)
                    st = "VT->i(%s->%s::%s(%d));" % (p, q.name, m, x)
                    run.stat.add("qualified")
                    T.append(run.call(q, q.methods[m], v[p], x))
                elif k == "idef":
                    o = [y for y in places if y[1] in ifs and y[1].d and v[y[0]] is not None]
                    if not o:
                        continue
                    p, f = src.choice(o)
                    st = "VT->i(%s->%s::dm(%d));" % (p, f.name, x)
                    run.stat.add("interface method with a block")
                    T.append(20000 + f.i)
                    T.append(wrap("int", run.virt(None, v[p], f.all[0], x) + 1))
                elif k == "static":
                    o = [(q, s) for q in cs for s in q.statics]
                    if not o:
                        continue
                    q, s = src.choice(o)
                    st = "VT->i(%s->%s(%d));" % (q.name, s, x)
                    T.append(run.call(q, q.statics[s], None, x))
                elif k in ("fset", "fget"):
                    p, c = cplace()
                    o = [(n, t) for q in chain(c) for n, t, a, _ in q.fields if a == "public"]
                    if not o:
                        continue
                    n, t = src.choice(o)
                    y = draw_val(src, t)
                    st = "%s->{%s} = %s;" % (p, n, lit(t, y)) if k == "fset" else tr(t) % ("%s->{%s}" % (p, n)) + ";"
                    if v[p] is None:
                        raise Die("*")
                    if k == "fset":
                        v[p].f[n] = store(t, y)
                    else:
                        T.append(seen(t, v[p].f[n]))
                elif k == "acc":
                    p, c = cplace()
                    o = [f for q in chain(c) for f in q.fields if f[3]]
                    if not o:
                        continue
                    n, t, a, kk = src.choice(o)
                    get = kk == "ro" or (kk == "rw" and src.chance(1, 2))
                    y = draw_val(src, t)
                    st = tr(t) % ("%s->%s" % (p, n)) + ";" if get else "%s->set_%s(%s);" % (p, n, lit("int" if t in ("byte", "short") else t, y))
                    if v[p] is None:
                        raise Die("*")
                    tags.add("accessor")
                    if get:
                        T.append(seen(t, v[p].f[n]))
                    else:
                        v[p].f[n] = store(t, y)
                elif k == "cvar":
                    o = [(n, t, c) for c in cs for n, t, a, _ in c.cvars if a == "public"]
                    if not o:
                        continue
                    n, t, c = src.choice(o)
                    y = draw_val(src, t)
                    nm = "$%s::%s" % (c.name, n)
                    st = tr(t) % nm + "; %s = %s;" % (nm, lit(t, y))
                    T.append(seen(t, run.gv[n]))
                    run.gv[n] = store(t, y)
                elif k == "cacc":
                    o = [(n, t, c, kk) for c in cs for n, t, a, kk in c.cvars if kk]
                    if not o:
                        continue
                    n, t, c, kk = src.choice(o)
                    get = kk == "ro" or (kk == "rw" and src.chance(1, 2))
                    y = draw_val(src, t)
                    st = tr(t) % ("%s->%s" % (c.name, n)) + ";" if get else "%s->SET_%s(%s);" % (c.name, n, lit("int" if t in ("byte", "short") else t, y))
                    if get:
                        T.append(seen(t, run.gv[n]))
                    else:
                        run.gv[n] = store(t, y)
                elif k == "isa":
                    p = src.choice([p for p, c in places])
                    c = src.choice(cs + ifs)
                    op = src.choice(["isa", "is_type"]) if c in cs else "isa"
                    # the operators are applied to the value as an object, so that no operand is rejected statically
                    st = "VT->i((object)%s %s %s);" % (p, op, c.name)
                    o = v[p]
                    T.append(int(o is not None and (o.c is c if op == "is_type" else ok_for(c, o))))
                elif k == "enum":
                    o = [(c, n, e) for c in cs for n, _, e in c.enum]
                    if not o:
                        continue
                    c, n, e = src.choice(o)
                    st = "VT->i(%s->%s);" % (c.name, n)
                    T.append(e)
                elif k == "name":
                    p = src.choice([p for p, c in places])
                    if v[p] is None:
                        continue
                    st = "VT->o(type_name %s);" % p
                    T.append(v[p].c.name.encode())
                else:
                    p = src.choice([p for p, c in places])
                    st = "%s = undef;" % p
                    set_place(p, None)
                T.append(1)
            except Die:
                T.append(0)
                tags.add("exception")
            lines.append("eval { %s $ok = 1; }; VT->i($ok); $ok = 0;" % st)
            tags.add(k)
        for p, c in places:
            lines.append("%s = undef;" % p)
            set_place(p, None)
        for n, (t, c) in g.items():
            if t == "string":
                pass
        tag = "precompile " if pre else ""
        src_t = "class T {\n  use VT;\n%s\n  %sstatic method main : void () {\n    my $ok = 0;\n%s\n%s\n  }\n}" % (
            "\n".join("  use %s;" % q.name for q in cs + ifs), tag,
            "\n".join("    my %s : %s;" % (p, c.name if c is not None else "object") for p, c in places), "\n".join("    " + l for l in lines))
        classes = [("T", src_t)] + [(c.name, text(c, cs, ifs, pre)) for c in cs]
        for f in ifs:
            classes.append((f.name, "class %s : interface_t {\n  use VT;\n%s\n%s}" % (f.name, "\n".join("  %smethod %s : int ($x : int);" % ("required " if m in f.req else "", m) for m in f.all),
                                                                                     "  method dm : int ($x : int) { VT->i(%d); return $self->%s($x) + 1; }\n" % (20000 + f.i, f.all[0]) if f.d else "")))
        d = ctx.drv(variant)
        names = ["T"] + [c.name for c in cs if c.pre]
        r = d.precompiled(ctx.infos[variant], classes, names, ctx.scratch(), opt="-O1") if pre else d.program(classes)
        whole = "\n".join(s for n, s in classes)
        if r.code:
            raise pbt.Violation("rejected: %s\n%s" % (r.errors, whole), "rejected")
        cr = d.call("T", "main")
        if cr.status != "ok":
            raise pbt.Violation("the history ended with %s %r\n%s" % (cr.status, cr.msg, whole), "end")
        if cr.trace != T:
            i = next((i for i, (x, y) in enumerate(zip(cr.trace, T)) if x != y), min(len(T), len(cr.trace)))
            raise pbt.Violation("record %d: expected %r, got %r (before: %r)\n%s" % (i, T[i:i + 4], cr.trace[i:i + 4], T[max(0, i - 4):i], whole), "history")
        st = run.stat
        return pbt.Info("dispatch" in st and bool(st & {"super", "qualified"}), sorted(tags | st), "\n".join(l.split(" $ok = 1")[0] for l in lines[:6]), digest=whole, evals=len(lines))
    return case


SUITES = [
    Suite("hierarchies", case_(False, "plain"), 6000, 100000, chunk=25),
    Suite("hierarchies, precompiled", case_(True, "plain"), 80, 2000, chunk=5),
    Suite("hierarchies, asan", case_(False, "asan"), 400, 8000, variants=("asan",), chunk=10),
]

META = dict(
    statement="For every class hierarchy: an instance method call runs the method of the object's own class or else of its nearest super class that defines it, whatever the static type of the invocant, interface types included; a SUPER or class-qualified call runs exactly the named method; a class method call runs that class's method. Objects have the fields of their class and all super classes, initialised to zero or undef, and a field or class variable is one place for every access: directly, through an inheriting type, or by its accessor methods, which convert byte and short values as documented. Casts, isa and is_type follow the hierarchy and the interface requirement; a call on undef or to a method the object lacks throws; enumeration items have the documented values; the destructor inherited from the nearest class runs once. Interpreted and precompiled code agree.",
    over=["inputs", "histories"], quant="all class hierarchies and all histories of operations on their objects",
    why="tests use fixed two- or three-level hierarchies; resolution must be right for every shape of overriding, inheritance and interface use, and caches may not change it",
    files=["lib/SPVM/Builder/src/spvm_check.c", "lib/SPVM/Builder/src/spvm_api.c", "lib/SPVM/Builder/src/spvm_vm.c", "lib/SPVM/Builder/src/spvm_op.c", "lib/SPVM/Builder/include/spvm_implement.h"],
    mech=[("method search and dispatch", "lib/SPVM/Builder/src/spvm_api.c"), ("merging of inherited fields and interfaces", "lib/SPVM/Builder/src/spvm_check.c"), ("accessors and enumerations", "lib/SPVM/Builder/src/spvm_op.c")],
    observe=["trace of the methods that run, values of fields, class variables, accessors and enumerations, casts, destructors"],
    technique="property-based testing: generated class hierarchies and histories against a reference model of resolution",
    note="Reference interpreter for hierarchies with overriding, SUPER, interfaces, accessors; interpreted, precompiled, address sanitizer.")
