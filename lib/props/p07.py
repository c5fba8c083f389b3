from vt import drv, sem, types
from vt.pbt import Suite, Info, Violation
from vt.types import spell, NUM, BOX, UNBOX

TITLE = "Run-time casts, isa, is_type, can and element checks agree with the object"
RULE = ("One case is a random universe of classes and interfaces, 14 objects of random types and 12 random operations, each applied to every object. "
        "Non-trivial: the operation accepts some of the objects and refuses others; distinct by operation and object type.")
META = dict(
    statement="A cast to a type that the static type does not guarantee, or a store into an array seen through a wider type, succeeds only if the actual type of the object satisfies the assignment requirement: otherwise it throws, and leaves the target unchanged; a successful one yields the identical object. isa, is_type, can, type_name, is_error and isa_error report exactly this relation for every object, hierarchy and interface. undef casts to every object type and is of none. Casts to mutable string refuse read-only strings. This holds in the VM and in precompiled code, whatever was checked before.",
    over=["programs"], quant="all pairs of dynamic type and target type over all class hierarchies and interfaces, and all orders of checks",
    why="the tests check a few hand-picked objects; memory safety of every later field access and method call rests on the check being right for all pairs, including cached results",
    files=["lib/SPVM/Builder/src/spvm_api.c", "lib/SPVM/Builder/src/spvm_api_type.c", "lib/SPVM/Builder/include/spvm_implement.h", "lib/SPVM/Builder/src/spvm_opcode_builder.c"],
    mech=[("run-time assignability and its cache", "lib/SPVM/Builder/src/spvm_api_type.c"), ("checked moves and element stores", "lib/SPVM/Builder/include/spvm_implement.h"), ("choice between checked and unchecked moves", "lib/SPVM/Builder/src/spvm_opcode_builder.c"), ("dynamic method lookup", "lib/SPVM/Builder/src/spvm_api.c")],
    observe=["result, exception and identity of the object after each operation"],
    technique="property-based testing against a model of the type relation",
    note="Random universes; pairs the documentation leaves open are not judged.")


def dyn_types(u, src, n):
    out = []
    for _ in range(n):
        while True:
            t = u.draw(src, refs=False)
            k = u.kind(t)
            if k in ("class", "box", "string", "array") and t != ("object", 2):
                break
        if k == "array" and src.chance(1, 2):
            t = (src.choice(u.classes), src.weighted([(3, 1), (1, 2)]))
        out.append(t)
    return out


def make(t):
    n, d = t
    if d:
        return "new %s%s[2]" % (n, "[]" * (d - 1))
    if n == "string":
        return '"abc"'
    if n == "mstring":
        return "new_string_len 3"
    if n in UNBOX:
        return "%s->new(7)" % n
    return "new %s" % n


def target(u, src):
    while True:
        t = u.draw(src, refs=False)
        if u.is_object(t) and t != ("object", 2):
            return t


def runtime_isa(u, dst, dyn):
    """None: left open"""
    if dyn is None:
        return True
    dst = ("string", 0) if dst[0] == "mstring" else dst
    dyn = ("string", 0) if dyn[0] == "mstring" else dyn
    if u.kind(dst) == "iface" and u.kind(dyn) == "box":
        return None
    return u.assignable(dst, dyn)


def elem(t):
    """The static element type of an array type."""
    n, d = t
    return (n, d - 1)


def case(precompile):
    def run(src, ctx):
        u = types.Universe(src, 5, 3)
        dyn = dyn_types(u, src, 13) + [None]
        sw = "".join(" if ($i == %d) { return %s; }" % (i, make(t)) for i, t in enumerate(dyn) if t)
        methods = ["  static method get : object ($i : int) {%s return undef; }" % sw]
        ops = []
        for k in range(12):
            kind = src.weighted([(5, "cast"), (4, "cast2"), (4, "isa"), (2, "is_type"), (3, "store"), (2, "can"), (1, "type_name"), (2, "keep"), (2, "via"), (1, "call")])
            t = target(u, src)
            head = "  static method m%d : %%s ($i : int) { my $o = &get($i); " % k
            if kind == "cast":
                ops.append((kind, t, None))
                methods.append(head % "int" + "my $t = (%s)$o; return (object)$t == $o; }" % spell(t))
            elif kind == "cast2":
                s = None
                for _ in range(40):
                    s = target(u, src)
                    if u.kind(s) != "object" and u.castable(t, s) and s != t and not (t[0] == "byte" and u.kind(s) == "string") and not (s == ("byte", 1) and u.kind(t) == "string"):
                        break
                    s = None
                if s is None:
                    ops.append(("cast", t, None))
                    methods.append(head % "int" + "my $t = (%s)$o; return (object)$t == $o; }" % spell(t))
                    continue
                ops.append((kind, t, s))
                methods.append(head % "int" + "my $s = (%s)$o; my $t = (%s)$s; return (object)$t == $o; }" % (spell(s), spell(t)))
            elif kind == "via":
                # through an argument and a return value
                ops.append(("cast", t, None))
                methods.append("  static method id%d : object ($x : %s) { return $x; }" % (k, spell(t)))
                methods.append(head % "int" + "return &id%d((%s)$o) == $o; }" % (k, spell(t)))
            elif kind == "keep":
                # a refused cast leaves the target as it was
                ops.append((kind, t, None))
                methods.append(head % "int" + "my $t : %s = undef; my $u : object = undef; eval { $t = (%s)$o; $u = $t; }; if ($@) { $@ = undef; return $t == undef && $u == undef; } return (object)$t == $o; }" % (spell(t), spell(t)))
            elif kind in ("isa", "is_type"):
                if u.kind(t) == "object" or t[0] == "mstring":
                    t = (src.choice(u.classes), src.below(2))
                ops.append((kind, t, None))
                methods.append(head % "int" + "if ($o %s %s) { return 1; } return 0; }" % (kind, spell(t)))
            elif kind == "store":
                # an array seen through a wider type
                a = (src.choice(u.classes + u.ifaces + ["object", "object", "string", "Int"]), 1)
                if src.chance(1, 4) and a[0] != "object":
                    a = (a[0], 2)
                w = None
                for _ in range(40):
                    w = target(u, src)
                    if w[1] and u.is_objarray(w) and u.assignable(w, a):
                        break
                    w = None
                w = w or ("object", 1)
                ops.append((kind, a, w))
                cast = "" if w[0] == "object" else "(%s)" % spell(elem(w))
                methods.append(head % "int" + "my $a = new %s; my $w : %s = $a; $w->[1] = %s$o; return (object)$a->[1] == $o && $a->[0] == undef; }" % (a[0] + "[]" * (a[1] - 1) + "[2]", spell(w), cast))
            elif kind == "can":
                n = src.choice(["a", "b", "c"])
                ts = [x for x in u.classes if n in u.meths[x]] + [x for x in u.ifaces if n in u.req[x]]
                if not ts:
                    ops.append(("type_name", t, None))
                    methods.append(head % "string" + "return type_name $o; }")
                    continue
                t = (src.choice(ts), 0)
                ops.append((kind, t, n))
                methods.append(head % "int" + "my $t = (%s)$o; return $t can %s; }" % (spell(t), n))
            elif kind == "call":
                n = src.choice(["a", "b", "c"])
                ts = [x for x in u.ifaces if n in u.req[x] and u.req[x][n][0] == ": int ()"]
                if not ts:
                    ops.append(("type_name", t, None))
                    methods.append(head % "string" + "return type_name $o; }")
                    continue
                t = (src.choice(ts), 0)
                ops.append((kind, t, n))
                methods.append(head % "int" + "my $t = (%s)$o; return $t->%s; }" % (spell(t), n))
            else:
                ops.append((kind, t, None))
                methods.append(head % "string" + "return type_name $o; }")
        # error classes by id
        ea, eb = src.choice(u.classes), src.choice(u.classes)
        methods.append("  static method err : int () { my $id = basic_type_id %s; return ($id isa_error %s) * 2 + ($id is_error %s); }" % (ea, eb, eb))
        cls = "T"
        text = "class %s {\n%s%s\n}\n" % (cls, u.uses(), "\n".join(methods))
        d = ctx.drv("plain")
        classes = [("T", text)] + u.sources()
        r = d.precompiled(ctx.infos["plain"], classes, ["T"], ctx.scratch(), opt="-O0") if precompile else d.program(classes)
        if r.code:
            raise Violation("rejected: %s\n%s\n%s" % (r.errors[:3], text, u.sources()), "rejected")
        tags, dig = set(), []
        order = [(k, i) for k in range(len(ops)) for i in range(len(dyn))]
        src.shuffle(order)
        for k, i in order:
            kind, t, s = ops[k]
            dt = dyn[i]
            exp = expected(u, kind, t, s, dt)
            if exp is None:
                continue
            what = "%s %s %s of %s" % (kind, spell(t), spell(s) if isinstance(s, tuple) else s or "", spell(dt) if dt else "undef")
            meth = [m for m in methods if " m%d " % k in m][0]
            try:
                c = d.call(cls, "m%d" % k, i)
            except drv.Crash as e:
                raise Violation("%s: %s\n%s\n%s" % (what, e, meth, u.sources()), "crash " + kind)
            if exp == "die":
                if c.status == "ok":
                    raise Violation("%s is accepted (returned %r)\n%s\n%s" % (what, c.ret, meth, u.sources()), "accepted " + kind)
                tags.add(kind + " refused")
            else:
                if c.status != "ok":
                    raise Violation("%s throws %r\n%s\n%s" % (what, c.msg, meth, u.sources()), "refused " + kind)
                if c.ret != exp:
                    raise Violation("%s: expected %r, got %r\n%s\n%s" % (what, exp, c.ret, meth, u.sources()), "result " + kind)
                tags.add(kind + " accepted")
            if dt is not None:
                dig.append((kind, spell(t), str(s), spell(dt), exp))
        c = d.call(cls, "err")
        exp = 2 * (ea == eb or u.is_super(eb, ea)) + (ea == eb)
        if c.ret != exp:
            raise Violation("isa_error/is_error of %s with %s: expected %r, got %r\n%s" % (ea, eb, exp, c, u.sources()), "error id")
        blocks = d.done()
        if blocks[0] != 4:
            raise Violation("%d blocks remain\n%s" % (blocks[0], text), "leak")
        return Info(len({x[-1] == "die" or x[-1] == 0 for x in dig}) > 1, sorted(tags), "; ".join("%s %s" % (o[0], spell(o[1])) for o in ops), digest=dig, evals=len(order))
    return run


def expected(u, kind, t, s, dt):
    if kind in ("cast", "keep", "cast2"):
        seq = [s, t] if kind == "cast2" else [t]
        for x in seq:
            if x is t and kind == "cast2" and x[0] != "mstring" and u.assignable(t, s):
                continue        # no check is needed (nor made) where the static type suffices
            ok = runtime_isa(u, x, dt)
            if ok is None:
                return None
            if ok and x[0] == "mstring" and x[1] == 0 and dt == ("string", 0):
                ok = False      # a literal is read-only
            if not ok:
                return 1 if kind == "keep" else "die"
        return 1
    if kind == "isa":
        if dt is None:
            return 0
        ok = runtime_isa(u, t, dt)
        return ok if ok is None else int(ok)
    if kind == "is_type":
        if dt is None:
            return 0
        return int(t == (("string", 0) if dt[0] == "mstring" else dt))
    if kind == "store":
        w = (s[0], s[1] - 1)
        if dt is None:
            return 1
        ok = runtime_isa(u, w, dt)
        if ok is None:
            return None
        if not ok:
            return "die"
        ok = runtime_isa(u, (t[0], t[1] - 1), dt)
        if ok is None:
            return None
        return 1 if ok else "die"
    if kind in ("can", "call"):
        if dt is None:
            return 0 if kind == "can" else "die"
        ok = runtime_isa(u, t, dt)
        if ok is None:
            return None
        if not ok:
            return "die"
        has = dt[0] in u.parent and u.lookup(dt[0], s) is not None
        return (int(has) if kind == "can" else (1 if has else "die"))
    if kind == "type_name":
        if dt is None:
            return None
        return spell(("string", 0) if dt[0] == "mstring" else dt).encode()


SUITES = [
    Suite("vm", case(False), 4000, 80000, chunk=40),
    Suite("precompile", case(True), 250, 5000, chunk=5),
]
