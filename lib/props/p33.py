from vt import drv, sem, types
from vt.pbt import Suite, Info, Violation
from vt.types import spell, NUM, BOX, UNBOX

TITLE = "Calls by name at run time check every argument and equal the direct call"
RULE = ("calls: one case is a class with 8 methods of random signatures (and a class that overrides some of them), 14 to 20 objects of random types and 24 calls through Native::MethodCall with suitable and unsuitable arguments. "
        "Non-trivial: some calls are accepted and some refused; distinct by parameter types, argument types and outcome. "
        "compile: one case is a history of run-time compilations, right and wrong, with calls of the methods of every class compiled so far; non-trivial: at least one compilation fails and a class compiled before it is called after it.")
META = dict(
    statement="Native::MethodCall finds the class method or instance method by name exactly as a static call would (an instance method by the class of the instance, or by the given class for a static one). `call` enters the method only if the number of arguments is allowed and each argument can be assigned to its parameter: boxed numbers to numeric types of just that type, numeric arrays of the right type and length to multi-numeric and reference types, objects by the assignment requirement on their actual type (a read-only string is not assigned to a mutable string); otherwise it throws and nothing of the method has run. A call that is made gives every parameter its value (and omitted optional ones their default), a reference writes through to the array, and the return value comes back boxed, as a numeric array, as the identical object or undef for void. An exception of the method is rethrown with its message and the error ID of Native::MethodCall::Error::ExceptionThrown, its own error ID is stored in $error_id_ref (0 after success). Classes compiled at run time by Native::Compiler can be called this way at once, a failed compilation throws Error::Compile, reports the errors by get_error_messages and changes nothing that was there before.",
    over=["programs", "histories"], quant="all method signatures, all argument lists and all orders of such calls and run-time compilations",
    why="the tests call a handful of methods with suitable arguments; an argument check that lets one wrong object through gives the method an object of a type it was compiled against, which no later check catches",
    files=["lib/SPVM/Native/MethodCall.c", "lib/SPVM/Native/MethodCall.spvm", "lib/SPVM/Native/Compiler.c", "lib/SPVM/Native/Compiler.spvm", "lib/SPVM/Builder/src/spvm_api.c", "lib/SPVM/Builder/src/spvm_api_type.c"],
    mech=[("argument checks, boxing and unboxing", "lib/SPVM/Native/MethodCall.c"), ("wrappers by name", "lib/SPVM/Native/MethodCall.spvm"), ("run-time compilation", "lib/SPVM/Native/Compiler.c"), ("assignability of an object", "lib/SPVM/Builder/src/spvm_api_type.c")],
    observe=["the log of the called methods, result objects by identity, type and value, exceptions, error IDs, arrays after the call, error messages of the compiler"],
    technique="property-based testing against a model of the argument rules and the methods",
    note="Arguments the documentation leaves open (a box for an interface parameter) are not passed.")

FIELD = {"b": "byte", "s": "short", "i": "int", "l": "long", "f": "float", "d": "double"}
ERRS = ["Error", "Error::NotSupported", "Error::Compile"]


def num_lit(t, v):
    if t in ("float", "double"):
        s = sem.flit(t, abs(v))
        neg = v < 0 or (v == 0 and str(v).startswith("-"))
        return ("-" if neg else "") + s
    if t == "long":
        return "%dL" % v
    return "(%s)%d" % (t, v) if t != "int" else "%d" % v


def num(src, t):
    v = sem.draw_num(src, t)
    return v


class Obj:
    """An object of the pool: its dynamic type (None: undef) and, where it matters, its value."""
    def __init__(self, t, expr, val=None):
        self.t, self.expr, self.val = t, expr, val


def make(src, u, t):
    n, d = t
    if d == 1 and n in NUM:
        k = src.weighted([(3, 1), (3, 2), (2, 3), (1, 0), (1, 4)])
        vals = [num(src, n) for _ in range(k)]
        if not vals:
            return Obj(t, "new %s[0]" % n, vals)
        return Obj(t, "[%s]" % ", ".join("(%s)%s" % (n, num_lit(n, v)) if n != "int" else num_lit(n, v) for v in vals), vals)
    if d:
        return Obj(t, "new %s%s[%d]" % (n, "[]" * (d - 1), src.int(0, 2)))
    if n == "string":
        return Obj(t, '"%s"' % src.choice(["abc", "", "x", "long text"]))
    if n == "mstring":
        return Obj(t, "new_string_len %d" % src.int(0, 3))
    if n in UNBOX:
        v = num(src, UNBOX[n])
        return Obj(t, "%s->new(%s)" % (n, num_lit(UNBOX[n], v)), v)
    return Obj(t, "new %s" % n)


class Param:
    def __init__(self, t, default=None):
        self.t, self.default = t, default


def mulnums(src, uid):
    """multi-numeric types by name: (element type, width, source)"""
    out = {}
    for _ in range(3):
        c = src.choice("bsilfd")
        w = src.int(1, 3)
        n = "P33%s_%d%s" % (uid, w, c)
        out[n] = (FIELD[c], w, "class %s : mulnum_t public { %s }" % (n, " ".join("has f%d : %s;" % (i, FIELD[c]) for i in range(w))))
    return out


def param_type(src, u, mul):
    k = src.weighted([(5, "num"), (3, "string"), (4, "class"), (2, "iface"), (2, "box"), (3, "object"), (6, "array"), (4, "mul"), (3, "ref"), (2, "mulref")])
    if k == "num":
        return (src.choice(NUM), 0)
    if k == "mul":
        return (src.choice(sorted(mul)), 0)
    if k == "ref":
        return (src.choice(NUM) + "*", 0)
    if k == "mulref":
        return (src.choice(sorted(mul)) + "*", 0)
    while True:
        t = u.draw(src, refs=False)
        kk = u.kind(t)
        if kk in ("num", "mulnum", "ref") or t == ("object", 2):
            continue
        if t[0] in u.mulnum:
            continue
        if kk == k or k == "object":
            return t


def accept(u, mul, t, o):
    """Can the object be passed for a parameter of type t? None: left open."""
    n, d = t
    if not d and n in NUM:
        return o.t == (BOX[n], 0)
    if not d and n in mul:
        return o.t == (mul[n][0], 1) and len(o.val) == mul[n][1]
    if n.endswith("*"):
        b = n[:-1]
        if b in NUM:
            return o.t == (b, 1) and len(o.val) == 1
        return o.t == (mul[b][0], 1) and len(o.val) == mul[b][1]
    if o.t is None:
        return True
    if u.kind(t) == "object":
        return True
    if t[0] in u.req and (o.t[0] in UNBOX or o.t[0] in NUM or o.t[0] in ("string", "mstring", "object")):
        # a box or string for an interface
        return None if (o.t[1] == t[1] and o.t[0] in UNBOX) else False
    return u.assignable(t, o.t)


def candidate(src, u, mul, t):
    """A dynamic type that suits the parameter type, if one is easily found."""
    n, d = t
    if not d and n in NUM:
        return (BOX[n], 0)
    if not d and n in mul:
        return (mul[n][0], 1)
    if n.endswith("*"):
        b = n[:-1]
        return (b, 1) if b in NUM else (mul[b][0], 1)
    for _ in range(12):
        c = u.draw(src, refs=False)
        if c[0] in u.mulnum or c == ("object", 2) or u.kind(c) in ("num", "object", "iface", "mulnum") or not u.assignable(t, c):
            continue
        return c
    if u.kind(t) in ("class", "box", "string") or (u.kind(t) == "array"):
        return t
    return None


def digest_code(mul, i, p):
    n, d = p.t
    v = "$a%d" % i
    if not d and n in NUM:
        return "$LOG .= \" \" . %s;" % v
    if not d and n in mul:
        return "".join("$LOG .= \" \" . %s->{f%d};" % (v, k) for k in range(mul[n][1]))
    if n.endswith("*"):
        b = n[:-1]
        if b in NUM:
            return "$LOG .= \" \" . $%s; $%s = (%s)%d;" % (v, v, b, 5 + i)
        return "".join("$LOG .= \" \" . %s->{f%d};" % (v, k) for k in range(mul[b][1])) + "%s->{f0} = (%s)%d;" % (v, mul[b][0], 5 + i)
    return "$LOG .= \" \" . &ix(%s);" % v


def digest_model(mul, i, p, val, pool, entry):
    """(text of the log, new values of the array)"""
    n, d = p.t
    if not d and n in NUM:
        v = p.default if val is None else pool[val].val
        return " " + sem.num_to_str(n, v).decode()
    if not d and n in mul:
        return "".join(" " + sem.num_to_str(mul[n][0], v).decode() for v in entry[val])
    if n.endswith("*"):
        b = n[:-1]
        e = b if b in NUM else mul[b][0]
        s = "".join(" " + sem.num_to_str(e, v).decode() for v in pool[val].val)
        pool[val].val[0] = 5 + i if e in sem.INTS else float(5 + i)
        return s
    return " P%d" % val if val is not None and pool[val].t is not None else " undef"


class Meth:
    pass


def methods(src, u, mul, npool):
    out = []
    for k in range(8):
        m = Meth()
        m.name, m.inst = "m%d" % k, src.chance(1, 3)
        m.params = [Param(param_type(src, u, mul)) for _ in range(src.weighted([(1, 0), (4, 1), (4, 2), (3, 3), (1, 5)]))]
        # trailing optional parameters
        nopt = src.weighted([(3, 0), (2, 1), (1, 2)])
        for p in m.params[len(m.params) - min(nopt, len(m.params)):]:
            n, d = p.t
            if not d and n in NUM:
                p.default = src.int(-100, 100) if n in sem.INTS else float(src.int(-8, 8)) / 2
            elif not d and n in mul or n.endswith("*") :
                continue
            else:
                p.default = "undef"
        ok = True
        for p in reversed(m.params):
            if not ok:
                p.default = None
            if p.default is None:
                ok = False
        m.ret = src.weighted([(2, "void"), (4, "num"), (2, "mul"), (3, "arg"), (2, "pool"), (2, "die")])
        if m.ret == "num":
            m.rt = src.choice(NUM)
            m.rv = num(src, m.rt)
        elif m.ret == "mul":
            m.rt = src.choice(sorted(mul))
            m.rv = [num(src, mul[m.rt][0]) for _ in range(mul[m.rt][1])]
        elif m.ret == "arg":
            objs = [i for i, p in enumerate(m.params) if p.t[0] not in mul and not p.t[0].endswith("*") and not (p.t[1] == 0 and p.t[0] in NUM)]
            if objs:
                m.rt = src.choice(objs)
            else:
                m.ret = "void"
        elif m.ret == "pool":
            m.rt = src.below(npool)
        elif m.ret == "die":
            m.rt = src.choice(ERRS)
        out.append(m)
    return out


def meth_code(mul, m, tag, dies=True):
    params = ", ".join("$a%d : %s%s" % (i, spell(p.t), "" if p.default is None else " = undef" if p.default == "undef" else " = %s" % num_lit(p.t[0], p.default).replace("(byte)", "").replace("(short)", "")) for i, p in enumerate(m.params))
    rtype = {"void": "void", "die": "int", "pool": "object"}.get(m.ret) or (m.rt if m.ret in ("num", "mul") else spell(m.params[m.rt].t))
    body = "$T::LOG .= \"%s\";" % tag + " ".join(digest_code(mul, i, p) for i, p in enumerate(m.params)).replace("$LOG", "$T::LOG").replace("&ix(", "T->ix(")
    if m.inst:
        body += "$T::LOG .= \" \" . T->ix($self);"
    if m.ret == "num":
        body += "return %s;" % num_lit(m.rt, m.rv)
    elif m.ret == "mul":
        body += "my $r : %s; %s return $r;" % (m.rt, " ".join("$r->{f%d} = %s;" % (k, num_lit(mul[m.rt][0], v)) for k, v in enumerate(m.rv)))
    elif m.ret == "arg":
        body += "return $a%d;" % m.rt
    elif m.ret == "pool":
        body += "return T->get(%d);" % m.rt
    elif m.ret == "die":
        body += "die %s \"D%s\";" % (m.rt, tag)
    return "  %smethod %s : %s (%s) { %s }\n" % ("" if m.inst else "static ", m.name, rtype, params, body)


SHOW = """
  static method ix : string ($o : object) { for (my $i = 0; $i < @$POOL; $i++) { if ($o != undef && $POOL->[$i] == $o) { return "P$i"; } } if ($o == undef) { return "undef"; } return "other"; }
  static method get : object ($i : int) { return $POOL->[$i]; }
  static method show : string ($o : object) {
    my $x = &ix($o);
    unless ($x eq "other") { return $x; }
    my $s = type_name $o;
    if ($o is_type Byte) { $s .= " " . $o->(Byte)->value; } if ($o is_type Short) { $s .= " " . $o->(Short)->value; } if ($o is_type Int) { $s .= " " . $o->(Int)->value; }
    if ($o is_type Long) { $s .= " " . $o->(Long)->value; } if ($o is_type Float) { $s .= " " . $o->(Float)->value; } if ($o is_type Double) { $s .= " " . $o->(Double)->value; }
    return $s . &nums($o);
  }
  static method nums : string ($o : object) {
    my $s = "";
    if ($o is_type byte[]) { for my $v (@{(byte[])$o}) { $s .= " $v"; } } if ($o is_type short[]) { for my $v (@{(short[])$o}) { $s .= " $v"; } }
    if ($o is_type int[]) { for my $v (@{(int[])$o}) { $s .= " $v"; } } if ($o is_type long[]) { for my $v (@{(long[])$o}) { $s .= " $v"; } }
    if ($o is_type float[]) { for my $v (@{(float[])$o}) { $s .= " $v"; } } if ($o is_type double[]) { for my $v (@{(double[])$o}) { $s .= " $v"; } }
    return $s;
  }
"""


def calls(variant):
    def run(src, ctx):
        u = types.Universe(src, 4, 2)
        mul = mulnums(src, "M")
        # the pool: what suits the parameters, and more
        npool = 14 + src.below(7)
        ms = methods(src, u, mul, npool)
        pool = [Obj(None, "undef"), Obj(("T", 0), "new T"), Obj(("U", 0), "new U")]
        u.parent["T"], u.parent["U"] = None, "T"
        u.meths["T"], u.meths["U"] = {}, {}
        wanted = [p.t for m in ms for p in m.params]
        while len(pool) < npool:
            t = candidate(src, u, mul, src.choice(wanted)) if wanted and src.chance(3, 4) else None
            if t is None:
                while True:
                    t = u.draw(src, refs=False)
                    if t[0] not in u.mulnum and t != ("object", 2) and (u.kind(t) in ("class", "box", "string", "array")):
                        break
            pool.append(make(src, u, t))
        over = [m for m in ms if m.inst and src.chance(1, 2)]
        uses = u.uses() + "".join("  use %s;\n" % n for n in sorted(mul)) + "  use Native::MethodCall; use Native::MethodCall::Error::ExceptionThrown; use Error::NotSupported; use Error::Compile; use U;\n"
        # the calls
        plan, body = [], []
        for k in range(24):
            m = src.choice(ms)
            inv, given = None, []
            if m.inst:
                inv = src.weighted([(4, 1), (4, 2), (1, None)])
                if inv is None:
                    others = [i for i, o in enumerate(pool) if o.t and o.t[0] in u.classes and o.t[1] == 0]
                    inv = src.choice(others) if others else 1
            nreq = len([p for p in m.params if p.default is None])
            na = src.int(nreq, len(m.params)) if src.chance(9, 10) else src.int(0, len(m.params) + 2)
            for i in range(na):
                p = m.params[i] if i < len(m.params) else None
                fit = [j for j, o in enumerate(pool) if p and accept(u, mul, p.t, o)]
                rest = [j for j, o in enumerate(pool) if not p or accept(u, mul, p.t, o) is False]
                if fit and (not rest or src.chance(9, 10)):
                    given.append(src.choice(fit))
                else:
                    given.append(src.choice(rest or [0]))
            how = src.weighted([(4, "by_name"), (3, "object"), (2, "twice")])
            if m.inst:
                how += src.choice(["", "_static"])
            ref = src.chance(1, 2)
            plan.append((m, inv, given, how, ref))
            args = ([inv] if m.inst else []) + given
            same = all(pool[a].t is not None and pool[a].t[0] == "string" and pool[a].t[1] == 0 for a in args)
            if not args:
                ax = src.choice(["undef", "new object[0]"])
            elif same and src.chance(1, 2):
                ax = "[%s]" % ", ".join("(string)$POOL->[%d]" % a for a in args)
            else:
                ax = "[%s]" % ", ".join("$POOL->[%d]" % a for a in args)
            static_cls = "U" if how.endswith("_static") and m in over and src.chance(1, 2) else "T"
            plan[-1] += (static_cls,)
            rx = ", $e" if ref else ""
            if how == "by_name":
                c = "$r = Native::MethodCall->call_class_method(\"T\", \"%s\", %s%s);" % (m.name, ax, rx) if not m.inst else "$r = Native::MethodCall->call_instance_method(\"%s\", %s%s);" % (m.name, ax, rx)
            elif how == "by_name_static":
                c = "$r = Native::MethodCall->call_instance_method_static(\"%s\", \"%s\", %s%s);" % (static_cls, m.name, ax, rx)
            else:
                new = "new_class_method(\"T\", \"%s\")" % m.name
                if m.inst:
                    new = "new_instance_method_static(\"%s\", \"%s\")" % (static_cls, m.name) if how.endswith("_static") else "new_instance_method($POOL->[%d], \"%s\")" % (inv, m.name)
                c = "my $c = Native::MethodCall->%s; $r = $c->call(%s%s);" % (new, ax, rx)
                if how.startswith("twice"):
                    c += " $LOG .= \"|\"; $r = $c->call(%s%s);" % (ax, rx)
            body.append("  static method c%d : string () { my $e = [55]; my $r : object = undef; $LOG = \"\"; my $x = \"\"; my $id = 0;\n    eval { %s }\n    if ($@) { $x = $@; $id = eval_error_id; $@ = undef; }\n"
                        "    my $en = \"$e->[0]\"; if ($id) { if ($e->[0] == $id) { $en = \"same\"; } } if ($e->[0] == basic_type_id Error::NotSupported) { $en = \"Error::NotSupported\"; } if ($e->[0] == basic_type_id Error::Compile) { $en = \"Error::Compile\"; } if ($e->[0] == basic_type_id Error) { $en = \"Error\"; }\n"
                        "    my $in = \"$id\"; if ($id == basic_type_id Error) { $in = \"Error\"; } if ($id == basic_type_id Native::MethodCall::Error::ExceptionThrown) { $in = \"Thrown\"; }\n"
                        "    my $ps = \"\"; for my $o (@$POOL) { $ps .= \"/\" . &nums($o); }\n"
                        "    return \"$in;$en;\" . &show($r) . \";$LOG;$ps;$x\"; }\n" % (k, c))
        text = "class T : public {\n%s  our $POOL : object[];\n  our $LOG : public string;\n%s%s%s  static method init : void () { $LOG = \"\"; $POOL = new object[%d];\n%s  }\n  static method fini : void () { $POOL = undef; $LOG = undef; }\n}\n" % (
            uses, SHOW, "".join(meth_code(mul, m, m.name) for m in ms), "".join(body), len(pool), "".join("    $POOL->[%d] = %s;\n" % (i, o.expr) for i, o in enumerate(pool) if o.t))
        utext = "class U extends T : public {\n%s%s}\n" % (uses.replace("  use U;\n", "").replace(" use U;", "") + "  use T;\n", "".join(meth_code(mul, m, "U." + m.name) for m in over))
        classes = [("T", text), ("U", utext)] + u.sources() + [(n, mul[n][2]) for n in sorted(mul)]
        d = ctx.drv(variant)
        r = d.program(classes)
        if r.code:
            raise Violation("rejected: %s\n%s\n%s\n%s" % (r.errors[:3], text, utext, u.sources()), "rejected")
        c = d.call("T", "init")
        if c.status != "ok":
            raise Violation("init: %r\n%s" % (c, text), "init")
        tags, dig, seen = set(), [], set()
        for k, (m, inv, given, how, ref, scls) in enumerate(plan):
            exp = model(u, mul, pool, m, inv, given, how, ref, scls, over)
            sig = "%s(%s)%s called %s%s with (%s)" % (m.name, ", ".join(spell(p.t) + ("" if p.default is None else "=") for p in m.params), " -> " + m.ret, how, "" if inv is None else " on " + spell(pool[inv].t),
                                                ", ".join("%d:%s" % (g, spell(pool[g].t) + ("" if pool[g].val is None else str(pool[g].val)) if pool[g].t else "undef") for g in given))
            code = lambda: "%s\n%s\n%s\n%s" % (sig, text, utext, u.sources())
            try:
                c = d.call("T", "c%d" % k)
            except drv.Crash as e:
                raise Violation("%s\n%s" % (e, code()), "crash")
            if c.status != "ok":
                raise Violation("the call case throws %r\n%s" % (c.msg, code()), "throws")
            got = c.ret.decode("latin-1").split(";", 5) if isinstance(c.ret, bytes) else [str(c.ret)]
            if isinstance(c.ret, tuple):
                got = c.ret[1].decode("latin-1").split(";", 5)
            if exp is None:
                continue
            for name, e, g in zip(("error ID of the call", "$error_id_ref", "result", "log of the methods", "numeric arrays"), exp, got):
                if e is not None and e != g:
                    raise Violation("%s: expected %r, got %r (all: %r)\n%s" % (name, e, g, got, code()), name)
            if exp[5] is not None and not got[5].startswith(exp[5]):
                raise Violation("exception: expected %r, got %r\n%s" % (exp[5], got[5], code()), "exception")
            kind = "made" if exp[0] == "0" else "died" if exp[0] == "Thrown" else "refused"
            seen.add(kind)
            tags.add("%s %s" % (how, kind))
            dig.append((how, [spell(p.t) for p in m.params], [spell(pool[g].t) if pool[g].t else "" for g in given], kind))
        c = d.call("T", "fini")
        rest = d.done()[0]
        if rest != 4:
            raise Violation("%d memory blocks remain\n%s\n%s" % (rest - 4, text, utext), "leak")
        return Info("made" in seen and "refused" in seen, sorted(tags), sig, digest=dig, evals=len(plan))
    return run


def model(u, mul, pool, m, inv, given, how, ref, scls, over):
    """(error id, error id ref, result, log, arrays, exception prefix); None: left open."""
    arrays = lambda: "".join("/" + ("".join(" " + sem.num_to_str(o.t[0], v).decode() for v in o.val) if o.t and o.t[1] == 1 and o.t[0] in NUM else "") for o in pool)
    refused = lambda: ("Error", "same" if False else "55", "undef", None, None, None)
    tag = m.name
    if m.inst:
        it = pool[inv].t
        if not how.endswith("_static"):
            if it not in (("T", 0), ("U", 0)):
                return ("Error", "55", "undef", "", arrays(), None)
            if it == ("U", 0) and m in over:
                tag = "U." + m.name
        else:
            if scls == "U" and m in over:
                tag = "U." + m.name
                ok = it == ("U", 0)
            else:
                ok = it in (("T", 0), ("U", 0))
            if not ok:
                return ("Error", "55", "undef", "", arrays(), None)
    nreq = len([p for p in m.params if p.default is None])
    bad = not nreq <= len(given) <= len(m.params)
    if not bad:
        for p, g in zip(m.params, given):
            a = accept(u, mul, p.t, pool[g])
            if a is None:
                return None
            if not a:
                bad = True
    if bad:
        return ("Error", "55", "undef", "", arrays(), None)
    def one():
        s = tag
        entry = [list(o.val) if isinstance(o.val, list) else o.val for o in pool]
        for i, p in enumerate(m.params):
            s += digest_model(mul, i, p, given[i] if i < len(given) else None, pool, entry)
        if m.inst:
            s += " P%d" % inv
        return s
    log = one()
    if m.ret == "die":
        return ("Thrown", m.rt if ref else "55", "undef", log, arrays(), "D" + tag)
    if how.startswith("twice"):
        log += "|" + one()
    if m.ret == "void":
        res = "undef"
    elif m.ret == "num":
        res = BOX[m.rt] + " " + sem.num_to_str(m.rt, m.rv).decode()
    elif m.ret == "mul":
        e = mul[m.rt][0]
        res = e + "[]" + "".join(" " + sem.num_to_str(e, v).decode() for v in m.rv)
    else:
        j = m.rt if m.ret == "pool" else (given[m.rt] if m.rt < len(given) else None)
        res = "undef" if j is None or pool[j].t is None else "P%d" % j
    return ("0", "0" if ref else "55", res, log, arrays(), None)


# ---- compilation at run time

DRIVER = """class T : public {
  use Native; use Native::Compiler; use Native::Env; use Native::Stack; use Native::Runtime; use Native::MethodCall; use Native::MethodCall::Error::ExceptionThrown; use Error::Compile;
  our $N : int;
  our $ISO : Native::Compiler[];
  our $ENV : Native::Env[];
  our $STACK : Native::Stack[];
  static method set : void ($n : int) { $N = $n; }
  static method failed : string ($c : Native::Compiler, $id : int) {
    my $x = $@; $@ = undef;
    my $r = "died";
    if ($id == basic_type_id Error::Compile) { $r = "compile"; } if ($id == basic_type_id Native::MethodCall::Error::ExceptionThrown) { $r = "thrown"; }
    if ($c) { my $ms = $c->get_error_messages; $r .= ";" . @$ms . ";"; for my $m (@$ms) { $r .= $m . "\\n"; } $r .= ";"; } else { $r .= ";;;"; }
    return $r . $x;
  }
  static method anon : string ($s : string) {
    my $c = Native->get_current_compiler; $c->set_start_file("F"); $c->set_start_line(7);
    my $r = "";
    eval { $r = "ok;" . $c->compile_anon_class($s) . ";" . @{$c->get_error_messages}; }
    if ($@) { return &failed($c, eval_error_id); }
    return $r;
  }
  static method named : string ($s : string) {
    my $c = Native->get_current_compiler; $c->set_start_file("F"); $c->set_start_line(7);
    eval { $c->compile($s); }
    if ($@) { return &failed($c, eval_error_id); }
    return "ok;;" . @{$c->get_error_messages};
  }
  static method ev : string ($s : string) {
    my $c = Native->get_current_compiler; $c->set_start_file("F"); $c->set_start_line(7);
    eval { $c->eval_string($s); }
    if ($@) { return &failed($c, eval_error_id); }
    return "ok;$N";
  }
  static method call : string ($c : string, $m : string, $x : int) {
    my $r = "";
    eval { my $o = Native::MethodCall->call_class_method($c, $m, [(object)$x]); $r = "ok;" . $o->(Int)->value; }
    if ($@) { return &failed(undef, eval_error_id); }
    return $r;
  }
  static method iso : string ($dir : string, $std : string) {
    unless ($ISO) { $ISO = new Native::Compiler[0]; $ENV = new Native::Env[0]; $STACK = new Native::Stack[0]; }
    my $c = Native::Compiler->new; $c->add_include_dir($dir); $c->add_include_dir($std); $c->set_start_file("F"); $c->set_start_line(1);
    my $n = @$ISO + 1;
    my $iso = new Native::Compiler[$n]; my $env = new Native::Env[$n]; my $stack = new Native::Stack[$n];
    for (my $i = 0; $i < $n - 1; $i++) { $iso->[$i] = $ISO->[$i]; $env->[$i] = $ENV->[$i]; $stack->[$i] = $STACK->[$i]; }
    $iso->[$n - 1] = $c;
    my $ok = "ok";
    eval { $c->compile("P33Iso"); $env->[$n - 1] = $c->get_runtime->get_env; $stack->[$n - 1] = $env->[$n - 1]->new_stack; }
    if ($@) { $ok = &failed($c, eval_error_id); }
    $ISO = $iso; $ENV = $env; $STACK = $stack;
    return $ok;
  }
  static method isocompile : string ($i : int, $name : string) {
    my $c = $ISO->[$i]; $c->set_start_file("F"); $c->set_start_line(2);
    eval { $c->compile($name); }
    if ($@) { return &failed($c, eval_error_id); }
    return "ok;;" . @{$c->get_error_messages};
  }
  static method isocall : string ($i : int, $c : string, $m : string, $args : object[]) {
    my $r = "ok;";
    eval {
      my $o = Native::MethodCall->new_class_method_with_env_stack($ENV->[$i], $STACK->[$i], $c, $m)->call($args);
      if ($o) { $r .= type_name $o; } else { $r .= "undef"; }
      if ($o is_type Int) { $r .= " " . $o->(Int)->value; } if ($o is_type Long) { $r .= " " . $o->(Long)->value; } if ($o is_type Double) { $r .= " " . $o->(Double)->value; }
      if ($o is_type Byte) { $r .= " " . $o->(Byte)->value; } if ($o is_type Short) { $r .= " " . $o->(Short)->value; } if ($o is_type Float) { $r .= " " . $o->(Float)->value; }
      if ($o isa string) { $r .= " " . (string)$o; }
      if ($o is_type int[]) { for my $v (@{(int[])$o}) { $r .= " $v"; } }
      if ($o is_type double[]) { for my $v (@{(double[])$o}) { $r .= " $v"; } }
    }
    if ($@) { return &failed(undef, eval_error_id); }
    return $r;
  }
  static method iso_i : string ($i : int, $c : string, $m : string, $x : int) { return &isocall($i, $c, $m, [(object)$x]); }
  static method iso_s : string ($i : int, $c : string, $m : string, $x : string) { return &isocall($i, $c, $m, [(object)$x]); }
  static method iso_0 : string ($i : int, $c : string, $m : string) { return &isocall($i, $c, $m, undef); }
  static method iso_a : string ($i : int, $c : string, $m : string, $x : int[]) { return &isocall($i, $c, $m, [(object)$x]); }
  static method inc : void ($dir : string) { Native->get_current_compiler->add_include_dir($dir); }
  static method fini : void () { $STACK = undef; $ENV = undef; $ISO = undef; }
}
"""

# (body of a method, what the messages name)
WRONG = [("return $zz;", "$zz"), ("return 1 % \"a\";", "%"), ("my $s : NoSuch%d; return 1;", None), ("my $s : P33NoSuch; return 1;", "P33NoSuch"), ("return \"abc\";", "return"), ("return 1 +;", ";"), ("my $a = 1; my $a = 2; return $a;", "$a"),
         ("my $l = [1]; return $l % 2 + %s;", None), ("return &nomethod_n();", "nomethod_n"), ("return 1;", None)]

ISO_SRC = """class P33Iso { use P33Iso_2d; our $N : int; our $L : int[];
  static method add : int ($x : int) { $N += $x; return $N; }
  static method str : string ($x : string) { return $x . "|" . $N; }
  static method by : byte ($x : int) { return (byte)$x; }
  static method sh : short ($x : int) { return (short)$x; }
  static method lo : long ($x : int) { return (long)$x * 10000000000L; }
  static method fl : float ($x : int) { return $x / 2.0f; }
  static method dou : double ($x : int) { return $x / 4.0; }
  static method no : void ($x : int) { $N = $x; }
  static method mul : P33Iso_2d ($x : int) { my $m : P33Iso_2d; $m->{a} = $x; $m->{b} = -$x; return $m; }
  static method fail : int ($x : int) { die "ISO$x %s %n"; }
  static method arr : int[] ($x : int[]) { $x->[0] = $x->[0] + $N; return $x; }
  static method nothing : string ($x : int) { return undef; }
}
"""


def compile_(variant):
    def run(src, ctx):
        import os
        from vt import build
        # named classes: right, wrong, or using one another
        named, ok = [], {}
        for k in range(src.int(2, 5)):
            a, b = src.int(-9, 9), src.int(-9, 9)
            use = src.choice(named)[0] if named and src.chance(1, 2) else None
            wrong = src.choice(WRONG)[0] if src.chance(1, 3) else None
            if wrong == "return 1;":
                wrong = None
            n = "P33N%d" % k
            body = "  static method f : int ($x : int) { %s }\n" % ("return $x * %d + %d;" % (a, b) if not use else "return %s->f($x) + %d;" % (use, b))
            if wrong:
                body += "  static method g : int ($x : int) { %s }\n" % wrong
            named.append((n, "class %s : public {\n%s%s}\n" % (n, "  use %s;\n" % use if use else "", body)))
            good = not wrong and (use is None or ok[use] is not None)
            ok[n] = ((lambda x, a=a, b=b: x * a + b) if not use else (lambda x, u=ok[use], b=b: u(x) + b)) if good else None
        d = ctx.drv(variant)
        r = d.program([("T", DRIVER)])
        if r.code:
            raise Violation("rejected: %s" % r.errors[:3], "rejected")
        dirn = os.path.join(ctx.scratch(), "inc")
        os.makedirs(dirn, exist_ok=True)
        for f, t in [("P33Iso", ISO_SRC), ("P33Iso_2d", "class P33Iso_2d : mulnum_t { has a : double; has b : double; }")] + named:
            with open(os.path.join(dirn, f + ".spvm"), "w") as h:
                h.write(t)
        log, live, N, tags = [], {}, 0, set()
        isos = []
        failed, after, skew = False, False, 0

        def do(meth, *args):
            log.append("%s(%s)" % (meth, ", ".join(repr(a) for a in args)))
            try:
                c = d.call("T", meth, *args)
            except drv.Crash as e:
                raise Violation("%s\n%s" % (e, "\n".join(log)), "crash")
            if c.status != "ok":
                raise Violation("%s throws %r\n%s" % (meth, c.msg, "\n".join(log)), "throws")
            v = c.ret[1] if isinstance(c.ret, tuple) else c.ret
            return v.decode("latin-1")

        def bad(what, got):
            raise Violation("%s, got %r\n%s\n%s" % (what, got, "\n".join(log), "\n".join(t for _, t in named)), what.split(":")[0][:30])

        def compile_failed(got, name):
            p = got.split(";", 2)
            if p[0] != "compile":
                bad("a failed compilation throws Error::Compile", got)
            if int(p[1]) < 1:
                bad("a failed compilation has error messages", got)
            if name and name not in p[2]:
                bad("the error messages name %r" % name, got)
            # the exception carries the first message
            if name and name not in p[2].rsplit("[Compile Error]", 1)[-1] and len(p[2]) < 200:
                bad("the exception names %r" % name, got)

        d.call("T", "inc", dirn)
        for step in range(src.int(6, 16)):
            k = src.weighted([(4, "good"), (4, "bad"), (6, "call"), (3, "eval"), (2, "evalbad"), (1, "evaldie"), (4, "named"), (1 if len(isos) < 2 else 0, "iso"), (5 if isos else 0, "isocall"), (1 if isos else 0, "isocompile")])
            tags.add(k)
            if k == "good":
                a, b = src.int(-9, 9), src.int(-9, 9)
                cnt = src.chance(1, 3)
                dep = src.choice(sorted(x for x in live if x.startswith("P33"))) if any(x.startswith("P33") for x in live) and src.chance(1, 2) else None
                body = "return $x * %d + %d;" % (a, b) if not dep else "return %s->f($x) - %d;" % (dep, b)
                got = do("anon", "class {\n%s%s  static method f : int ($x : int) { %s%s }\n}\n" % ("  use %s;\n" % dep if dep else "", "  our $C : int;\n" if cnt else "", "$C++; if ($C > 100) { return 0; } " if cnt else "", body))
                p = got.split(";")
                if p[0] != "ok" or p[2] != "0" or p[1] in live or not p[1]:
                    bad("the compilation of an anonymous class gives a new name and no errors", got)
                live[p[1]] = (lambda x, a=a, b=b: x * a + b) if not dep else (lambda x, u=live[dep], b=b: u(x) - b)
            elif k == "bad":
                w, name = src.choice(WRONG[:-1])
                pad = "".join("  static method h%d : int () { return 1; }\n" % j for j in range(src.below(4)))
                extra = "  static method g2 : int () { return $yy; }\n" * src.chance(1, 4)
                got = do("anon", "class {\n%s  static method f : int ($x : int) { %s }\n%s}\n" % (pad, w, extra))
                compile_failed(got, name if not extra else None)
                failed = True
            elif k == "call":
                for c in src.choice([sorted(live), [src.choice(sorted(live))] if live else []]) or ["P33None"]:
                    x = src.int(-1000, 1000)
                    got = do("call", c, "f", x)
                    if c in live:
                        if got != "ok;%d" % sem.wrap("int", live[c](x)):
                            bad("%s->f(%d) is %d" % (c, x, live[c](x)), got)
                        after = after or failed
                    elif not got.startswith("died"):
                        bad("a class that does not exist cannot be called", got)
            elif k == "eval":
                N = src.int(0, 10000)
                got = do("ev", src.choice(["T->set(%d);", "my $x = %d; T->set($x);", "for (my $i = 0; $i <= %d; $i += 1000) { } T->set(%d);" ]).replace("%d", str(N)))
                if got != "ok;%d" % N:
                    bad("eval_string sets %d" % N, got)
            elif k == "evalbad":
                w, name = src.choice(WRONG[:-3])
                compile_failed(do("ev", w.replace("return 1 %", "my $q = 1 %").replace("return $zz", "my $q = $zz")), None)
                failed = True
            elif k == "evaldie":
                got = do("ev", "die \"E%dx\";" % step)
                if not got.startswith("thrown;") or ";E%dx" % step not in got:
                    bad("an exception of eval_string is passed on: E%dx" % step, got)
            elif k == "named":
                n = src.choice(named)[0]
                got = do("named", n)
                if ok[n] is None:
                    compile_failed(got, None)
                    failed = True
                else:
                    if got != "ok;;0":
                        bad("%s compiles" % n, got)
                    live[n] = ok[n]
            elif k == "iso":
                got = do("iso", dirn, os.path.join(build.REPO, "lib/SPVM"))
                if got != "ok":
                    bad("P33Iso compiles with a compiler of its own", got)
                isos.append([0, set()])
            elif k == "isocompile":
                i = src.below(len(isos))
                n = src.choice(named)[0]
                got = do("isocompile", i, n)
                if ok[n] is None:
                    compile_failed(got, None)
                    failed = True
                else:
                    if got != "ok;;0":
                        bad("%s compiles with the other compiler" % n, got)
                    isos[i][1].add(n)
            else:
                i = src.below(len(isos))
                st = isos[i]
                m = src.choice(["add", "add", "str", "by", "sh", "lo", "fl", "dou", "no", "mul", "fail", "arr", "nothing", "named", "none"])
                x = src.int(-100, 100)
                cls, meth, arg = "P33Iso", m, "i"
                if m == "add":
                    st[0] += x
                    e = "ok;Int %d" % st[0]
                elif m == "str":
                    arg, e = "s", "ok;string v%d|%d" % (x, st[0])
                elif m in ("by", "sh"):
                    e = "ok;%s %d" % ({"by": "Byte", "sh": "Short"}[m], x)
                elif m == "lo":
                    e = "ok;Long %d" % (x * 10000000000)
                elif m in ("fl", "dou"):
                    e = "ok;%s %g" % ({"fl": "Float", "dou": "Double"}[m], x / {"fl": 2, "dou": 4}[m])
                elif m == "no":
                    st[0] = x
                    e = "ok;undef"
                elif m == "mul":
                    e = "ok;double[] %g %g" % (x, -x)
                elif m == "fail":
                    e = "thrown;;;ISO%d %%s %%n" % x
                elif m == "arr":
                    arg, e = "a", "ok;int[] %d 2" % (x + st[0])
                elif m == "nothing":
                    e = "ok;undef"
                elif m == "named":
                    cls, meth = src.choice(named)[0], "f"
                    e = "ok;Int %d" % sem.wrap("int", ok[cls](x)) if cls in st[1] else "died"
                else:
                    e = "died"
                # an object made by the other environment and released by this one is counted by both
                skew += m == "str"
                got = do("iso_" + arg, i, cls, meth, {"i": x, "s": "v%d" % x, "a": ("arr", "i", [x, 2])}[arg])
                if x == 0 and m == "mul":
                    got = got.replace("-0", "0")
                if got != e and not (e[:4] in ("died", "thro") and got.startswith(e)):
                    bad("%s->%s(%s) with the other environment is %r" % (cls, meth, x, e), got)
        c = d.call("T", "fini")
        rest = d.done()[0]
        if rest != 4 - skew:
            raise Violation("%d memory blocks remain\n%s" % (rest + skew - 4, "\n".join(log)), "leak")
        return Info(failed and (after or len(isos) > 0), sorted(tags), "; ".join(log)[:300], digest=[tuple(log)], evals=len(log))
    return run


SUITES = [
    Suite("calls", calls("plain"), 2500, 50000, chunk=20),
    Suite("compile", compile_("plain"), 1500, 30000, chunk=20),
    Suite("compile, asan", compile_("asan"), 150, 3000, variants=("asan",), chunk=5),
    Suite("calls, asan", calls("asan"), 400, 8000, variants=("asan",), chunk=10),
]
