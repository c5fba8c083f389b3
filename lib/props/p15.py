import struct
from vt import sem, pbt
from vt.pbt import Suite
from vt.sem import Die, wrap

TITLE = "Method calls pass every argument, default and result unchanged"
RULE = ("One case is 1 to 5 methods with random signatures (class, instance, interface and anonymous methods; 0 to 250 stack slots of arguments of every kind of type, optional ones included; every kind of return type) "
        "and 4 to 12 call statements, calls nested in arguments included; or a chain of recursive calls of a random shape and depth. Non-trivial: at least one call with 3 or more arguments of at least two types, or a recursion deeper than 100.")
ASSUMPTIONS = []

MUL = {"M_1b": ("byte", 1), "M_2i": ("int", 2), "M_3d": ("double", 3), "M_4f": ("float", 4), "M_2l": ("long", 2), "M_3s": ("short", 3)}
OBJ = ["string", "object", "int[]", "string[]", "N"]
REFS = ["int*", "double*", "byte*", "long*", "M_2i*"]
NUM = list(sem.NUM)
FIXED = [(n, "class %s : mulnum_t {\n%s\n}" % (n, "\n".join("  has f%d : %s;" % (i, t) for i in range(k)))) for n, (t, k) in MUL.items()] + [
    ("N", "class N : public { has v : public int; static method make : N ($v : int) { my $s = new N; $s->{v} = $v; return $s; } }")]
USES = "use VT; " + " ".join("use %s;" % n for n, _ in FIXED)


def draw(src, t):
    if t in MUL:
        e, k = MUL[t]
        return tuple(draw(src, e) for _ in range(k))
    if t in ("float", "double"):
        return src.int(-4000, 4000) / 8.0
    if t in NUM:
        b = sem.BITS[t] if t in sem.BITS else 32
        return src.choice([src.int(-100, 100), -(1 << (b - 1)), (1 << (b - 1)) - 1, src.int(-(1 << (b - 1)), (1 << (b - 1)) - 1)])
    return None


def lit(t, v):
    if t == "long":
        return "%dL" % v
    if t == "float":
        return "%rf" % v
    if t == "double":
        return repr(v)
    return "(%s)%d" % (t, v) if t in ("byte", "short") else "%d" % v


def rec(t, v):
    return ("f", sem.bits32(v)) if t == "float" else ("d", sem.bits64(v)) if t == "double" else v


def tr(t, e):
    return "VT->%s(%s);" % ({"float": "f", "double": "d"}.get(t, "i"), e)


class M:
    pass


def signature(src, i, kind):
    m = M()
    m.i, m.kind = i, kind
    m.name = "m%d" % i
    big = src.chance(1, 10)
    n = src.int(30, 240) if big else src.int(0, 9)
    m.params = []
    width = 1 if kind != "static" else 0
    pool = src.choice([["num"], ["num", "obj"], ["num", "obj", "mul"], ["num", "obj", "mul", "ref"], ["mul", "num"], ["obj"]])
    for k in range(n):
        c = src.choice(pool)
        t = src.choice(NUM) if c == "num" else src.choice(OBJ) if c == "obj" else src.choice(sorted(MUL)) if c == "mul" else src.choice(REFS)
        w = MUL[t][1] if t in MUL else 1
        if width + w > 255:
            break
        width += w
        m.params.append([t, None])
    k = src.int(0, len(m.params)) if src.chance(1, 2) else len(m.params)
    while k < len(m.params) and all(p[0] in NUM or p[0] in OBJ for p in m.params[k:]) is False:
        k += 1
    for p in m.params[k:]:
        p[1] = ("undef",) if p[0] in OBJ else ("num", draw(src, p[0]))
    m.ret = src.choice(["void"] + NUM + OBJ + sorted(MUL))
    cand = [j for j, p in enumerate(m.params) if p[0] == m.ret]
    m.retarg = src.choice(cand) if cand and src.chance(3, 4) else None
    m.retval = draw(src, m.ret) if m.ret in NUM or m.ret in MUL else None
    m.full = width
    return m


def emit_method(m, pre, name=None):
    ps = ", ".join("$p%d : %s%s" % (j, t, "" if d is None else " = undef" if d[0] == "undef" else " = " + default(t, d[1])) for j, (t, d) in enumerate(m.params))
    L = ["VT->i(%d); VT->i(args_width);" % (5000 + m.i)]
    for j, (t, d) in enumerate(m.params):
        L += show("$p%d" % j, t)
        # a parameter is the method's own variable; a reference is the caller's
        if t in NUM:
            L.append("$p%d = (%s)77;" % (j, t)) if j != m.retarg else None
        elif t in OBJ:
            L.append("$p%d = undef;" % j) if j != m.retarg else None
        elif t in MUL:
            L.append("$p%d->{f0} = (%s)77;" % (j, MUL[t][0])) if j != m.retarg else None
        elif t == "M_2i*":
            L.append("$p%d->{f1} += 3;" % j)
        else:
            L.append("$$p%d += (%s)1;" % (j, t[:-1])) if t != "byte*" else L.append("$$p%d = (byte)($$p%d + 1);" % (j, j))
    if m.ret != "void":
        if m.retarg is not None:
            L.append("return $p%d;" % m.retarg)
        elif m.ret in NUM:
            L.append("return %s;" % lit(m.ret, m.retval))
        elif m.ret in MUL:
            L.append("my $r : %s;" % m.ret)
            L += ["$r->{f%d} = %s;" % (k, lit(MUL[m.ret][0], x)) for k, x in enumerate(m.retval)]
            L.append("return $r;")
        else:
            L.append({"string": 'return "r%d";' % m.i, "object": "return undef;", "int[]": "return [%d, 2];" % m.i, "string[]": 'return ["q"];', "N": "return N->make(%d);" % m.i}[m.ret])
    head = "%smethod %s : %s (%s)" % ("static " if m.kind == "static" else "", m.name if name is None else name, m.ret, ps)
    return ("precompile " if pre else "") + head + " {\n" + "\n".join("      " + l for l in L) + "\n    }"


def default(t, v):
    return "%d" % v if t in ("byte", "short", "int") else lit(t, v)


def show(e, t):
    if t in NUM:
        return [tr(t, e)]
    if t in MUL:
        return [tr(MUL[t][0], "%s->{f%d}" % (e, k)) for k in range(MUL[t][1])]
    if t == "M_2i*":
        return ["VT->i(%s->{f0}); VT->i(%s->{f1});" % (e, e)]
    if t.endswith("*"):
        return [tr(t[:-1], "$" + e)]
    if t == "N":
        return ["if (%s) { VT->i(%s->{v}); } else { VT->i(-1); }" % (e, e)]
    if t == "object":
        return ["if (%s isa N) { VT->i(((N)%s)->{v}); } else { VT->o(%s); }" % (e, e, e)]
    return ["VT->o(%s);" % e]


def seen(t, v):
    if t in NUM:
        return [rec(t, v)]
    if t in MUL:
        return [rec(MUL[t][0], x) for x in v]
    if t == "N":
        return [-1 if v is None else v[1]]
    if t == "object" and isinstance(v, tuple) and v[0] == "N":
        return [v[1]]
    if v is None:
        return [None]
    if isinstance(v, bytes):
        return [v]
    if v[0] == "ia":
        return [("N", "int[]", struct.pack("<%di" % len(v[1]), *v[1]))]
    return [("A", "string[]", list(v[1]))]


OVALS = [("string", '"abc"', b"abc"), ("string", '""', b""), ("string", '"x" . 1', b"x1"), ("int[]", "[1, 2, 3]", ("ia", [1, 2, 3])), ("int[]", "new int[0]", ("ia", [])), ("string[]", '["a", "b"]', ("sa", [b"a", b"b"])),
         ("N", "N->make(4)", ("N", 4)), ("N", "N->make(-9)", ("N", -9))]
for _t in OBJ:
    OVALS.append((_t, "undef", None))


class Caller:
    """the variables of the calling method and their model values"""

    def __init__(self, src, methods):
        self.src, self.ms = src, methods
        self.decl, self.v = [], {}
        self.T = []
        self.n = 0

    def var(self, t):
        n = "$v%d" % self.n
        self.n += 1
        src = self.src
        if t in NUM:
            v = draw(src, t)
            self.decl.append("my %s : %s = %s;" % (n, t, lit(t, v)))
        else:
            v = draw(src, t)
            self.decl.append("my %s : %s;" % (n, t))
            self.decl += ["%s->{f%d} = %s;" % (n, k, lit(MUL[t][0], x)) for k, x in enumerate(v)]
        self.v[n] = [t, v]
        return n

    def arg(self, t, depth):
        """(text, function that evaluates it: -> value) for a parameter of type t"""
        src = self.src
        if t.endswith("*"):
            n = self.var(t[:-1])
            return "\\" + n, lambda: n
        if depth < 2 and src.chance(1, 5):
            ms = [m for m in self.ms if m.ret == t and len(m.params) < 12]
            if t in NUM:
                ms += [m for m in self.ms if m.ret in NUM and NUM.index(m.ret) < NUM.index(t) and len(m.params) < 12]
            if ms:
                m = src.choice(ms)
                text, ev = self.call(m, depth + 1)
                return text, lambda: sem.conv(m.ret, t, ev()) if t in NUM and m.ret != t else ev()
        if t in NUM:
            u = src.choice(NUM[:NUM.index(t) + 1])
            k = src.below(3)
            if k == 0:
                n = self.var(u)
                return n, lambda: sem.conv(u, t, self.v[n][1]) if u != t else self.v[n][1]
            v = draw(src, t)
            if k == 1:
                return lit(t, v), lambda: v
            n = self.var(t)
            return "%s + %s" % (n, lit(t, 1)) if t not in ("byte", "short") else n, (lambda: arith1(t, self.v[n][1])) if t not in ("byte", "short") else lambda: self.v[n][1]
        if t in MUL:
            n = self.var(t)
            return n, lambda: self.v[n][1]
        o = [x for x in OVALS if x[0] == t or t == "object"]
        _, e, v = src.choice(o)
        return e, lambda: v

    def call(self, m, depth):
        src = self.src
        req = sum(1 for t, d in m.params if d is None)
        n = src.int(req, len(m.params))
        args = [self.arg(t, depth) for t, d in m.params[:n]]
        inv = {"static": ["K->" + m.name], "inst": ["$k->" + m.name, "$k->K::" + m.name], "iface": ["$if%d->%s" % (m.i, m.name)], "anon": ["$cb%d->" % m.i]}[m.kind]
        a = ", ".join(x for x, _ in args)
        text = src.choice(inv) + ("(%s)" % a if a or m.kind == "anon" or src.chance(1, 2) else "")

        def ev():
            vals = [f() for _, f in args]
            return self.run(m, vals, n)
        return text, ev

    def run(self, m, vals, n):
        T = self.T
        T.append(5000 + m.i)
        T.append(sum(MUL[t][1] if t in MUL else 1 for t, d in m.params[:n]) + (m.kind != "static"))
        ret = m.retval
        if m.ret in OBJ:
            ret = {"string": b"r%d" % m.i, "object": None, "int[]": ("ia", [m.i, 2]), "string[]": ("sa", [b"q"]), "N": ("N", m.i)}[m.ret]
        for j, (t, d) in enumerate(m.params):
            x = vals[j] if j < n else None if d[0] == "undef" else d[1]
            if t.endswith("*"):
                c = self.v[x]
                T += seen(c[0], c[1])
                if t == "M_2i*":
                    c[1] = (c[1][0], wrap("int", c[1][1] + 3))
                else:
                    c[1] = c[1] + 1 if c[0] == "double" else wrap(c[0], c[1] + 1)
            else:
                T += seen(t, x)
            if j == m.retarg:
                ret = x
        return ret


def arith1(t, v):
    return v + 1 if t == "double" else sem.conv("double", "float", v + 1) if t == "float" else wrap(t, v + 1)


def calls(pre, variant):
    def case(src, ctx):
        n = src.int(1, 5)
        ms = [signature(src, i, src.choice(["static", "inst", "iface", "anon"])) for i in range(n)]
        c = Caller(src, ms)
        body, tags, big = [], set(), False
        for _ in range(src.int(4, 12)):
            m = src.choice(ms)
            c.decl = []
            text, ev = c.call(m, 0)
            body += c.decl
            before = len(c.T)
            r = ev()
            tags.add(m.kind)
            if m.ret == "void":
                body.append(text + ";")
            else:
                k = "$r%d" % len(body)
                body.append("my %s = %s;" % (k, text))
                body += show(k, m.ret)
                c.T += seen(m.ret, r)
            for x in sorted(c.v):
                if c.v[x][0] in MUL or len(c.v) < 30:
                    body += show(x, c.v[x][0])
                    c.T += seen(*c.v[x])
            big = big or (len(m.params) > 2 and len({t for t, d in m.params}) > 1)
            if m.full > 60:
                tags.add("over 60 slots")
        pm = lambda: pre and src.chance(1, 2)
        K = ["class K : public {", "  " + USES, "  static method new : K () { return new K; }"] + ["    " + emit_method(m, pm()) for m in ms if m.kind == "inst" or m.kind == "static"] + ["}"]
        cs = [("K", "\n".join(K))]
        head = ["my $k = K->new;"]
        uses = "use K; "
        for m in ms:
            if m.kind == "iface":
                ps = ", ".join("$p%d : %s%s" % (j, t, "" if d is None else " = undef" if d[0] == "undef" else " = " + default(t, d[1])) for j, (t, d) in enumerate(m.params))
                cs.append(("I%d" % m.i, "class I%d : interface_t {\n  %s\n  required method %s : %s (%s);\n}" % (m.i, USES, m.name, m.ret, ps)))
                cs.append(("KI%d" % m.i, "class KI%d : public {\n  %s use I%d; interface I%d;\n    %s\n}" % (m.i, USES, m.i, m.i, emit_method(m, pm()))))
                uses += "use I%d; use KI%d; " % (m.i, m.i)
                head.append("my $if%d : I%d = new KI%d;" % (m.i, m.i, m.i))
            elif m.kind == "anon":
                head.append("my $cb%d = %s;" % (m.i, emit_method(m, False, "").replace("method  :", "method :")))
        t = "class T {\n  %s%s\n  %sstatic method main : void () {\n%s\n  }\n}" % (USES, uses, "precompile " if pre and src.chance(1, 2) else "", "\n".join("    " + l for l in head + body))
        classes = [("T", t)] + cs + FIXED
        d = ctx.drv(variant)
        r = d.precompiled(ctx.infos[variant], classes, ["T"] + [x for x, _ in cs if not x.startswith("I")], ctx.scratch(), opt="-O1") if pre else d.program(classes)
        whole = "\n".join([t] + [x for _, x in cs])
        if r.code:
            raise pbt.Violation("rejected: %s\n%s" % (r.errors, whole), "rejected")
        cr = d.call("T", "main")
        if cr.status != "ok" or cr.leak:
            raise pbt.Violation("the calls ended with %s %r, leak %r\n%s" % (cr.status, cr.msg, cr.leak, whole), "end")
        if cr.trace != c.T:
            i = next((i for i, (x, y) in enumerate(zip(cr.trace, c.T)) if x != y), min(len(c.T), len(cr.trace)))
            raise pbt.Violation("record %d: expected %r, got %r (before: %r)\n%s" % (i, c.T[i:i + 4], cr.trace[i:i + 4], c.T[max(0, i - 4):i], whole), "calls")
        return pbt.Info(big, sorted(tags), "\n".join(body[:4])[:600], digest=whole, evals=len(body))
    return case


# ---------------------------------------------------------------- recursion
def recursion(pre, variant):
    def case(src, ctx):
        k = src.int(1, 4)
        ms = []
        for i in range(k):
            ms.append((src.choice(["static", "inst", "iface", "super", "anon"]), src.int(0, 9), src.chance(1, 2)))
        L = []
        for i, (kind, add, ev) in enumerate(ms):
            j = (i + 1) % k
            nk = ms[j][0]
            call = {"static": "&r%d($n - 1, $o)", "inst": "$o->r%d($n - 1, $o)", "super": "$o->R::r%d($n - 1, $o)", "iface": "((RI)$o)->r%d($n - 1, $o)", "anon": "$o->{cb%d}->($n - 1, $o)"}[nk] % j
            b = "if ($n <= 0) { if ($n < 0) { die \"bottom\"; } return 0; } my $x = $n * 2;"
            b += " my $r = %s;" % call
            b += " if ($x != $n * 2) { VT->i(-999); } return $r + %d;" % (add + 1)
            ms[i] = (kind, add, b)
        attr = lambda: "precompile " if pre and src.chance(1, 2) else ""
        for i, (kind, add, b) in enumerate(ms):
            if kind != "anon":
                L.append("  %s%smethod r%d : int ($n : int, $o : R) { %s }" % (attr(), "static " if kind == "static" else "", i, b))
            else:
                L.append("  has cb%d : public RC;" % i)
        init = ["$o->{cb%d} = method : int ($n : int, $o : R) { %s };" % (i, b.replace("&r", "R->r")) for i, (kind, add, b) in enumerate(ms) if kind == "anon"]
        R = "class R : public {\n  use VT; use RC; use RI;\n%s\n  static method make : R () { my $o = new R; %s return $o; }\n}" % ("\n".join(L), " ".join(init))
        RC = "class RC : interface_t { use R; required method  : int ($n : int, $o : R); }".replace("method  :", "method :")
        RI = "class RI : interface_t { use R; %s }" % " ".join("method r%d : int ($n : int, $o : R);" % i for i, (kind, _, _) in enumerate(ms) if kind == "iface")
        if "method" not in RI:
            RI = "class RI : interface_t { use R; method nothing : int (); }"
        start = {"static": "R->r0(%s, $o)", "inst": "$o->r0(%s, $o)", "super": "$o->R::r0(%s, $o)", "iface": "((RI)$o)->r0(%s, $o)", "anon": "$o->{cb0}->(%s, $o)"}[ms[0][0]]
        calls_, exp = [], []
        deep = 0
        for _ in range(src.int(1, 8)):
            n = src.choice([src.int(0, 30), src.int(900, 990), src.int(990, 1010), src.int(1000, 1100), src.int(1100, 5000)])
            times = src.int(1, 40) if n > 1010 else 1
            calls_.append("for (my $q = 0; $q < %d; $q++) { my $r = -1; eval { $r = %s; }; VT->i($r); VT->i($@ isa string && Fn->contains($@, \"recursion\")); }" % (times, start % n))
            # main is at depth 1, the first call at depth 2, n = 0 is one call
            ok = n + 2 <= 1000
            s = sum(ms[i % k][1] + 1 for i in range(n))
            exp += ([s, 0] if ok else [-1, 1]) * times
            deep = max(deep, n)
        t = "class T {\n  use VT; use R; use RC; use RI; use Fn;\n  %sstatic method main : void () {\n    my $o = R->make;\n%s\n%s  }\n}" % (attr(), "\n".join("    " + c for c in calls_), "".join("    $o->{cb%d} = undef;\n" % i for i, m in enumerate(ms) if m[0] == "anon"))
        classes = [("T", t), ("R", R), ("RC", RC), ("RI", RI)]
        d = ctx.drv(variant)
        r = d.precompiled(ctx.infos[variant], classes, ["T", "R"], ctx.scratch(), opt="-O1") if pre else d.program(classes)
        whole = t + "\n" + R
        if r.code:
            raise pbt.Violation("rejected: %s\n%s" % (r.errors, whole), "rejected")
        cr = d.call("T", "main")
        if cr.status != "ok" or cr.leak:
            raise pbt.Violation("the calls ended with %s %r, leak %r\n%s" % (cr.status, cr.msg, cr.leak, whole), "end")
        if cr.trace != exp:
            i = next((i for i, (x, y) in enumerate(zip(cr.trace, exp)) if x != y), min(len(exp), len(cr.trace)))
            raise pbt.Violation("record %d: expected %r, got %r\n%s" % (i, exp[i:i + 4], cr.trace[i:i + 4], whole), "recursion")
        return pbt.Info(deep > 100, ["recursion"] + [m[0] for m in ms], "\n".join(calls_[:3]), digest=whole, evals=len(exp))
    return case


SUITES = [
    Suite("calls", calls(False, "plain"), 900, 60000, chunk=25),
    Suite("calls, precompiled", calls(True, "plain"), 80, 2000, chunk=5),
    Suite("calls, asan", calls(False, "asan"), 200, 6000, variants=("asan",), chunk=10),
    Suite("recursion", recursion(False, "plain"), 600, 20000, chunk=20),
    Suite("recursion, precompiled", recursion(True, "plain"), 60, 1200, chunk=5),
]
META = dict(
    statement="For every method signature and every call of it: the method sees exactly the values of the arguments (numbers converted to the parameter types, multi-numeric values copied field by field, objects and references by identity), omitted optional arguments have their default values, args_width is the number of stack slots passed, and the caller gets the returned value; assigning to a parameter never changes the caller's variable, writing through a reference does, and no local variable, argument or temporary of the caller is changed by nested or recursive calls. A chain of calls deeper than 1000 raises an exception that can be caught, any number of times, and leaves the call depth as it was.",
    over=["inputs", "histories"], quant="all signatures (any mix of types, up to 255 argument slots), all argument lists, all shapes and depths of recursion; class, instance, interface and anonymous methods, interpreted or precompiled",
    why="tests call methods of few fixed signatures; arguments share one stack and registers are allocated per type, so that mistakes show only with particular mixes, widths, nestings or depths",
    files=["lib/SPVM/Builder/src/spvm_api.c", "lib/SPVM/Builder/src/spvm_vm.c", "lib/SPVM/Builder/src/spvm_opcode_builder.c", "lib/SPVM/Builder/src/spvm_precompile.c", "lib/SPVM/Builder/src/spvm_check.c"],
    mech=[("call_method_common: defaults, depth limit, checks", "lib/SPVM/Builder/src/spvm_api.c"), ("GET_STACK and RETURN operations", "lib/SPVM/Builder/src/spvm_vm.c"), ("pushing of arguments", "lib/SPVM/Builder/src/spvm_opcode_builder.c"), ("generated C code of calls", "lib/SPVM/Builder/src/spvm_precompile.c")],
    observe=["trace of every argument inside the method, of args_width, of every result, of the caller's variables after the call, and of the exceptions of too deep recursion"],
    technique="property-based testing: generated signatures and call trees against a model of argument passing",
    note="Random signatures and nested calls with a reference model; recursion of random shapes around the limit of 1000; interpreted, precompiled, address sanitizer.")
