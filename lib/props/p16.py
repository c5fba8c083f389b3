"""P16: references and multi-numeric values."""
from vt import pbt, sem, lang, prog
from vt.pbt import Suite

TITLE = "References alias one variable and multi-numeric values are copied as a whole"
RULE = ("One case is a class of up to 5 methods with 4 to 14 statements each over local variables of all numeric types, multi-numeric values, references to both, and multi-numeric arrays: aliasing, re-pointing, "
        "reads and writes through references, copies of multi-numeric values between variables, references, array elements, arguments and results, changes made before an exception, loops and blocks. "
        "Non-trivial: at least one value written through a reference is read by another name.")
ASSUMPTIONS = ["a reference never outlives the scope of its variable in the generated programs"]

NUM = list(sem.NUM)
SUF = {"byte": "b", "short": "s", "int": "i", "long": "l", "float": "f", "double": "d"}
FLD = ["x", "y", "z", "w"]


class Cell:
    __slots__ = ("v", "wr")

    def __init__(self, v):
        self.v, self.wr = v, None


class Boom(Exception):
    pass


class Gen:
    def __init__(self, src):
        self.src = src
        self.mul = {}
        self.nums = [src.choice(NUM) for _ in range(src.int(1, 3))]
        for _ in range(src.int(1, 2)):
            t, k = src.choice(self.nums), src.int(1, 4)
            self.mul["M_%d%s" % (k, SUF[t])] = (t, k)
        self.nv = 0
        self.meths = []
        self.trace = []
        self.tags = set()
        self.fuel = 4000

    # types
    def numt(self):
        return self.src.choice(self.nums)

    def value_type(self):
        return self.src.choice(list(self.mul)) if self.src.chance(2, 5) else self.numt()

    def zero(self, t):
        if t in self.mul:
            return [self.zero(self.mul[t][0])] * self.mul[t][1]
        return 0.0 if t in ("float", "double") else 0

    def copy(self, v):
        return list(v) if isinstance(v, list) else v

    # scopes
    def new(self, t):
        self.nv += 1
        n = "v%d" % self.nv
        self.scopes[-1].append((n, t))
        return n

    def vars(self, pred):
        return [(n, t, d) for d, s in enumerate(self.scopes) for n, t in s if pred(t)]

    def cell(self, env, n, deref):
        c = env[n]
        return c.v if deref else c

    # places: (text, get(env), set(env, v)) of a numeric type t
    def places(self, t):
        out = []
        for n, vt, d in self.vars(lambda x: True):
            base, ref, arr = vt.rstrip("*[]"), vt.endswith("*"), vt.endswith("[]")
            if base == t and not arr:
                out.append(("$$%s" % n if ref else "$" + n, n, ref, None, None))
            elif base in self.mul and self.mul[base][0] == t:
                out.append((None, n, ref, base, arr))
        return out

    def place(self, t):
        ps = self.places(t)
        if not ps:
            return None
        text, n, ref, base, arr = self.src.choice(ps)
        if base is None:
            def get(env):
                c = self.cell(env, n, ref)
                self.look(c, n, ref)
                return c.v

            def put(env, v):
                c = self.cell(env, n, ref)
                c.v = v
                c.wr = (n, ref)
            return text, get, put
        k = self.src.below(self.mul[base][1])
        if arr:
            i = self.src.below(3)

            def geta(env):
                return env[n].v[i][k]

            def puta(env, v):
                env[n].v[i][k] = v
            return "$%s->[%d]{%s}" % (n, i, FLD[k]), geta, puta

        def getm(env):
            c = self.cell(env, n, ref)
            self.look(c, n, ref)
            return c.v[k]

        def putm(env, v):
            c = self.cell(env, n, ref)
            c.v = c.v[:k] + [v] + c.v[k + 1:]
            c.wr = (n, ref)
        return "$%s->{%s}" % (n, FLD[k]), getm, putm

    def look(self, c, n, ref):
        if c.wr and c.wr != (n, ref) and (c.wr[1] or ref):
            self.tags.add("seen by another name")

    def lit(self, t):
        if t in ("float", "double"):
            v = self.src.int(-200, 200) / 4.0
            return ("(%s%s)" % ("-" if v < 0 else "", sem.flit(t, abs(v)))), lambda env: v
        v = sem.draw_num(self.src, t)
        if t == "long":
            if v == -(1 << 63):
                v += 1
            return "(%dL)" % v, lambda env: v
        if v == -(1 << 31):
            v += 1
        return ("(%d)" if t == "int" else "((%s)%%d)" % t) % v, lambda env: v

    def expr(self, t, depth=2):
        k = self.src.int(0, 5)
        if k <= 2:
            p = self.place(t)
            if p:
                return p[0], p[1]
        if k <= 4 and depth:
            a, b = self.numt(), self.numt()
            if t in sem.BITS:
                a, b = [x if x in sem.BITS else t for x in (a, b)]
            ta, fa = self.expr(a, depth - 1)
            tb, fb = self.expr(b, depth - 1)
            op = self.src.choice("+-*" if t in sem.BITS else "+-")
            bt = sem.bin_type(a, b)

            def f(env):
                return sem.conv(bt, t, sem.arith(op, bt, sem.conv(a, bt, fa(env)), sem.conv(b, bt, fb(env))))
            return "(%s)(%s %s %s)" % (t, ta, op, tb), f
        return self.lit(t)

    # multi-numeric values: (text, get(env))
    def mplaces(self, t):
        return [(n, vt.endswith("*"), vt.endswith("[]")) for n, vt, d in self.vars(lambda x: x.rstrip("*[]") == t)]

    def mplace(self, t):
        ps = self.mplaces(t)
        if not ps:
            return None
        n, ref, arr = self.src.choice(ps)
        if arr:
            i = self.src.below(3)
            return "$%s->[%d]" % (n, i), (lambda env: list(env[n].v[i])), (lambda env, v: env[n].v.__setitem__(i, list(v)))

        def get(env):
            c = self.cell(env, n, ref)
            self.look(c, n, ref)
            return list(c.v)

        def put(env, v):
            c = self.cell(env, n, ref)
            c.v = list(v)
            c.wr = (n, ref)
        return ("$$" if ref else "$") + n, get, put

    def rv(self, t):
        if t in self.mul:
            p = self.mplace(t)
            return (p[0], p[1]) if p else None
        return self.expr(t)

    def refto(self, t, maxdepth):
        """an expression of the reference type t*"""
        c = [(n, False) for n, vt, d in self.vars(lambda x: x == t) if d <= maxdepth] + [(n, True) for n, vt, d in self.vars(lambda x: x == t + "*") if d <= maxdepth]
        if not c:
            return None
        n, isref = self.src.choice(c)
        return ("$%s" % n, lambda env: env[n].v) if isref else ("\\$%s" % n, lambda env: env[n])

    # statements: list of (lines, fn(env))
    def emit(self, ind, text, fn):
        return (["  " * ind + text], fn)

    def traceit(self, ind):
        t = self.numt()
        p = self.place(t)
        if not p:
            return None
        r = {"float": "f", "double": "d"}.get(t, "i")
        return self.emit(ind, "VT->%s(%s);" % (r, p[0]), lambda env: self.trace.append(sem.rec(t, p[1](env))))

    def stmt(self, ind, depth, kind=None):
        src = self.src
        k = kind or src.weighted([(4, "decl"), (5, "declref"), (8, "assign"), (5, "massign"), (3, "repoint"), (4, "trace"), (3, "call"), (1, "block"), (1, "loop"), (1, "if"), (1, "arr"), (2, "compound"), (2, "incdec"), (1, "eval"), (1, "fresh")])
        if k == "decl":
            t = self.value_type()
            if t in self.mul:
                r = self.rv(t) if src.chance(1, 2) else None
                n = self.new(t)
                if r is None:
                    return self.emit(ind, "my $%s : %s;" % (n, t), lambda env: env.__setitem__(n, Cell(self.zero(t))))
                return self.emit(ind, "my $%s = %s;" % (n, r[0]), lambda env: env.__setitem__(n, Cell(r[1](env))))
            x, f = self.expr(t)
            z = src.chance(1, 5)
            n = self.new(t)
            if z:
                return self.emit(ind, "my $%s : %s;" % (n, t), lambda env: env.__setitem__(n, Cell(self.zero(t))))
            return self.emit(ind, "my $%s : %s = %s;" % (n, t, x), lambda env: env.__setitem__(n, Cell(f(env))))
        if k == "declref":
            t = self.value_type()
            r = self.refto(t, 99)
            if not r:
                return None
            n = self.new(t + "*")
            form = "my $%s = %s;" % (n, r[0]) if src.chance(1, 2) else "my $%s : %s* = %s;" % (n, t, r[0])
            return self.emit(ind, form, lambda env: env.__setitem__(n, Cell(r[1](env))))
        if k == "repoint":
            c = self.vars(lambda x: x.endswith("*"))
            if not c:
                return None
            n, t, d = src.choice(c)
            r = self.refto(t[:-1], d)
            if not r:
                return None

            def rp(env):
                env[n].v = r[1](env)
            return self.emit(ind, "$%s = %s;" % (n, r[0]), rp)
        if k == "assign":
            t = self.numt()
            p = self.place(t)
            if not p:
                return None
            x, f = self.expr(t)
            if src.chance(1, 8):
                q = self.place(t)
                if q:
                    def two(env):
                        v = f(env)
                        q[2](env, v)
                        p[2](env, v)
                    return self.emit(ind, "%s = %s = %s;" % (p[0], q[0], x), two)
            return self.emit(ind, "%s = %s;" % (p[0], x), lambda env: p[2](env, f(env)))
        if k == "compound":
            t = self.numt()
            p = self.place(t)
            if not p:
                return None
            x, f = self.expr(t, 1)
            op = src.choice("+-*" if t in sem.BITS else "+-")
            bt = sem.bin_type(t, t)
            return self.emit(ind, "%s %s= %s;" % (p[0], op, x), lambda env: p[2](env, sem.conv(bt, t, sem.arith(op, bt, p[1](env), f(env)))))
        if k == "incdec":
            t = self.numt()
            p = self.place(t)
            if not p:
                return None
            d = src.choice([1, -1])
            o = "++" if d > 0 else "--"
            bt = sem.bin_type(t, "int")

            def step(env):
                old = p[1](env)
                new = sem.conv(bt, t, sem.arith("+", bt, sem.conv(t, bt, old), sem.conv("int", bt, d)))
                p[2](env, new)
                return old, new
            form = src.int(0, 3)
            if form < 2:
                return self.emit(ind, "%s%s;" % (p[0], o) if form else "%s%s;" % (o, p[0]), step)
            r = {"float": "f", "double": "d"}.get(t, "i")
            return self.emit(ind, "VT->%s(%s);" % (r, p[0] + o if form == 2 else o + p[0]), lambda env: self.trace.append(sem.rec(t, step(env)[form - 2])))
        if k == "massign":
            t = src.choice(list(self.mul))
            p, q = self.mplace(t), self.mplace(t)
            if not p:
                return None
            if "$$" in p[0]:
                self.tags.add("whole value through a reference")
            if src.chance(1, 6):
                z = self.mplace(t)

                def chain(env):
                    v = q[1](env)
                    z[2](env, v)
                    p[2](env, v)
                return self.emit(ind, "%s = %s = %s;" % (p[0], z[0], q[0]), chain)
            return self.emit(ind, "%s = %s;" % (p[0], q[0]), lambda env: p[2](env, q[1](env)))
        if k == "trace":
            return self.traceit(ind)
        if k == "arr":
            t = src.choice(list(self.mul))
            n = self.new(t + "[]")
            return self.emit(ind, "my $%s = new %s[3];" % (n, t), lambda env: env.__setitem__(n, Cell([self.zero(t) for _ in range(3)])))
        if k == "call":
            return self.callit(ind)
        if not depth:
            return None
        if k == "block":
            L, f = self.block(ind + 1, depth - 1, src.int(1, 4))
            return ["  " * ind + "if (1) {"] + L + ["  " * ind + "}"], f
        if k == "if":
            a, b = self.expr("int"), self.expr("int")
            L, f = self.block(ind + 1, depth - 1, src.int(1, 3))
            M, g = self.block(ind + 1, depth - 1, src.int(1, 3))

            def iff(env):
                (f if a[1](env) > b[1](env) else g)(env)
            return ["  " * ind + "if (%s > %s) {" % (a[0], b[0])] + L + ["  " * ind + "}", "  " * ind + "else {"] + M + ["  " * ind + "}"], iff
        if k == "loop":
            self.nv += 1
            n, c = "i%d" % self.nv, src.int(0, 4)
            L, f = self.block(ind + 1, depth - 1, src.int(1, 4))

            def loop(env):
                for _ in range(c):
                    f(env)
            return ["  " * ind + "for (my $%s = 0; $%s < %d; $%s++) {" % (n, n, c, n)] + L + ["  " * ind + "}"], loop
        if k == "fresh":
            # a variable without an initial value in a block that runs again starts from zero each time
            t = src.choice(list(self.mul)) if src.chance(4, 5) else self.numt()
            e, w = self.mul.get(t, (t, 1))
            r = {"float": "f", "double": "d"}.get(e, "i")
            self.nv += 2
            n, i, c = "v%d" % self.nv, "i%d" % (self.nv - 1), src.int(1, 3)
            fs = ["$%s->{%s}" % (n, FLD[j]) for j in range(w)] if t in self.mul else ["$" + n]
            lits = [self.lit(e) for _ in fs]
            j = "  " * ind
            self.tags.add("fresh")
            ref = t in self.mul and src.chance(1, 3)
            L = [j + "for (my $%s = 0; $%s < %d; $%s++) {" % (i, i, c, i), j + "  my $%s : %s;" % (n, t)]
            if ref:
                L.append(j + "  my $%sr = \\$%s;" % (n, n))
            L += [j + "  VT->%s(%s);" % (r, x) for x in fs]
            L += [j + "  %s = %s;" % (x.replace("$" + n, "$%sr" % n) if ref else x, l[0]) for x, l in zip(fs, lits)]
            L += [j + "  VT->%s(%s);" % (r, x) for x in fs] + [j + "}"]

            def fresh(env):
                for _ in range(c):
                    for _ in fs:
                        self.trace.append(sem.rec(e, self.zero(e)))
                    for l in lits:
                        self.trace.append(sem.rec(e, l[1](env)))
            return L, fresh
        if k == "eval":
            L, f = self.block(ind + 1, depth - 1, src.int(1, 4))
            a, b = self.expr("int"), self.expr("int")
            M, g = self.block(ind + 1, depth - 1, src.int(0, 2))
            self.tags.add("eval")

            def ev(env):
                ok = 0
                try:
                    f(env)
                    if a[1](env) < b[1](env):
                        raise Boom
                    g(env)
                except Boom:
                    self.tags.add("caught")
                    ok = 1
                self.trace.append(ok)
            i = "  " * ind
            self.nv += 1
            n = "e%d" % self.nv
            return [i + "my $%s = 1;" % n, i + "eval {"] + L + [i + "  if (%s < %s) { die \"B\"; }" % (a[0], b[0])] + M + [i + "  $%s = 0;" % n, i + "};", i + "VT->i($%s);" % n], ev
        raise AssertionError(k)

    def block(self, ind, depth, n):
        self.scopes.append([])
        L, fs = [], []
        for _ in range(n):
            s = self.stmt(ind, depth)
            if s:
                L += s[0]
                fs.append(s[1])
        self.scopes.pop()

        def run(env):
            self.fuel -= len(fs) + 1
            if self.fuel < 0:
                raise pbt.Discard
            for f in fs:
                f(env)
        return L, run

    def callit(self, ind):
        if not self.meths:
            return None
        name, params, ret, body = self.src.choice(self.meths)
        args = []
        for t in params:
            a = self.refto(t[:-1], 99) if t.endswith("*") else self.rv(t)
            if a is None:
                return None
            args.append((t, a))
        call = "&%s(%s)" % (name, ", ".join(a[0] for t, a in args))
        self.tags.add("call")

        def run(env):
            e = {}
            for i, (t, a) in enumerate(args):
                e["p%d" % i] = Cell(a[1](env))
            self.fuel -= 5
            return body(e)
        if ret == "void":
            return self.emit(ind, call + ";", run)
        if ret in self.mul:
            p = self.mplace(ret)
            if not p:
                return self.emit(ind, call + ";", run)
            return self.emit(ind, "%s = %s;" % (p[0], call), lambda env: p[2](env, run(env)))
        p = self.place(ret)
        # the target is a variable here: an element or a field is addressed after the call
        if not p:
            return self.emit(ind, call + ";", run)
        return self.emit(ind, "%s = %s;" % (p[0], call), lambda env: p[2](env, run(env)))

    def method(self, i, pre):
        src = self.src
        name = "main" if i < 0 else "m%d" % i
        params = [] if i < 0 else [self.value_type() + ("*" if src.chance(1, 2) else "") for _ in range(src.int(1, 4))]
        ret = "int" if i < 0 else src.choice(["void", self.value_type(), self.value_type()])
        self.scopes = [[("p%d" % k, t) for k, t in enumerate(params)]]
        L, fs = [], []
        self.scopes.append([])
        first = ["decl", "declref", "decl", "declref"] if src.chance(3, 4) else []
        for k in first + [None] * (src.int(4, 14) if i >= 0 else src.int(8, 20)):
            s = self.stmt(2, 2, k)
            if s:
                L += s[0]
                fs.append(s[1])
        if i < 0:
            for n, t, d in self.vars(lambda x: x in NUM):
                r = {"float": "f", "double": "d"}.get(t, "i")
                L.append("    VT->%s($%s);" % (r, n))
                fs.append(lambda env, n=n, t=t: self.trace.append(sem.rec(t, env[n].v)))
            for n, t, d in self.vars(lambda x: x in self.mul):
                e, k = self.mul[t]
                r = {"float": "f", "double": "d"}.get(e, "i")
                for j in range(k):
                    L.append("    VT->%s($%s->{%s});" % (r, n, FLD[j]))
                    fs.append(lambda env, n=n, j=j, e=e: self.trace.append(sem.rec(e, env[n].v[j])))
        rt, rf = ("0", lambda env: 0) if i < 0 else (None, None)
        if i >= 0 and ret != "void":
            r = self.rv(ret)
            if r is None:
                ret = "void"
            else:
                rt, rf = r
        if rt is not None:
            L.append("    return %s;" % rt)

        def body(env):
            for f in fs:
                f(env)
            return rf(env) if rf else None
        text = ["  %sstatic method %s : %s (%s) {" % (pre, name, ret, ", ".join("$p%d : %s" % (k, t) for k, t in enumerate(params)))] + L + ["  }"]
        self.meths.append((name, params, ret, body))
        return text, body

    def program(self, pre):
        L = []
        for i in range(self.src.int(0, 4)):
            L += self.method(i, pre)[0]
        t, body = self.method(-1, pre)
        head = ["class T {", "  use VT; " + " ".join("use %s;" % m for m in self.mul)]
        try:
            body({})
            end = "ok"
        except Boom:
            end = "die"
        except sem.UB:
            raise pbt.Discard
        return "\n".join(head + L + t + ["}"]), end


def run(variant, precompile=False):
    def case(src, ctx):
        g = Gen(src)
        text, end = g.program("precompile " if precompile else "")
        classes = [("T", text)] + [(n, "class %s : mulnum_t {\n%s\n}" % (n, "\n".join("  has %s : %s;" % (FLD[i], t) for i in range(k)))) for n, (t, k) in g.mul.items()]
        d = ctx.drv(variant)
        if precompile:
            r = d.precompiled(ctx.infos[variant], classes, ["T"], ctx.scratch())
        else:
            r = d.program(classes)
        where = "precompiled" if precompile else "VM"
        if r.code:
            raise pbt.Violation("%s: a correct program is rejected: %s\n%s" % (where, "; ".join(r.errors[:3]), lang.number(text)), "rejected")
        c = d.call("T", "main")
        want = [x for x in g.trace]
        got = prog.norm_trace(c.trace)
        if c.status != end or not prog.trace_eq(want, got):
            raise pbt.Violation("%s: expected %s, got %s %r; %s\n%s" % (where, end, c.status, c.msg, prog.first_diff(want, got) if not prog.trace_eq(want, got) else "", lang.number(text)), "differs")
        rest = d.done()[0]
        if c.leak or rest != 4:
            raise pbt.Violation("%s: %d memory blocks left by the call, %d at the end\n%s" % (where, c.leak, rest - 4, lang.number(text)), "leak")
        return pbt.Info("seen by another name" in g.tags, sorted(g.tags), text, digest=text)
    return case


SUITES = [
    Suite("plain", run("plain"), 4000, 60000, chunk=50),
    Suite("precompiled", run("plain", True), 400, 10000, chunk=15),
    Suite("asan", run("asan"), 500, 10000, variants=("asan",), chunk=20),
]
META = dict(
    statement="A reference designates exactly one variable: what is written through any of its names, in the same method or in a called one and even if an exception follows, is read through all the others and nothing else changes; a multi-numeric value is copied as a whole by every assignment, argument, result and array element access, and its fields never run into a neighbour.",
    over=["inputs", "histories"], quant="all programs over numeric and multi-numeric variables, references to them and multi-numeric arrays",
    why="the unit tests take one reference to one variable per type; aliased references, references that are re-pointed or passed on, whole multi-numeric values copied between overlapping places and several multi-numeric variables next to each other on the stack are combinations they do not sample",
    files=["lib/SPVM/Builder/src/spvm_opcode_builder.c", "lib/SPVM/Builder/src/spvm_check.c", "lib/SPVM/Builder/src/spvm_vm.c", "lib/SPVM/Builder/src/spvm_precompile.c", "lib/SPVM/Builder/include/spvm_implement.h"],
    mech=[("numeric and multi-numeric dereference", "spvm_opcode_builder.c"), ("stack slots of multi-numeric variables", "spvm_check.c"), ("multi-numeric array elements", "spvm_implement.h")],
    observe=["traced values of all variables", "exceptions caught", "number of live memory blocks"],
    technique="property-based testing of generated programs against a reference interpreter",
    note="Each generated program is executed by a small model with explicit cells and by the VM, as precompiled code and with address sanitizer.")
