"""Generator of well-typed SPVM programs together with their meaning.

Every expression and statement is built as source text and, beside it, a Python closure that says what it does
(from the language documents, not from the implementation).  Running the closures gives the expected trace,
return value, exception message and stack trace of the program."""
import copy as _copy
from . import sem
from .sem import Die, UB, INTS, FLTS, NUM, BITS, SFX
from .pbt import Discard

# precedence, from the lowest
P_ASG, P_LOR, P_LAND, P_BOR, P_BAND, P_EQ, P_REL, P_SH, P_ADD, P_MUL, P_UN, P_INC, P_ARW, P_PRIM = range(14)

M_ELEM_UNDEF = "An array access failed. The array must be defined."
M_ELEM_RANGE = "An array access failed. The index is out of range."
M_FIELD = "An field access failed. The invocant must be defined."
M_CATL = "The left operand of . operator must be defined."
M_CATR = "The right operand of . operator must be defined."
M_CALL = "An instance method call failed. The invocant of the method call for %s#%s method must be defined."
M_LEN = "A new operator to create an array failed. The length must be a non-negative integer."
M_UNBOX = "An unboxing conversion failed. The operand must defined."


class E:
    """Expression: text, precedence, type, meaning; lit: a literal."""
    __slots__ = ("s", "p", "t", "f", "lit")

    def __init__(self, s, p, t, f, lit=False):
        self.s, self.p, self.t, self.f, self.lit = s, p, t, f, lit


def par(e, p):
    return e.s if e.p >= p else "(" + e.s + ")"


class Arr:
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t, self.v = t, v


class Obj:
    __slots__ = ("c", "f")

    def __init__(self, c, f):
        self.c, self.f = c, f


class Box:
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t, self.v = t, v


class Var:
    __slots__ = ("n", "t", "g", "ro")

    def __init__(self, n, t, g=None):
        self.n, self.t = n, t
        self.g = g or n     # alias group
        self.ro = False     # loop counters are not assigned to


class Fr:
    __slots__ = ("v", "line", "m", "eid")

    def __init__(self, m):
        self.v = {}
        self.line = 0
        self.m = m
        self.eid = 0


class St:
    """Interpreter state."""
    def __init__(self, lim=4000):
        self.trace = []
        self.steps = 0
        self.exc = None
        self.lim = lim
        self.cv = {}
        self.depth = 0

    def tick(self):
        self.steps += 1
        if self.steps > self.lim:
            raise Discard("too long")


class Meth:
    def __init__(self, name, ret, params, opt=0, inst=None):
        self.name, self.ret, self.params, self.opt, self.inst = name, ret, params, opt, inst
        self.defaults = []
        self.body = None


# control-flow results of a statement
NEXT, LAST, BREAK = "next", "last", "break"

MULNUMS = {}
for _t in NUM:
    for _n, _fs in ((2, ("x", "y")), (3, ("x", "y", "z"))):
        MULNUMS["V_%d%s" % (_n, SFX[_t])] = (_t, _fs)
BOXES = {"byte": "Byte", "short": "Short", "int": "Int", "long": "Long", "float": "Float", "double": "Double"}
PF = {"b": "byte", "s": "short", "i": "int", "l": "long", "f": "float", "d": "double"}


def default_of(t):
    if t in INTS:
        return 0
    if t in FLTS:
        return 0.0
    if t in MULNUMS:
        return [default_of(MULNUMS[t][0])] * len(MULNUMS[t][1])
    return None


FULL = dict(floats=1, strings=1, arrays=1, objects=1, refs=1, mulnum=1, boxes=1, calls=1, evals=1, loops=1, switch=1, mut=1, order=1,
            depth=3, stmts=6, meths=3, throws=1)


class Gen:
    def __init__(self, src, cfg=None, cls="T"):
        self.src = src
        self.c = dict(FULL)
        if cfg:
            self.c.update(cfg)
        self.cls = cls
        self.S = St()
        self.lines = []
        self.ind = 0
        self.scopes = []
        self.nv = 0
        self.used = set()
        self.mut = set()
        self.meths = []
        self.tags = set()
        self.sw = 0            # enclosing switch blocks, inside the innermost loop or method
        self.loop = 0          # enclosing loops of the statement (0 in a method's top level)
        self.in_eval = 0
        self.cvars = {}
        self.nops = 0
        self.cyc = False        # the program may build reference cycles
        self.precompile = False
        self.ret = None
        self.numt = [t for t in NUM if self.c["floats"] or t in INTS]

    # ---- emission
    def emit(self, s):
        self.lines.append("  " * self.ind + s)
        return len(self.lines)

    def tag(self, t):
        self.tags.add(t)
        self.nops += 1

    # ---- variables
    def newvar(self, t, declare=True):
        self.nv += 1
        v = Var("v%d" % self.nv, t)
        if declare:
            self.scopes[-1].append(v)
        return v

    def vars(self, t=None, pred=None):
        return [v for s in self.scopes for v in s if (t is None or v.t == t) and (pred is None or pred(v))]

    def readable(self, t):
        return [v for v in self.vars(t) if v.g not in self.mut]

    def mutable(self, t):
        if not self.c["mut"]:
            return []
        return [v for v in self.vars(t) if v.g not in self.mut and v.g not in self.used and not v.ro]

    def fresh_stmt(self):
        self.used = set()
        self.mut = set()

    def rdvar(self, v):
        self.used.add(v.g)
        n = v.n
        return E("$" + n, P_PRIM, v.t, lambda fr: fr.v[n])

    # ---- literals
    def lit(self, t, v=None):
        src = self.src
        if v is None:
            v = sem.draw_num(src, t)
        if t in BITS:
            if t == "int":
                s, p = "%d" % v, (P_UN if v < 0 else P_PRIM)
            elif t == "long":
                s, p = "%dL" % v, (P_UN if v < 0 else P_PRIM)
            else:
                s, p = "(%s)%d" % (t, v), P_UN
        else:
            import math
            neg = math.copysign(1, v) < 0
            s = ("-" if neg else "") + sem.flit(t, abs(v))
            p = P_UN if neg else P_PRIM
        return E(s, p, t, lambda fr: v, lit=True)

    # ---- numeric expressions
    def num(self, t, d):
        """An expression whose static type is exactly t."""
        src = self.src
        if d <= 0 or src.chance(1, 5):
            return self.leaf(t, d)
        if t in ("byte", "short"):
            k = src.weighted([(3, 0), (3, 1), (2, 2)])
            if k == 0:
                return self.leaf(t, d)
            if k == 1:
                return self.cast(t, d)
            return self.mutate(t, d)
        opts = [(8, self.binary), (3, self.leaf), (2, self.unary), (2, self.cast), (2, self.mutate)]
        if t == "int":
            opts += [(3, self.compare), (2, self.logic)]
            if self.c["strings"]:
                opts.append((2, self.strcmp))
            if self.c["boxes"]:
                opts.append((1, self.typetest))
        if self.c["order"]:
            opts.append((1, self.seq))
        return src.weighted(opts)(t, d)

    def anynum(self, d, ts=None):
        return self.num(self.src.choice(ts or self.numt), d)

    def seq(self, t, d):
        a = self.traced(self.src.choice(self.numt), d - 1)
        b = self.num(t, d - 1)
        self.tag("seq")

        def f(fr):
            a.f(fr)
            return b.f(fr)
        return E("(%s, %s)" % (a.s, b.s), P_PRIM, t, f)

    def traced(self, t, d):
        """tr_<t>(e): records e and returns it - makes the order of evaluation visible."""
        e = self.num(t, d)
        S = self.S

        def f(fr):
            v = e.f(fr)
            S.trace.append(sem.rec(t, v))
            return v
        self.tag("traced")
        return E("&tr_%s(%s)" % (t, e.s), P_ARW, t, f)

    def binary(self, t, d):
        src = self.src
        ops = ["+", "-", "*", "/"]
        if t in BITS:
            ops += ["%", "&", "|", "^", "<<", ">>", ">>>", "div_u%s" % t, "mod_u%s" % t]
        op = src.choice(ops)
        self.tag("op" + op)
        if op in ("<<", ">>", ">>>"):
            a = self.num(src.choice(["byte", "short", "int"] if t == "int" else ["long"]), d - 1)
            w = BITS[t]
            if src.chance(1, 2):
                n = src.below(w)
                b = self.lit("int", n)
            else:
                x = self.num(src.choice(["int", "byte", "short"]), d - 1)
                b = E("(%s & %d)" % (par(x, P_BAND), w - 1), P_PRIM, "int", (lambda fr, f=x.f, m=w - 1: f(fr) & m))
            af, bf = a.f, b.f
            return E("%s %s %s" % (par(a, P_SH), op, par(b, P_SH + 1)), P_SH, t, lambda fr: sem.shift(op, t, af(fr), bf(fr)))
        if op.startswith(("div_", "mod_")):
            ta = tb = t
        else:
            other = [u for u in self.numt if sem.bin_type(u, t) == t]
            strict = [u for u in other if sem.promote(u) == t]
            ta, tb = src.choice(strict), src.choice(other)
            if src.chance(1, 2):
                ta, tb = tb, ta
        a, b = self.num(ta, d - 1), self.num(tb, d - 1)
        if op in ("/", "%", "div_u" + t, "mod_u" + t) and t in BITS and not (self.c["throws"] and src.chance(1, 12)):
            # mostly a divisor that is not zero
            v = sem.draw_num(src, tb)
            b = self.lit(tb, v if v != 0 else 3)
        p = {"+": P_ADD, "-": P_ADD, "&": P_BAND, "|": P_BOR, "^": P_BOR}.get(op, P_MUL)
        af, bf = a.f, b.f
        conv = sem.conv

        def f(fr):
            x = af(fr)
            y = bf(fr)
            return sem.arith(op, t, conv(ta, t, x), conv(tb, t, y))
        return E("%s %s %s" % (par(a, p), op, par(b, p + 1)), p, t, f)

    def unary(self, t, d):
        src = self.src
        op = src.choice(["-", "+", "~"] if t in BITS else ["-", "+"])
        ta = src.choice([u for u in self.numt if sem.promote(u) == t])
        e = self.num(ta, d - 1)
        s = par(e, P_UN)
        if s[0] in "+-":
            s = "(" + e.s + ")"
        self.tag("un" + op)
        ef = e.f
        if op == "-":
            f = (lambda fr: sem.wrap(t, -ef(fr))) if t in BITS else (lambda fr: -ef(fr))
        elif op == "~":
            f = lambda fr: ~ef(fr)
        else:
            f = ef
        return E(op + s, P_UN, t, f)

    def cast(self, t, d):
        src = self.src
        ta = src.choice(self.numt)
        e = self.num(ta, d - 1)
        self.tag("cast_%s_%s" % (ta, t))
        ef = e.f
        if ta in FLTS and t in BITS:
            # out of range is undefined in C: through a helper that guards the range
            def f(fr):
                v = ef(fr)
                return sem.conv(ta, t, v) if -100.0 < v < 100.0 else 7
            return E("&cv_%s_%s(%s)" % (ta, t, e.s), P_ARW, t, f)
        f = lambda fr: sem.conv(ta, t, ef(fr))
        if e.p >= P_ARW and not e.lit and src.chance(1, 3):
            return E("%s->(%s)" % (e.s, t), P_ARW, t, f)
        return E("(%s)%s" % (t, par(e, P_UN)), P_UN, t, f)

    def compare(self, t, d):
        src = self.src
        op = src.choice(["==", "!=", "<", "<=", ">", ">=", "<=>"])
        ta, tb = src.choice(self.numt), src.choice(self.numt)
        a = self.num(ta, d - 1)
        b = self.num(tb, d - 1)
        u = sem.bin_type(ta, tb)
        p = P_EQ if op in ("==", "!=") else P_REL
        self.tag("cmp%s_%s" % (op, u))
        af, bf = a.f, b.f

        def f(fr):
            x = af(fr)
            y = bf(fr)
            return sem.compare(op, sem.conv(ta, u, x), sem.conv(tb, u, y))
        return E("%s %s %s" % (par(a, p + 1), op, par(b, p + 1)), p, "int", f)

    def cond(self, d):
        """(E, truth function of a frame) for a condition: any type that has a truth value."""
        src = self.src
        k = src.weighted([(5, 0), (2, 1), (1, 2), (1, 3)])
        if k == 2 and self.c["strings"]:
            e = self.string(d - 1) if src.chance(3, 4) else E("undef", P_PRIM, "string", lambda fr: None)
        elif k == 3 and self.c["objects"]:
            vs = self.readable("P")
            e = self.rdvar(src.choice(vs)) if vs else self.num("int", d)
        elif k == 1:
            e = self.anynum(d)
        else:
            e = self.num("int", d)
        t, ef = e.t, e.f
        return e, (lambda fr: sem.truth(t, ef(fr)))

    def logic(self, t, d):
        src = self.src
        op = src.choice(["&&", "||", "!"])
        a, af = self.cond(d - 1)
        self.tag("logic" + op)
        if op == "!":
            return E("!" + par(a, P_UN), P_UN, "int", lambda fr: int(not af(fr)))
        b, bf = self.cond(d - 1)
        if op == "&&":
            def f(fr):
                x = af(fr)
                return bf(fr) if x else 0
            return E("%s && %s" % (par(a, P_LAND), par(b, P_LAND + 1)), P_LAND, "int", f)

        def f(fr):
            x = af(fr)
            return x if x else bf(fr)
        return E("%s || %s" % (par(a, P_LOR), par(b, P_LOR + 1)), P_LOR, "int", f)

    def strcmp(self, t, d):
        op = self.src.choice(["eq", "ne", "gt", "ge", "lt", "le", "cmp"])
        a, b = self.string(d - 1, undef=True), self.string(d - 1, undef=True)
        p = P_EQ if op in ("eq", "ne") else P_REL
        self.tag("s" + op)
        af, bf = a.f, b.f

        def f(fr):
            x = af(fr)
            return sem.scmp(op, x, bf(fr))
        return E("%s %s %s" % (par(a, p + 1), op, par(b, p + 1)), p, "int", f)

    def typetest(self, t, d):
        """isa / is_type on an object of known dynamic type."""
        src = self.src
        o = self.anyobj(d - 1)
        ty = src.choice(["Int", "Long", "Double", "string", "int[]", "byte[]", "P", "string[]", "Byte"])
        op = src.choice(["isa", "is_type"])
        self.tag(op)
        of = o.f
        return E("%s %s %s" % (par(o, P_REL + 1), op, ty), P_REL, "int", lambda fr: int(dyntype(of(fr)) == ty))

    def anyobj(self, d):
        """An expression of type object."""
        src = self.src
        ks = [(2, "s"), (3, "box"), (1, "undef")]
        if self.c["arrays"]:
            ks.append((2, "a"))
        if self.c["objects"]:
            ks.append((2, "p"))
        k = src.weighted(ks)
        vs = self.readable("object")
        if vs and src.chance(1, 3):
            return self.rdvar(src.choice(vs))
        if k == "s":
            e = self.string(d)
        elif k == "undef":
            return E("(object)undef", P_UN, "object", lambda fr: None)
        elif k == "box":
            t = src.choice(self.numt)
            e = self.num(t, d)
            return E("(object)%s" % par(E("(%s)%s" % (BOXES[t], par(e, P_UN)), P_UN, "", None), P_UN), P_UN, "object", lambda fr, f=e.f: Box(t, f(fr)))
        elif k == "a":
            e = self.array(src.choice(self.numt), d)
        else:
            e = self.objp(d)
        return E("(object)%s" % par(e, P_UN), P_UN, "object", e.f)

    # ---- leaves
    def leaf(self, t, d):
        src = self.src
        c = self.c
        ks = [(3, "lit"), (6, "var")]
        if self.cvars:
            ks.append((1, "cv"))
        if c["arrays"]:
            ks.append((2, "elem"))
            if t == "int":
                ks.append((1, "len"))
        if c["objects"]:
            ks.append((2, "field"))
        if c["mulnum"]:
            ks.append((2, "mul"))
            if c["arrays"]:
                ks.append((1, "mularr"))
        if c["refs"]:
            ks.append((1, "deref"))
        if c["calls"] and d > 0:
            ks.append((2, "call"))
        if c["boxes"]:
            ks.append((1, "unbox"))
        if c["strings"] and d > 0:
            ks.append((1, "s2n"))
            if t == "int":
                ks.append((1, "slen"))
            if t == "byte":
                ks.append((3, "schar"))
        if c["order"] and d > 0:
            ks.append((1, "tr"))
        k = src.weighted(ks)
        r = None
        if k == "var":
            vs = self.readable(t)
            if vs:
                r = self.rdvar(src.choice(vs))
        elif k == "cv":
            n = "C" + SFX[t]
            if n in self.cvars:
                S = self.S
                self.tag("cv_get_" + t)
                r = E("$%s::%s" % (self.cls, n) if src.chance(1, 2) else "$" + n, P_PRIM, t, lambda fr: S.cv[n])
        elif k == "elem":
            l = self.lv_elem(t)
            if l:
                r = E(l[0], P_ARW, t, l[1])
                self.tag("elem_get_" + t)
        elif k == "len":
            a = self.arrvar()
            if a is not None:
                af = a.f
                self.tag("arrlen")

                def f(fr):
                    x = af(fr)
                    if x is None:
                        raise Die(M_ELEM_UNDEF)
                    return len(x.v)
                r = E("@" + a.s, P_UN, "int", f) if src.chance(1, 2) else E("scalar @" + a.s, P_UN, "int", f)
        elif k == "field":
            l = self.lv_field(t)
            if l:
                r = E(l[0], P_ARW, t, l[1])
                self.tag("field_get_" + t)
        elif k in ("mul", "mularr"):
            l = self.lv_mul(t) if k == "mul" else self.lv_mularr(t)
            if l:
                r = E(l[0], P_ARW, t, l[1])
                self.tag(k + "_get_" + t)
        elif k == "deref":
            l = self.lv_deref(t)
            if l:
                r = E(l[0], P_UN, t, l[1])
                self.tag("deref_get_" + t)
        elif k == "call":
            r = self.callm(t, d - 1)
        elif k == "unbox":
            vs = self.readable(BOXES[t])
            if vs:
                v = self.rdvar(src.choice(vs))
                vf = v.f
                self.tag("unbox_" + t)

                def f(fr):
                    x = vf(fr)
                    if x is None:
                        raise Die(M_UNBOX)
                    return x.v
                r = E("(%s)%s" % (t, v.s), P_UN, t, f)
        elif k == "s2n":
            e = self.string(d - 1, undef=True)
            ef = e.f
            self.tag("s2n_" + t)
            r = E("(%s)%s" % (t, par(e, P_UN)), P_UN, t, lambda fr: sem.str_to_num(t, ef(fr)))
        elif k == "slen":
            e = self.string(d - 1, undef=True)
            ef = e.f
            self.tag("slen")
            r = E("length " + par(e, P_UN), P_UN, "int", lambda fr: len(ef(fr) or b""))
        elif k == "schar":
            vs = self.readable("string")
            if vs:
                v = self.rdvar(src.choice(vs))
                vf = v.f
                i = src.below(3)
                self.tag("schar")

                def f(fr):
                    x = vf(fr)
                    if x is None:
                        raise Die(M_ELEM_UNDEF)
                    if not 0 <= i < len(x):
                        raise Die(M_ELEM_RANGE)
                    return sem.wrap("byte", x[i])
                r = E("%s->[%d]" % (v.s, i), P_ARW, "byte", f)
        elif k == "tr":
            r = self.traced(t, d - 1)
        return r or self.lit(t)

    # ---- lvalues: (text, get(fr), set(fr, v)) or None
    def index(self, n=4):
        """A pure int index expression, in range of a length-n array nearly always."""
        src = self.src
        k = src.weighted([(4, 0), (3, 1), (1, 2)])
        if k == 1:
            vs = self.readable("int")
            if vs:
                v = self.rdvar(src.choice(vs))
                vf = v.f
                return "%s & %d" % (v.s, n - 1), (lambda fr: vf(fr) & (n - 1))
        if k == 2 and self.c["throws"] and src.chance(1, 4):
            i = src.choice([n + 5, -1, 100, sem.lo("int"), sem.hi("int")])
            return "%d" % i, (lambda fr: i)
        i = src.below(n)
        return "%d" % i, (lambda fr: i)

    def arrvar(self, t=None):
        ts = [t + "[]"] if t else [u + "[]" for u in self.numt] + ["string[]"]
        vs = [v for u in ts for v in self.readable(u)]
        return self.rdvar(self.src.choice(vs)) if vs else None

    def lv_elem(self, t):
        a = self.arrvar(t)
        if a is None:
            return None
        s, xf = self.index()
        af = a.f

        def chk(fr):
            x = af(fr)
            if x is None:
                raise Die(M_ELEM_UNDEF)
            i = xf(fr)
            if not 0 <= i < len(x.v):
                raise Die(M_ELEM_RANGE)
            return x.v, i

        def get(fr):
            l, i = chk(fr)
            return l[i]

        def put(fr, v):
            l, i = chk(fr)
            l[i] = v
        return "%s->[%s]" % (a.s, s), get, put

    def lv_field(self, t, n=None):
        vs = self.readable("P")
        if not vs:
            return None
        v = self.rdvar(self.src.choice(vs))
        n = n or SFX[t]
        vf = v.f

        def get(fr):
            x = vf(fr)
            if x is None:
                raise Die(M_FIELD)
            return x.f[n]

        def put(fr, val):
            x = vf(fr)
            if x is None:
                raise Die(M_FIELD)
            x.f[n] = val
        return "%s->{%s}" % (v.s, n), get, put

    def lv_mul(self, t, write=False):
        """$m->{x}, through a mulnum variable or a reference to one."""
        cand = [v for v in (self.mutable(None) if write else self.readable(None)) if v.t.rstrip("*") in MULNUMS and MULNUMS[v.t.rstrip("*")][0] == t]
        if not cand:
            return None
        v = self.src.choice(cand)
        (self.mut if write else self.used).add(v.g)
        n = v.n
        fs = MULNUMS[v.t.rstrip("*")][1]
        k = self.src.below(len(fs))
        if v.t.endswith("*"):
            self.tag("mulref_" + t)

            def get(fr):
                r = fr.v[n]
                return r[0]()[k]

            def put(fr, val):
                r = fr.v[n]
                l = list(r[0]())
                l[k] = val
                r[1](l)
            return "$%s->{%s}" % (n, fs[k]), get, put

        def get(fr):
            return fr.v[n][k]

        def put(fr, val):
            l = list(fr.v[n])
            l[k] = val
            fr.v[n] = l
        return "$%s->{%s}" % (n, fs[k]), get, put

    def lv_mularr(self, t):
        cand = [v for v in self.readable(None) if v.t.endswith("[]") and v.t[:-2] in MULNUMS and MULNUMS[v.t[:-2]][0] == t]
        if not cand:
            return None
        v = self.rdvar(self.src.choice(cand))
        fs = MULNUMS[v.t[:-2]][1]
        k = self.src.below(len(fs))
        s, xf = self.index()
        vf = v.f

        def chk(fr):
            x = vf(fr)
            if x is None:
                raise Die(M_ELEM_UNDEF)
            i = xf(fr)
            if not 0 <= i < len(x.v):
                raise Die(M_ELEM_RANGE)
            return x.v, i

        def get(fr):
            l, i = chk(fr)
            return l[i][k]

        def put(fr, val):
            l, i = chk(fr)
            m = list(l[i])
            m[k] = val
            l[i] = m
        return "%s->[%s]{%s}" % (v.s, s, fs[k]), get, put

    def lv_deref(self, t, write=False):
        cand = self.mutable(t + "*") if write else self.readable(t + "*")
        if not cand:
            return None
        v = self.src.choice(cand)
        (self.mut if write else self.used).add(v.g)
        n = v.n
        return "$$" + n, (lambda fr: fr.v[n][0]()), (lambda fr, val: fr.v[n][1](val))

    def lvalue(self, t):
        """A place of numeric type t to store to -> (text, get, put)."""
        src = self.src
        c = self.c
        ks = [(4, "var")]
        if self.cvars:
            ks.append((1, "cv"))
        if c["arrays"]:
            ks.append((3, "elem"))
        if c["objects"]:
            ks.append((3, "field"))
        if c["mulnum"]:
            ks += [(3, "mul"), (2, "mularr")]
        if c["refs"]:
            ks.append((2, "deref"))
        k = src.weighted(ks)
        r = None
        if k == "cv":
            n = "C" + SFX[t]
            S = self.S
            if n in self.cvars:
                r = ("$" + n, (lambda fr: S.cv[n]), (lambda fr, v: S.cv.__setitem__(n, v)))
        elif k == "elem":
            r = self.lv_elem(t)
        elif k == "field":
            r = self.lv_field(t)
        elif k == "mul":
            r = self.lv_mul(t, True)
        elif k == "mularr":
            r = self.lv_mularr(t)
        elif k == "deref":
            r = self.lv_deref(t, True)
        if r:
            self.tag(k + "_set_" + t)
            return r
        vs = self.mutable(t)
        if not vs:
            return None
        v = src.choice(vs)
        self.mut.add(v.g)
        n = v.n
        return "$" + n, (lambda fr: fr.v[n]), (lambda fr, val: fr.v.__setitem__(n, val))

    # ---- assignment and increment expressions
    def widen(self, t, d):
        """An expression assignable to t: of type t or implicitly widened."""
        src = self.src
        if src.chance(1, 4):
            ts = [u for u in self.numt if sem.RANK[u] <= sem.RANK[t]]
            u = src.choice(ts)
            e = self.num(u, d)
            ef = e.f
            self.tag("widen_%s_%s" % (u, t))
            return E(e.s, e.p, t, lambda fr: sem.conv(u, t, ef(fr)))
        return self.num(t, d)

    def mutate(self, t, d):
        src = self.src
        k = src.weighted([(2, "inc"), (2, "asg"), (3, "sp")])
        l = self.lvalue(t)
        if l is None:
            return self.leaf(t, d)
        s, get, put = l
        if k == "inc":
            op = src.choice(["++", "--"])
            pre = src.chance(1, 2)
            self.tag(("pre" if pre else "post") + op + "_" + t)
            dl = 1 if op == "++" else -1

            def f(fr):
                a = get(fr)
                u = sem.promote(t)
                n = sem.arith("+", u, sem.conv(t, u, a), dl) if u in BITS else sem._rnd(u, a + dl)
                n = sem.conv(u, t, n)
                put(fr, n)
                return n if pre else a
            return E((op + s) if pre else (s + op), P_INC, t, f)
        if k == "asg":
            e = self.widen(t, d - 1)
            ef = e.f
            self.tag("asg_" + t)

            def f(fr):
                v = ef(fr)
                put(fr, v)
                return v
            return E("%s = %s" % (s, par(e, P_ASG)), P_ASG, t, f)
        ops = ["+", "-", "*", "/"]
        if t in BITS:
            ops += ["%", "&", "|", "^", "<<", ">>", ">>>"]
        op = src.choice(ops)
        self.tag("sp%s_%s" % (op, t))
        if op in ("<<", ">>", ">>>"):
            u = sem.promote(t)
            n = src.below(BITS[u])

            def f(fr):
                v = sem.conv(u, t, sem.shift(op, u, get(fr), n))
                put(fr, v)
                return v
            return E("%s %s= %d" % (s, op, n), P_ASG, t, f)
        if t in BITS:
            ts = [u for u in INTS if sem.bin_type(u, t) == sem.promote(t)] if op in ("&", "|", "^") else list(INTS)
            if op in ("&", "|", "^"):
                ts = [u for u in INTS if sem.RANK[u] <= sem.RANK["int" if t != "long" else "long"]]
        else:
            ts = self.numt
        tr = src.choice(ts)
        if op in ("/", "%") and t in BITS and not (self.c["throws"] and src.chance(1, 12)):
            v = sem.draw_num(src, tr)
            e = self.lit(tr, v if v else 5)
        else:
            e = self.num(tr, d - 1)
        u = sem.bin_type(t, tr)
        ef = e.f

        def f(fr):
            a = get(fr)
            b = ef(fr)
            v = sem.conv(u, t, sem.arith(op, u, sem.conv(t, u, a), sem.conv(tr, u, b)))
            put(fr, v)
            return v
        return E("%s %s= %s" % (s, op, par(e, P_ASG)), P_ASG, t, f)

    # ---- strings
    def strlit(self):
        src = self.src
        n = src.size(8)
        b = bytes(src.choice(b"abcABC019 .-+xyz%e") for _ in range(n))
        return E('"' + b.decode() + '"', P_PRIM, "string", lambda fr: b, lit=True)

    def string(self, d, undef=False):
        """An expression of type string; its value may be undef only if undef is set (or through a variable)."""
        src = self.src
        if undef and src.chance(1, 12):
            return E("(string)undef", P_UN, "string", lambda fr: None)
        ks = [(4, "lit"), (4, "var")]
        if d > 0:
            ks += [(4, "cat"), (2, "n2s"), (1, "copy")]
            if self.c["arrays"]:
                ks.append((1, "elem"))
            if self.c["objects"]:
                ks.append((1, "field"))
            if self.c["calls"]:
                ks.append((1, "call"))
        k = src.weighted(ks)
        if k == "var":
            vs = self.readable("string")
            if vs:
                return self.rdvar(src.choice(vs))
        elif k == "cat":
            a = self.string(d - 1) if src.chance(3, 4) else self.anynum(d - 1)
            b = self.string(d - 1) if a.t != "string" or src.chance(2, 3) else self.anynum(d - 1)
            ta, tb, af, bf = a.t, b.t, a.f, b.f
            self.tag("concat")

            def f(fr):
                x = af(fr)
                if ta != "string":
                    x = sem.num_to_str(ta, x)
                y = bf(fr)
                if tb != "string":
                    y = sem.num_to_str(tb, y)
                if x is None:
                    raise Die(M_CATL)
                if y is None:
                    raise Die(M_CATR)
                if len(x) + len(y) > 2000:
                    raise Discard("long string")
                return x + y
            return E("%s . %s" % (par(a, P_ADD), par(b, P_ADD + 1)), P_ADD, "string", f)
        elif k == "n2s":
            t = src.choice(self.numt)
            e = self.num(t, d - 1)
            ef = e.f
            self.tag("n2s_" + t)
            return E("(string)" + par(e, P_UN), P_UN, "string", lambda fr: sem.num_to_str(t, ef(fr)))
        elif k == "copy":
            e = self.string(d - 1)
            self.tag("scopy")
            return E("(string)copy " + par(e, P_UN), P_UN, "string", e.f)
        elif k == "elem":
            l = self.lv_elem("string")
            if l:
                return E(l[0], P_ARW, "string", l[1])
        elif k == "field":
            l = self.lv_field("string", "str")
            if l:
                return E(l[0], P_ARW, "string", l[1])
        elif k == "call":
            r = self.callm("string", d - 1)
            if r:
                return r
        return self.strlit()

    # ---- arrays and objects
    def array(self, t, d):
        src = self.src
        ks = [(3, "lit"), (2, "new"), (2, "var"), (1, "copy")]
        if self.c["calls"]:
            ks.append((1, "call"))
        k = src.weighted(ks)
        if k in ("var", "copy"):
            vs = self.readable(t + "[]")
            if vs:
                v = self.rdvar(src.choice(vs))
                if k == "var" or t == "string":
                    return v
                vf = v.f
                self.tag("acopy")

                def f(fr):
                    x = vf(fr)
                    return None if x is None else Arr(x.t, list(x.v))
                return E("(%s[])copy %s" % (t, v.s), P_UN, t + "[]", f)
        if k == "call":
            r = self.callm(t + "[]", d - 1)
            if r:
                return r
        if k == "new":
            n = 4 + src.below(3)
            self.tag("new_" + t)
            return E("new %s[%d]" % (t, n), P_PRIM, t + "[]", lambda fr: Arr(t, [default_of(t)] * n))
        n = 4 + src.below(2)
        if t == "string":
            es = [self.string(d - 1) for _ in range(n)]
            fs = [e.f for e in es]
        elif t in MULNUMS:
            return E("new %s[%d]" % (t, n), P_PRIM, t + "[]", lambda fr: Arr(t, [default_of(t)] * n))
        else:
            es = [self.num(t, d - 1)] + [self.widen(t, d - 1) for _ in range(n - 1)]
            fs = [e.f for e in es]
        self.tag("init_" + t)
        return E("[%s]" % ", ".join(par(e, P_ASG) for e in es), P_PRIM, t + "[]", lambda fr: Arr(t, [g(fr) for g in fs]))

    def objp(self, d):
        src = self.src
        k = src.weighted([(3, "new"), (3, "var"), (1, "field"), (1, "call")])
        if k == "var":
            vs = self.readable("P")
            if vs:
                return self.rdvar(src.choice(vs))
        elif k == "call" and self.c["calls"]:
            r = self.callm("P", d - 1)
            if r:
                return r
        elif k == "field":
            l = self.lv_field("P", "o")
            if l:
                return E(l[0], P_ARW, "P", l[1])
        self.tag("new_P")
        return E("P->new", P_ARW, "P", lambda fr: newP())

    def value(self, t, d):
        """An expression of any type t."""
        if t in NUM:
            return self.num(t, d)
        if t == "string":
            return self.string(d)
        if t == "P":
            return self.objp(d)
        if t == "object":
            return self.anyobj(d)
        if t.endswith("[]"):
            return self.array(t[:-2], d)
        if t in MULNUMS:
            return self.mulval(t)
        for u, b in BOXES.items():
            if t == b:
                vs = self.readable(t)
                if vs and self.src.chance(1, 3):
                    return self.rdvar(self.src.choice(vs))
                e = self.num(u, d)
                ef = e.f
                self.tag("box_" + u)
                if self.src.chance(1, 2):
                    return E("(%s)%s" % (t, par(e, P_UN)), P_UN, t, lambda fr: Box(u, ef(fr)))
                return E(e.s, e.p, t, lambda fr: Box(u, ef(fr)))
        raise AssertionError(t)

    def mulval(self, t):
        """A mulnum value: a variable, an element of an array, a dereference, a call; None when there is none."""
        src = self.src
        k = src.below(4)
        if k == 1:
            vs = self.readable(t + "[]")
            if vs:
                v = self.rdvar(src.choice(vs))
                s, xf = self.index()
                vf = v.f
                self.tag("mularr_load_" + t)

                def f(fr):
                    x = vf(fr)
                    if x is None:
                        raise Die(M_ELEM_UNDEF)
                    i = xf(fr)
                    if not 0 <= i < len(x.v):
                        raise Die(M_ELEM_RANGE)
                    return x.v[i]
                return E("%s->[%s]" % (v.s, s), P_ARW, t, f)
        if k == 2:
            vs = self.readable(t + "*")
            if vs:
                v = src.choice(vs)
                self.used.add(v.g)
                n = v.n
                self.tag("mulderef_" + t)
                return E("$$" + n, P_UN, t, lambda fr: fr.v[n][0]())
        if k == 3 and self.c["calls"]:
            r = self.callm(t, 1)
            if r:
                return r
        vs = self.readable(t)
        return self.rdvar(src.choice(vs)) if vs else None

    # ---- method calls
    def callm(self, t, d):
        ms = [m for m in self.meths if m.ret == t]
        if not ms:
            return None
        return self.call(self.src.choice(ms), d)

    def call(self, m, d):
        src = self.src
        args = []
        fs = []
        n = len(m.params)
        if m.opt and src.chance(1, 2):
            n -= src.int(1, m.opt)
        inv = None
        if m.inst:
            vs = self.readable("P")
            inv = self.rdvar(src.choice(vs)) if vs else E("P->new", P_ARW, "P", lambda fr: newP())
        for pn, pt in m.params[:n]:
            if pt.endswith("*"):
                base = pt[:-1]
                vs = self.mutable(base)
                if not vs:
                    return None
                v = src.choice(vs)
                self.mut.add(v.g)
                self.tag("refarg_" + base)
                args.append("\\$" + v.n)
                fs.append(lambda fr, n=v.n: ((lambda: fr.v[n]), (lambda x: fr.v.__setitem__(n, x))))
            elif pt in MULNUMS:
                e = self.mulval(pt)
                if e is None:
                    return None
                args.append(par(e, P_ASG))
                fs.append(e.f)
            else:
                e = self.widen(pt, d - 1) if pt in NUM else self.value(pt, d - 1)
                args.append(par(e, P_ASG))
                fs.append(e.f)
        self.tag("call" + ("_inst" if m.inst else "") + ("_opt" if n < len(m.params) else ""))
        S = self.S

        def f(fr):
            self_ = inv.f(fr) if inv else None
            vals = [g(fr) for g in fs]
            if inv and self_ is None:
                raise Die(M_CALL % ("P", m.name))
            return invoke(S, m, self_, vals)
        if inv:
            s = "%s->%s(%s)" % (par(inv, P_ARW), m.name, ", ".join(args))
        else:
            s = ("&%s(%s)" if src.chance(1, 2) else self.cls + "->%s(%s)") % (m.name, ", ".join(args))
        return E(s, P_ARW, m.ret, f)

    # ---- statements; each returns run(fr) -> None | NEXT | LAST | BREAK | ("ret", value)
    def block(self, n, d):
        self.scopes.append([])
        self.ind += 1
        out = []
        for _ in range(n):
            self.stmt(out, d)
        self.ind -= 1
        self.scopes.pop()
        return seq_run(out)

    def stmt(self, out, d):
        src = self.src
        c = self.c
        self.fresh_stmt()
        ks = [(4, self.s_trace), (4, self.s_assign), (3, self.s_decl), (2, self.s_objassign)]
        if d > 0:
            ks.append((3, self.s_if))
            if c["loops"]:
                ks.append((2, self.s_loop))
            if c["switch"]:
                ks.append((1, self.s_switch))
            ks.append((1, self.s_block))
            if c["evals"]:
                ks.append((2, self.s_eval))
        if self.loop or self.sw:
            ks.append((1, self.s_jump))
        if c["calls"] and self.meths:
            ks.append((2, self.s_call))
        if c["throws"] and (self.in_eval or src.chance(1, 6)):
            ks.append((1, self.s_die))
        if d < c["depth"] and src.chance(1, 4):
            ks.append((1, self.s_return))
        src.weighted(ks)(out, d)

    def at(self, out, line, run):
        S = self.S

        def go(fr):
            S.tick()
            fr.line = line
            return run(fr)
        out.append(go)

    def s_trace(self, out, d):
        src = self.src
        S = self.S
        k = src.weighted([(6, "n"), (2 if self.c["strings"] else 0, "s"), (1 if self.c["arrays"] else 0, "a"), (1 if self.c["objects"] else 0, "same")])
        if k == "n":
            t = src.choice(self.numt)
            e = self.num(t, self.c["depth"])
            ef = e.f
            m = "i" if t in BITS else SFX[t]
            ln = self.emit("VT->%s(%s);" % (m, e.s))

            def run(fr):
                S.trace.append(sem.rec(t, ef(fr)))
        elif k == "s":
            e = self.string(self.c["depth"] - 1, undef=True)
            ef = e.f
            ln = self.emit("VT->o(%s);" % e.s)

            def run(fr):
                S.trace.append(ef(fr))
        elif k == "same":
            vs = self.readable("P")
            if len(vs) < 2:
                return self.s_decl(out, d)
            a, b = src.choice(vs), src.choice(vs)
            op = src.choice(["==", "!="])
            ln = self.emit("VT->i($%s %s $%s);" % (a.n, op, b.n))

            def run(fr):
                S.trace.append(int((fr.v[a.n] is fr.v[b.n]) == (op == "==")))
        else:
            t = src.choice(self.numt + ["string"])
            vs = self.readable(t + "[]")
            if not vs:
                return self.s_decl(out, d)
            v = src.choice(vs)
            ln = self.emit("VT->o($%s);" % v.n)

            def run(fr):
                S.trace.append(rec_obj(fr.v[v.n]))
        self.at(out, ln, run)

    def s_assign(self, out, d):
        t = self.src.choice(self.numt)
        e = self.mutate(t, self.c["depth"])
        if not (e.s.startswith("$") or e.s.startswith("++") or e.s.startswith("--")) or e.p not in (P_ASG, P_INC):
            return self.s_decl(out, d)
        ef = e.f
        ln = self.emit(e.s + ";")
        self.at(out, ln, lambda fr: (ef(fr), None)[1])

    def decl_type(self):
        src = self.src
        c = self.c
        ks = [(6, "n")]
        if c["strings"]:
            ks.append((2, "s"))
        if c["arrays"]:
            ks.append((3, "a"))
        if c["objects"]:
            ks.append((2, "p"))
        if c["mulnum"]:
            ks.append((2, "m"))
            if c["arrays"]:
                ks.append((1, "ma"))
        if c["refs"]:
            ks.append((2, "r"))
        if c["boxes"]:
            ks.append((1, "b"))
            ks.append((1, "o"))
        k = src.weighted(ks)
        if k == "n":
            return src.choice(self.numt)
        if k == "s":
            return "string"
        if k == "a":
            return src.choice(self.numt + (["string"] if c["strings"] else [])) + "[]"
        if k == "p":
            return "P"
        if k in ("m", "ma"):
            t = src.choice([m for m in sorted(MULNUMS) if MULNUMS[m][0] in self.numt])
            return t + ("[]" if k == "ma" else "")
        if k == "r":
            ts = [v.t for v in self.vars() if (v.t in self.numt or v.t in MULNUMS) and not v.ro]
            return (src.choice(sorted(set(ts))) + "*") if ts else "int"
        if k == "b":
            return BOXES[src.choice(self.numt)]
        return "object"

    def s_decl(self, out, d, t=None):
        src = self.src
        t = t or self.decl_type()
        v = self.newvar(t, declare=False)
        n = v.n
        if t.endswith("*"):
            vs = [x for x in self.vars(t[:-1]) if not x.ro]
            if not vs:
                return
            x = src.choice(vs)
            v.g = x.g
            self.tag("ref_" + t)
            ln = self.emit("my $%s : %s = \\$%s;" % (n, t, x.n))

            def run(fr):
                fr.v[n] = ((lambda: fr.v[x.n]), (lambda val: fr.v.__setitem__(x.n, val)))
            self.at(out, ln, run)
            self.scopes[-1].append(v)
            return
        if t in MULNUMS:
            e = self.mulval(t) if src.chance(1, 2) else None
            if e is None:
                ln = self.emit("my $%s : %s;" % (n, t))
                f = lambda fr: default_of(t)
            else:
                ln = self.emit("my $%s : %s = %s;" % (n, t, e.s) if src.chance(1, 2) else "my $%s = %s;" % (n, e.s))
                f = e.f
            self.tag("decl_" + t)
        elif src.chance(1, 12):
            ln = self.emit("my $%s : %s;" % (n, t))
            if t in NUM:
                f = lambda fr: default_of(t)
            else:
                f = lambda fr: None
            if t not in NUM and not (self.c["throws"] and src.chance(1, 4)):
                # give it a value: undef makes most later uses throw
                self.lines.pop()
                return self.s_decl(out, d, t)
        else:
            infer = src.chance(1, 3)
            e = self.widen(t, self.c["depth"]) if t in NUM and not infer else self.value(t, self.c["depth"] - 1 if t not in NUM else self.c["depth"])
            f = e.f
            # a box is inferred only from an explicit cast
            if infer and (t not in BOXES.values() or e.s.startswith("(" + t + ")")):
                ln = self.emit("my $%s = %s;" % (n, par(e, P_ASG)))
            else:
                ln = self.emit("my $%s : %s = %s;" % (n, t, par(e, P_ASG)))
            self.tag("decl")

        def run(fr):
            fr.v[n] = f(fr)
        self.at(out, ln, run)
        self.scopes[-1].append(v)

    def s_objassign(self, out, d):
        """Assigns to a string, array, object or mulnum place."""
        src = self.src
        cand = [v for v in self.vars() if v.t not in NUM and not v.t.endswith("*") and not v.ro]
        if not cand:
            return self.s_decl(out, d)
        v = src.choice(cand)
        t = v.t
        n = v.n
        k = src.below(3)
        if t == "P" and k == 1:
            ft, fn = src.choice([("string", "str"), ("P", "o")])
            e = self.value(ft, self.c["depth"] - 1)
            ln = self.emit("$%s->{%s} = %s;" % (n, fn, par(e, P_ASG)))
            ef = e.f
            self.tag("field_set_obj")
            if fn == "o" and e.s != "P->new":
                self.cyc = True

            def run(fr):
                val = ef(fr)
                if fr.v[n] is None:
                    raise Die(M_FIELD)
                fr.v[n].f[fn] = val
            return self.at(out, ln, run)
        if t.endswith("[]") and t[:-2] in MULNUMS and k:
            e = self.mulval(t[:-2])
            if e is not None:
                s, xf = self.index()
                ef = e.f
                ln = self.emit("$%s->[%s] = %s;" % (n, s, e.s))
                self.tag("mularr_store_" + t)

                def run(fr):
                    val = ef(fr)
                    x = fr.v[n]
                    if x is None:
                        raise Die(M_ELEM_UNDEF)
                    i = xf(fr)
                    if not 0 <= i < len(x.v):
                        raise Die(M_ELEM_RANGE)
                    x.v[i] = list(val)
                return self.at(out, ln, run)
        if t == "string[]" and k:
            e = self.string(self.c["depth"] - 1)
            s, xf = self.index()
            ef = e.f
            ln = self.emit("$%s->[%s] = %s;" % (n, s, par(e, P_ASG)))

            def run(fr):
                val = ef(fr)
                x = fr.v[n]
                if x is None:
                    raise Die(M_ELEM_UNDEF)
                i = xf(fr)
                if not 0 <= i < len(x.v):
                    raise Die(M_ELEM_RANGE)
                x.v[i] = val
            return self.at(out, ln, run)
        if t in MULNUMS:
            e = self.mulval(t)
            if e is None:
                return self.s_decl(out, d)
        elif t == "string" and k == 1:
            e = self.string(self.c["depth"] - 1)
            ef = e.f
            ln = self.emit("$%s .= %s;" % (n, par(e, P_ASG)))
            self.tag("sp.")

            def run(fr):
                y = ef(fr)
                x = fr.v[n]
                if x is None:
                    raise Die(M_CATL)
                if y is None:
                    raise Die(M_CATR)
                if len(x) + len(y) > 2000:
                    raise Discard("long string")
                fr.v[n] = x + y
            return self.at(out, ln, run)
        else:
            e = self.value(t, self.c["depth"] - 1)
        ef = e.f
        ln = self.emit("$%s = %s;" % (n, par(e, P_ASG)))

        def run(fr):
            fr.v[n] = ef(fr)
        self.at(out, ln, run)

    def condx(self):
        e, f = self.cond(self.c["depth"] - 1)
        return e.s, f

    def s_if(self, out, d):
        src = self.src
        S = self.S
        arms = []
        kw = src.choice(["if", "unless"])
        self.tag(kw)
        self.fresh_stmt()
        s, f = self.condx()
        ln = self.emit("%s (%s) {" % (kw, s))
        b = self.block(src.int(1, 3), d - 1)
        self.emit("}")
        arms.append((ln, f if kw == "if" else (lambda fr: not f(fr)), b))
        for _ in range(src.below(3)):
            self.fresh_stmt()
            s, g = self.condx()
            ln = self.emit("elsif (%s) {" % s)
            b = self.block(src.int(1, 2), d - 1)
            self.emit("}")
            arms.append((ln, g, b))
            self.tag("elsif")
        els = None
        if src.chance(1, 2):
            self.emit("else {")
            els = self.block(src.int(1, 2), d - 1)
            self.emit("}")

        def run(fr):
            for ln, g, b in arms:
                fr.line = ln
                if g(fr):
                    return b(fr)
            if els:
                return els(fr)
        self.at(out, arms[0][0], run)

    def s_block(self, out, d):
        self.tag("block")
        ln = self.emit("{")
        b = self.block(self.src.int(1, 3), d - 1)
        if len(self.lines) == ln:
            self.lines.pop()    # "{ }" alone is not a block but an array
            return
        self.emit("}")
        out.append(b)

    def loopcond(self):
        src = self.src
        if not src.chance(2, 5):
            return None, None, False
        first = src.chance(1, 3)
        self.tag("loopcond")
        if self.c["strings"] and src.chance(1, 2):
            e = self.strcmp("int", self.c["depth"] - 1)
            return e.s, (lambda fr: sem.truth("int", e.f(fr))), first
        s, f = self.condx()
        return s, f, first

    def s_loop(self, out, d):
        src = self.src
        S = self.S
        k = src.weighted([(3, "for"), (2, "while"), (2, "foreach")])
        cnt = src.int(0, 4)
        self.tag(k)
        v = self.newvar("int", declare=False)
        v.ro = True
        n = v.n
        self.loop += 1
        try:
            if k == "foreach":
                ts = [t for t in self.numt + ["string"] if self.readable(t + "[]")]
                if ts:
                    t = src.choice(ts)
                    a = src.choice(self.readable(t + "[]"))
                    v.t = t
                    ln = self.emit("for my $%s (@$%s) {" % (n, a.n))
                    self.scopes.append([v])
                    b = self.block(src.int(1, 3), d - 1)
                    self.scopes.pop()
                    self.emit("}")

                    def run(fr):
                        x = fr.v[a.n]
                        if x is None:
                            raise Die(M_ELEM_UNDEF)
                        i = 0
                        # the array is held: assigning the variable in the body does not matter
                        while i < len(x.v):
                            S.tick()
                            fr.line = ln
                            fr.v[n] = x.v[i]
                            r = b(fr)
                            if r is LAST:
                                break
                            if r is not None and r is not NEXT:
                                return r
                            i += 1
                    return self.at(out, ln, run)
                k = "for"
            if k == "for":
                up = src.chance(2, 3)
                init = 0 if up else cnt
                base = "$%s < %d" % (n, cnt) if up else "$%s > 0" % n
                inc = src.choice(["$%s++", "++$%s", "$%s += 1"]) % n if up else "$%s--" % n
                self.scopes.append([v])
                self.fresh_stmt()
                extra, ef, first = self.loopcond()
                if extra:
                    base = "(%s) && %s" % (extra, base) if first else "%s && (%s)" % (base, extra)
                incf = None
                if src.chance(1, 4) and self.c["order"]:
                    self.fresh_stmt()
                    e = self.anynum(self.c["depth"] - 1)
                    inc = "(%s, %s)" % (inc, e.s)
                    incf = e.f
                    self.tag("forinc")
                self.scopes.pop()
                ln = self.emit("for (my $%s = %d; %s; %s) {" % (n, init, base, inc))
                self.scopes.append([v])
                b = self.block(src.int(1, 3), d - 1)
                self.scopes.pop()
                self.emit("}")

                def run(fr):
                    fr.v[n] = init
                    while True:
                        S.tick()
                        fr.line = ln
                        if first and not ef(fr):
                            break
                        if not (fr.v[n] < cnt if up else fr.v[n] > 0):
                            break
                        if ef and not first and not ef(fr):
                            break
                        r = b(fr)
                        if r is LAST:
                            break
                        if r is not None and r is not NEXT:
                            return r
                        fr.line = ln
                        fr.v[n] += 1 if up else -1
                        if incf:
                            incf(fr)
                return self.at(out, ln, run)
            l0 = self.emit("my $%s = %d;" % (n, cnt))
            self.at(out, l0, lambda fr: fr.v.__setitem__(n, cnt))
            self.scopes[-1].append(v)
            self.fresh_stmt()
            extra, ef, first = self.loopcond()
            base = "$%s-- > 0" % n
            if extra:
                base = "(%s) && %s" % (extra, base) if first else "%s && (%s)" % (base, extra)
            ln = self.emit("while (%s) {" % base)
            b = self.block(src.int(1, 3), d - 1)
            self.emit("}")

            def run(fr):
                while True:
                    S.tick()
                    fr.line = ln
                    if first and not ef(fr):
                        return
                    x = fr.v[n]
                    fr.v[n] = x - 1
                    if not (x > 0 and (ef is None or first or ef(fr))):
                        return
                    r = b(fr)
                    if r is LAST:
                        return
                    if r is not None and r is not NEXT:
                        return r
            self.at(out, ln, run)
        finally:
            self.loop -= 1

    def s_jump(self, out, d):
        src = self.src
        ks = []
        if self.loop:
            ks += [NEXT, LAST]
        if self.sw:
            ks.append(BREAK)
        k = src.choice(ks)
        self.tag(k)
        s, f = self.condx()
        ln = self.emit("if (%s) { %s; }" % (s, k))
        self.at(out, ln, lambda fr: k if f(fr) else None)

    def s_switch(self, out, d):
        src = self.src
        S = self.S
        self.tag("switch")
        e = self.num("int", 2)
        m = src.choice([3, 7, 15])
        ef = e.f
        ln = self.emit("switch (%s & %d) {" % (par(e, P_BAND), m))
        vals = src.shuffle(list(range(0, m + 1)) + [-1, 1000, sem.lo("int"), sem.hi("int")])[:src.int(1, 5)]
        self.ind += 1
        arms = []
        self.sw += 1
        for v in vals:
            self.emit("case %d: {" % v)
            b = self.block(src.int(1, 2), d - 1)
            brk = src.chance(2, 3)
            if brk:
                self.ind += 1
                self.emit("break;")
                self.ind -= 1
            self.emit("}")
            arms.append((v, b, brk))
        dflt = None
        if src.chance(2, 3):
            self.emit("default: {")
            dflt = self.block(src.int(1, 2), d - 1)
            self.emit("}")
        self.ind -= 1
        self.sw -= 1
        self.emit("}")

        def run(fr):
            x = ef(fr) & m
            k = None
            for i, (v, b, brk) in enumerate(arms):
                if v == x:
                    k = i
            if k is not None:
                r = arms[k][1](fr)
                return None if r is BREAK else r
            if dflt:
                r = dflt(fr)
                return None if r is BREAK else r
        self.at(out, ln, run)

    def s_eval(self, out, d):
        src = self.src
        S = self.S
        self.tag("eval")
        ln = self.emit("eval {")
        self.in_eval += 1
        b = self.block(src.int(1, 4), d - 1)
        self.in_eval -= 1
        self.emit("};")
        k = src.below(3)
        l2 = self.emit(["VT->o($@);", "if ($@) { VT->i(eval_error_id); }", "VT->i($@ ? 0 : 1);" if False else "VT->i(!$@);"][k])
        cls, name = self.cls, self
        mname = self.cur

        def run(fr):
            S.exc = None
            fr.eid = 0
            try:
                r = b(fr)
                if r is not None:
                    return r
            except Die as e:
                S.exc = e.msg + b"\n  %s at %s line %d" % (mname.encode(), self.file(), fr.line)
                fr.eid = 1
            fr.line = l2
            S.tick()
            err = S.exc
            if k == 0:
                S.trace.append(err)
            elif k == 1:
                if err is not None:
                    S.trace.append(("errid",) if fr.eid else 0)
            else:
                S.trace.append(int(err is None))
        self.at(out, ln, run)

    def file(self):
        return self.cls.encode() + b".spvm"

    def s_die(self, out, d):
        src = self.src
        self.tag("die")
        s, f = self.condx()
        e = self.strlit() if src.chance(1, 2) else self.string(1)
        ef = e.f
        ln = self.emit("if (%s) { die %s; }" % (s, e.s))

        def run(fr):
            if f(fr):
                v = ef(fr)
                raise Die(v if v is not None else b"Error")
        self.at(out, ln, run)

    def s_call(self, out, d):
        m = self.src.choice(self.meths)
        e = self.call(m, 2)
        if e is None:
            return self.s_trace(out, d)
        ef = e.f
        ln = self.emit(e.s + ";")
        self.at(out, ln, lambda fr: (ef(fr), None)[1])

    def s_return(self, out, d):
        s, f = self.condx()
        if self.ret == "void":
            ln = self.emit("if (%s) { return; }" % s)
            return self.at(out, ln, lambda fr: ("ret", None) if f(fr) else None)
        e = self.retval()
        if e is None:
            return
        ef = e.f
        ln = self.emit("if (%s) { return %s; }" % (s, e.s))
        self.tag("return_" + self.ret)
        self.at(out, ln, lambda fr: ("ret", ef(fr)) if f(fr) else None)

    def retval(self):
        t = self.ret
        if t in NUM:
            return self.widen(t, 2)
        if t in MULNUMS:
            return self.mulval(t)
        return self.value(t, 2)

    # ---- methods and whole programs
    def method(self, name, ret, params, n, inst=None, opt=0, attrs="static "):
        """Generates one method of the class."""
        m = Meth(name, ret, params, opt, inst)
        self.ret = ret
        self.cur = "%s->%s" % (self.cls, name)
        self.scopes = [[]]
        ps = []
        for i, (pn, pt) in enumerate(params):
            s = "$%s : %s" % (pn, pt)
            if i >= len(params) - opt:
                if pt in NUM:
                    dv = sem.draw_num(self.src, pt)
                    if pt in ("byte", "short"):
                        s += " = %d" % dv
                    else:
                        s += " = " + self.lit(pt, dv).s
                    m.defaults.append(dv)
                else:
                    s += " = undef"
                    m.defaults.append(None)
            ps.append(s)
            self.scopes[-1].append(Var(pn, pt))
        if inst:
            self.scopes[-1].append(Var("self", "P"))
            self.scopes[-1][-1].ro = True
        self.emit("%s%smethod %s : %s (%s) {" % ("precompile " if self.precompile else "", "" if inst else attrs, name, ret, ", ".join(ps)))
        self.ind += 1
        out = []
        for _ in range(n):
            self.stmt(out, self.c["depth"])
        self.fresh_stmt()
        if ret != "void":
            e = self.retval()
            if e is None:
                v = self.newvar(ret)
                l = self.emit("my $%s : %s;" % (v.n, ret))
                self.at(out, l, lambda fr, n=v.n, r=ret: fr.v.__setitem__(n, default_of(r)))
                e = self.rdvar(v)
            l = self.emit("return %s;" % e.s)
            ef = e.f
            self.at(out, l, lambda fr: ("ret", ef(fr)))
        else:
            # the end of main shows what is left in the variables
            if name == "main":
                for v in self.scopes[0]:
                    if v.t in NUM:
                        l = self.emit("VT->%s($%s);" % ("i" if v.t in BITS else SFX[v.t], v.n))
                        self.at(out, l, lambda fr, v=v: self.S.trace.append(sem.rec(v.t, fr.v[v.n])))
                    elif v.t == "string" or v.t.endswith("[]") and v.t[:-2] not in MULNUMS:
                        l = self.emit("VT->o($%s);" % v.n)
                        self.at(out, l, lambda fr, v=v: self.S.trace.append(rec_obj(fr.v[v.n])))
                    elif v.t in MULNUMS:
                        bt, fs = MULNUMS[v.t]
                        for i, f in enumerate(fs):
                            l = self.emit("VT->%s($%s->{%s});" % ("i" if bt in BITS else SFX[bt], v.n, f))
                            self.at(out, l, lambda fr, v=v, i=i, bt=bt: self.S.trace.append(sem.rec(bt, fr.v[v.n][i])))
        self.ind -= 1
        self.emit("}")
        m.body = seq_run(out)
        m.frame = self.cur
        m.file = self.file()
        self.meths.append(m)
        return m

    def program(self, precompile=False):
        """A whole program: helper classes, callees, main."""
        src = self.src
        c = self.c
        self.precompile = precompile
        pc = "precompile " if precompile else ""
        self.emit("class %s {" % self.cls)
        self.ind += 1
        uses = ["VT"]
        self.emit("use VT; use P;")
        if c["mulnum"]:
            self.emit("".join("use %s; " % m for m in sorted(MULNUMS)))
        self.emit("use Byte; use Short; use Int; use Long; use Float; use Double;")
        for t in self.numt:
            n = "C" + SFX[t]
            self.emit("our $%s : %s;" % (n, t))
            self.cvars[n] = t
            self.S.cv[n] = default_of(t)
        for t in NUM:
            self.emit("%sstatic method tr_%s : %s ($x : %s) { VT->%s($x); return $x; }" % (pc, t, t, t, "i" if t in BITS else SFX[t]))
        for a in FLTS:
            for t in INTS:
                self.emit("%sstatic method cv_%s_%s : %s ($x : %s) { if ($x > -100.0f && $x < 100.0f) { return (%s)$x; } return (%s)7; }" % (pc, a, t, t, a, t, t))
        for i in range(src.int(0, c["meths"]) if c["calls"] else 0):
            ret = src.choice(["void"] + self.numt + self.rettypes())
            params = []
            for k in range(src.size(4)):
                params.append(("p%d" % k, self.paramtype()))
            # optional parameters at the end
            opt = 0
            while opt < len(params) and (params[-1 - opt][1] in self.numt or params[-1 - opt][1] in ("string", "P")) and src.chance(1, 3):
                opt += 1
            self.method("m%d" % i, ret, params, src.int(1, c["stmts"] // 2 + 1), opt=opt)
        # main's own methods do not take references out of it
        self.method("main", "void", [], src.int(2, c["stmts"]))
        for n, t in self.cvars.items():
            pass
        self.ind -= 1
        self.emit("}")
        return "\n".join(self.lines)

    def rettypes(self):
        c = self.c
        r = []
        if c["strings"]:
            r.append("string")
        if c["arrays"]:
            r += [self.src.choice(self.numt) + "[]"]
        if c["objects"]:
            r.append("P")
        if c["mulnum"]:
            r.append(self.src.choice([m for m in sorted(MULNUMS) if MULNUMS[m][0] in self.numt]))
        return r

    def paramtype(self):
        src = self.src
        c = self.c
        ks = [(6, "n")]
        if c["strings"]:
            ks.append((2, "s"))
        if c["arrays"]:
            ks.append((2, "a"))
        if c["objects"]:
            ks.append((1, "p"))
        if c["refs"]:
            ks.append((1, "r"))
        if c["mulnum"]:
            ks.append((1, "m"))
            if c["refs"]:
                ks.append((1, "mr"))
        k = src.weighted(ks)
        if k == "n":
            return src.choice(self.numt)
        if k == "s":
            return "string"
        if k == "a":
            return src.choice(self.numt) + "[]"
        if k == "p":
            return "P"
        if k == "r":
            return src.choice(self.numt) + "*"
        t = src.choice([m for m in sorted(MULNUMS) if MULNUMS[m][0] in self.numt])
        return t if k == "m" else t + "*"

    # ---- running the meaning
    def run(self):
        """-> (status, message, trace)"""
        S = self.S
        m = self.meths[-1]
        try:
            invoke(S, m, None, [])
            return "ok", None, S.trace
        except Die as e:
            return "die", e.msg, S.trace
        except UB:
            raise Discard("undefined")
        except RecursionError:
            raise Discard("too deep")


def newP():
    f = {k: default_of(t) for k, t in PF.items()}
    f["str"] = None
    f["o"] = None
    return Obj("P", f)


def invoke(S, m, self_, vals):
    S.tick()
    fr = Fr(m)
    if m.inst:
        fr.v["self"] = self_
    k = len(m.params) - len(vals)
    if k:
        vals = vals + m.defaults[len(m.defaults) - k:]
    for (pn, pt), v in zip(m.params, vals):
        fr.v[pn] = v
    S.depth += 1
    if S.depth > 60:
        raise Discard("deep")
    try:
        r = m.body(fr)
    except Die as e:
        e.msg += b"\n  %s at %s line %d" % (m.frame.encode(), m.file, fr.line)
        raise
    finally:
        S.depth -= 1
    return r[1] if isinstance(r, tuple) else None


def seq_run(stmts):
    def run(fr):
        for s in stmts:
            r = s(fr)
            if r is not None:
                return r
        return None
    return run


def dyntype(v):
    if v is None:
        return None
    if isinstance(v, bytes):
        return "string"
    if isinstance(v, Box):
        return BOXES[v.t]
    if isinstance(v, Arr):
        return v.t + "[]"
    return v.c


def rec_obj(v):
    """The trace record of an object."""
    import struct
    if v is None or isinstance(v, bytes):
        return v
    if isinstance(v, Arr):
        if v.t == "string":
            return ("A", "string[]", list(v.v))
        return ("N", v.t + "[]", tuple(sem.rec(v.t, x) for x in v.v))
    return ("O", v.c)


def norm_trace(tr):
    """Normalise the driver's trace: numeric arrays element-wise, NaNs equal."""
    import struct
    out = []
    for x in tr:
        if isinstance(x, tuple) and x[0] == "N":
            t = x[1][:-2]
            if t in BITS or t in FLTS:
                n = len(x[2]) // struct.calcsize("<" + {"byte": "b", "short": "h", "int": "i", "long": "q", "float": "f", "double": "d"}[t])
                if t in BITS:
                    vals = struct.unpack("<%d%s" % (n, {"byte": "b", "short": "h", "int": "i", "long": "q"}[t]), x[2])
                    out.append(("N", x[1], tuple(vals)))
                elif t == "float":
                    out.append(("N", x[1], tuple(sem.norm(("f", b)) for b in struct.unpack("<%dI" % n, x[2]))))
                else:
                    out.append(("N", x[1], tuple(sem.norm(("d", b)) for b in struct.unpack("<%dQ" % n, x[2]))))
                continue
        if isinstance(x, tuple) and x[0] == "A":
            out.append(("A", x[1], list(x[2])))
            continue
        out.append(sem.norm(x))
    return out


P_SRC = """class P {
  has b : rw public byte; has s : rw public short; has i : rw public int; has l : rw public long; has f : rw public float; has d : rw public double;
  has str : rw public string; has o : rw public P;
  static method new : P () { return new P; }
}"""


def helper_classes():
    out = [("P", P_SRC)]
    for m, (t, fs) in sorted(MULNUMS.items()):
        out.append((m, "class %s : mulnum_t {\n%s}" % (m, "".join("  has %s : %s;\n" % (f, t) for f in fs))))
    return out


HELPERS = helper_classes()


def trace_eq(exp, got, errid=None):
    """Compares traces; ("errid",) stands for any error class id."""
    if len(exp) != len(got):
        return False
    for a, b in zip(exp, got):
        if a == ("errid",):
            if not isinstance(b, int) or b <= 0:
                return False
        elif a != b or type(a) is not type(b):
            return False
    return True


def first_diff(exp, got):
    for i, (a, b) in enumerate(zip(exp, got)):
        if a != b and a != ("errid",):
            return "record %d: expected %r, got %r" % (i, a, b)
    return "expected %d records, got %d (next: %r / %r)" % (len(exp), len(got), exp[len(got):len(got) + 1], got[len(exp):len(exp) + 1])
