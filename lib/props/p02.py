from vt import lang, sem, pbt, prog, matrix
from vt.pbt import Suite
from vt.prog import E, par

TITLE = "Expressions group by the documented precedence and evaluate left to right"
RULE = ("One case is an expression tree over all binary, unary, logical, comparison, assignment and sequence operators, printed with only the parentheses that the documented "
        "precedence and associativity require, whose leaves record when they are evaluated; or a generated program with such expressions. Non-trivial: at least 4 operators and 3 evaluated leaves.")

META = dict(
    statement="An expression without redundant parentheses means the grouping given by the documented operator precedence and associativity, its operands are evaluated left to right exactly once (a simple assignment evaluates its right operand before the operands of its target, a compound one after them), and the logical operators evaluate their right operand only when the left one does not decide. The value of a logical operator, an assignment, an increment or a sequence used as an operand is the documented one.",
    over=["programs", "inputs"], quant="all expression trees over the language's operators and all operand values",
    why="the tests contain a handful of operator combinations; precedence, evaluation order and nesting interact in unboundedly many expressions",
    files=["yacc/spvm_yacc.y", "lib/SPVM/Builder/src/spvm_op.c", "lib/SPVM/Builder/src/spvm_check.c", "lib/SPVM/Builder/src/spvm_opcode_builder.c", "lib/SPVM/Document/Language/SyntaxParsing.pm"],
    mech=[("precedence declarations of the grammar", "yacc/spvm_yacc.y"), ("logical operators built as conditional assignments", "lib/SPVM/Builder/src/spvm_op.c"), ("temporary variables for operands", "lib/SPVM/Builder/src/spvm_check.c")],
    observe=["values and order of recorded calls of compiled expressions"],
    technique="property-based testing with generated expressions against a reference evaluator",
    note="Random expression trees up to depth 7 plus generated programs, compared with a reference evaluator for value and evaluation order; trusts that evaluator.")

from vt.prog import P_ASG as P_ASSIGN, P_LOR, P_LAND, P_BOR as P_OR, P_BAND as P_AND, P_EQ, P_REL, P_SH as P_SHIFT, P_ADD, P_MUL, P_UN, P_ARW, P_PRIM

XS = ["x0", "x1", "x2", "x3", "x4", "x5"]
US = ["u0", "u1", "u2", "u3"]

BIN = [("*", P_MUL), ("/", P_MUL), ("%", P_MUL), ("div_uint", P_MUL), ("mod_uint", P_MUL), ("+", P_ADD), ("-", P_ADD), ("<<", P_SHIFT), (">>", P_SHIFT), (">>>", P_SHIFT),
       ("<", P_REL), (">", P_REL), ("<=", P_REL), (">=", P_REL), ("<=>", P_REL), ("==", P_EQ), ("!=", P_EQ), ("&", P_AND), ("|", P_OR), ("^", P_OR), ("&&", P_LAND), ("||", P_LOR)]


# targets with operands of their own: elements, fields, fields of elements, references
EL = ["e%d" % i for i in range(5)]
FL = ["f%d" % i for i in range(4)]
OL = ["o%d" % i for i in range(3)]
PL = ["p%d" % i for i in range(3)]
RL = ["r0", "r1"]
ALLT = XS + US + EL + FL + OL + PL + RL
INIT = {v: i * 3 - 7 for i, v in enumerate(ALLT)}
DECL = " ".join("my $%s = %d;" % (v, INIT[v]) for v in XS + US + RL)
DECL += " my $rr0 = \\$r0; my $rr1 = \\$r1;"
DECL += " my $ar = [%s];" % ", ".join(str(INIT[v]) for v in EL)
DECL += " my $ob = new T; %s" % " ".join("$ob->{%s} = %d;" % (v, INIT[v]) for v in FL)
DECL += " my $os = new T[3]; for (my $i = 0; $i < 3; $i++) { $os->[$i] = new T; } %s" % " ".join("$os->[%d]{f0} = %d;" % (i, INIT[v]) for i, v in enumerate(OL))
DECL += " my $ps = new Point_3i[3]; %s" % " ".join("$ps->[%d]{%s} = %d;" % (i, "xyz"[i], INIT[v]) for i, v in enumerate(PL))
SHOW = " ".join("VT->i($%s);" % v for v in XS + US)
SHOW += " " + " ".join("VT->i($ar->[%d]);" % i for i in range(len(EL)))
SHOW += " " + " ".join("VT->i($ob->{%s});" % v for v in FL)
SHOW += " " + " ".join("VT->i($os->[%d]{f0});" % i for i in range(3))
SHOW += " " + " ".join("VT->i($ps->[%d]{%s});" % (i, "xyz"[i]) for i in range(3))
SHOW += " VT->i($r0); VT->i($r1);"
POINT = "class Point_3i : mulnum_t { has x : int; has y : int; has z : int; }"
HEAD = ["class T { use VT; use Point_3i;", " has f0 : int; has f1 : int; has f2 : int; has f3 : int;",
        " static method t : int ($k : int, $v : int) { VT->i($k); return $v; }",
        " static method tar : int[] ($k : int, $v : int[]) { VT->i($k); return $v; }",
        " static method tob : T ($k : int, $v : T) { VT->i($k); return $v; }",
        " static method tos : T[] ($k : int, $v : T[]) { VT->i($k); return $v; }",
        " static method tps : Point_3i[] ($k : int, $v : Point_3i[]) { VT->i($k); return $v; }"]


class XGen:
    """int expressions over $a..$d and traced calls &t(k, v)."""
    def __init__(self, src, t="int"):
        self.s, self.t = src, t
        self.k = 0
        self.n = 0
        self.trace = []
        self.tags = set()
        # every target is used once in an expression: the value of an assignment is the variable itself
        self.xs, self.us = list(XS), list(US)
        self.cs = EL + FL + OL + PL + RL

    def target(self):
        """A target with operands: -> (name, text, function that records their evaluation)."""
        s = self.s
        v = self.cs.pop(s.below(len(self.cs)))
        i = int(v[1:])
        ks = []

        def base(name):
            if s.chance(1, 3):
                return "$" + name
            self.k += 1
            ks.append(self.k)
            return "&t%s(%d, $%s)" % (name, self.k, name)

        def index():
            if s.chance(1, 3):
                return str(i)
            self.k += 1
            ks.append(self.k)
            return "&t(%d, %d)" % (self.k, i)
        self.tags.add("target_" + v[0])
        if v[0] == "e":
            t = base("ar")
            t += "->[%s]" % index()
        elif v[0] == "f":
            t = base("ob") + "->{%s}" % v
        elif v[0] == "o":
            t = base("os")
            t += "->[%s]%s{f0}" % (index(), s.choice(["", "->"]))
        elif v[0] == "p":
            t = base("ps")
            t += "->[%s]%s{%s}" % (index(), s.choice(["", "->"]), "xyz"[i])
        else:
            t = "$$r" + v
        return v, t, lambda: self.trace.extend(ks)

    def leaf(self):
        s = self.s
        r = s.below(4)
        if r == 0:
            v = s.choice("abcd")
            return E("$" + v, P_PRIM, "int", lambda fr: fr[v])
        if r == 1:
            n = s.int(0, 9)
            return E(str(n), P_PRIM, "int", lambda fr: n)
        self.k += 1
        k = self.k
        v = s.choice("abcd")

        def f(fr):
            self.trace.append(k)
            return fr[v]
        if r == 2:
            return E("&t(%d, $%s)" % (k, v), P_ARW, "int", f)
        return E("T->t(%d, $%s)" % (k, v), P_ARW, "int", f)

    def ex(self, d):
        s = self.s
        if d <= 0 or s.chance(1, 6):
            return self.leaf()
        self.n += 1
        k = s.weighted([(12, "bin"), (3, "un"), (1, "seq"), (3, "asg"), (2, "inc"), (1, "par"), (1, "cat")])
        self.tags.add(k)
        if k == "par":
            e = self.ex(d - 1)
            return E("(%s)" % e.s, P_PRIM, "int", e.f)
        if k == "un":
            op = s.choice(["-", "~", "!", "+"])
            a = self.ex(d - 1)
            t = par(a, P_UN)
            if t[:1] == op or op in "+-" and t[:1] in "+-":
                t = "(%s)" % t
            f = {"-": lambda fr: sem.wrap("int", -a.f(fr)), "~": lambda fr: ~a.f(fr), "!": lambda fr: int(not a.f(fr)), "+": lambda fr: a.f(fr)}[op]
            return E(op + t, P_UN, "int", f)
        if k == "seq":
            es = [self.ex(d - 1) for _ in range(s.int(2, 3))]

            def f(fr):
                for e in es:
                    v = e.f(fr)
                return v
            return E("(%s)" % ", ".join(e.s for e in es), P_PRIM, "int", f)
        if k == "asg":
            rec = None
            if self.cs and s.chance(1, 2):
                v, tx, rec = self.target()
            elif self.xs:
                v = self.xs.pop(s.below(len(self.xs)))
                tx = "$" + v
            else:
                return self.leaf()
            op = s.choice(["=", "+=", "-=", "*=", "|=", "^=", "&="])
            a = self.ex(d - 1)

            def f(fr):
                if op == "=":
                    r = a.f(fr)
                    if rec:
                        rec()
                    fr[v] = r
                else:
                    if rec:
                        rec()
                    r = a.f(fr)
                    fr[v] = sem.arith(op[0], "int", fr[v], r)
                return fr[v]
            return E("%s %s %s" % (tx, op, par(a, P_ASSIGN)), P_ASSIGN, "int", f)
        if k == "inc":
            rec = None
            if self.cs and s.chance(1, 2):
                v, tx, rec = self.target()
            elif self.us:
                v = self.us.pop(s.below(len(self.us)))
                tx = "$" + v
            else:
                return self.leaf()
            form = s.choice(["++%s", "--%s", "%s++", "%s--"])

            def f(fr):
                if rec:
                    rec()
                o = fr[v]
                fr[v] = sem.wrap("int", o + (1 if "+" in form else -1))
                return o if form[0] == "%" else fr[v]
            return E(form % tx, prog.P_INC, "int", f)
        if k == "cat":
            a, b = self.ex(d - 1), self.ex(d - 1)

            def f(fr):
                x = a.f(fr)
                y = b.f(fr)
                return len("%d%d" % (x, y))
            # length binds tighter than '.': the operand is parenthesised by need
            return E("length (%s . %s)" % (par(a, P_ADD), par(b, P_ADD + 1)), P_UN, "int", f)
        op, p = s.choice(BIN)
        self.tags.add(op)
        a, b = self.ex(d - 1), self.ex(d - 1)
        if p in (P_REL, P_EQ):      # not associative
            sa, sb = par(a, p + 1), par(b, p + 1)
        else:
            sa, sb = par(a, p), par(b, p + 1)
        if op == "&&":
            def f(fr):
                return b.f(fr) if a.f(fr) else 0
        elif op == "||":
            def f(fr):
                return a.f(fr) or b.f(fr)
        elif op in ("<<", ">>", ">>>"):
            sb = "(%s & 15)" % par(b, P_AND)
            def f(fr):
                x = a.f(fr)
                return sem.shift(op, "int", x, b.f(fr) & 15)
        elif op in ("/", "%", "div_uint", "mod_uint"):
            def f(fr):
                x = a.f(fr)
                return sem.arith(op, "int", x, b.f(fr))
        elif p in (P_REL, P_EQ):
            def f(fr):
                x = a.f(fr)
                return sem.compare(op, x, b.f(fr))
        else:
            def f(fr):
                x = a.f(fr)
                return sem.arith(op, "int", x, b.f(fr))
        return E("%s %s %s" % (sa, op, sb), p, "int", f)


def one(src, k):
    g = XGen(src)
    e = g.ex(src.int(2, 7))
    vals = {v: sem.draw_num(src, "int") if src.chance(1, 4) else src.int(-3, 9) for v in "abcd"}
    fr = dict(vals)
    fr.update(INIT)
    try:
        r = ("ok", e.f(fr))
    except sem.Die as ex:
        r = ("die", ex.msg)
    return g, e, vals, r, [fr[v] for v in ALLT]


def exprs(precompile):
    def case(src, ctx):
        items = [one(src, k) for k in range(8)]
        body = list(HEAD)
        ctxs = []
        for i, (g, e, vals, r, fin) in enumerate(items):
            form = src.below(4)
            ctxs.append(form)
            use = ["$r = %s;", "my $q = %s; $r = $q;", "if (%s) { $r = 1; } else { $r = 0; }", "$r = &id(%s);"][form] % e.s
            body.append(" %sstatic method m%d : int ($a : int, $b : int, $c : int, $d : int) { %s my $r = 0;\n  eval { %s };\n my $m = $@; %s if ($m) { die $m; } return $r; }" % ("precompile " if precompile else "", i, DECL, use, SHOW))
        body.append(" static method id : int ($v : int) { return $v; } }")
        text = "\n".join(body)
        d = ctx.drv("plain")
        r = d.precompiled(ctx.infos["plain"], [("T", text), ("Point_3i", POINT)], ["T"], ctx.scratch(), opt="-O1") if precompile else d.program([("T", text), ("Point_3i", POINT)])
        if r.code:
            raise pbt.Violation("a correct expression is rejected: %s\n%s" % (r.errors[:2], text), "rejected")
        tags, dig = set(), []
        for i, (g, e, vals, r, fin) in enumerate(items):
            c = d.call("T", "m%d" % i, *[vals[v] for v in "abcd"])
            exp = r
            if r[0] == "ok" and ctxs[i] == 2:
                exp = ("ok", int(r[1] != 0))
            got = ("ok", c.ret) if c.status == "ok" else ("die", c.msg.split(b"\n")[0])
            et = g.trace + fin
            if got != exp or c.trace != et:
                raise pbt.Violation("%s\n with %r: expected %r, evaluated %r; got %r, evaluated %r" % (e.s, vals, exp, et, got, c.trace), "differs")
            tags |= g.tags
            if g.n >= 4 and g.k >= 3:
                dig.append(e.s)
        d.done()
        return pbt.Info(bool(dig), sorted(tags), items[0][1].s, digest=dig, evals=len(items))
    return case


CFG = dict(order=True, loops=False, switch=False, evals=False, stmts=4, depth=5)
SUITES = [
    Suite("expressions", exprs(False), 1200, 40000, chunk=50),
    Suite("expressions-precompiled", exprs(True), 240, 8000, chunk=15),
    Suite("programs", lang.programs(CFG), 500, 10000, chunk=50),
]
