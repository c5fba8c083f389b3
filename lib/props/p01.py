from vt import lang, matrix, sem, prog
from vt.matrix import Op
from vt.pbt import Suite
from vt.sem import NUM, INTS, FLTS, BITS, promote, bin_type, conv

TITLE = "Numeric operators compute the documented result for every operand type and value"
RULE = ("One case calls 40 randomly chosen methods of the operator matrix (every numeric operator x every operand-type pair x every operand shape) "
        "with small, boundary or uniform values, or runs one generated program; it is non-trivial when at least one defined result was compared "
        "(programs: at least 8 operators executed and one trace value).")
ASSUMPTIONS = ["shift counts outside the width and float-to-integer conversions out of range are undefined in C and excluded"]

LV = {  # shape -> (declarations before, the l-value, read-back)
    "var": ("my $x = $a;", "$x"),
    "our": ("$OV_%s = $a;", "$OV_%s"),
    "field": ("my $p = T->newp; $p->{f_%s} = $a;", "$p->{f_%s}"),
    "elem": ("my $r = new %s[3]; my $i = 1; $r->[$i] = $a;", "$r->[$i]"),
    "deref": ("my $y = $a; my $r = \\$y;", "$$r"),
}


def lv(shape, t):
    pre, l = LV[shape]
    return (pre % t if "%s" in pre else pre), (l % t if "%s" in l else l)


def arithref(op, ta, tb):
    t = bin_type(ta, tb)
    return lambda a, b: sem.arith(op, t, conv(ta, t, a), conv(tb, t, b))


def cmpref(op, ta, tb):
    t = bin_type(ta, tb)
    return lambda a, b: sem.compare(op, conv(ta, t, a), conv(tb, t, b))


def shgen(ta, tb):
    w = BITS[promote(ta)]
    return lambda src: [sem.draw_num(src, ta), src.below(w)]


def build():
    ops = []
    for ta in NUM:
        for tb in NUM:
            t = bin_type(ta, tb)
            for op in "+-*/":
                ops.append(Op([ta, tb], t, "return $a %s $b;" % op, arithref(op, ta, tb), "%s %s" % (op, t)))
            for op in ("==", "!=", ">", ">=", "<", "<=", "<=>"):
                def g(src, ta=ta, tb=tb):
                    a = sem.draw_num(src, ta)
                    if src.chance(1, 3):
                        try:
                            return [a, conv(ta, tb, a)]
                        except sem.UB:
                            pass
                    return [a, sem.draw_num(src, tb)]
                r = cmpref(op, ta, tb)
                ops.append(Op([ta, tb], "int", "return $a %s $b;" % op, r, "%s %s" % (op, t), g))
                ops.append(Op([ta, tb], "int", "if ($a %s $b) { return 1; } return 0;" % op, (lambda a, b, r=r: int(r(a, b) != 0)), "if %s %s" % (op, t), g))
    for ta in INTS:
        for tb in INTS:
            t = bin_type(ta, tb)
            for op in "%&|^":
                ops.append(Op([ta, tb], t, "return $a %s $b;" % op, arithref(op, ta, tb), "%s %s" % (op, t)))
            if tb != "long":
                for op in ("<<", ">>", ">>>"):
                    pt = promote(ta)
                    ops.append(Op([ta, tb], pt, "return $a %s $b;" % op, (lambda a, b, op=op, pt=pt: sem.shift(op, pt, a, b)), "%s %s" % (op, pt), shgen(ta, tb)))
    for t in ("int", "long"):
        for op in ("div_u", "mod_u"):
            ops.append(Op([t, t], t, "return $a %s%s $b;" % (op, t), (lambda a, b, op=op, t=t: sem.arith(op + t, t, a, b)), op + t))
    for ta in NUM:
        pt = promote(ta)
        ops.append(Op([ta], pt, "return -$a;", (lambda a, pt=pt: sem.wrap(pt, -a) if pt in BITS else -a), "neg"))
        ops.append(Op([ta], pt, "return +$a;", (lambda a: a), "plus"))
        ops.append(Op([ta], "int", "return !$a;", (lambda a: int(a == 0)), "not"))
        ops.append(Op([ta], "int", "if ($a) { return 1; } else { return 2; }", (lambda a: 1 if a != 0 else 2), "cond"))
        ops.append(Op([ta], "int", "unless ($a) { return 1; } else { return 2; }", (lambda a: 2 if a != 0 else 1), "unless"))
        ops.append(Op([ta], "int", "return $a && 1;", (lambda a: int(a != 0)), "and"))
        if ta in INTS:
            ops.append(Op([ta], pt, "return ~$a;", (lambda a: ~a), "bitnot"))
        for tb in NUM:
            ops.append(Op([ta], tb, "return (%s)$a;" % tb, (lambda a, ta=ta, tb=tb: conv(ta, tb, a)), "cast %s %s" % (ta, tb)))
            if NUM.index(tb) >= NUM.index(ta):
                ops.append(Op([ta], tb, "my $x : %s = $a; return $x;" % tb, (lambda a, ta=ta, tb=tb: conv(ta, tb, a)), "widen"))
                ops.append(Op([ta], tb, "return $a;", (lambda a, ta=ta, tb=tb: conv(ta, tb, a)), "widen"))
                ops.append(Op([ta], tb, "return &id_%s($a);" % tb, (lambda a, ta=ta, tb=tb: conv(ta, tb, a)), "widen"))
    for shape in LV:
        for t in NUM:
            pre, l = lv(shape, t)
            pt = promote(t)

            def step(v, k, t=t, pt=pt):
                return conv(pt, t, sem.arith("+" if k > 0 else "-", pt, v, 1 if pt in BITS else 1.0))
            for txt, k, post in (("++%s", 1, 0), ("--%s", -1, 0), ("%s++", 1, 1), ("%s--", -1, 1)):
                e = txt % l
                ops.append(Op([t], t, "%s my $q = %s; return $q;" % (pre, e), (lambda a, k=k, post=post, step=step: a if post else step(a, k)), "incdec " + shape))
                ops.append(Op([t], t, "%s %s; return %s;" % (pre, e, l), (lambda a, k=k, step=step: step(a, k)), "incdec " + shape))
            for tb in NUM:
                for op in ["+", "-", "*", "/"] + (["%", "&", "|", "^", "<<", ">>", ">>>"] if t in INTS and tb in INTS else []):
                    if op in ("<<", ">>", ">>>"):
                        if tb == "long":
                            continue
                        ref = (lambda a, b, op=op, pt=pt, t=t: conv(pt, t, sem.shift(op, pt, a, b)))
                        gen = shgen(t, tb)
                    else:
                        bt = bin_type(t, tb)
                        ref = (lambda a, b, r=arithref(op, t, tb), bt=bt, t=t: conv(bt, t, r(a, b)))
                        gen = None
                    ops.append(Op([t, tb], t, "%s %s %s= $b; return %s;" % (pre, l, op, l), ref, "%s= %s" % (op, shape), gen))
                    ops.append(Op([t, tb], t, "%s my $q = (%s %s= $b); return $q;" % (pre, l, op), ref, "%s= value" % op, gen))
    return ops


EXTRA = "\n".join("  our $OV_%s : %s;\n  has f_%s : %s;\n" % (t, t, t, t) for t in NUM) + "  static method newp : T () { return new T; }\n" + \
    "\n".join("  static method id_%s : %s ($v : %s) { return $v; }" % (t, t, t) for t in NUM)
OPS = build()
CFG = dict(strings=False, arrays=True, objects=True, refs=True, boxes=False, evals=True, calls=True)
SUITES = [
    Suite("matrix", matrix.matrix_case(OPS, "p01", 200, extra=EXTRA), 600, 20000, chunk=75),
    Suite("matrix-precompiled", matrix.matrix_case(OPS, "p01p", 200, extra=EXTRA, precompile=True), 600, 20000, chunk=75),
    Suite("programs", lang.programs(CFG), 500, 10000, chunk=50),
]

META = dict(
    statement="Every numeric operator (arithmetic, unsigned division and modulo, bitwise, shifts, comparisons, unary, increment and decrement, special assignments, casts, widening, conditions) yields the value and the result type that the language reference defines, for all operand values, all operand type combinations and all assignable operand kinds. Integer results wrap around at their width, an integer division by zero throws the documented exception, and no operand value ends the process.",
    over=["inputs"], quant="all pairs of numeric types, all operand values of those types, and all kinds of assignable operands (local, class variable, field, element, dereference)",
    why="the tests check each operator with a few hand-picked values per type; the operators must be right for all 2^64 values of 36 type pairs, in two execution engines",
    files=["lib/SPVM/Builder/include/spvm_implement.h", "lib/SPVM/Builder/src/spvm_vm.c", "lib/SPVM/Builder/src/spvm_check.c", "lib/SPVM/Builder/src/spvm_opcode_builder.c", "lib/SPVM/Document/Language/Operators.pm"],
    mech=[("one macro per operation and type", "lib/SPVM/Builder/include/spvm_implement.h"), ("binary numeric conversion and implicit casts inserted by the checker", "lib/SPVM/Builder/src/spvm_check.c"), ("opcode selection by operand type", "lib/SPVM/Builder/src/spvm_opcode_builder.c")],
    observe=["return values and exceptions of compiled methods, interpreted and precompiled"],
    technique="property-based testing against a reference model of the operators",
    note="Sampled values (small, boundary, uniform) over the complete operator x type x operand-kind matrix in both engines; trusts the reference semantics in lib/vt/sem.py and the C compiler.")
