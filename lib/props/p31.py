"""P31: anonymous methods.  Programs that create, store, pass, return and call anonymous methods with captured values, against a model with closures."""
import re
from vt import pbt, drv as drvmod
from vt.pbt import Suite

TITLE = "Anonymous methods keep the values they captured and belong to their class"
RULE = ("One case is a generated class whose methods create anonymous methods (nested, with captured variables and fields), pass, return, store and call them, run on 3 arguments; "
        "private and protected members of the class and its parent are used in the bodies; the trace, the result, the destroyed objects and the memory blocks are compared with the model. Non-trivial: at least 3 calls of anonymous methods that captured something.")

TYPES = ["byte", "short", "int", "long", "double", "string", "D", "int[]", "F"]
W = {"byte": 8, "short": 16, "int": 32, "long": 64}


def wrap(t, v):
    n = W[t]
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


class Die(Exception):
    pass


class Stop(Exception):
    pass


# ------------------------------------------------------------ generator
class Gen:
    def __init__(g, src):
        g.src, g.n, g.anon, g.budget = src, 0, 0, src.int(20, 70)
        g.feat = set()

    def nid(g):
        g.n += 1
        return g.n

    def const(g, t):
        s = g.src
        if t in W:
            return ("k", t, s.choice([0, 1, -1, 2, 100, {"byte": 127, "short": -32768, "int": 2147483647, "long": -9223372036854775807}[t], {"byte": -128, "short": 32767, "int": -2147483648, "long": 4294967296}[t]]))
        if t == "double":
            return ("k", t, s.choice([0.0, 1.5, -2.25, 1e300]))
        if t == "string":
            return ("k", t, s.choice([None, b"", b"a", b"xyz"]))
        if t == "D":
            return ("newD", g.nid()) if s.chance(5, 6) else ("k", t, None)
        if t == "int[]":
            return ("newA", s.int(-5, 99))
        return None

    def expr(g, t, sc, d=1):
        s = g.src
        vs = [v for v in sc["v"] if sc["v"][v] == t]
        fs = [f for f in sc["f"] if sc["f"][f] == t]
        opts = [(6 if vs else 0, "v"), (4 if fs else 0, "f"), (3 if t != "F" else 0, "c"), (3 if d > 0 and t in W else 0, "add"), (3 if d > 0 and t == "int" else 0, "call"),
                (2 if t == "int" else 0, "cv"), (1 if t == "int" else 0, "pr"), (2 if t == "int" else 0, "dk"), (1 if t == "string" else 0, "pkg"), (2 if d > 0 and t == "string" else 0, "cat")]
        if t == "F":
            opts += [(5 if g.budget > 0 and d > -2 else 0, "anon"), (2 if sc["m"] else 0, "mk"), (1, "undef"), (2, "cvF")]
        k = s.weighted(opts)
        if k == "v":
            return ("v", s.choice(vs))
        if k == "f":
            return ("f", s.choice(fs))
        if k == "c":
            return g.const(t)
        if k == "add":
            return ("add", t, g.expr(t, sc, d - 1), g.expr(t, sc, d - 1))
        if k == "call":
            return ("call", g.expr("F", sc, d - 1), g.expr("int", sc, d - 1), s.below(2))
        if k == "cv":
            return ("cv",)
        if k == "pr":
            return ("pr", s.below(4))
        if k == "dk":
            return ("dk", g.expr("D", sc, 0))
        if k == "pkg":
            return ("pkg",)
        if k == "cat":
            return ("cat", g.expr("string", sc, 0), g.expr("string", sc, 0))
        if k == "anon":
            return g.mkanon(sc, d)
        if k == "mk":
            return ("mk", s.choice(sc["m"]), g.expr("int", sc, 0))
        if k == "cvF":
            return ("cvF",)
        return ("k", "F", None)

    def mkanon(g, sc, d):
        s = g.src
        g.anon += 1
        num = g.anon
        g.budget -= 1
        caps = []
        names = set()
        for _ in range(s.weighted([(2, 0), (4, 1), (3, 2), (2, 4)])):
            form = s.weighted([(4, "same"), (4, "var"), (4, "has"), (1, "has0")])
            if form == "same":
                vs = [v for v in sc["v"] if v not in names and v != "x"]
                if not vs:
                    continue
                v = s.choice(vs)
                t = sc["v"][v]
                names.add(v)
                caps.append((form, v, t, ("v", v)))
                continue
            t = s.choice(TYPES)
            v = s.choice([x for x in ("a", "b", "c", "e", "g", "h", "k", "n") if x not in names])
            names.add(v)
            if form == "has0":
                caps.append((form, v, t, None))
            else:
                caps.append((form, v, t, g.expr(t, sc, min(d, 1) - 1)))
        isc = {"v": {"x": "int"}, "f": {v: t for _, v, t, _ in caps}, "m": sc["m"], "self": True, "own": {"x"}}
        for form, v, t, _ in caps:
            if form in ("same", "var"):
                isc["v"][v] = t
                isc["own"].add(v)
        g.feat.add("anon%d" % min(sc.get("depth", 0), 3))
        isc["depth"] = sc.get("depth", 0) + 1
        body = g.block(isc, s.int(1, 4) if isc["depth"] < 3 else 1)
        return ("anon", num, caps, body, g.expr("int", isc, 1 if isc["depth"] < 3 else 0))

    def block(g, sc, n):
        out = []
        sc = dict(sc, v=dict(sc["v"]), own=set(sc["own"]))
        for _ in range(n):
            if g.budget <= 0:
                break
            g.budget -= 1
            out.append(g.stmt(sc))
        return out, sc

    def stmt(g, sc):
        s = g.src
        vs = list(sc["v"])
        k = s.weighted([(6, "my"), (5 if vs else 0, "tr"), (3 if vs else 0, "set"), (4 if sc["f"] else 0, "trf"), (4 if sc["f"] else 0, "setf"), (6, "call"), (2, "setcv"), (2, "setcvF"),
                        (2, "elem"), (1, "if"), (2 if sc.get("self") else 0, "rec"), (1, "die"), (1, "name"), (2, "each"), (1, "priv")])
        g.feat.add(k)
        if k == "my":
            free = [v for v in ("a", "b", "c", "e", "g", "h") if v not in sc["own"]]
            if not free:
                return ("mark", g.nid())
            t = s.choice(TYPES if s.chance(1, 2) else ["F", "int", "F"])
            e = g.expr(t, sc, 1)
            v = s.choice(free)
            sc["v"][v] = t
            sc["own"].add(v)
            return ("my", v, t, e)
        if k == "tr":
            v = s.choice(vs)
            return ("tr", v, sc["v"][v])
        if k == "set":
            v = s.choice(vs)
            return ("set", v, sc["v"][v], g.expr(sc["v"][v], sc, 1))
        if k == "trf":
            f = s.choice(list(sc["f"]))
            return ("trf", f, sc["f"][f])
        if k == "setf":
            fs = [f for f in sc["f"] if sc["f"][f] != "F"]
            if not fs:
                return ("mark", g.nid())
            f = s.choice(fs)
            return ("setf", f, sc["f"][f], g.expr(sc["f"][f], sc, 1))
        if k == "call":
            return ("calls", g.expr("F", sc, 1), g.expr("int", sc, 0), s.below(2))
        if k == "setcv":
            return ("setcv", g.expr("int", sc, 1))
        if k == "setcvF":
            return ("setcvF", g.expr("F", sc, 1))
        if k == "elem":
            return ("elem", g.expr("int[]", sc, 0), g.expr("int", sc, 0))
        if k == "if":
            b, _ = g.block(sc, 2)
            return ("if", g.expr("int", sc, 0), b)
        if k == "rec":
            return ("rec", s.int(1, 3))
        if k == "die":
            return ("die", g.expr("int", sc, 0), g.nid())
        if k == "name":
            return ("name", g.expr("F", sc, 0))
        if k == "each":
            return ("each", [g.expr("F", sc, 0) for _ in range(s.int(1, 3))], g.expr("int", sc, 0), g.nid())
        return ("priv", g.expr("int", sc, 0))


def generate(src):
    g = Gen(src)
    ms = []
    names = []
    for i in range(src.int(0, 2)):
        sc = {"v": {"x": "int"}, "f": {}, "m": list(names), "own": {"x"}}
        b, isc = g.block(sc, src.int(0, 2))
        ms.append(("mk%d" % i, b, g.expr("F", isc, 1)))
        names.append("mk%d" % i)
        g.budget = max(g.budget, 15)
    sc = {"v": {"x": "int"}, "f": {}, "m": names, "own": {"x"}}
    g.budget = max(g.budget, 15)
    b, isc = g.block(sc, src.int(4, 12))
    ms.append(("run", b, g.expr("int", isc, 1)))
    return g, ms


# ------------------------------------------------------------ text
class Text:
    def __init__(s, pre):
        s.pre = pre

    def k(s, t, v):
        if v is None:
            return "undef"
        if t == "string":
            return '"%s"' % v.decode()
        if t == "double":
            return repr(v)
        if t == "long":
            return "%dL" % v
        if t == "int":
            return str(v)
        return "(%s)%d" % (t, v)

    def e(s, x):
        k = x[0]
        if k == "k":
            return s.k(x[1], x[2])
        if k == "v":
            return "$" + x[1]
        if k == "f":
            return "$self->{%s}" % x[1]
        if k == "newD":
            return "&newD(%d)" % x[1]
        if k == "newA":
            return "[%d]" % x[1]
        if k == "add":
            a = "%s + %s" % (s.e(x[2]), s.e(x[3]))
            return "(%s)" % a if x[1] in ("int", "long") else "(%s)(%s)" % (x[1], a)
        if k == "call":
            return ("&ap(%s, %s)" if x[3] else "&ap2(%s, %s)") % (s.e(x[1]), s.e(x[2]))
        if k == "cv":
            return "$G"
        if k == "cvF":
            return "$GF"
        if k == "pr":
            return ["P->prot", "$P::PG", "&tt->{p}", "&tt->pm(2)"][x[1]]
        if k == "dk":
            return "&dk(%s)" % s.e(x[1])
        if k == "pkg":
            return "__PACKAGE__"
        if k == "cat":
            return "&cat(%s, %s)" % (s.e(x[1]), s.e(x[2]))
        if k == "mk":
            return "&%s(%s)" % (x[1], s.e(x[2]))
        if k == "anon":
            caps = []
            for form, v, t, d in x[2]:
                if form == "same":
                    caps.append("$%s : %s" % (v, t))
                elif form == "var":
                    caps.append("$%s : %s = %s" % (v, t, s.e(d)))
                else:
                    caps.append("has %s : %s%s" % (v, t, " = " + s.e(d) if d else ""))
            return "\n%s%smethod : int ($x : int) {\n if ($W-- <= 0) { return 0; }\n%s return %s;\n}" % ("[%s] " % ", ".join(caps) if caps else "", "precompile " if s.pre else "", s.b(x[3][0]), s.e(x[4]))
        raise ValueError(k)

    def b(s, b):
        return "".join(" " + s.s(x) + "\n" for x in b)

    def tr(s, t, e):
        if t in W:
            return "VT->i(%s);" % e
        if t == "double":
            return "VT->d(%s);" % e
        if t == "string":
            return "VT->o(%s);" % e
        if t == "D":
            return "VT->i(&dk(%s));" % e
        if t == "int[]":
            return "VT->i(&ak(%s));" % e
        return "VT->i(&fk(%s));" % e

    def s(s, x):
        k = x[0]
        if k == "mark":
            return "VT->i(%d);" % x[1]
        if k == "my":
            return "my $%s : %s = %s;" % (x[1], x[2], s.e(x[3]))
        if k == "tr":
            return s.tr(x[2], "$" + x[1])
        if k == "set":
            return "$%s = %s;" % (x[1], s.e(x[3]))
        if k == "trf":
            return s.tr(x[2], "$self->{%s}" % x[1])
        if k == "setf":
            return "$self->{%s} = %s;" % (x[1], s.e(x[3]))
        if k == "calls":
            return "VT->i(%s(%s, %s));" % ("&ap" if x[3] else "&ap2", s.e(x[1]), s.e(x[2]))
        if k == "setcv":
            return "$G = %s;" % s.e(x[1])
        if k == "setcvF":
            return "$GF = %s;" % s.e(x[1])
        if k == "elem":
            return "&se(%s, %s);" % (s.e(x[1]), s.e(x[2]))
        if k == "if":
            return "if (%s) {\n%s }" % (s.e(x[1]), s.b(x[2]))
        if k == "rec":
            return "if ($x > %d && $x < 50) { VT->i($self->($x - %d)); }" % (x[1], x[1])
        if k == "die":
            return "if (%s == 1) { die \"d%d\"; }" % (s.e(x[1]), x[2])
        if k == "name":
            return "&nm(%s);" % s.e(x[1])
        if k == "each":
            return "my $l%d = [%s]; for my $i%d (@$l%d) { VT->i(&ap($i%d, %s)); }" % (x[3], ", ".join("(F)" + s.e(y) for y in x[1]), x[3], x[3], x[3], s.e(x[2]))
        return "VT->i(&pv(%s));" % s.e(x[1])



PRE = """class T extends P {
  use VT; use F; use D; use Fn;
  our $G : int; our $GF : F; our $W : int; our $ND : int;
  private static method pv : int ($v : int) { return $v * 3; }
  static method newD : D ($n : int) { my $d = new D; $d->{id} = $n; $ND++; return $d; }
  static method tt : T () { my $t = new T; $t->{p} = 13; return $t; }
  static method dk : int ($d : D) { unless ($d) { return -7; } return $d->{id}; }
  static method ak : int ($a : int[]) { unless ($a) { return -7; } return $a->[0]; }
  static method fk : int ($f : F) { if ($f) { return 1; } return 0; }
  static method cat : string ($a : string, $b : string) { unless ($a) { return $b; } unless ($b) { return $a; } return $a . $b; }
  static method se : void ($a : int[], $v : int) { if ($a) { $a->[0] = $v; } }
  static method ap : int ($f : F, $v : int) { unless ($f) { return -8; } return $f->($v); }
  static method ap2 : int ($f : object, $v : int) { unless ($f) { return -8; } my $r = 0; my $d = 1; eval { $r = ((F)$f)->($v); $d = 0; }; if ($d) { return -6; } return $r; }
  static method nm : void ($f : F) { unless ($f) { VT->i(-8); return; } VT->o(type_name $f); }
  static method main : int ($x : int) { $G = 0; $P::PG = 12; $GF = undef; $W = 120; $ND = 0; my $r = 0; my $d = 1; eval { $r = &run($x); $d = 0; }; VT->i($d); $GF = undef; VT->i($ND); return $r; }
"""
FCLS = "class F : interface_t { required method : int ($x : int); }"
PCLS = "class P : public { has p : protected int; our $PG : protected int; protected static method prot : int () { return 11; } protected method pm : int ($v : int) { return $self->{p} + $v; } }"
DCLS = "class D { allow T; has id : int; our $DEAD : int; method DESTROY : void () { $DEAD++; } static method dead : int () { my $d = $DEAD; $DEAD = 0; return $d; } }"


def source(ms, pre):
    t = Text(pre)
    o = PRE.replace("  static method", "  precompile static method") if pre else PRE
    for n, b, r in ms:
        rt = "int" if n == "run" else "F"
        o += "  %sstatic method %s : %s ($x : int) {\n%s  return %s;\n  }\n" % ("precompile " if pre else "", n, rt, t.b(b), t.e(r))
    return o + "}\n"


# ------------------------------------------------------------ model
class Arr:
    def __init__(s, v):
        s.v = v


class Clo:
    def __init__(s, n, fields, node, order):
        s.n, s.fields, s.node = n, fields, node


class Run:
    def __init__(r, ms):
        r.ms = {n: (b, e) for n, b, e in ms}
        r.tr, r.G, r.GF, r.W, r.nd, r.steps, r.capcalls, r.depth = [], 0, None, 120, 0, 0, 0, 0

    def ev(r, x, env, me):
        r.steps += 1
        if r.steps > 20000:
            raise Stop()
        k = x[0]
        if k == "k":
            return x[2]
        if k == "v":
            return env[x[1]]
        if k == "f":
            return me.fields[x[1]]
        if k == "newD":
            r.nd += 1
            return ("D", x[1])
        if k == "newA":
            return Arr(x[1])
        if k == "add":
            a = r.ev(x[2], env, me)
            return wrap(x[1], a + r.ev(x[3], env, me))
        if k == "call":
            f = r.ev(x[1], env, me)
            return r.apply(f, r.ev(x[2], env, me), not x[3])
        if k == "cv":
            return r.G
        if k == "cvF":
            return r.GF
        if k == "pr":
            return [11, 12, 13, 15][x[1]]
        if k == "dk":
            d = r.ev(x[1], env, me)
            return -7 if d is None else d[1]
        if k == "pkg":
            return b"T"
        if k == "cat":
            a = r.ev(x[1], env, me)
            b = r.ev(x[2], env, me)
            return b if a is None else a if b is None else a + b
        if k == "mk":
            v = r.ev(x[2], env, me)
            b, e = r.ms[x[1]]
            env2 = {"x": v}
            r.block(b, env2, None)
            return r.ev(e, env2, None)
        if k == "anon":
            fields = {}
            for form, v, t, d in x[2]:
                fields[v] = r.ev(d, env, me) if d else (0 if t in W else 0.0 if t == "double" else None)
            return Clo(x[1], fields, x, None)
        raise ValueError(k)

    def apply(r, f, v, caught):
        if f is None:
            return -8
        if not caught:
            return r.invoke(f, v)
        try:
            return r.invoke(f, v)
        except Die:
            return -6

    def invoke(r, f, v):
        r.depth += 1
        if r.depth > 60:
            raise Stop()
        try:
            w = r.W
            r.W -= 1
            if w <= 0:
                return 0
            if f.node[2]:
                r.capcalls += 1
            env = {"x": v}
            for form, n, t, d in f.node[2]:
                if form in ("same", "var"):
                    env[n] = f.fields[n]
            r.block(f.node[3][0], env, f)
            return r.ev(f.node[4], env, f)
        finally:
            r.depth -= 1

    def trace(r, t, v):
        if t in W:
            r.tr.append(v)
        elif t == "double":
            import struct
            r.tr.append(("d", struct.unpack("<Q", struct.pack("<d", v))[0]))
        elif t == "string":
            r.tr.append(v)
        elif t == "D":
            r.tr.append(-7 if v is None else v[1])
        elif t == "int[]":
            r.tr.append(-7 if v is None else v.v)
        else:
            r.tr.append(int(v is not None))

    def block(r, b, env, me):
        for x in b:
            r.st(x, env, me)

    def st(r, x, env, me):
        r.steps += 1
        k = x[0]
        if k == "mark":
            r.tr.append(x[1])
        elif k == "my":
            env[x[1]] = r.ev(x[3], env, me)
        elif k == "tr":
            r.trace(x[2], env[x[1]])
        elif k == "set":
            env[x[1]] = r.ev(x[3], env, me)
        elif k == "trf":
            r.trace(x[2], me.fields[x[1]])
        elif k == "setf":
            me.fields[x[1]] = r.ev(x[3], env, me)
        elif k == "calls":
            f = r.ev(x[1], env, me)
            v = r.apply(f, r.ev(x[2], env, me), not x[3])
            r.tr.append(v)
        elif k == "setcv":
            r.G = r.ev(x[1], env, me)
        elif k == "setcvF":
            r.GF = r.ev(x[1], env, me)
        elif k == "elem":
            a = r.ev(x[1], env, me)
            v = r.ev(x[2], env, me)
            if a is not None:
                a.v = v
        elif k == "if":
            if r.ev(x[1], env, me):
                e2 = dict(env)
                r.block(x[2], e2, me)
                for n in env:
                    env[n] = e2[n]
        elif k == "rec":
            if env["x"] > x[1] and env["x"] < 50:
                r.tr.append(r.invoke(me, wrap("int", env["x"] - x[1])))
        elif k == "die":
            if r.ev(x[1], env, me) == 1:
                raise Die()
        elif k == "name":
            f = r.ev(x[1], env, me)
            r.tr.append(-8 if f is None else ("N", f.n))
        elif k == "each":
            for f in [r.ev(y, env, me) for y in x[1]]:
                r.tr.append(r.apply(f, r.ev(x[2], env, me), False))
        else:
            r.tr.append(wrap("int", r.ev(x[1], env, me) * 3))


def case_for(variant, pre):
    def case(src, ctx):
        g, ms = generate(src)
        args = [src.int(-1, 6) for _ in range(3)]
        runs = []
        for a in args:
            r = Run(ms)
            try:
                try:
                    env = {"x": a}
                    b, e = r.ms["run"]
                    r.block(b, env, None)
                    v, d = r.ev(e, env, None), 0
                except Die:
                    v, d = 0, 1
                r.tr += [d, r.nd]
                runs.append((a, r, v))
            except Stop:
                pass
        if not runs:
            raise pbt.Discard()
        text = source(ms, pre)
        show = text[len(PRE):]
        drv = ctx.drv(variant)
        cls = [("T", text), ("F", FCLS), ("P", PCLS), ("D", DCLS)]
        names = {}
        try:
            if pre:
                c = drv.precompiled(ctx.infos[variant], cls, ["T"], ctx.scratch(), opt="-O1")
            else:
                c = drv.program(cls)
            if c.code:
                raise pbt.Violation("the program is not compiled: %s\n%s" % (c.errors[:3], text), key="p31-compile")
            for a, r, v in runs:
                x = drv.call("T", "main", a)
                bad = None
                if x.status != "ok" or x.ret != v or len(x.trace) != len(r.tr):
                    bad = min(len(x.trace), len(r.tr))
                for i, (m, t) in enumerate(zip(r.tr, x.trace)):
                    if isinstance(m, tuple) and m[0] == "N":
                        if not isinstance(t, bytes) or not re.match(rb"T::anon_method::\d+::\d+$", t) or names.setdefault(m[1], t) != t:
                            bad = i
                            break
                    elif m != t:
                        bad = i
                        break
                if bad is not None:
                    raise pbt.Violation("argument %r: the program returns %r (%s %s), the model %r; traces differ at record %d: %r, the model %r\n%s" % (
                        a, x.ret, x.status, x.msg, v, bad, x.trace[max(0, bad - 3):bad + 5], r.tr[max(0, bad - 3):bad + 5], show), key="p31")
                n = drv.call("D", "dead")
                if n.ret != r.nd:
                    raise pbt.Violation("argument %r: %d objects were created and %r destroyed\n%s" % (a, r.nd, n.ret, show), key="p31-life")
                if x.leak:
                    raise pbt.Violation("argument %r: %d memory blocks leak\n%s" % (a, x.leak, show), key="p31-leak")
            if len(set(names.values())) != len(names):
                raise pbt.Violation("two anonymous methods have one class name: %r\n%s" % (names, show), key="p31-name")
            drv.done()
        except drvmod.Crash as e:
            raise pbt.Violation("crash: %s\n%s" % (str(e)[:600], show), key="p31-crash")
        return pbt.Info(max(r.capcalls for _, r, _ in runs) >= 3, tags=sorted(g.feat), sample=show[:700], digest=text, evals=sum(r.steps for _, r, _ in runs))
    return case


SUITES = [
    Suite("vm", case_for("plain", False), 5000, 80000, variants=("plain",), chunk=50),
    Suite("precompiled", case_for("plain", True), 120, 1500, variants=("plain",), chunk=4),
    Suite("asan", case_for("asan", False), 600, 10000, variants=("asan",), chunk=20),
]

META = dict(
    statement="An anonymous method operator creates a new object of a class of its own, named after its outmost class and its place, whose fields hold the values that the captured variables and field expressions had at that moment, evaluated once in order. Each call sees fresh variables with these values, $self and its own fields, which keep what earlier calls stored; assignments to captured variables never reach the outer variables. The body may use private members, aliases, class variables and __PACKAGE__ of the outmost class, at any depth of nesting. Captured objects live exactly as long as the anonymous method's object.",
    over=["inputs", "programs"], quant="all programs that create, nest, pass, return, store, call and recur into anonymous methods, with captures of every kind of type",
    why="the unit tests call a handful of anonymous methods with one or two captures; nesting, captures of captures, state across calls, recursion and the lifetime of captured objects depend on how they are combined",
    files=["lib/SPVM/Builder/src/spvm_op.c", "lib/SPVM/Builder/src/spvm_check.c", "lib/SPVM/Builder/src/spvm_opcode_builder.c", "yacc/spvm_yacc.y", "lib/SPVM/Document/Language/Class.pm", "lib/SPVM/Document/Language/Operators.pm"],
    mech=[("anonymous method classes and their fields", "spvm_op.c SPVM_OP_build_anon_method, SPVM_OP_build_anon_method_field"), ("expansion of captures", "spvm_op.c, spvm_check.c"), ("access control of the outmost class", "spvm_check.c")],
    observe=["trace of values", "names of the classes", "objects destroyed", "remaining memory blocks"],
    technique="property-based testing with a reference model with closures, on generated programs",
    note="Generated programs of anonymous methods against a Python model with closures; in the VM, precompiled and with address sanitizer.")
