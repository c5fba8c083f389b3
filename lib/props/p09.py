"""P09: control flow.  Programs whose decisions come from an input tape, with a small model of the statements."""
import math
from vt import sem, pbt, prog, drv as drvmod
from vt.pbt import Suite

TITLE = "Statements transfer control exactly as documented, on every path"
RULE = ("One case is a generated program of nested conditions, switches, loops, blocks, eval blocks and calls, run on 6 input tapes that decide its conditions; "
        "the trace, the variables and the outcome of every run are compared with the model. Non-trivial: a run takes at least 12 steps and transfers control by a loop, switch, next, last, break, return or die.")
ASSUMPTIONS = ["an array is not replaced by another array while a for-each statement iterates over it (the documents leave open which one is read)"]

POOL = {
    "byte": [0, 1, -1, 127, -128, 0], "short": [0, 1, 256, -32768, 0, 32767], "int": [0, 1, -1, 65536, 2147483647, -2147483648, 0, 0],
    "long": [0, 1, 4294967296, -9223372036854775808, 0, -4294967296], "float": [0.0, -0.0, 1.5, float("nan"), 1e-45, float("inf"), 0.0],
    "double": [0.0, -0.0, 0.5, float("nan"), 5e-324, float("-inf"), 0.0, 4294967296.0], "string": [None, b"", b"0", b"abc"],
    "object": [None, 1, 2], "Bool": [0, 1], "Bx": [None, 1], "int[]": [None, 0, 3],
}
TYPES = sorted(POOL)
STEPS = 4000


def lit(t, v):
    if t in ("float", "double"):
        s = "f" if t == "float" else ""
        if math.isnan(v):
            return "(float)(0.0 / 0.0)" if s else "(0.0 / 0.0)"
        if math.isinf(v):
            return ("(float)" if s else "") + ("(1.0 / 0.0)" if v > 0 else "(-1.0 / 0.0)")
        if v == 5e-324:
            return "0x1p-1074"
        if v == 1e-45:
            return "0x1p-149f"
        if v == 0 and math.copysign(1, v) < 0:
            return "-0.0" + s
        return repr(v) + s
    return "(%s)%dL" % (t, v) if v != -9223372036854775808 else "(-9223372036854775807L - 1L)"


def fetch_methods():
    """One method per type that reads the tape: traces its site and returns the chosen value."""
    o = ["our $T : int[]; our $P : int; our $W : int;",
         "static method nx : int ($n : int) { my $i = $P; $P++; if ($i >= @$T) { return 0; } my $v = $T->[$i] % $n; return $v; }",
         "static method pk : int ($id : int, $a : int[]) { VT->i($id); return $a->[&nx(@$a)]; }",
         "static method fu : int () { $W--; return $W > 0; }"]
    for t in TYPES:
        rt = {"object": "object", "Bx": "Int", "int[]": "int[]"}.get(t, t)
        body = []
        for i, v in enumerate(POOL[t]):
            if v is None:
                e = "undef"
            elif t == "string":
                e = '"%s"' % v.decode()
            elif t == "object":
                e = "(object)new T" if v == 1 else "(object)0"
            elif t == "Bool":
                e = "Bool->TRUE" if v else "Bool->FALSE"
            elif t == "Bx":
                e = "Int->new(0)"
            elif t == "int[]":
                e = "new int[%d]" % v
            else:
                e = lit(t, v)
            body.append("if ($k == %d) { return %s; }" % (i, e))
        o.append("static method g_%s : %s ($id : int) { VT->i($id); my $k = &nx(%d); %s return %s; }" % (
            t.replace("[]", "a").lower() if t != "Bool" else "bool", rt, len(POOL[t]), " ".join(body), "0" if t in sem.NUM else "undef"))
    return "\n".join(o)


def gname(t):
    return "g_" + t.replace("[]", "a").lower()


def truth(t, v):
    if t in ("byte", "short", "int"):
        return v
    if t in ("long", "float", "double"):
        return int(v != 0)
    if t == "Bool":
        return v
    return int(v is not None)


class Stop(Exception):
    pass


class Ctl(Exception):
    def __init__(s, kind, v=None):
        s.kind, s.v = kind, v


class Gen:
    def __init__(g, src):
        g.src, g.ids, g.n, g.nm = src, 1000, 0, 0
        g.budget = src.int(15, 80)
        g.methods = []
        g.feat = set()

    def nid(g):
        g.ids += 1
        return g.ids

    # --- expressions: ("kind", ...) with text() and eval
    def cond(g, d, sc):
        s = g.src
        k = s.weighted([(8, "tape"), (3, "cmp"), (4 if d else 0, "and"), (4 if d else 0, "or"), (3 if d else 0, "not"), (2, "const"), (2, "var"), (1 if d else 0, "seq")])
        if k == "tape":
            return ("tape", s.choice(TYPES), g.nid())
        if k == "cmp":
            return ("cmp", s.choice(["==", "!=", "<", ">", "<=", ">="]), g.iexpr(d - 1, sc), g.iexpr(d - 1, sc))
        if k in ("and", "or"):
            return (k, g.cond(d - 1, sc), g.cond(d - 1, sc))
        if k == "not":
            return ("not", g.cond(d - 1, sc))
        if k == "const":
            return ("const",) + s.choice([("0", 0), ("1", 1), ("0.0", 0), ("1.5", 1), ("true", 1), ("false", 0), ("undef", 0), ('"a"', 1), ('"0"', 1), ("7", 7), ("0L", 0), ("5L", 1), ("'a'", 97), ("-0.0f", 0), ("-3", -3)])
        if k == "var":
            return g.iexpr(0, sc)
        return ("seq", g.cond(d - 1, sc), g.cond(d - 1, sc))

    def iexpr(g, d, sc):
        s = g.src
        vs = [v for v in sc if sc[v] == "int"]
        k = s.weighted([(5 if vs else 0, "v"), (4, "c"), (3, "tape"), (2 if d > 0 else 0, "add"), (1 if d > 0 else 0, "bool")])
        if k == "v":
            return ("v", s.choice(vs))
        if k == "c":
            return ("const",) + (lambda n: (str(n), n))(s.choice([0, 1, 2, 3, 4, 5, 7, 100, -1, -5]))
        if k == "tape":
            return ("tape", s.choice(["byte", "short", "int"]), g.nid())
        if k == "add":
            return ("add", g.iexpr(d - 1, sc), g.iexpr(d - 1, sc))
        return ("paren", g.cond(d - 1, sc))

    # --- statements
    def block(g, depth, sc, ctx, mx=5, own=(), lo=0):
        """ctx: loop (next, last allowed), switch (break allowed), void method or not."""
        sc = dict(sc)
        sc["#"] = set(own)
        n = g.src.int(lo, mx)
        out = []
        for _ in range(n):
            if g.budget <= 0:
                break
            g.budget -= 1
            out.append(g.stmt(depth, sc, ctx))
        return out

    def stmt(g, depth, sc, ctx):
        s = g.src
        d = depth > 0
        ivs = [v for v in sc if sc[v] == "int"]
        w = [(6, "t"), (3 if ivs else 0, "tv"), (3, "my"), (4 if ivs else 0, "set"), (9 if d else 0, "if"), (4 if d else 0, "while"), (4 if d else 0, "for"), (3 if d else 0, "foreach"),
             (5 if d else 0, "switch"), (2 if d else 0, "block"), (3 if d else 0, "eval"), (1, "die"), (3 if ctx["loop"] else 0, "next"), (3 if ctx["loop"] else 0, "last"),
             (4 if ctx["sw"] else 0, "break"), (1, "ret"), (2 if ctx["m"] else 0, "call"), (1, "expr"), (1, "empty")]
        k = s.weighted(w)
        g.feat.add(k)
        if k == "t":
            return ("t", g.nid())
        if k == "tv":
            return ("tv", s.choice(ivs))
        if k == "my":
            free = [v for v in ("v0", "v1", "v2", "v3", "v4") if v not in sc["#"]]
            if not free:
                return ("t", g.nid())
            v = s.choice(free)
            sc["#"].add(v)
            init = g.iexpr(1, sc) if s.chance(3, 4) else None
            sc[v] = "int"
            return ("my", v, init)
        if k == "set":
            if s.chance(1, 4):
                return ("inc", s.choice(ivs), s.choice(["++", "--"]))
            return ("set", s.choice(ivs), g.iexpr(2, sc))
        if k == "if":
            arms, inner = [], dict(sc)
            for i in range(s.weighted([(5, 1), (3, 2), (2, 3), (1, 6)])):
                un = i == 0 and s.chance(1, 5)
                if s.chance(1, 10):
                    v = "v%d" % s.below(5)
                    c = ("mycond", v, g.iexpr(1, inner))
                    inner[v] = "int"
                else:
                    c = g.cond(3, inner)
                arms.append((un, c, g.block(depth - 1, inner, ctx)))
            els = g.block(depth - 1, inner, ctx) if s.chance(1, 2) else None
            return ("if", arms, els)
        lp = dict(ctx, loop=True)
        if k == "while":
            c = g.cond(2, sc)
            return ("while", c, g.block(depth - 1, sc, lp, lo=1), s.chance(1, 6))
        if k == "for":
            v = "v%d" % s.below(5)
            inner = dict(sc)
            inner[v] = "int"
            a, b = s.int(-1, 3), s.int(-1, 6)
            form = s.weighted([(6, "up"), (3, "down"), (2, "nostep"), (2, "cond")])
            return ("for", v, a, b, form, g.cond(1, inner) if form == "cond" else None, g.block(depth - 1, inner, lp, lo=1))
        if k == "foreach":
            v = "v%d" % s.below(5)
            inner = dict(sc)
            inner[v] = "int"
            n = s.int(0, 4)
            return ("foreach", v, [s.int(-3, 9) for _ in range(n)], s.below(3), g.block(depth - 1, inner, lp, own=(v,), lo=1), "a%d" % g.nid())
        if k == "switch":
            t = s.choice(["byte", "short", "int"])
            pool = [0, 1, 2, 3, 4, 5, 7, 97, 100, -1, -5, 127, -128, 256, 65536, 2147483647, -2147483648, -32768, 32767]
            style = s.below(5)
            if style == 4:
                pool = [-2147483648, 2147483647, -2147483647, 1, -1, 2147483646, 1073741824, -1073741825, 0, 65536]
            if style == 1:
                base = s.int(-3, 3)
                pool = list(range(base, base + 9))
            nc = s.weighted([(2, 0), (4, 2), (4, 4), (2, 9)])
            s.shuffle(pool)
            use = pool[:nc]
            e = ("pick", g.nid(), pool[:nc + 1]) if s.chance(3, 5) else ("tape", t, g.nid()) if s.chance(1, 2) else g.iexpr(2, sc)
            cases = []
            sw = dict(ctx, sw=True)
            while use:
                m = s.weighted([(4, 1), (1, 2), (1, 3)])
                cs, use = use[:m], use[m:]
                cases.append((cs, g.block(depth - 1, sc, sw, 4), s.below(3)))
            dflt = g.block(depth - 1, sc, sw, 4) if s.chance(2, 3) else None
            return ("switch", e, cases, dflt, 0)
        if k == "block":
            return ("block", [("t", g.nid())] + g.block(depth - 1, sc, ctx))
        if k == "eval":
            return ("eval", g.block(depth - 1, sc, ctx), "f%d" % g.nid())
        if k == "die":
            return ("die", g.nid(), g.cond(1, sc) if s.chance(5, 6) else None)
        if k == "ret":
            return ("ret", g.iexpr(1, sc), g.cond(1, sc) if s.chance(6, 7) else None)
        if k in ("next", "last", "break"):
            return (k, g.cond(1, sc) if s.chance(2, 3) else None, s.chance(1, 5))
        if k == "call":
            return ("call", s.choice(ctx["m"]), g.iexpr(1, sc))
        if k == "expr":
            return ("expr", g.cond(3, sc))
        return ("empty",)


# ---------------------------------------------------------------- text
def etext(e):
    k = e[0]
    if k == "tape":
        return "&%s(%d)" % (gname(e[1]), e[2])
    if k == "pick":
        return "&pk(%d, [%s])" % (e[1], ", ".join(map(str, e[2])))
    if k == "const":
        return e[1]
    if k == "v":
        return "$" + e[1]
    if k == "cmp":
        return "(%s %s %s)" % (etext(e[2]), e[1], etext(e[3]))
    if k in ("and", "or"):
        return "(%s %s %s)" % (etext(e[1]), "&&" if k == "and" else "||", etext(e[2]))
    if k == "not":
        return "!%s" % paren(e[1])
    if k == "add":
        return "(%s + %s)" % (etext(e[1]), etext(e[2]))
    if k == "paren":
        return "(!!%s)" % paren(e[1])
    if k == "seq":
        return "(%s, %s)" % (etext(e[1]), etext(e[2]))
    if k == "mycond":
        return "my $%s : int = %s" % (e[1], etext(e[2]))
    raise ValueError(k)


def paren(e):
    t = etext(e)
    return t if t.startswith("(") or t.startswith("&") or t.startswith("$") else "(%s)" % t


def btext(b, ind):
    return "{\n" + "".join(stext(s, ind + 1) for s in b) + " " * ind + "}"


def cval(v, style):
    if style == 1 and 33 <= v < 127 and v not in (39, 92):
        return "'%c'" % v
    if style == 2 and v >= 0:
        return hex(v)
    return str(v)


def guarded(stmt, c, flip, p):
    if c is None:
        return p + stmt + "\n"
    return "%s%s (%s) { %s }\n" % (p, "unless" if flip else "if", etext(c), stmt)


def stext(s, ind):
    k, p = s[0], " " * ind
    if k == "t":
        return "%sVT->i(%d);\n" % (p, s[1])
    if k == "tv":
        return "%sVT->i($%s);\n" % (p, s[1])
    if k == "my":
        return "%smy $%s : int%s;\n" % (p, s[1], " = " + etext(s[2]) if s[2] else "")
    if k == "set":
        return "%s$%s = %s;\n" % (p, s[1], etext(s[2]))
    if k == "inc":
        return "%s$%s%s;\n" % (p, s[1], s[2])
    if k == "if":
        o = p
        for i, (un, c, b) in enumerate(s[1]):
            o += ("unless" if un else "if" if i == 0 else "elsif") + " (" + etext(c) + ") " + btext(b, ind) + "\n" + p
        if s[2] is not None:
            o += "else " + btext(s[2], ind)
        return o.rstrip() + "\n"
    if k == "while":
        if s[3]:
            return "%swhile (1) {\n%s if (!(&fu && %s)) { last; }\n%s%s}\n" % (p, p, etext(s[1]), "".join(stext(x, ind + 1) for x in s[2]), p)
        return "%swhile (&fu && %s) %s\n" % (p, etext(s[1]), btext(s[2], ind))
    if k == "for":
        _, v, a, b, form, c, bl = s
        if form == "down":
            h = "my $%s = %d; &fu && $%s > %d; $%s--" % (v, b, v, a, v)
        elif form == "nostep":
            h = "my $%s = %d; &fu && $%s++ < %d;" % (v, a, v, b)
        elif form == "cond":
            h = "my $%s = %d; &fu && (%s); $%s += 2" % (v, a, etext(c), v)
        else:
            h = "my $%s = %d; &fu && $%s < %d; $%s++" % (v, a, v, b, v)
        return "%sfor (%s) %s\n" % (p, h, btext(bl, ind))
    if k == "foreach":
        _, v, xs, form, bl, nm = s
        arr = "[%s]" % ", ".join(str(x) for x in xs) if xs else "new int[0]"
        src = ["@$%s" % nm, "@{$%s}" % nm, "@{&same($%s)}" % nm][form]
        return "%smy $%s : int[] = %s; for my $%s (%s) %s\n" % (p, nm, arr, v, src, btext(bl, ind))
    if k == "switch":
        o = "%sswitch (%s) {\n" % (p, etext(s[1]))
        for cs, b, st in s[2]:
            o += "".join("%s case %s:\n" % (p, cval(v, st)) for v in cs) + p + " " + btext(b, ind + 1) + "\n"
        if s[3] is not None:
            o += p + " default: " + btext(s[3], ind + 1) + "\n"
        return o + p + "}\n"
    if k == "block":
        return p + btext(s[1], ind) + "\n"
    if k == "eval":
        return "%seval {\n%s%s};\n%sif ($@) { VT->i(1); } else { VT->i(0); }\n" % (p, "".join(stext(x, ind + 1) for x in s[1]), p, p)
    if k == "die":
        return guarded('die "e%d";' % s[1], s[2], False, p)
    if k == "ret":
        return guarded("return %s;" % etext(s[1]), s[2], False, p)
    if k in ("next", "last", "break"):
        return guarded(k + ";", s[1], s[2], p)
    if k == "call":
        return "%sVT->i(&%s(%s));\n" % (p, s[1], etext(s[2]))
    if k == "expr":
        return "%sVT->i(!!%s);\n" % (p, paren(s[1]))
    return p + ";\n"


# ---------------------------------------------------------------- model
class Run:
    def __init__(r, methods, tape):
        r.m, r.tape, r.p, r.w = methods, tape, 0, 60
        r.tr, r.steps, r.exc, r.depth, r.jumps = [], 0, 0, 0, 0

    def step(r):
        r.steps += 1
        if r.steps > STEPS:
            raise Stop()

    def ev(r, e, sc):
        """The value of an expression and its type; conditions are evaluated by tv()."""
        k = e[0]
        if k == "tape":
            r.step()
            r.tr.append(e[2])
            pool = POOL[e[1]]
            i = r.p
            r.p += 1
            return e[1], pool[r.tape[i] % len(pool)] if i < len(r.tape) else pool[0]
        if k == "pick":
            r.step()
            r.tr.append(e[1])
            i = r.p
            r.p += 1
            return "int", e[2][r.tape[i] % len(e[2])] if i < len(r.tape) else e[2][0]
        if k == "const":
            return "int", e[2]
        if k == "v":
            return "int", look(sc, e[1])
        if k == "cmp":
            a, b = r.ev(e[2], sc)[1], r.ev(e[3], sc)[1]
            return "int", int({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[e[1]])
        if k == "and":
            a = r.tv(e[1], sc)
            return "int", (r.tv(e[2], sc) if a else 0)
        if k == "or":
            a = r.tv(e[1], sc)
            return "int", (a if a else r.tv(e[2], sc))
        if k == "not":
            return "int", int(not r.tv(e[1], sc))
        if k == "add":
            return "int", sem.wrap("int", r.ev(e[1], sc)[1] + r.ev(e[2], sc)[1])
        if k == "paren":
            return "int", int(bool(r.tv(e[1], sc)))
        if k == "seq":
            r.ev(e[1], sc)
            return r.ev(e[2], sc)
        if k == "mycond":
            v = r.ev(e[2], sc)[1]
            sc[-1][e[1]] = v
            return "int", v
        raise ValueError(k)

    def tv(r, e, sc):
        t, v = r.ev(e, sc)
        return truth(t, v)

    def fuel(r):
        r.w -= 1
        return r.w > 0

    def block(r, b, sc):
        sc = sc + [{}]
        for s in b:
            r.stmt(s, sc)

    def guard(r, c, flip, sc):
        if c is None:
            return True
        return bool(r.tv(c, sc + [{}])) != flip

    def loop(r, b, sc):
        """-> True when the loop ends."""
        try:
            r.block(b, sc)
        except Ctl as c:
            if c.kind == "next":
                r.jumps += 1
                return False
            if c.kind == "last":
                r.jumps += 1
                return True
            raise
        return False

    def stmt(r, s, sc):
        r.step()
        k = s[0]
        if k == "t":
            r.tr.append(s[1])
        elif k == "tv":
            r.tr.append(look(sc, s[1]))
        elif k == "my":
            v = r.ev(s[2], sc)[1] if s[2] else 0
            sc[-1][s[1]] = v
        elif k == "set":
            put(sc, s[1], r.ev(s[2], sc)[1])
        elif k == "inc":
            put(sc, s[1], sem.wrap("int", look(sc, s[1]) + (1 if s[2] == "++" else -1)))
        elif k == "if":
            sc = sc + [{}]
            for un, c, b in s[1]:
                if bool(r.tv(c, sc)) != un:
                    return r.block(b, sc)
            if s[2] is not None:
                r.block(s[2], sc)
        elif k == "while":
            sc = sc + [{}]
            while r.fuel() and r.tv(s[1], sc):
                if r.loop(s[2], sc):
                    break
        elif k == "for":
            _, v, a, b, form, c, bl = s
            sc = sc + [{v: b if form == "down" else a}]
            while r.fuel():
                x = look(sc, v)
                if form == "up" and not x < b:
                    break
                if form == "down" and not x > a:
                    break
                if form == "nostep":
                    put(sc, v, sem.wrap("int", x + 1))
                    if not x < b:
                        break
                if form == "cond" and not r.tv(c, sc):
                    break
                if r.loop(bl, sc):
                    break
                if form != "nostep":
                    put(sc, v, sem.wrap("int", look(sc, v) + {"up": 1, "down": -1, "cond": 2}[form]))
        elif k == "foreach":
            for x in s[2]:
                if r.loop(s[4], sc + [{s[1]: x}]):
                    break
        elif k == "switch":
            v = r.ev(s[1], sc)[1]
            b = s[3]
            for cs, blk, _ in s[2]:
                if v in cs:
                    b = blk
            r.jumps += 1
            if b is not None:
                try:
                    r.block(b, sc)
                except Ctl as c:
                    if c.kind != "break":
                        raise
        elif k == "block":
            r.block(s[1], sc)
        elif k == "eval":
            r.exc = 0
            try:
                r.block(s[1], sc)
            except Ctl as c:
                if c.kind != "die":
                    raise
                r.exc = 1
            r.tr.append(r.exc)
        elif k == "die":
            if r.guard(s[2], False, sc):
                r.jumps += 1
                raise Ctl("die", s[1])
        elif k == "ret":
            if r.guard(s[2], False, sc):
                r.jumps += 1
                raise Ctl("ret", r.ev(s[1], sc + [{}])[1])
        elif k in ("next", "last", "break"):
            if r.guard(s[1], s[2], sc):
                raise Ctl(k)
        elif k == "call":
            r.tr.append(r.call(s[1], r.ev(s[2], sc)[1]))
        elif k == "expr":
            r.tr.append(int(bool(r.tv(s[1], sc))))

    def call(r, name, x):
        exc = r.exc
        try:
            r.block(r.m[name], [{"p": x}])
            v = 0
        except Ctl as c:
            if c.kind == "ret":
                v = c.v
            else:
                raise
        return v


def look(sc, v):
    for d in reversed(sc):
        if v in d:
            return d[v]
    raise KeyError(v)


def put(sc, v, x):
    for d in reversed(sc):
        if v in d:
            d[v] = x
            return
    raise KeyError(v)


def generate(src):
    g = Gen(src)
    ms = {}
    names = []
    for i in range(src.int(0, 2)):
        n = "h%d" % i
        g.budget = max(g.budget, 6)
        ms[n] = g.block(2, {"p": "int"}, dict(loop=False, sw=False, m=list(names)), 6)
        names.append(n)
    g.budget = max(g.budget, 20)
    ms["run"] = g.block(4, {"p": "int"}, dict(loop=False, sw=False, m=names), 10, lo=4)
    return g, ms


def source(ms):
    o = ["class T { use VT; use Int; use Bool;", fetch_methods(), "static method same : int[] ($x : int[]) { return $x; }"]
    for n, b in ms.items():
        o.append("  %sstatic method %s : int ($p : int) %s" % ("%s", n, btext(b, 2)))
    o.append(" static method main : int ($t : int[]) { $T = $t; $P = 0; $W = 60; my $r = 0; my $d = 1; eval { $r = &run(11); $d = 0; }; $T = undef; VT->i($P); VT->i($d); return $r; }\n}")
    return "\n".join(o)


def case_for(variant, pre):
    def case(src, ctx):
        g, ms = generate(src)
        tapes = [[src.int(0, 119) for _ in range(src.int(3, 30))] for _ in range(6)]
        runs = []
        for t in tapes:
            r = Run(ms, t)
            try:
                try:
                    v, d = r.call("run", 11), 0
                except Ctl as c:
                    if c.kind != "die":
                        raise
                    v, d = 0, 1
                r.tr += [r.p, d]
                runs.append((t, r, v))
            except Stop:
                pass
        if not runs:
            raise pbt.Discard()
        text = source(ms).replace("%s", "precompile " if pre else "")
        drv = ctx.drv(variant)
        cls = [("T", text)]
        try:
            if pre:
                c = drv.precompiled(ctx.infos[variant], cls, ["T"], ctx.scratch(), opt="-O1")
            else:
                c = drv.program(cls)
            if c.code:
                raise pbt.Violation("the program is not compiled: %s\n%s" % (c.errors[:3], text), key="p09-compile")
            for t, r, v in runs:
                x = drv.call("T", "main", ("arr", "i", t))
                if x.status != "ok" or x.ret != v or x.trace != r.tr:
                    n = next((i for i, (a, b) in enumerate(zip(x.trace, r.tr)) if a != b), min(len(x.trace), len(r.tr)))
                    raise pbt.Violation("tape %r: the program returns %r (%s), the model %r; traces differ at record %d: %r, the model %r\n%s" % (
                        t, x.ret, x.status, v, n, x.trace[max(0, n - 3):n + 5], r.tr[max(0, n - 3):n + 5], body(text)), key="p09")
                if x.leak:
                    raise pbt.Violation("tape %r: %d memory blocks leak\n%s" % (t, x.leak, body(text)), key="p09-leak")
            rem = drv.done()[0]
        except drvmod.Crash as e:
            raise pbt.Violation("crash: %s\n%s" % (str(e)[:600], body(text)), key="p09-crash")
        st = max(r.steps for _, r, _ in runs)
        return pbt.Info(st >= 12 and any(r.jumps for _, r, _ in runs), tags=sorted(g.feat), sample=body(text)[:700], digest=text, evals=sum(r.steps for _, r, _ in runs))
    return case


def body(text):
    return text[text.index("static method same"):].split("\n", 1)[1]


SUITES = [
    Suite("vm", case_for("plain", False), 8000, 80000, variants=("plain",), chunk=50),
    Suite("precompiled", case_for("plain", True), 160, 1500, variants=("plain",), chunk=4),
    Suite("asan", case_for("asan", False), 1000, 10000, variants=("asan",), chunk=20),
]

META = dict(
    statement="Each statement that transfers control does what is documented on every path: if/elsif/else/unless, while, for, for-each, switch with its cases and default, next, last, break, return, die, eval blocks and the short-circuit operators select exactly the documented successor, evaluate each condition, operand and loop expression the documented number of times and in order, and a condition of any type has the documented truth value. Leaving any nest of blocks by any of these ways releases what its scopes own.",
    over=["inputs", "programs"], quant="all programs nested from these statements, and all sequences of the values that decide their conditions",
    why="the unit tests hold one small method per statement; the operation code of conditions, switch tables, jump addresses and the release of scopes depends on how the statements are nested and combined",
    files=["lib/SPVM/Builder/src/spvm_opcode_builder.c", "lib/SPVM/Builder/src/spvm_vm.c", "lib/SPVM/Builder/src/spvm_check.c", "yacc/spvm_yacc.y", "lib/SPVM/Builder/src/spvm_precompile.c", "lib/SPVM/Document/Language/Statements.pm"],
    mech=[("generation of jumps, switch tables, next/last/break blocks and eval blocks", "spvm_opcode_builder.c"), ("condition evaluation and desugaring of statements", "spvm_check.c, spvm_op.c"), ("switch lookup and jumps", "spvm_vm.c, spvm_precompile.c")],
    observe=["trace of the statements that run and the values they read", "return value or exception", "remaining memory blocks"],
    technique="property-based testing with a reference model of the statements (differential against the model on generated programs and input tapes)",
    note="Programs of nested statements whose conditions read an input tape; a Python model runs the same statements; in the VM, precompiled, and with address sanitizer.")
