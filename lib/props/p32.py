from vt import pbt
from vt.pbt import Suite

TITLE = "The documented static rules are enforced, in every context and nothing more"
RULE = ("One case is one operator applied to one combination of operand types, one access of a member from one place of a class hierarchy, or one documented rule with a program that breaks it and one that keeps it, "
        "each inside randomly nested statements of a random method. Non-trivial: the rule decides the case against the program (it must be rejected), or accepts it next to a rejected neighbour.")
ASSUMPTIONS = ["only rules that the documentation states are judged; where it is silent or inconsistent the combination is not generated (see DESIGN.md)"]

# ---------------------------------------------------------------- operand types
NUMT = ["byte", "short", "int", "long", "float", "double"]
INTT = NUMT[:4]
INT32 = NUMT[:3]
ARR = ["byte[]", "int[]", "double[]", "string[]", "object[]", "H[]", "H_2i[]", "int[][]"]
OBJ = ["string", "mutable string", "object", "H", "HI"] + ARR
REF = ["int*", "double*", "H_2i*"]
ALL = NUMT + OBJ + REF + ["H_2i", "undef"]
DECL = {"byte": "my $%s : byte = 1;", "short": "my $%s : short = 2;", "int": "my $%s : int = 1;", "long": "my $%s : long = 4;", "float": "my $%s : float = 5;", "double": "my $%s : double = 6;",
        "int*": "my $%s_v : int = 1; my $%s = \\$%s_v;", "double*": "my $%s_v : double = 1; my $%s = \\$%s_v;", "H_2i*": "my $%s_v : H_2i; my $%s = \\$%s_v;"}


LIVE = {"string": '"a"', "mutable string": '(mutable string)copy "a"', "object": '(object)H->new', "H": "H->new", "HI": "(HI)H->new", "int[][]": "new int[][3]"}


def decl(t, n):
    d = DECL.get(t, "my $%s : " + t + " = " + LIVE.get(t, "new %s[3]" % t[:-2]) + ";" if t not in ("H_2i",) else "my $%s : H_2i;")
    return d.replace("%s", n)


def isnum(t):
    return t in NUMT


def promo(a, b="int"):
    return NUMT[max(2, NUMT.index(a), NUMT.index(b))]


def cond_ok(t):
    return t != "H_2i"


def eqtypes(a, b):
    if isnum(a):
        return isnum(b)
    if a in REF:
        return b in REF
    if a in OBJ:
        return b in OBJ or b == "undef"
    if a == "undef":
        return b in OBJ or b == "undef"
    return False


def strcat(t):
    return t in ("string", "mutable string", "byte[]") or isnum(t)


def strcmp_(t):
    return t in ("string", "mutable string", "byte[]")


# name -> (ok(a, b), result type or None)
BIN = {}
for o in ("+", "-", "*", "/"):
    BIN[o] = (lambda a, b: isnum(a) and isnum(b), lambda a, b: promo(a, b))
for o in ("%", "&", "|", "^"):
    BIN[o] = (lambda a, b: a in INTT and b in INTT, lambda a, b: promo(a, b))
for o in ("<<", ">>", ">>>"):
    BIN[o] = (lambda a, b: a in INTT and b in INT32, lambda a, b: promo(a))
for o in ("==", "!="):
    BIN[o] = (eqtypes, lambda a, b: "int")
for o in (">", ">=", "<", "<=", "<=>"):
    BIN[o] = (lambda a, b: isnum(a) and isnum(b), lambda a, b: "int")
for o in ("eq", "ne", "gt", "ge", "lt", "le", "cmp"):
    BIN[o] = (lambda a, b: strcmp_(a) and strcmp_(b), lambda a, b: "int")
BIN["."] = (lambda a, b: strcat(a) and strcat(b), lambda a, b: "string")
for o in ("&&", "||"):
    BIN[o] = (lambda a, b: cond_ok(a) and cond_ok(b), lambda a, b: None)

isstr = lambda t: t in ("string", "mutable string")
isarr = lambda t: t in ARR
isobj = lambda t: t in OBJ
# text with % for the operand -> (ok, result type)
UN = {
    "+ %": (isnum, promo), "- %": (isnum, promo), "~ %": (lambda t: t in INTT, promo), "! %": (cond_ok, lambda t: "int"),
    "%++": (isnum, lambda t: t), "++%": (isnum, lambda t: t), "%--": (isnum, lambda t: t), "--%": (isnum, lambda t: t),
    "length %": (isstr, lambda t: "int"), "@{%}": (isarr, lambda t: "int"), "@%": (isarr, lambda t: "int"), "scalar @{%}": (isarr, lambda t: "int"),
    "new_string_len %": (lambda t: t in INT32, lambda t: None), "is_read_only %": (isstr, lambda t: "int"), "copy %": (lambda t: isstr(t) or t in ("byte[]", "int[]", "double[]", "H_2i[]"), lambda t: None),
    "dump %": (isobj, lambda t: "string"), "type_name %": (isobj, lambda t: "string"), "% isa H": (isobj, lambda t: "int"), "% is_type H": (isobj, lambda t: "int"),
    "% isa_error H": (lambda t: t in INT32, lambda t: "int"), "% is_error H": (lambda t: t in INT32, lambda t: "int"), "% can m": (lambda t: t in ("H", "HI"), lambda t: "int"),
    "new int[%]": (lambda t: t in INT32, lambda t: "int[]"), "new H[%]": (lambda t: t in INT32, lambda t: "H[]"), "$ia->[%]": (lambda t: t in INT32, lambda t: "int"),
    "%->[0]": (lambda t: isarr(t) or isstr(t), lambda t: t[:-2] if isarr(t) else "byte"), "\\%": (lambda t: isnum(t) or t == "H_2i", lambda t: t + "*"),
    "%->m(1)": (lambda t: t in ("H", "HI"), lambda t: "int"), "%->{n}": (lambda t: t == "H", lambda t: "int"), "%->{x}": (lambda t: t in ("H_2i", "H_2i*"), lambda t: "int"),
    "$i = %": (toint := (lambda t: t in INT32 or t == "object"), lambda t: "int"),
    "H->si(%)": (toint, lambda t: "int"), "H->sl(%)": (lambda t: t in INTT or t == "object", lambda t: "long"), "H->sd(%)": (lambda t: isnum(t) or t == "object", lambda t: "double"), "H->ss(%)": (lambda t: isstr(t) or isnum(t) or t == "undef", lambda t: "string"),
    "H->so(%)": (lambda t: isobj(t) or isnum(t) or t == "undef", lambda t: "object"),
}
# statements
ST = {
    "make_read_only %;": isstr, "print %;": isstr, "say %;": isstr, "warn %;": isobj, "switch (%) { case 1: { break; } }": lambda t: t in INT32, "if (%) { }": cond_ok, "while (%) { last; }": cond_ok,
    "for (; %; ) { last; }": cond_ok, "unless (%) { }": cond_ok, "die %, \"m\";": lambda t: t in INT32,
}
DOC_ONLY_UNDEF_OK = ()


# ---------------------------------------------------------------- contexts
HELP = [
    ("H", "class H : public {\n  interface HI;\n  use HI;\n  use H_2i;\n  has n : public int;\n  has s : public string;\n  has w : public H;\n  our $V : public int;\n  static method new : H () { return new H; }\n  method m : int ($x : int = 1) { return $x; }\n"
          "  static method si : int ($x : int) { return $x; }\n  static method sl : long ($x : long) { return $x; }\n  static method sd : double ($x : double) { return $x; }\n  static method ss : string ($x : string) { return $x; }\n"
          "  static method so : object ($x : object) { return $x; }\n  static method two : int ($x : int, $y : int) { return $x; }\n  static method v : void () { }\n  method iv : void () { }\n}"),
    ("HI", "class HI : interface_t {\n  required method m : int ($x : int = 1);\n}"),
    ("H_2i", "class H_2i : mulnum_t {\n  has x : int;\n  has y : int;\n}"),
    ("HP", "class HP {\n  method m : int ($x : int = 1) { return $x; }\n  private method pm : void () { }\n  private static method ps : void () { }\n  has pf : int;\n  our $PV : int;\n}"),
    ("HC", "class HC extends H : public {\n  method m : int ($x : int = 1) { return 2; }\n}"),
    ("HQ", "class HQ : public {\n  method q : int () { return 1; }\n}"),
    ("HR", "class HR : interface_t {\n  required method q : int ();\n  method r : int ($x : int);\n}"),
]
USES = "".join("use %s; " % n for n, _ in HELP)
FILL = ["my $z%d = 1 + 2;", "my $z%d = \"a\" . 1;", "my $z%d = new int[2];", "VT->i(%d);", "if (1) { VT->i(%d); }", "for (my $k = 0; $k < 2; $k++) { VT->i(%d); }"]


def nest(src, lines, depth=None):
    """Wraps the lines into 0 to 4 nested statements; returns the new lines."""
    n = src.int(0, 4) if depth is None else depth
    anon = False
    for i in range(n):
        k = src.choice(["if", "else", "elsif", "while", "for", "switch", "default", "eval", "unless", "block", "foreach"] + (["anon"] if not anon else []))
        pre = [FILL[src.below(len(FILL))] % src.int(0, 99) for _ in range(src.int(0, 2))]
        if any("$z%d" in f for f in pre):
            pass
        pre = dedup(pre)
        body = pre + lines
        ind = ["  " + l for l in body]
        if k == "if":
            lines = ["if (1) {"] + ind + ["}"]
        elif k == "unless":
            lines = ["unless (0) {"] + ind + ["}"]
        elif k == "else":
            lines = ["if (0) {", "  VT->i(1);", "}", "else {"] + ind + ["}"]
        elif k == "elsif":
            lines = ["if (0) {", "  VT->i(1);", "}", "elsif (1) {"] + ind + ["}"]
        elif k == "while":
            lines = ["while (1) {"] + ind + ["  last;", "}"]
        elif k == "for":
            lines = ["for (my $j%d = 0; $j%d < 1; $j%d++) {" % (i, i, i)] + ind + ["}"]
        elif k == "foreach":
            lines = ["for my $e%d (@{[1, 2]}) {" % i] + ind + ["}"]
        elif k == "switch":
            lines = ["switch (1) {", "  case 1: {"] + ind + ["    break;", "  }", "}"]
        elif k == "default":
            lines = ["switch (5) {", "  case 1: {", "    break;", "  }", "  default: {"] + ind + ["  }", "}"]
        elif k == "eval":
            lines = ["eval {"] + ind + ["};"]
        elif k == "block":
            lines = ["{"] + ["  VT->i(0);"] + ind + ["}"]
        else:
            anon = True
            lines = ["my $cb%d = method : void () {" % i] + ind + ["};"]
    return lines


def dedup(ls):
    seen, out = set(), []
    for l in ls:
        n = l.split(" = ")[0]
        if n.startswith("my $") and n in seen:
            continue
        seen.add(n)
        out.append(l)
    return out


MARK = "#HERE#"


def method_with(src, stmt, decls, need=None):
    """A method that contains the declarations and, on a line of its own, the statement."""
    lines = nest(src, [d for d in decls if d] + [stmt + " " + MARK])
    kind = need or src.choice(["static", "static", "instance", "INIT"])
    body = ["    " + l for l in lines]
    if kind == "INIT":
        return ["  INIT {"] + body + ["  }"]
    return ["  %smethod mm : void () {" % ("static " if kind == "static" else "")] + body + ["  }"]


def program(src, members, name=None):
    """(classes, class name, line of the marker): the members in the main class, in a class it uses, or behind others"""
    where = src.below(2)
    cn = "T" if where == 0 else "U"
    L = ["class %s : public {" % cn, "  use VT; " + USES]
    for i in range(src.int(0, 3)):
        L.append("  method other%d : int ($x : int) { return $x + %d; }" % (i, i))
    L += members
    for i in range(src.int(0, 2)):
        L.append("  static method after%d : void () { }" % i)
    L.append("}")
    line = next((i + 1 for i, l in enumerate(L) if MARK in l), None)
    text = "\n".join(L).replace(" " + MARK, "")
    cs = [("T", text)] if where == 0 else [("T", "class T {\n  use U;\n  static method main : void () { }\n}"), ("U", text)]
    return cs + HELP, cn, line


def judge(ctx, classes, ok, cn, line, what, variant="plain"):
    d = ctx.drv(variant)
    r = d.program(classes)
    whole = "\n".join(s for n, s in classes if n in ("T", "U") or n[0] not in "H")
    d.done()
    if ok:
        if r.code and r.code != -1000:
            raise pbt.Violation("%s: rejected, though every rule is kept: %s\n%s" % (what, r.errors, whole), "rejected " + what)
        return
    if not r.code or r.code == -1000:
        raise pbt.Violation("%s: accepted, though a documented rule is broken\n%s" % (what, whole), "accepted " + what)
    if not r.errors:
        raise pbt.Violation("%s: rejected without a message\n%s" % (what, whole), "silent " + what)
    if line and not any("at %s.spvm line %d" % (cn, line) in e for e in r.errors):
        raise pbt.Violation("%s: the error is not reported at %s.spvm line %d: %s\n%s" % (what, cn, line, r.errors, whole), "line " + what)


# ---------------------------------------------------------------- operators
def operators(src, ctx):
    k = src.below(3)
    if k == 0:
        o = src.choice(sorted(BIN))
        ok_f, res = BIN[o]
        a, b = src.choice(ALL), src.choice(ALL)
        if src.chance(1, 3):      # near the accepted side
            good = [(x, y) for x in ALL for y in ALL if ok_f(x, y)]
            a, b = src.choice(good)
            if src.chance(1, 2):
                b = src.choice(ALL)
        if excluded(o, a, b):
            raise pbt.Discard("undocumented")
        ok = ok_f(a, b)
        ea = "undef" if a == "undef" else "$a"
        eb = "undef" if b == "undef" else "$b"
        e = "%s %s %s" % (ea, o, eb)
        decls = [decl(a, "a") if a != "undef" else "", decl(b, "b") if b != "undef" else ""]
        rt = res(a, b) if ok else None
        what = "%s %s %s" % (a, o, b)
    else:
        tab = UN if k == 1 else ST
        o = src.choice(sorted(tab))
        ok_f, res = tab[o] if k == 1 else (tab[o], None)
        a = src.choice(ALL)
        if excluded(o, a, None):
            raise pbt.Discard("undocumented")
        ok = ok_f(a)
        if ok is None:
            raise pbt.Discard("undocumented")
        e = o.replace("%", "undef" if a == "undef" else "$a")
        decls = [decl(a, "a") if a != "undef" else ""] + (["my $ia = [1, 2, 3];"] if "$ia" in o else []) + (["my $i : int;"] if "$i " in o else [])
        rt = res(a) if ok and res else None
        what = "%s, operand %s" % (o, a)
    if k == 2:
        stmt = e
    elif rt:
        stmt = "my $r = %s; my $rr : %s = $r;" % (e, rt)
        result_type(ctx, e, decls, rt, what)
    else:
        stmt = "my $r = %s;" % e
    classes, cn, line = program(src, method_with(src, stmt, decls))
    judge(ctx, classes, ok, cn, line, what)
    return pbt.Info(True, ["accepted" if ok else "rejected", o], stmt, digest=what)




def result_type(ctx, e, decls, rt, what):
    """The static type of the expression, asked of the language itself."""
    m = ctx.memo.setdefault("rt", set())
    if (what in m) or "object" in what and ("$i" in what or "->s" in what):
        return
    t = "class T : public {\n  use VT; %s\n  static method main : string () {\n    %s\n    my $r = %s;\n    return compile_type_name $r;\n  }\n}" % (USES, " ".join(decls), e)
    d = ctx.drv("plain")
    r = d.program([("T", t)] + HELP)
    if r.code:
        raise pbt.Violation("%s: rejected, though every rule is kept: %s\n%s" % (what, r.errors, t), "rejected " + what)
    cr = d.call("T", "main")
    if cr.status != "ok" or cr.ret != rt.encode():
        raise pbt.Violation("%s: the type of the result is %r (%s %r), documented is %s\n%s" % (what, cr.ret, cr.status, cr.msg, rt, t), "type " + what)
    m.add(what)


def excluded(o, a, b):
    """print, say and warn: the documentation names string and object operands, the implementation converts numbers too"""
    return o in ("print %;", "say %;", "warn %;") and isnum(a)


# ---------------------------------------------------------------- access control
KINDS = ["new", "method", "static", "field get", "field set", "class variable", "enum", "weaken"]
WHO = ["same", "child", "grandchild", "parent", "unrelated", "allowed", "child of allowed", "through child", "through child in child"]


def access(src, ctx):
    kind = src.choice(KINDS)
    who = src.choice(WHO)
    acc = src.choice(["", "public", "private", "protected"])
    anon = src.chance(1, 3)
    dflt = {"new": "private", "field get": "private", "field set": "private", "weaken": "private", "class variable": "private"}.get(kind, "public")
    real = acc or dflt
    fieldkind = kind in ("field get", "field set", "weaken")
    if who.startswith("through") and (kind not in ("field get", "field set", "method") or real == "private" and kind == "method"):
        raise pbt.Discard("no such access")
    # DD is the class that has the member
    a = {"new": "", "method": acc + " method mem : int () { return 1; }", "static": acc + " static method mem : int () { return 1; }", "field get": "has mem : %s int;" % acc, "field set": "has mem : %s int;" % acc,
         "weaken": "has mem : %s object;" % acc, "class variable": "our $MEM : %s int;" % acc, "enum": acc + " enum { MEM }"}[kind]
    cattr = acc if kind == "new" else "public"
    base = {"same": None, "parent": "PP"}.get(who)
    dd = ["class DD%s%s {" % (" extends PP" if who == "parent" else "", " : " + cattr if cattr else "")]
    if src.chance(1, 2):
        dd.append("  has other : int;")
    if who in ("allowed", "child of allowed"):
        dd.append("  use AA; allow AA;")
    dd += ["  " + a if a else "", "  static method make : DD () { return new DD; }"]
    inv = "DD"
    x = "$x"
    stmt = {"new": "my $r = new DD;", "method": "$x->mem;", "static": "DD->mem;", "field get": "my $r = $x->{mem};", "field set": "$x->{mem} = 1;", "weaken": src.choice(["weaken $x->{mem};", "unweaken $x->{mem};", "my $r = isweak $x->{mem};"]),
            "class variable": src.choice(["$DD::MEM = 1;", "my $r = $DD::MEM;", "$DD::MEM++;"]), "enum": "my $r = DD->MEM;"}[kind]
    decls = []
    if kind in ("method", "field get", "field set", "weaken"):
        inv = {"through child": "CC", "through child in child": "CC"}.get(who, "DD")
        decls = ["my $x : %s;" % inv]
    lines = nest(src, decls + [stmt + " " + MARK])
    if anon:
        lines = ["my $cbx = method : void () {"] + ["  " + l for l in lines] + ["};"]
    body = ["  static method use_it : void () {"] + ["    " + l for l in lines] + ["  }"]
    # the class that has the access
    me = {"same": "DD", "child": "CC", "grandchild": "GG", "parent": "PP", "unrelated": "UU", "allowed": "AA", "child of allowed": "BB", "through child": "UU", "through child in child": "CC"}[who]
    cl = {"DD": dd}
    if me in ("CC", "GG") or who.startswith("through"):
        cl["CC"] = ["class CC extends DD : public {"]
    if me == "GG":
        cl["GG"] = ["class GG extends CC : public {"]
    if me == "PP":
        cl["PP"] = ["class PP : public {"]
    if me in ("AA", "BB"):
        cl["AA"] = ["class AA : public {"]
    if me == "BB":
        cl["BB"] = ["class BB extends AA : public {"]
    if me == "UU":
        cl["UU"] = ["class UU : public {"]
    cl[me] = cl[me][:1] + ["  use VT;", "  use DD;" if me != "DD" else ""] + (["  use CC;"] if inv == "CC" and me != "CC" else []) + cl[me][1:] + body
    ok = real == "public" or who == "same" or (real == "protected" and who in ("child", "grandchild", "through child in child")) or who == "allowed"
    classes = [("T", "class T { " + " ".join("use %s;" % n for n in cl) + " }")]
    line = None
    for n, ls in cl.items():
        ls = ls + ["}"]
        for k, l in enumerate(ls):
            if MARK in l:
                line = k + 1
        classes.append((n, "\n".join(ls).replace(" " + MARK, "")))
    what = "%s %s member, accessed from %s%s" % (real + (" (default)" if not acc else ""), kind, who, ", anon method" if anon else "")
    judge(ctx, classes + [h for h in HELP if h[0] == "VT"], ok, me, line, what)
    return pbt.Info(True, ["accepted" if ok else "rejected", kind, who], what + ": " + stmt, digest=what + stmt)


# ---------------------------------------------------------------- rules
# (name, declarations, statement that keeps the rule, statement that breaks it)
S = [
    ("switch on int", "my $i = 1; my $l = 1L;", "switch ($i) { case 1: { break; } }", "switch ($l) { case 1: { break; } }"),
    ("duplicate case", "my $i = 1;", "switch ($i) { case 1: { break; } case 2: { break; } }", "switch ($i) { case 1: { break; } case 1: { break; } }"),
    ("duplicate case, character", "my $i = 1;", "switch ($i) { case 'a': { break; } case 98: { break; } }", "switch ($i) { case 'a': { break; } case 97: { break; } }"),
    ("die message, object", "my $s = \"a\"; my $o : H;", "die $s;", "die $o;"),
    ("die id", "my $i = 1; my $l = 1L;", "die $i, \"a\";", "die $l, \"a\";"),
    ("die class", "", "die Error \"a\";", "die HI \"a\";"),
    ("undeclared variable", "my $i = 1;", "$i = 2;", "$undeclared = 2;"),
    ("undeclared variable in an expression", "my $i = 1;", "my $r = $i + 2;", "my $r = $undeclared + 2;"),
    ("undeclared variable in a string", "my $i = 1;", "my $r = \"<$i>\";", "my $r = \"<$undeclared>\";"),
    ("use before declaration", "", "my $x = 1; $x = 2;", "$x = 2; my $x = 1;"),
    ("redeclaration", "my $i = 1;", "my $j = 2;", "my $i = 2;"),
    ("scope ends", "", "{ my $x = 1; $x = 2; }", "{ my $x = 1; } $x = 2;"),
    ("scope of for", "", "for (my $x = 0; $x < 1; $x++) { $x = 3; }", "for (my $x = 0; $x < 1; $x++) { } $x = 3;"),
    ("scope of if", "", "if (my $x = 1) { $x = 3; }", "if (my $x = 1) { } $x = 3;"),
    ("lvalue literal", "my $i = 1;", "$i = 2;", "1 = $i;"),
    ("lvalue expression", "my $i = 1;", "$i += 2;", "($i + 1) = 2;"),
    ("lvalue call", "my $i = 1;", "$i = H->si(1);", "H->si(1) = $i;"),
    ("increment of a literal", "my $i = 1;", "$i++;", "1++;"),
    ("increment of a call", "my $i = 1;", "++$i;", "++H->si(1);"),
    ("compound assignment to a call", "my $i = 1;", "$i += 1;", "H->si(1) += 1;"),
    ("too few arguments", "", "H->two(1, 2);", "H->two(1);"),
    ("too many arguments", "", "H->two(1, 2);", "H->two(1, 2, 3);"),
    ("too many arguments, instance", "my $h = H->new;", "$h->m(1);", "$h->m(1, 2);"),
    ("argument type", "", "H->si(1);", "H->si(\"a\");"),
    ("argument narrowing", "my $l = 1L;", "H->sl($l);", "H->si($l);"),
    ("argument object type", "my $h = H->new; my $q : HQ;", "H->so($q);", "H->si($q);"),
    ("unknown method", "", "H->si(1);", "H->not_a_method(1);"),
    ("unknown instance method", "my $h = H->new;", "$h->m;", "$h->not_a_method;"),
    ("unknown interface method", "my $h : HI = H->new;", "$h->m;", "$h->iv;"),
    ("class method on an object", "my $h = H->new;", "$h->m;", "$h->si(1);"),
    ("instance method on a class", "", "H->v;", "H->iv;"),
    ("method of an unknown class", "", "H->v;", "Unknown->v;"),
    ("method on a number", "my $i = 1; my $h = H->new;", "$h->m;", "$i->m;"),
    ("method on an array", "my $i = new H[1];", "$i->[0]->m;", "$i->m;"),
    ("method on object", "my $i : object = H->new;", "((H)$i)->m;", "$i->m;"),
    ("void value assigned", "", "my $r = H->si(1);", "my $r = H->v;"),
    ("void value as an operand", "my $i = 1;", "$i = $i + H->si(1);", "$i = $i + H->v;"),
    ("void value as an argument", "", "H->si(H->si(1));", "H->si(H->v);"),
    ("void value as a condition", "", "if (H->si(1)) { }", "if (H->v) { }"),
    ("unknown field", "my $h = H->new;", "$h->{n} = 1;", "$h->{nothing} = 1;"),
    ("unknown field get", "my $h = H->new;", "my $r = $h->{n};", "my $r = $h->{nothing};"),
    ("field of a number", "my $h = H->new; my $i = 1;", "$h->{n} = 1;", "$i->{n} = 1;"),
    ("field of an interface", "my $h = H->new; my $i : HI = $h;", "$h->{n} = 1;", "$i->{n} = 1;"),
    ("unknown field of a multi-numeric type", "my $z : H_2i;", "$z->{x} = 1;", "$z->{z} = 1;"),
    ("field type", "my $h = H->new;", "$h->{n} = 1;", "$h->{n} = \"a\";"),
    ("field narrowing", "my $h = H->new; my $l = 1L;", "$h->{n} = (int)$l;", "$h->{n} = $l;"),
    ("unknown class variable", "", "$H::V = 1;", "$H::NOTHING = 1;"),
    ("class variable of an unknown class", "", "$H::V = 1;", "$Unknown::V = 1;"),
    ("class variable type", "", "$H::V = 1;", "$H::V = \"a\";"),
    ("new of an interface", "", "my $r = new H;", "my $r = new HI;"),
    ("new of a multi-numeric type", "", "my $r = new H;", "my $r = new H_2i;"),
    ("new of a numeric type", "", "my $r = new int[1];", "my $r = new int;"),
    ("new of the string type", "", "my $r = new string[1];", "my $r = new string;"),
    ("new of the object type", "", "my $r = new object[1];", "my $r = new object;"),
    ("capture of a reference", "my $i = 1; my $j = \\$i;", "my $r = [$i : int] method : int () { return $i; };", "my $r = [$j : int*] method : int () { return $$j; };"),
    ("new of an unknown class", "", "my $r = new H;", "my $r = new Unknown;"),
    ("new of a private class", "", "my $r = new H;", "my $r = new HP;"),
    ("array length type", "my $i = 1; my $l = 1L;", "my $r = new int[$i];", "my $r = new int[$l];"),
    ("array index type", "my $i = 1; my $l = 1L; my $a = new int[2];", "$a->[$i] = 1;", "$a->[$l] = 1;"),
    ("array element type", "my $a = new int[2];", "$a->[0] = 1;", "$a->[0] = \"a\";"),
    ("array element narrowing", "my $a = new int[2]; my $l = 1L;", "$a->[0] = (int)$l;", "$a->[0] = $l;"),
    ("object array element type", "my $a = new H[2];", "$a->[0] = H->new;", "$a->[0] = new int[1];"),
    ("string array element type", "my $a = new string[2];", "$a->[0] = \"a\";", "$a->[0] = H->new;"),
    ("array initialization with undef first", "", "my $r = [(string)undef, \"a\"];", "my $r = [undef, \"a\"];"),
    ("odd key-value list", "", "my $r = {\"a\" => 1};", "my $r = {\"a\" => 1, \"b\"};"),
    ("character of a non-mutable string", "my $s = \"ab\"; my $m = (mutable string)copy $s;", "$m->[0] = 'x';", "$s->[0] = 'x';"),
    ("non-mutable to mutable string", "my $s = \"ab\";", "my $r : mutable string = (mutable string)copy $s;", "my $r : mutable string = $s;"),
    ("length of an array", "my $s = \"ab\"; my $a = [1];", "my $r = length $s;", "my $r = length $a;"),
    ("array length of a string", "my $s = \"ab\"; my $a = [1];", "my $r = @$a;", "my $r = @$s;"),
    ("no type", "", "my $r : int;", "my $r;"),
    ("type from undef", "", "my $r : H = undef;", "my $r = undef;"),
    ("variable of type void", "", "my $r : int;", "my $r : void;"),
    ("variable of an unknown type", "", "my $r : H;", "my $r : Unknown;"),
    ("int from long literal", "", "my $r : int = 5L;", "my $r : int = 2147483648L;"),
    ("int from double literal", "", "my $r : double = 1.5;", "my $r : int = 1.5;"),
    ("byte literal range", "", "my $r : byte = 127;", "my $r : byte = 128;"),
    ("byte literal range, low", "", "my $r : byte = -128;", "my $r : byte = -129;"),
    ("short literal range", "", "my $r : short = 32767;", "my $r : short = 32768;"),
    ("short literal range, low", "", "my $r : short = -32768;", "my $r : short = -32769;"),
    ("byte from int", "my $i = 1;", "my $r : byte = (byte)$i;", "my $r : byte = $i;"),
    ("float from double", "my $d = 1.0;", "my $r : float = (float)$d;", "my $r : float = $d;"),
    ("int literal range", "", "my $r = 2147483647;", "my $r = 2147483648;"),
    ("int literal range, low", "", "my $r = -2147483648;", "my $r = -2147483649;"),
    ("long literal range", "", "my $r = 9223372036854775807L;", "my $r = 9223372036854775808L;"),
    ("long literal range, low", "", "my $r = -9223372036854775808L;", "my $r = -9223372036854775809L;"),
    ("hexadecimal literal range", "", "my $r = 0xFFFFFFFF;", "my $r = 0x100000000;"),
    ("hexadecimal long literal range", "", "my $r = 0xFFFFFFFFFFFFFFFFL;", "my $r = 0x10000000000000000L;"),
    ("octal literal range", "", "my $r = 037777777777;", "my $r = 040000000000;"),
    ("binary literal range", "", "my $r = 0b" + "1" * 32 + ";", "my $r = 0b" + "1" * 33 + ";"),
    ("unicode escape", "", "my $r = \"\\N{U+D7FF}\";", "my $r = \"\\N{U+D800}\";"),
    ("unicode escape, high", "", "my $r = \"\\N{U+10FFFF}\";", "my $r = \"\\N{U+110000}\";"),
    ("octal escape", "", "my $r = \"\\o{377}\";", "my $r = \"\\o{400}\";"),
    ("hexadecimal escape", "", "my $r = \"\\x{ff}\";", "my $r = \"\\x{zz}\";"),
    ("character literal", "", "my $r = 'a';", "my $r = 'ab';"),
    ("empty character literal", "", "my $r = ' ';", "my $r = '';"),
    ("cast of a number to a class", "my $i = 1; my $o : object;", "my $r = (H)$o;", "my $r = (H)$i;"),
    ("cast between unrelated classes", "my $h = H->new;", "my $r = (HC)$h;", "my $r = (HQ)$h;"),
    ("cast of an array to another array", "my $a = [1];", "my $r = (int[])$a;", "my $r = (long[])$a;"),
    ("cast of an array to a class", "my $a = [1]; my $h : object = $a;", "my $r = (H)$h;", "my $r = (H)$a;"),
    ("cast of an unknown type", "my $a : object;", "my $r = (H)$a;", "my $r = (Unknown)$a;"),
    ("interface requirement", "my $h = H->new; my $q : HQ;", "my $r : HI = $h;", "my $r : HI = $q;"),
    ("interface requirement, other interface", "my $h = H->new; my $q : HQ;", "my $r : HR = $q;", "my $r : HR = $h;"),
    ("child from parent", "my $h = H->new; my $c : HC;", "$h = $c;", "$c = $h;"),
    ("class from object", "my $o : object; my $h : H;", "$o = $h;", "$h = $o;"),
    ("array from any object", "my $o : object; my $a = new int[1];", "$o = $a;", "$a = $o;"),
    ("object[] from int[]", "my $o : object[]; my $a = new int[1]; my $b = new H[1];", "$o = $b;", "$o = $a;"),
    ("parent array from child array", "my $p = new H[1]; my $c = new H[1]; my $q = new HQ[1];", "$p = $c;", "$p = $q;"),
    ("array dimension", "my $p = new int[1]; my $q = new int[][1];", "$q->[0] = $p;", "$q = $p;"),
    ("isa with the object type", "my $o : object;", "my $r = $o isa H;", "my $r = $o isa object;"),
    ("isa of a number", "my $o : object; my $i = 1;", "my $r = $o isa H;", "my $r = $i isa H;"),
    ("is_type with the object type", "my $o : object;", "my $r = $o is_type H;", "my $r = $o is_type object;"),
    ("isa_error of a long", "my $i = 1; my $l = 1L;", "my $r = $i isa_error Error;", "my $r = $l isa_error Error;"),
    ("isa_error with a numeric type", "my $i = 1;", "my $r = $i isa_error Error;", "my $r = $i isa_error int;"),
    ("type_name of a number", "my $o : object; my $i = 1;", "my $r = type_name $o;", "my $r = type_name $i;"),
    ("can of a number", "my $h = H->new; my $i = 1;", "my $r = $h can m;", "my $r = $i can m;"),
    ("reference to a string", "my $i = 1; my $s = \"a\";", "my $r = \\$i;", "my $r = \\$s;"),
    ("reference to an object", "my $i = 1; my $s : H;", "my $r = \\$i;", "my $r = \\$s;"),
    ("dereference of a number", "my $i = 1; my $j = \\$i;", "my $r = $$j;", "my $r = $$i;"),
    ("reference type", "my $i = 1; my $l = 1L; my $j = \\$i;", "$j = \\$i;", "$j = \\$l;"),
    ("referenced value type", "my $i = 1; my $j = \\$i;", "$$j = 5;", "$$j = \"a\";"),
    ("weaken of a number", "my $h = H->new;", "weaken $h->{w};", "weaken $h->{n};"),
    ("unweaken of a number", "my $h = H->new;", "unweaken $h->{w};", "unweaken $h->{n};"),
    ("isweak of a number", "my $h = H->new;", "my $r = isweak $h->{w};", "my $r = isweak $h->{n};"),
    ("copy of an object", "my $h = H->new; my $s = \"a\";", "my $r = copy $s;", "my $r = copy $h;"),
    ("copy of an object array", "my $h = new H[1]; my $s = [1];", "my $r = copy $s;", "my $r = copy $h;"),
    ("dump of a number", "my $h = H->new; my $i = 1;", "my $r = dump $h;", "my $r = dump $i;"),
    ("number from string", "my $s = \"1\";", "my $r : int = (int)$s;", "my $r : int = $s;"),
    ("string from object", "my $o : object;", "my $r : string = (string)$o;", "my $r : string = $o;"),
    ("multi-numeric from number", "my $z : H_2i; my $y : H_2i;", "$z = $y;", "$z = 1;"),
    ("undef to a number", "my $o : object; my $i : int;", "$o = undef;", "$i = undef;"),
    ("object from undef comparison with a number", "my $o : object; my $i : int;", "my $r = $o == undef;", "my $r = $i == undef;"),
    ("last outside of a loop", "", "while (1) { last; }", "my $cbz = method : void () { last; };"),
    ("next outside of a loop", "", "for (my $x = 0; $x < 1; $x++) { next; }", "my $cbz = method : void () { next; };"),
    ("break outside of a switch", "", "switch (1) { case 1: { break; } }", "my $cbz = method : void () { break; };"),
    ("unknown alias", "", "H->v;", "NoAlias->v;"),
    ("call of an unknown method with &", "", "my $r = 1;", "my $r = &no_such_method(1);"),
    ("anon method with a name", "", "my $r = method : int () { return 1; };", "my $r = method named : int () { return 1; };"),
    ("static anon method", "", "my $r = method : int () { return 1; };", "my $r = static method : int () { return 1; };"),
    ("return value of an anon method", "", "my $r = method : int () { return 1; };", "my $r = method : int () { return \"a\"; };"),
    ("outer variable in an anon method", "my $i = 1;", "my $r = [$i : int] method : int () { return $i; };", "my $r = method : int () { return $i; };"),
]
# (name, members that keep the rule, members that break it); the line with #HERE# is where the error must be reported, if there is one
M = [
    ("return without a value", "method a : int () {\n    return 1;\n  }", "method a : int () {\n    return; #HERE#\n  }"),
    ("return of a value in void", "method a : void () {\n    return;\n  }", "method a : void () {\n    return 1; #HERE#\n  }"),
    ("return type", "method a : int () {\n    return 1;\n  }", "method a : int () {\n    return \"a\"; #HERE#\n  }"),
    ("return narrowing", "method a : int () {\n    return (int)1L;\n  }", "method a : int () {\n    return 2147483648L; #HERE#\n  }"),
    ("return object", "method a : H () {\n    return H->new;\n  }", "method a : H () {\n    return HQ->make; #HERE#\n  }"),
    ("self in a class method", "method a : void () {\n    my $r = $self;\n  }", "static method a : void () {\n    my $r = $self; #HERE#\n  }"),
    ("two methods with one name", "method a : void () { }\n  method b : void () { }", "method a : void () { }\n  method a : void () { }"),
    ("two methods with one name, class and instance", "method a : void () { }\n  static method b : void () { }", "method a : void () { }\n  static method a : void () { }"),
    ("two fields with one name", "has fa : int;\n  has fb : int;", "has fa : int;\n  has fa : int;"),
    ("two class variables with one name", "our $A : int;\n  our $B : int;", "our $A : int;\n  our $A : int;"),
    ("enumeration item and method", "enum { AA }\n  method a : void () { }", "enum { AA }\n  static method AA : void () { }"),
    ("two enumeration items with one name", "enum { AA, BB }", "enum { AA, AA }"),
    ("enumeration value range", "enum { AA = 2147483647 }", "enum { AA = 2147483648 }"),
    ("enumeration long value", "enum { AA = 5 }", "enum { AA = 5L }"),
    ("enumeration floating value", "enum { AA = 5 }", "enum { AA = 5.0 }"),
    ("field of a reference type", "has fa : int;", "has fa : int*;"),
    ("field of void", "has fa : int;", "has fa : void;"),
    ("field of a multi-numeric type", "has fa : H_2i[];", "has fa : H_2i;"),
    ("field of an unknown type", "has fa : H;", "has fa : Unknown;"),
    ("class variable of a reference type", "our $A : int;", "our $A : int*;"),
    ("class variable of a multi-numeric type", "our $A : H_2i[];", "our $A : H_2i;"),
    ("class variable of void", "our $A : int;", "our $A : void;"),
    ("class variable name", "our $A : int;", "our $A::B : int;"),
    ("array of references", "has fa : int[];", "has fa : int*[];"),
    ("argument of void", "method a : void ($x : int) { }", "method a : void ($x : void) { }"),
    ("argument of an unknown type", "method a : void ($x : H) { }", "method a : void ($x : Unknown) { }"),
    ("return of a reference", "method a : int () { return 1; }", "method a : int* () { my $x = 1; return \\$x; }"),
    ("return of an unknown type", "method a : H () { return undef; }", "method a : Unknown () { return undef; }"),
    ("required after optional argument", "method a : void ($x : int, $y : int = 1) { }", "method a : void ($x : int = 1, $y : int) { }"),
    ("default value range", "method a : void ($x : long = 2147483648L) { }", "method a : void ($x : int = 2147483648L) { }"),
    ("two arguments with one name", "method a : void ($x : int, $y : int) { }", "method a : void ($x : int, $x : int) { }"),
    ("255 arguments", "static method a : void (" + ", ".join("$x%d : int" % i for i in range(255)) + ") { }", "static method a : void (" + ", ".join("$x%d : int" % i for i in range(256)) + ") { }"),
    ("method without a block", "method a : void () { }", "method a : void ();"),
    ("native method with a block", "native method a : void ();", "native method a : void () { }"),
    ("method named INIT", "method a : void () { }", "method INIT : void () { }"),
    ("destructor with an argument", "method DESTROY : void () { }", "method DESTROY : void ($x : int) { }"),
    ("destructor return type", "method DESTROY : void () { }", "method DESTROY : int () { return 1; }"),
    ("destructor as a class method", "method DESTROY : void () { }", "static method DESTROY : void () { }"),
    ("two destructors", "method DESTROY : void () { }", "method DESTROY : void () { }\n  method DESTROY : void () { }"),
    ("two access attributes of a method", "private method a : void () { }", "private public method a : void () { }"),
    ("two access attributes of a field", "has fa : private int;", "has fa : private public int;"),
    ("two access attributes of a class variable", "our $A : private int;", "our $A : private protected int;"),
    ("two access attributes of an enumeration", "private enum { AA }", "private public enum { AA }"),
    ("two accessor attributes of a field", "has fa : rw int;", "has fa : rw ro int;"),
    ("two accessor attributes of a class variable", "our $A : rw int;", "our $A : ro wo int;"),
    ("required attribute in a class", "method a : void () { }", "required method a : void () { }"),
    ("version twice", "version \"1.001\";", "version \"1.001\"; version \"1.002\";"),
    ("version string", "version \"1.001\";", "version \"1.01\";"),
    ("version string with two points", "version \"1.001\";", "version \"1.001.002\";"),
    ("version string that begins with a point", "version \"1\";", "version \".001\";"),
    ("version string that ends with a point", "version \"10.001003\";", "version \"1.\";"),
    ("version string with a letter", "version \"1\";", "version \"1a\";"),
    ("interface that is a class", "interface HR;\n  method q : int () { return 1; }", "interface HQ;\n  method q : int () { return 1; }"),
    ("interface not satisfied", "interface HR;\n  method q : int () { return 1; }", "interface HR;\n  method other : int () { return 1; }"),
    ("interface method return type", "interface HR;\n  method q : int () { return 1; }", "interface HR;\n  method q : string () { return \"a\"; }"),
    ("interface method arguments", "interface HR;\n  method q : int () { return 1; }", "interface HR;\n  method q : int ($x : int) { return 1; }"),
    ("interface method as a class method", "interface HR;\n  method q : int () { return 1; }", "interface HR;\n  static method q : int () { return 1; }"),
    ("optional interface method arguments", "interface HR;\n  method q : int () { return 1; }\n  method r : int ($x : int) { return 1; }", "interface HR;\n  method q : int () { return 1; }\n  method r : int ($x : string) { return 1; }"),
    ("unknown interface", "interface HI;\n  method m : int ($x : int = 1) { return 1; }", "interface Unknown;\n  method m : int ($x : int = 1) { return 1; }"),
    ("use of an unknown class", "use HQ as Q;", "use NotThere;"),
    ("alias", "alias H as Q;\n  method a : int () { return Q->si(1); }", "alias H as Q;\n  method a : int () { return QQ->si(1); }"),
    ("multi-numeric argument", "method a : void ($x : H_2i) { }", "method a : void ($x : H_2i = 1) { }"),
]
# whole classes: (name, attributes and body that keep the rule, that break it), as the text of class %s
C = [
    ("parent class", "class %s extends H : public { }", "class %s extends HI : public { }"),
    ("parent class, multi-numeric", "class %s extends H : public { }", "class %s extends H_2i : public { }"),
    ("parent class is the class", "class %s extends H : public { }", "class %s extends %s : public { }"),
    ("unknown parent class", "class %s extends H : public { }", "class %s extends Unknown : public { }"),
    ("field of the super class with another type", "class %s extends H : public { has nn : string; }", "class %s extends H : public { has n : string; }"),
    ("overriding method return type", "class %s extends H : public { method m : int ($x : int = 1) { return 1; } }", "class %s extends H : public { method m : string ($x : int = 1) { return \"a\"; } }"),
    ("overriding method argument type", "class %s extends H : public { method m : int ($x : int = 1) { return 1; } }", "class %s extends H : public { method m : int ($x : string = undef) { return 1; } }"),
    ("overriding method required arguments", "class %s extends H : public { method m : int ($x : int, $y : int = 1) { return 1; } }", "class %s extends H : public { method m : int ($x : int, $y : int) { return 1; } }"),
    ("overriding by a class method", "class %s extends H : public { method iv : void () { } }", "class %s extends H : public { static method iv : void () { } }"),
    ("SUPER without a parent method", "class %s extends H : public { method a : void () { $self->SUPER::iv; } }", "class %s extends H : public { method a : void () { $self->SUPER::nothing; } }"),
    ("SUPER of a class method", "class %s extends H : public { method a : void () { $self->SUPER::iv; } }", "class %s extends H : public { method a : void () { $self->SUPER::v; } }"),
    ("SUPER without a parent", "class %s extends H : public { method iv : void () { $self->SUPER::iv; } }", "class %s : public { method iv : void () { $self->SUPER::iv; } }"),
    ("qualified call on an unrelated class", "class %s : public { method a : void () { my $h = H->new; $h->H::iv; } }", "class %s : public { method a : void () { my $h = H->new; $h->HQ::q; } }"),
    ("qualified call of an unknown method", "class %s : public { method a : void () { my $h = H->new; $h->H::iv; } }", "class %s : public { method a : void () { my $h = H->new; $h->H::nothing; } }"),
    ("qualified call of an unknown class", "class %s : public { method a : void () { my $h = H->new; $h->H::iv; } }", "class %s : public { method a : void () { my $h = H->new; $h->Unknown::iv; } }"),
    ("interface with a field", "class %s : interface_t { method a : void (); }", "class %s : interface_t { method a : void (); has fa : int; }"),
    ("interface with a class variable", "class %s : interface_t { method a : void (); }", "class %s : interface_t { method a : void (); our $A : int; }"),
    ("access attributes", "class %s : public { }", "class %s : public private { }"),
    ("type attributes", "class %s : interface_t { method a : void (); }", "class %s : interface_t pointer { method a : void (); }"),
    ("class name", "class %s : public { }", "class %sx : public { }"),
    ("two classes in a file", "class %s : public { }", "class %s : public { } class %s2 : public { }"),
    ("syntax", "class %s : public { }", "class %s : public { "),
    ("unknown attribute", "class %s : public { }", "class %s : publicly { }"),
]
# multi-numeric types: name suffix included
N = [
    ("no field", "class M_1i : mulnum_t { has x : int; }", "class M_1i : mulnum_t { }"),
    ("different field types", "class M_2i : mulnum_t { has x : int; has y : int; }", "class M_2i : mulnum_t { has x : int; has y : long; }"),
    ("object field", "class M_1d : mulnum_t { has x : double; }", "class M_1d : mulnum_t { has x : string; }"),
    ("length of the suffix", "class M_2l : mulnum_t { has x : long; has y : long; }", "class M_3l : mulnum_t { has x : long; has y : long; }"),
    ("type of the suffix", "class M_1f : mulnum_t { has x : float; }", "class M_1f : mulnum_t { has x : double; }"),
    ("no suffix", "class M_1s : mulnum_t { has x : short; }", "class M : mulnum_t { has x : short; }"),
    ("suffix without a length", "class M_1b : mulnum_t { has x : byte; }", "class M_b : mulnum_t { has x : byte; }"),
    ("class variable", "class M_1i : mulnum_t { has x : int; }", "class M_1i : mulnum_t { has x : int; our $A : int; }"),
    ("instance method", "class M_1i : mulnum_t { has x : int; static method s : int () { return 1; } }", "class M_1i : mulnum_t { has x : int; method s : int () { return 1; } }"),
    ("255 fields", "class M_255b : mulnum_t { " + " ".join("has x%d : byte;" % i for i in range(255)) + " }", "class M_256b : mulnum_t { " + " ".join("has x%d : byte;" % i for i in range(256)) + " }"),
]


def rules(src, ctx):
    g = src.choice([S, S, S, M, M, C, N])
    r = src.choice(g)
    ok = src.chance(1, 3)
    what = r[0] + (", kept" if ok else ", broken")
    if g is S:
        classes, cn, line = program(src, method_with(src, r[2] if ok else r[3], [r[1]]))
    elif g is M:
        # members in random company
        text = r[1] if ok else r[2]
        classes, cn, line = program(src, (["  " + text]))
        cs = dict(classes)
        L = cs[cn].split("\n")
        line = next((i + 1 for i, l in enumerate(L) if MARK in l), None)
        classes = [(n, t.replace(" " + MARK, "")) for n, t in classes]
    else:
        t = r[1] if ok else r[2]
        cn = "U" if g is C else t.split()[1]
        t = t.replace("%s", "U").replace(" { ", " { " + USES, 1) if g is C else t
        classes = [("T", "class T {\n  use %s;\n}" % cn), (cn, t)] + HELP
        line = None
    judge(ctx, classes, ok, cn, line, what)
    return pbt.Info(True, ["accepted" if ok else "rejected"], what + ": " + str(r[1:]), digest=classes[0][1] + classes[1][1])


SUITES = [
    Suite("operators", operators, 16000, 300000),
    Suite("access control", access, 8000, 100000),
    Suite("rules", rules, 14000, 300000),
]

META = dict(
    statement="For every program context, the compiler rejects an operator applied to operand types the documentation does not allow, an access to a private or protected member, class, class variable or enumeration from a class without that access (anon methods having the access of their outmost class, allow granting it), and every violation of the documented rules on declarations, calls, literals, assignments, statements, classes, interfaces and multi-numeric types, with a message that names the file and the line; the neighbouring program that keeps the rule compiles, and an operator's result has the documented static type.",
    over=["inputs"], quant="all operators, operand type combinations, member accesses and rules, in all statement contexts",
    why="tests fix one context and a few types per rule; a check that is skipped in some context, type combination or class relation lets unsound programs run",
    files=["lib/SPVM/Builder/src/spvm_check.c", "lib/SPVM/Builder/src/spvm_op.c", "lib/SPVM/Builder/src/spvm_type.c", "lib/SPVM/Builder/src/spvm_toke.c"],
    mech=[("type checks of operators and statements", "lib/SPVM/Builder/src/spvm_check.c"), ("access control", "lib/SPVM/Builder/src/spvm_check.c"), ("declarations", "lib/SPVM/Builder/src/spvm_op.c")],
    observe=["acceptance or rejection of the program, error location, static type names"],
    technique="property-based testing: programs that break or keep one documented rule, in random contexts, against a table of the rules",
    note="About 50 operator forms over 24 operand types with result types, an access control model over 9 relations, about 230 rule pairs.")
