"""P05: histories of compilations in one compiler: what compiles, what fails, and what the loaded classes do afterwards."""
from vt import pbt, drv as drvmod
from vt.pbt import Suite

TITLE = "Compilations of one compiler build on each other; a failed one leaves no trace"
RULE = ("One case is a history of up to 30 steps in one compiler: give classes new sources (sound or broken in one of 20 ways), compile a class or an anon class, execute INIT, call methods of loaded classes. "
        "Non-trivial: at least one compilation fails after one that succeeds, and a later one succeeds.")
ASSUMPTIONS = ["the sources of classes are registered with the compiler before each compilation, as a failed compilation drops the registered source files of the classes it touched"]

# the text of constants that classes share: a rolled back compilation must not take them away from, or leave them to, others
TEXTS = ["", "x", "ab", "a\\0b", "a\\0c", "\\0", "\\N{U+3042}", "same text", "D", "T0", "int", "\\$S", "v", "%s" % ("long " * 20).strip()]

# ways to break a class: (name, where, text).  where: body (class item) or stmt (statement in a method)
BREAK = [
    ("syntax", "body", "method ("), ("unclosed brace", "body", "static method q1 : int () { if (1) { return 1; }"), ("unclosed string", "stmt", 'my $x = "abc;'),
    ("unclosed expansion", "stmt", 'my $y = new int[1]; my $x = "a$y->[";'), ("bad token", "body", "static method q2 : int () { return 1 ? 2 : 3; }"), ("heredoc without end", "stmt", "my $x = <<'EOS';\nabc\n"),
    ("undeclared variable", "stmt", "$undeclared = 1;"), ("type mismatch", "stmt", 'my $x : int = "abc";'), ("unknown method", "stmt", "&no_such_method(1);"),
    ("unknown class", "body", "use No::Such::Class;"), ("unknown type", "body", "has q3 : No::Such::Type;"), ("duplicate method", "body", "static method q4 : int () { return 1; } static method q4 : int () { return 2; }"),
    ("duplicate field", "body", "has q5 : int; has q5 : long;"), ("duplicate variable", "stmt", "my $x = 1; my $x = 2;"), ("interface not implemented", "body", "interface Comparator;"),
    ("unknown field", "stmt", "my $x = new %(n)s; $x->{nothing} = 1;"), ("bad anon method", "stmt", "my $x = method : int ($a : int) { my $b : int[] = $a; return 1; };"),
    ("unclosed anon method", "stmt", "my $x = method : int ($a : int) { return $a;"), ("bad return", "body", 'static method q6 : int () { return "abc"; }'), ("bad number", "stmt", "my $x = 99999999999;"),
    ("bad enum", "body", "enum { 1 }"), ("bad alias", "body", "use No::Such::Class as Q;"), ("missing return type", "body", "static method q7 { }"), ("sub in sub", "body", "static method q8 : void () { static method q9 : void () { } }"),
    ("required twice", "stmt", "my $x = new No::Such;"), ("bad cast", "stmt", "my $x = (string)new %(n)s;"), ("bad default", "body", 'static method q10 : void ($a : int = "x") { }'),
    ("interface method missing", "body", "interface If;"), ("interface method of another return type", "body", 'interface If; method req : string ($x : int) { return "a"; }'),
    ("interface method of another argument", "body", "interface If; method req : int ($x : object) { return 1; }"), ("interface method with more arguments", "body", "interface If; method req : int ($x : int, $y : int) { return 1; }"),
    ("interface method that is static", "body", "interface If; static method req : int ($x : int) { return 1; }"), ("not an If", "stmt", "my $x : If = new %(n)s;"),
    # these need a class that this one uses
    ("too few arguments", "stmt", "%(d)s->opt();"), ("too many arguments", "stmt", '%(d)s->opt(1, 2, "x", 4, 5);'), ("wrong argument", "stmt", "%(d)s->opt(VT->o, 1);"), ("no method in it", "stmt", "%(d)s->nothing;"),
    ("its private field", "stmt", "my $x = new %(d)s; $x->{hidden} = 1;"), ("its private method", "stmt", "%(d)s->hidden_m;"), ("its private variable", "stmt", "$%(d)s::HIDDEN = 1;"), ("weaken of its number", "stmt", "my $x = new %(d)s; weaken $x->{pf};"),
    ("isweak of its number", "stmt", "my $x = new %(d)s; isweak $x->{pf};"), ("unweaken of its number", "stmt", "my $x = new %(d)s; unweaken $x->{pf};"), ("its text as a number", "stmt", "my $x : int = $%(d)s::PS;"),
    ("it as itself", "stmt", "my $y : %(d)s = new %(n)s; my $x : %(n)s = new %(d)s; my $z : VT = $x;"), ("its instance method on the class", "stmt", "%(d)s->base(1);"),
    ("override of another type", "extends", 'method base : string ($x : int) { return "a"; }'), ("override with other arguments", "extends", "method base : int ($x : int, $y : string) { return 1; }"),
    ("static override", "extends", "static method base : int ($x : int) { return 1; }"), ("field of another type", "extends", "has pf : string;"), ("extends an interface", "extends If", ""),
    ("bad escape", "stmt", 'my $x = "\\q";'), ("bad character", "stmt", "my $x = 'ab';"), ("wrong class name", "name", ""),
]


NODEP = [b for b in BREAK if b[1] in ("body", "stmt") and "%(d)s" not in b[2] and "If" not in b[0] and "interface If" not in b[2]]
IF = "class If : interface_t { required method req : int ($x : int); }"


def source(c, names, brk):
    """One version of a class -> (source, value of v, INIT value)"""
    n = names[c["i"]]
    uses = "".join("use %s; " % names[j] for j in c["uses"])
    body, stmt, name, ext = "", "", n, names[c["ext"]] if c["ext"] is not None else ""
    if brk:
        k, where, t = brk
        if where == "extends If":
            ext = "If"
        if "%(d)s" in t or where == "extends":
            dep = names[max(c["uses"])]
            t = t.replace("%(d)s", dep)
            if where == "extends":
                ext = dep
        t = t.replace("%(n)s", n)
        if where in ("body", "extends"):
            body = t
        elif where == "stmt":
            stmt = t
        elif where == "name":
            name = n + "X"
    if ext:
        name += " extends " + ext
    parts = ["class %s : public {" % name if not c["line"] else "class\n%s : public\n{" % name,
             uses, "use VT; use If;",
             "our $S : int;", "INIT { $S += %d; VT->i(%d); }" % (c["k"], 1000 + c["i"] * 100 + c["ver"])]
    k = c["k"]
    val = k
    code = ["my $r = %d;" % k]
    for t in c["texts"]:
        code.append('{ my $s = "%s"; $r += length $s; for (my $i = 0; $i < length $s; $i++) { $r = $r * 3 + $s->[$i]; } }' % t)
    if c["enum"]:
        parts.append("enum { Q_A = %d, Q_B, Q_C }" % (k % 50))
        code.append("$r += %s->Q_C;" % n)
    if c["field"]:
        parts.append("has f1 : int; has f2 : string; has g%d : %s;" % (c["i"], n))
        code.append('my $o = new %s; $o->{f1} = %d; $o->{g%d} = $o; $o->{g%d} = undef; $o->{f2} = "same text"; $r += $o->{f1} + length $o->{f2};' % (n, k % 7, c["i"], c["i"]))
    if c["anon"]:
        parts.append("method take : int ($x : int) { return $x + 1; }")
        code.append("{ my $z = %d; my $m = [$z : int] method : int ($x : int) { return $x + $z; }; $r += $m->(%d); }" % (k % 11, k % 5))
        if c["anon"] > 1:
            code.append("{ my $m = method : string () { return __PACKAGE__; }; $r += length $m->(); }")
    if c["inst"]:
        parts.append("static method new : %s () { return new %s; } method me : int () { return $S; }" % (n, n))
    for j in c["calls"]:
        code.append("$r += %s->v;" % names[j])
    parts.append("our $PV : public int; our $PS : public string; our $HIDDEN : int; has hidden : int; private static method hidden_m : void () { }")
    if not (brk and "field of another" in brk[0]):
        own = "has q%d : public int; has q%db : string;" % (c["i"], c["i"])
        parts.append(("has pf : public int; has po : public %s; %s" % (n, own)) if not ext else ("has pf : public int; " + own if c["mid"] else own))
    parts.append("static method opt : int ($a : int, $b : int = %d, $c : string = undef, $d : long = %d) { my $x = $a * 2 + $b + (int)$d; if ($c) { $x += length $c; } return $x; }" % (k % 17, k % 19))
    if not (brk and "verride" in brk[0]):
        if c["ext"] is not None:
            parts.append("method base : int ($x : int) { return $self->SUPER::base($x) * 2 + %d; }" % (k % 5))
        else:
            parts.append("method base : int ($x : int) { return $x + %d; }" % (k % 13))
    if c["If"]:
        parts.append("interface If; method req : int ($x : int) { return $x + %d; }" % (k % 23))
    for j, u in c["do"]:
        d = names[j]
        code.append({"opt1": "$r += %s->opt(3);", "opt2": "$r += %s->opt(3, 4);", "opt3": '$r += %s->opt(3, 4, "xyz");', "opt4": '$r += %s->opt(3, 4, "xyz", 9);', "field": "{ my $o = new %s; $o->{pf} = 5; $o->{q" + str(j) + "} = 7; $o->{pf}++; $r += $o->{pf} * 10 + $o->{q" + str(j) + "}; }",
                     "var": '$%s::PV = 11; $r += $%s::PV; $%s::PS = "abc"; $r += length $%s::PS; $%s::PS = undef;', "base": "{ my $o = new %s; $r += $o->base(4); }", "if": "{ my $o : object = new %s; if ($o isa If) { $r += ((If)$o)->req(2); } else { $r += 1; } }",
                     "isa": "{ my $o : object = new %s; if ($o isa %s) { $r += 2; } if ($o isa_error %s) { } $r += length(type_name $o); }".replace(" if ($o isa_error %s) { }", ""), "arr": "{ my $o = new %s[3]; $o->[1] = new %s; my $p : object[] = $o; $r += @$p; if ($p->[1] isa %s) { $r += 3; } }"}[u].replace("%s", d))
    if c["late"] is not None:
        parts.append("static method late : int () { return %s->v; }" % names[c["late"]])
    if c["iface"]:
        parts.append("interface Stringable; method to_string : string () { return \"v%d\"; }" % k)
    if c["big"]:
        parts.append(" ".join("static method m%d : int ($a : int, $b : string = undef) { my $x = $a + %d; return $x; }" % (i, i) for i in range(c["big"])))
    pos = len(code) // 2 if c["mid"] else len(code)
    if stmt:
        code.insert(pos, stmt)
    parts.append("static method v : int () { %s return $r; }" % " ".join(code))
    parts.append("static method s : int () { return $S; }")
    parts.append("static method name : string () { return \"%s\"; }" % n)
    if body:
        parts.insert(len(parts) if c["mid"] else 4, body)
    parts.append("}")
    return ("\n" if c["line"] else " ").join(parts) + "\n"


TB = {"": b"", "\\$S": b"$S", "\\0": b"\0", "a\\0b": b"a\0b", "a\\0c": b"a\0c", "\\N{U+3042}": "\u3042".encode()}


def wrap(x):
    return (x + 2**31) % 2**32 - 2**31


def base(e, loaded):
    if e["ext"] is None:
        return 4 + e["k"] % 13
    return base(loaded[e["ext"]], loaded) * 2 + e["k"] % 5


def req(e, loaded):
    while e:
        if e["If"]:
            return 2 + e["k"] % 23
        e = loaded[e["ext"]] if e["ext"] is not None else None
    return 1


def value(c, names, loaded):
    r = c["k"]
    for t in c["texts"]:
        b = TB.get(t, t.encode())
        r = wrap(r + len(b))
        for x in b:
            r = wrap(r * 3 + (x - 256 if x > 127 else x))
    if c["enum"]:
        r = wrap(r + c["k"] % 50 + 2)
    if c["field"]:
        r = wrap(r + c["k"] % 7 + 9)
    if c["anon"]:
        r = wrap(r + c["k"] % 11 + c["k"] % 5)
        if c["anon"] > 1:
            r = wrap(r + len(names[c["i"]]))
    for j in c["calls"]:
        r = wrap(r + value(loaded[j], names, loaded))
    for j, u in c["do"]:
        e = loaded[j]
        k = e["k"]
        r = wrap(r + {"opt1": 6 + k % 17 + k % 19, "opt2": 10 + k % 19, "opt3": 13 + k % 19, "opt4": 22, "field": 67, "var": 14, "base": base(e, loaded), "if": req(e, loaded), "isa": 2 + len(names[j]), "arr": 6}[u])
    return r


def gen_class(src, i, n, ver):
    uses = [j for j in range(n) if j != i and src.chance(1, 4)]
    if len(uses) > 1 and src.chance(1, 2):
        uses = uses[::-1]
    ups = [j for j in uses if j > i]
    ext = src.choice(ups) if ups and src.chance(1, 3) else None
    do = [(src.choice(uses + [i]), src.choice(["opt1", "opt2", "opt3", "opt4", "field", "var", "base", "if", "isa", "arr"])) for _ in range(src.int(0, 5))] if uses or src.chance(1, 2) else []
    return dict(ext=ext, do=do, If=int(src.chance(1, 3)), i=i, ver=ver, k=src.int(0, 100000), uses=uses, calls=[j for j in uses if j > i and src.chance(3, 4)], late=src.choice(uses) if uses and src.chance(1, 3) else None,
                texts=[src.choice(TEXTS) for _ in range(src.int(0, 4))], enum=src.below(2), field=src.below(2), anon=src.below(3), inst=src.below(2),
                iface=int(src.chance(1, 5)), big=src.weighted([(6, 0), (1, 5), (1, 40)]), mid=src.below(2), line=src.below(2))


def case_for(variant, pre=False):
    def case(src, ctx):
        d = ctx.drv(variant)
        n = src.int(1, 6)
        names = src.choice([["T%d" % i for i in range(6)], ["A", "A::B", "A::B::C", "B", "Ab", "A::BC"]])[:n]
        cur, brk, vers = {}, {}, [0] * n
        loaded, inited = {}, {}
        log, tags = [], set()
        nanon = 0
        anons = []          # (name, value)
        failed = ok_after = False
        evals = 0
        base = None

        def bad(msg):
            return pbt.Violation("%s\n%s" % (msg, "\n".join(log)), key="p05")

        def renew(i):
            vers[i] += 1
            cur[i] = gen_class(src, i, n, vers[i] % 100)
            brk[i] = None
            if src.chance(1, 4):
                b = src.choice(BREAK)
                if ("%(d)s" in b[2] or b[1] == "extends") and not cur[i]["uses"]:
                    b = BREAK[0]
                if b[1] == "extends" and max(cur[i]["uses"]) <= i:
                    b = BREAK[1]
                if b[1].startswith("extends"):
                    cur[i]["ext"] = None
                if "nterface" in b[0] or "If" in b[0]:
                    for x in cur:
                        if b[0] != "extends an interface":
                            cur[i]["If"] = 0
                if "If" in b[0] or b[0].startswith("interface method"):
                    cur[i]["ext"] = None
                brk[i] = b

        def closure(roots):
            seen, todo = [], list(roots)
            while todo:
                i = todo.pop(0)
                if i in seen or i in loaded:
                    continue
                seen.append(i)
                todo += cur[i]["uses"]
            return seen

        def register():
            for i in range(n):
                d.add(names[i], source(cur[i], names, brk[i]))
            d.add("If", IF)

        def deps(c):
            return c["uses"]

        def check_calls(final=False):
            nonlocal evals
            todo = sorted(loaded) if final else [src.choice(sorted(loaded))] if loaded else []
            for i in todo:
                for m, want in (("v", value(loaded[i], names, loaded)), ("s", inited[i]), ("name", names[i])) + ((("late", value(loaded[loaded[i]["late"]], names, loaded)),) if loaded[i]["late"] is not None else ()):
                    log.append("call %s->%s" % (names[i], m))
                    r = d.call(names[i], m)
                    evals += 1
                    got = r.ret.decode() if isinstance(r.ret, bytes) else r.ret
                    if r.status != "ok" or got != want:
                        raise bad("%s->%s gives %r %r, expected %r\n%s" % (names[i], m, r.status, r.msg or got, want, source(loaded[i], names, None)))
                    if r.leak:
                        raise bad("%s->%s leaks %d memory blocks" % (names[i], m, r.leak))
            for nm, want in (anons if final else anons[-1:]):
                log.append("call %s->w" % nm)
                r = d.call(nm, "w")
                evals += 1
                if r.status != "ok" or r.ret != want:
                    raise bad("%s->w gives %r %r, expected %r" % (nm, r.status, r.msg or r.ret, want))

        try:
            d.new()
            if d.compile("VT").code:
                raise bad("VT does not compile")
            for i in range(n):
                renew(i)
            needinit = False
            for step in range(src.int(3, 30)):
                op = src.weighted([(4, "compile"), (2, "anon"), (3, "renew"), (3, "call"), (1, "again"), (1, "missing"), (1, "fix")])
                if op == "renew":
                    renew(src.below(n))
                elif op == "fix":
                    for i in range(n):
                        brk[i] = None
                elif op == "again" and loaded:
                    i = src.choice(sorted(loaded))
                    renew(i)
                    register()
                    log.append("compile %s again, with another source" % names[i])
                    c = d.compile(names[i])
                    evals += 1
                    if c.code or c.errors:
                        raise bad("a loaded class cannot be compiled again: %r" % (c.errors,))
                    tags.add("again")
                elif op == "missing":
                    log.append("compile No::Such%d" % step)
                    c = d.compile("No::Such%d" % step)
                    evals += 1
                    if not c.code or not c.errors or "No::Such%d" % step not in c.errors[0]:
                        raise bad("a class without a source: %r %r" % (c.code, c.errors))
                    failed = True
                elif op in ("compile", "anon"):
                    register()
                    if op == "compile":
                        i = src.below(n)
                        cl = closure([i])
                        log.append("compile %s (%s)" % (names[i], ", ".join(names[j] + (": " + brk[j][0] if brk[j] else "") for j in cl)))
                        c = d.compile(names[i])
                        code, errors = c.code, c.errors
                        ab = None
                        bad_here = [j for j in cl if brk[j]]
                    else:
                        ac = dict(uses=[j for j in range(n) if src.chance(1, 3)])
                        ab = src.choice(NODEP) if src.chance(1, 4) else None
                        k = src.int(0, 1000)
                        t = src.choice(TEXTS)
                        nm = "eval::anon_class::%d" % nanon
                        body = ab[2].replace("%(n)s", nm) if ab else ""
                        text = "class { use VT; %s %s static method w : int () { my $s = \"%s\"; my $r = %d + length $s; my $f = [$r : int] method : int ($x : int) { my $g = method : int ($y : int) { return $y + 1; }; return $r + $g->($x) - $x - 1; }; $r = $f->(4); %s %s return $r; } }" % (
                            "".join("use %s; " % names[j] for j in ac["uses"]), body if ab and ab[1] == "body" else "", t, k, body if ab and ab[1] == "stmt" else "", "".join("$r += %s->v; " % names[j] for j in ac["uses"]))
                        cl = closure(ac["uses"])
                        bad_here = [j for j in cl if brk[j]]
                        log.append("anon class (%s)%s" % (", ".join(names[j] + (": " + brk[j][0] if brk[j] else "") for j in cl), " itself: " + ab[0] if ab else ""))
                        code, got, errors = d.anon(text)
                    evals += 1
                    if bad_here or ab:
                        failed = failed or bool(loaded)
                        tags.add("fail")
                        for j in bad_here:
                            tags.add(brk[j][0])
                        if not code or not errors:
                            raise bad("a broken class compiles\n%s" % "\n".join(source(cur[j], names, brk[j]) for j in bad_here))
                        files = ["at %s.spvm line" % names[j].replace("::", "/") for j in bad_here] + [names[j] + x for j in (cl if any(brk[j][0] == "interface not implemented" for j in bad_here) else bad_here) for x in ("#", " class")] + (["eval/anon_class/", "eval::anon_class::"] if ab else []) + ["No/Such", "No::Such", "Nx", "If.spvm"]
                        if not any(f in e for e in errors for f in files) and not any(brk[j][1] == "name" for j in bad_here):
                            raise bad("no error message is about a broken class: %r" % (errors,))
                    else:
                        if code or errors:
                            raise bad("sound classes do not compile: %r\n%s" % (errors, "\n".join(source(cur[j], names, brk[j]) for j in cl) + ("\n" + text if op == "anon" else "")))
                        if failed:
                            ok_after = True
                        for j in cl:
                            loaded[j] = dict(cur[j])
                            inited[j] = 0
                        tags.add("ok")
                        e, msg = d.envinit()
                        if e or msg:
                            raise bad("INIT: %r %r" % (e, msg))
                        got_init = [x for x in d.init_trace if isinstance(x, int)]
                        want = {1000 + j * 100 + loaded[j]["ver"]: j for j in cl}
                        for j in cl:
                            inited[j] = loaded[j]["k"]
                        if sorted(got_init) != sorted(want):
                            raise bad("INIT is executed for %r, expected %r" % (got_init, sorted(want)))
                        order = [want[x] for x in got_init]
                        # a class is initialized after the classes it uses, unless these use it in turn
                        reach = {j: set() for j in cl}
                        for j in cl:
                            todo = list(loaded[j]["uses"])
                            while todo:
                                x = todo.pop()
                                if x in reach[j]:
                                    continue
                                reach[j].add(x)
                                todo += loaded[x]["uses"] if x in loaded else []
                        for j in cl:
                            for x in loaded[j]["uses"]:
                                if x in order and j not in reach[x] and order.index(x) > order.index(j):
                                    raise bad("INIT of %s is executed before INIT of %s, which it uses" % (names[j], names[x]))
                        if op == "anon":
                            if got != nm:
                                raise bad("the anon class is named %r, expected %r" % (got, nm))
                            nanon += 1
                            val = wrap(k + len(TB.get(t, t.encode())))
                            for j in ac["uses"]:
                                val = wrap(val + value(loaded[j], names, loaded))
                            anons.append((nm, val))
                elif loaded:
                    check_calls()
            if loaded:
                check_calls(True)
            rest = d.done()[0]
            if rest != (4 if loaded or anons else 0):   # the runtime stack and the command information
                raise bad("%d memory blocks remain" % rest)
        except drvmod.Crash as e:
            raise pbt.Violation("crash: %s\n%s\n%s" % (str(e)[:3000], "\n".join(log), "\n".join(source(cur[j], names, brk[j]) for j in cur)), key="p05-crash")
        return pbt.Info(ok_after, tags=sorted(tags), sample="\n".join(log)[:600], digest="\n".join(log) + repr(cur), evals=evals)
    return case


SUITES = [
    Suite("histories", case_for("plain"), 1500, 30000, variants=("plain",), chunk=25),
    Suite("histories, asan", case_for("asan"), 300, 6000, variants=("asan",), chunk=15),
]

META = dict(
    statement="One compiler compiles any number of classes and anon classes one after another. A sound class compiles whatever was compiled or failed before it; a broken one is rejected with error messages about it, and a failed compilation leaves no trace: the classes loaded before it go on to give the same results, its own classes can be given other sources and compiled, and constants, class names and anon class numbers are as if it had not happened. A loaded class stays as it is when it is compiled again. Later classes use the methods, default arguments, fields, class variables, enumerations, parents and interfaces of earlier ones. INIT of each class is executed once, after those of the classes it uses.",
    over=["histories", "programs"], quant="all sequences of successful and failing compilations, source replacements, INIT executions and calls in one compiler",
    why="the unit tests compile one program per process; what a compilation leaves behind appears only in a later one",
    files=["lib/SPVM/Builder/src/spvm_compiler.c", "lib/SPVM/Builder/src/spvm_toke.c", "lib/SPVM/Builder/src/spvm_check.c", "lib/SPVM/Builder/src/spvm_class_file.c", "lib/SPVM/Builder/src/spvm_api.c", "lib/SPVM/Document/NativeAPI/Compiler.pm", "lib/SPVM/Document/Language/Class.pm"],
    mech=[("compilation and its roll back", "spvm_compiler.c SPVM_COMPILER_compile_common"), ("runtime of the loaded classes", "spvm_compiler.c SPVM_COMPILER_build_runtime"), ("class files", "spvm_class_file.c, spvm_toke.c SPVM_TOKE_load_class_file"), ("INIT", "spvm_api.c SPVM_API_call_init_methods")],
    observe=["result and error messages of each compilation", "records of INIT", "values of methods of every loaded class", "remaining memory blocks", "address sanitizer reports"],
    technique="stateful property-based testing with a model of the loaded classes",
    note="Generated histories over a universe of up to six classes that use, extend and call each other, with 50 ways of being broken; also with address sanitizer.",
    oracle="a model that knows which versions of the classes are loaded and what their methods return")
