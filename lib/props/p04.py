import glob, os, re
from vt import build, lang, prog
from vt.pbt import Suite, Info, Violation

TITLE = "The compiler survives any source text and reports located errors"
RULE = ("One case compiles one text under AddressSanitizer and UndefinedBehaviorSanitizer: a class file of the repository or a generated program after 1 to 8 token, byte, line or structure mutations. "
        "Non-trivial: the text is at least 10 tokens long and differs from its origin.")

META = dict(
    statement="Compiling any byte string as a class file ends: with success, or with a failure that carries at least one error message, every message naming the file and a line inside the text. It never crashes, hangs, reads or writes outside its memory, or aborts the process. A compiler that rejected a text can compile the next one, and freeing it returns all memory. Compiling the same text again gives the same result and the same messages.",
    over=["inputs"], quant="all source texts (byte strings), including malformed, truncated and deeply nested ones",
    why="the tests compile valid classes and a fixed list of small erroneous ones; malformed input takes arbitrary shapes, and errors surface in combinations of the tokenizer, the parser and the checker that no fixed list reaches",
    files=["lib/SPVM/Builder/src/spvm_toke.c", "lib/SPVM/Builder/src/spvm_yacc.c", "lib/SPVM/Builder/src/spvm_op.c", "lib/SPVM/Builder/src/spvm_check.c", "lib/SPVM/Builder/src/spvm_opcode_builder.c", "lib/SPVM/Builder/src/spvm_compiler.c"],
    mech=[("tokenizer", "lib/SPVM/Builder/src/spvm_toke.c"), ("op tree construction reporting errors and going on", "lib/SPVM/Builder/src/spvm_op.c"), ("checks in passes, each stopping at the first error", "lib/SPVM/Builder/src/spvm_check.c"), ("error list and its rollback", "lib/SPVM/Builder/src/spvm_compiler.c")],
    observe=["return code and error messages of a compile", "sanitizer reports, signals and time of the compiling process", "memory blocks left"],
    technique="mutation-based and grammar-based fuzzing under sanitizers",
    note="Mutations of all class files of the repository and of generated programs, with sanitizers and a time limit as oracle, plus determinism and error location checks; no coverage guidance in the quick tier.")

TOK = re.compile(rb"""#[^\n]*|"(?:[^"\\]|\\.)*"|'(?:[^'\\]|\\.)*'|[$@]?[A-Za-z_][A-Za-z0-9_]*(?:::[A-Za-z0-9_]+)*|[0-9][0-9A-Za-z_.]*|[ \t]+|\n|[-+*/%&|^<>=!~.]{1,4}|.""", re.S)
KW = ("alias allow as basic_type_id break byte can case cmp class compile_type_name copy default die div_uint div_ulong double dump elsif else enum eq eval eval_error_id extends for float false gt ge has if "
      "interface int interface_t isa isa_error isweak is_compile_type is_type is_error is_read_only args_width last length lt le long make_read_only my mulnum_t method mod_uint mod_ulong mutable native ne next "
      "new new_string_len of our object print private protected public precompile pointer return require required rw ro say static switch string short scalar true type_name undef unless unweaken use version void "
      "warn while weaken wo INIT __END__ __PACKAGE__ __FILE__ __LINE__ stringify_type_name any_object").encode().split()
OPS = rb"! != $ % & && &= = == ^ ^= | || |= - -- -= ~ @ + ++ += * *= < <= > >= <=> %= << <<= >>= >> >>> >>>= . .= / /= \ ( ) { } [ ] ; : , -> => $@ ${ }} [] [][] $_ \" ' q' <<'EOS' :: ?".split() + [b"\n", b" "]
NASTY = [b"", b"\0", b"\xff", b"\xc3", b"\xe3\x81\x82", b"\xf4\x90\x80\x80", b"\xed\xa0\x80", b"\r", b"\x7f", b"9" * 30, b"0x" + b"f" * 40, b"0b" + b"1" * 70, b"0" + b"7" * 30, b"1e999", b"1e-999f", b"1.", b".5", b"0x1p", b"1_", b"2147483648",
         b"-2147483648", b"-9223372036854775808L", b"'\\x'", b"'\\o{400}'", b"\"\\N{U+110000}\"", b"\"\\N{U+}\"", b"\"\\x{\"", b"\"$\"", b"\"${\"", b"\"$a->{\"", b"\"$a->[\"", b"\"$$\"", b"\"$@\"", b"q'\\z'", b"<<'EOS';\nfoo\nEOS\n", b"<<'';\n\n", b"<<'A",
         b"\n=pod\n", b"\n=cut\n", b"\n__END__\n", b"#line 5\n", b"\n#line 1000000\n", b"\"$x}\"", b"1.5+2", b"1e3-1", b"0x1p3+1", b"$a<10", b"$a>10", b"\"\\", b"q'\\", b"#file \"a", b"#lib \"a", b"'\\", b"'a", b"\"a", b"1e", b"1e+", b"0x", b"0b", b"-0x80000000", b"-0x8000000000000000L", b"0x;", b"0x1p", b"\\N{U+", b"$@->{a}", b"@$@", b"\\$@", b"\n#line x\n", b"#file \"x\"\n", b"\n#lib \"y\"\n", b"a" * 300, b"A::" * 40 + b"B", b"__", b"a__b", b"::a", b"a::", b"$::a", b"$a::", b"$A::B::C", b"T", b"T->", b"$self", b"undef", b"new T", b"new int[3]",
         b"&", b"&m", b"&m(", b"T->m", b"->$", b"()", b"{}", b"[]", b"[[1],[2]]", b"{a=>1}", b"[1, \"a\", undef]", b"method : void () {}", b"method : int ($x : int) { return $x; }", b"[$a : int] method : int () { return $a; }", b"has x : int;", b"our $X : rw int;", b"enum { A = 1, B }", b"use Fn;",
         b"use Fn as F;", b"alias Fn as F;", b"require Foo;", b"if (require Foo) {} else {}", b"extends T;", b"interface I;", b"allow T;", b"version \"1.0\";", b"version_from T;", b"INIT { }", b"static method a : void () {}", b"native method n : void ();", b"required method r : void ();", b"int*", b"int[]", b"T[][]", b"string", b"mutable string", b"object[]", b"void", b"Int", b"T of Int", b"element",
         b"my $x = 1;", b"my ($a, $b) = 1;", b"return;", b"next;", b"last;", b"break;", b"die;", b"warn;", b"eval { };", b"switch (1) { case 1: { break; } default: { } }", b"for my $i (@$x) { }", b"for (my $i = 0; $i < 3; $i++) { }", b"while (1) { }", b"unless (1) { } elsif (1) { } else { }", b"weaken $a->{x};", b"isweak $a->{x}", b"$a->{x}", b"$a->[0]", b"$$a", b"\\$a", b"@$a", b"@{$a}", b"$a isa T", b"$a is_type T", b"can", b"$a can m", b"(T)$a", b"(int[])$a", b"make_read_only $a", b"type_name $a", b"copy $a", b"dump $a", b"new_string_len 3", b"$a . 1", b"$a x 2", b"1 <=> 2", b"basic_type_id T", b"args_width", b"__PACKAGE__", b"!$a && $b || $c", b"$a = $b = $c", b"$a++ + ++$a"]
DIRECT = [b"", b"class", b"class T", b"class T;", b"class T {", b"class T { }", b"class T { } class U { }", b"class U { }", b"{", b"}", b";", b"\0", b"#", b"class T : { }", b"class T : pointer { }", b"class T : interface_t mulnum_t { }", b"class T extends T { }", b"class T extends U { }"]
_C = {}


def corpus():
    if not _C:
        fs = sorted(set(glob.glob(os.path.join(build.REPO, "lib/SPVM/**/*.spvm"), recursive=True) + glob.glob(os.path.join(build.REPO, "t/01_syntax/lib/**/*.spvm"), recursive=True) + glob.glob(os.path.join(build.REPO, "t/02_vm/lib/**/*.spvm"), recursive=True)))
        out = []
        for f in fs:
            b = open(f, "rb").read()
            if len(b) < 60000:
                out.append((os.path.basename(f), b))
        _C["files"] = out
        _C["members"] = []
        for _, b in out:
            _C["members"] += re.findall(rb"^ {2}(?:static |native |precompile |private |required )*(?:method|has|our|enum|use|alias|interface|extends)\b[^\n]*(?:\n {3}[^\n]*|\n)*(?:\n {2}\})?", b, re.M)
        _C["toks"] = []
        _C["stmts"] = []
        for _, b in out[::3]:
            _C["toks"] += [t for t in TOK.findall(b) if t.strip() and len(t) < 60]
            _C["stmts"] += [l for l in b.split(b"\n") if l.strip() and b";" in l]
        _C["toks"] = sorted(set(_C["toks"]))
    return _C


def snippet(src, c):
    k = src.below(6)
    if k == 0:
        return src.choice(KW)
    if k == 1:
        return src.choice(OPS)
    if k == 2:
        return src.choice(NASTY)
    if k == 3:
        return src.choice(c["toks"])
    if k == 4:
        return src.choice(c["stmts"])
    return src.choice(c["members"]) if c["members"] else b""


def origin(src, c):
    k = src.weighted([(6, "small"), (4, "prog"), (3, "file"), (2, "build"), (1, "direct")])
    if k == "small":
        # a class with a few members and statements taken from real files
        out = [b"class T {"]
        if src.chance(1, 2):
            out.append(b"  use Fn; use Stringer; use Int; use Point; use List; has x : int; has o : T; has s : string; our $C : rw int; ")
        for _ in range(src.int(0, 2)):
            out.append(src.choice(c["members"]))
        for i in range(src.int(1, 3)):
            out.append(b"  static method m%d : int ($a : int, $b : string = undef, $o : T = undef, $r : int[] = undef) { my $q = 0; " % i)
            for _ in range(src.int(0, 5)):
                out.append(b"    " + src.choice(c["stmts"]) if src.chance(1, 2) else b"    my $v%d = %s;" % (src.below(4), src.choice(NASTY)))
            out.append(b"    return 1; }")
        out.append(b"}")
        return b"\n".join(out), k
    if k == "prog":
        g, text, exp = lang.gen(src, dict(stmts=3, meths=2, depth=2))
        return text.encode(), k
    if k == "file":
        return src.choice(c["files"])[1], k
    if k == "build":
        return b"class T { static method m : int ($a : int) { " + b" ".join(snippet(src, c) for _ in range(src.int(1, 12))) + b" } }", k
    return src.choice(DIRECT), k


def mutate(src, b, c):
    toks = TOK.findall(b)
    n = len(toks)
    k = src.below(14)
    if n == 0:
        return snippet(src, c)
    i = src.below(n)
    if k == 0:
        del toks[i]
    elif k == 1:
        toks.insert(i, snippet(src, c))
    elif k == 2:
        toks[i] = snippet(src, c)
    elif k == 3:
        toks.insert(i, toks[i])
    elif k == 4:
        j = src.below(n)
        toks[i], toks[j] = toks[j], toks[i]
    elif k == 5:                        # drop a span
        del toks[i:i + src.int(1, 12)]
    elif k == 6:                        # copy a span elsewhere
        j = src.below(n)
        toks[j:j] = toks[i:i + src.int(1, 12)]
    elif k == 7:                        # truncate
        del toks[i:]
    elif k == 8:                        # replace by a token of the same kind
        same = [t for t in toks if t[:1] == toks[i][:1]]
        toks[i] = src.choice(same)
    elif k == 9:                        # nest deeply
        o, cl = src.choice([(b"(", b")"), (b"{", b"}"), (b"[", b"]"), (b"!", b""), (b"-", b""), (b"\\", b""), (b"if (1) {", b"}"), (b"eval {", b"};"), (b"$x = ", b""), (b"1 + (", b")"), (b"$", b""), (b"[]", b""), (b"method : void () {", b"}")])
        d = src.choice([2, 5, 20, 60])
        toks[i] = o * d + toks[i] + cl * d
    elif k == 10:                       # bytes
        t = bytearray(b"".join(toks))
        for _ in range(src.int(1, 4)):
            p = src.below(len(t)) if t else 0
            r = src.below(3)
            if r == 0 and t:
                t[p] = src.below(256)
            elif r == 1:
                t.insert(p, src.below(256))
            elif t:
                del t[p]
        return bytes(t)
    elif k == 13:                       # cut at any byte, or behind a special character
        if src.chance(1, 2):
            return b[:src.below(len(b) + 1)]
        return b[:src.below(len(b) + 1)] + src.choice(NASTY + OPS)
    elif k == 11:                       # a quote or bracket left open
        toks.insert(i, src.choice([b'"', b"'", b"{", b"(", b"[", b"q'", b"<<'E';\n", b"#", b"\n=pod\n", b"${", b"\\"]))
    else:                               # rename one word everywhere
        w = toks[i]
        r = snippet(src, c)
        if w.strip():
            toks = [r if t == w else t for t in toks]
    return b"".join(toks)


LOC = re.compile(r"at (.*) line (\d+)(?::(-?\d+))?\.?\s*$", re.S)


def check_errors(r, text, what):
    if r.code == 0:
        return
    if not r.errors or not all(e.strip() for e in r.errors):
        raise Violation("%s: a failed compile (code %d) reports %r\n%r" % (what, r.code, r.errors, text[:3000]), "no message")
    nl = text.count(b"\n") + 1
    for e in r.errors:
        m = LOC.search(e)
        if not m:
            raise Violation("%s: an error without a location: %r\n%r" % (what, e, text[:3000]), "no location")
        ln = int(m.group(2))
        # '#line' directives set any line; classes loaded from the library have their own lines
        if m.group(1).endswith("T.spvm") and b"#line" not in text and b"#file" not in text and not 1 <= ln <= nl + 1:
            raise Violation("%s: an error located at line %d of a text of %d lines: %r\n%r" % (what, ln, nl, e, text[:3000]), "wrong line")


def case(src, ctx):
    c = corpus()
    text, kind = origin(src, c)
    text = re.sub(rb"class\s+(?:[A-Z]\w*::)*[A-Z]\w*", b"class T", text, 1) if kind == "file" else text
    o = text
    for _ in range(src.int(1, 8)):
        text = mutate(src, text, c)
        if len(text) > 200000:
            text = text[:200000]
    d = ctx.drv(VARIANT)
    extra = list(prog.HELPERS) if kind == "prog" else []
    d.new("v")
    d.add("T", text)
    for n, s in extra:
        d.add(n, s)
    r = d.compile("T")
    check_errors(r, text, "compile")
    if r.code:
        # the same compiler can go on
        d.add("Okay", "class Okay { static method m : int () { return 7; } }")
        r2 = d.compile("Okay")
        if r2.code:
            raise Violation("after a rejected text a correct class is rejected: %r\n%r" % (r2.errors, text[:3000]), "sticky")
    rest = d.done()[0]
    if rest:
        raise Violation("%d memory blocks are left after the compiler was freed\n%r" % (rest, text[:3000]), "blocks")
    if src.chance(1, 4):
        d.new("v")
        d.add("T", text)
        for n, s in extra:
            d.add(n, s)
        r3 = d.compile("T")
        d.done()
        if (r3.code, r3.errors) != (r.code, r.errors):
            raise Violation("compiling twice differs: %r / %r\n%r" % ((r.code, r.errors), (r3.code, r3.errors), text[:3000]), "nondeterministic")
    return Info(text != o and len(TOK.findall(text)) >= 10, [kind, "rejected" if r.code else "accepted"], text.decode("utf8", "replace")[:700], digest=text)


VARIANT = "asan"
SUITES = [Suite("mutations", case, 9000, 400000, variants=("asan",), chunk=150)]
