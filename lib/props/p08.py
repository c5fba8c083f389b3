import math, re, struct
from vt import lang, matrix, prog, sem
from vt.pbt import Suite, Info, Violation

TITLE = "Every literal has its documented value and layout never changes meaning"
RULE = ("One case is a batch of 60 generated literals compiled in one class and evaluated, one malformed literal or directive compiled alone, or one generated program whose layout was rewritten. "
        "Non-trivial: distinct literal with an escape, separator, exponent, suffix, boundary value or expansion; distinct malformed text; program with at least 10 layout changes.")
ASSUMPTIONS = ["Python's float() and C's strtod round decimal and hexadecimal notation correctly"]
META = dict(
    statement="Every integer, floating point, character, string, single-quoted and here-document literal that follows the documented grammar compiles to a value of the documented type with exactly the documented bits or bytes, with separators, suffixes, escapes and variable expansion as documented. Literals out of range or malformed are compile errors located at their line. Spaces, line breaks, comments, POD, __END__ and line directives between tokens never change what a program does; line numbers in messages are those of the source, as set by line and file directives.",
    over=["inputs", "programs"], quant="all literals of the documented grammar and all layouts of a program",
    why="the tests list a few literals of each kind; the grammar combines digits, separators, escapes, suffixes and adjacent tokens without bound",
    files=["lib/SPVM/Builder/src/spvm_toke.c", "lib/SPVM/Builder/src/spvm_utf8.c", "lib/SPVM/Builder/src/spvm_op.c", "lib/SPVM/Builder/src/spvm_opcode_builder.c"],
    mech=[("scanner of literals, comments and directives", "lib/SPVM/Builder/src/spvm_toke.c"), ("code point encoding", "lib/SPVM/Builder/src/spvm_utf8.c")],
    observe=["values and types of compiled literals", "compile errors", "traces and messages of programs in different layouts"],
    technique="grammar-based property testing with a reference evaluator, and metamorphic testing of layout",
    note="Sampled from a generator of the documented grammar; the malformed ones come from a list of single deviations with random content.")

RAW = "!#%&()*+,-./:;<=>?@ABDGHKNPRSVWXZ[]^_`bdghkpsvwz{|}~"
SIMPLE = {"a": 7, "t": 9, "n": 10, "f": 12, "r": 13, '"': 34, "'": 39, "\\": 92}


def seps(src, s, first=1):
    """'_' at random positions behind the first character."""
    if not src.chance(1, 4):
        return s
    out = s[:first]
    for c in s[first:]:
        while src.chance(1, 5):
            out += "_"
        out += c
    while src.chance(1, 5):
        out += "_"
    return out


def mixcase(src, s):
    return "".join(c.upper() if src.chance(1, 2) else c for c in s)


def draw_uint(src, bits):
    k = src.below(5)
    if k == 0:
        return src.below(20)
    if k == 1:
        return src.choice([0, 1, (1 << (bits - 1)) - 1, 1 << (bits - 1), (1 << bits) - 1, (1 << bits) - 2, 255, 256, 65535])
    if k == 2:
        return src.below(1 << src.int(1, bits))
    if k == 3:
        return (1 << src.int(0, bits - 1))
    return src.below(1 << bits)


def integer(src):
    """-> (text, type, value)"""
    lng = src.chance(1, 2)
    bits = 64 if lng else 32
    t = "long" if lng else "int"
    minus = src.chance(1, 3)
    base = src.choice([10, 16, 8, 2])
    if base == 10:
        v = draw_uint(src, bits) % ((1 << (bits - 1)) + (1 if minus else 0))
        s = seps(src, str(v))
        if s.startswith("0_"):
            s = "0"
            v = 0
        r = -v if minus else v
    else:
        v = draw_uint(src, bits)
        if base == 16:
            d = mixcase(src, "%x" % v)
            if src.chance(1, 4):
                d = "0" * src.int(1, 3) + d
            s = ("0x" if src.chance(1, 2) else "0X") + seps(src, d, 0)
        elif base == 8:
            s = "0" + seps(src, "%o" % v, 0)
        else:
            s = ("0b" if src.chance(1, 2) else "0B") + seps(src, bin(v)[2:], 0)
        r = sem.wrap(t, -v if minus else v)
    return ("-" if minus else "") + s + (src.choice("lL") if lng else ""), t, r, "int%d" % base


def f32(s):
    """strtof of a decimal or hexadecimal text."""
    x = float.fromhex(s) if "x" in s or "X" in s else None
    if x is None:
        from fractions import Fraction
        q = Fraction(s)
    else:
        q = Fraction_(s)
    return round32(q)


def Fraction_(s):
    from fractions import Fraction
    m = re.fullmatch(r"0[xX]([0-9a-fA-F]+)(?:\.([0-9a-fA-F]+))?(?:[pP]([+-]?\d+))?", s)
    a, b, e = m.group(1), m.group(2) or "", int(m.group(3) or 0)
    return Fraction(int(a + b, 16)) * Fraction(16) ** -len(b) * Fraction(2) ** e


def round32(q):
    """Fraction -> nearest float (ties to even) as a Python float, or inf."""
    from fractions import Fraction
    if q == 0:
        return 0.0
    e = 0
    # exponent with 2^e <= q < 2^(e+1)
    e = q.numerator.bit_length() - q.denominator.bit_length()
    while Fraction(2) ** e > q:
        e -= 1
    while Fraction(2) ** (e + 1) <= q:
        e += 1
    e = max(e, -126)
    ulp = Fraction(2) ** (e - 23)
    n = q / ulp
    k = n.numerator // n.denominator
    r = n - k
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and k & 1):
        k += 1
    v = Fraction(k) * ulp
    if v >= Fraction(2) ** 128:
        return math.inf
    return float(v)


def digits(src, n, al="0123456789"):
    return "".join(src.choice(al) for _ in range(n))


def floating(src):
    minus = src.chance(1, 3)
    hexa = src.chance(1, 3)
    al = "0123456789abcdefABCDEF" if hexa else "0123456789"
    a = digits(src, src.int(1, 10), al)
    if not hexa and a.startswith("0"):
        a = "0" if not src.chance(1, 1) or len(a) == 1 else a.lstrip("0") or "0"
    frac = digits(src, src.int(1, 12), al) if src.chance(2, 3) else ""
    if hexa:
        # the exponent is what ends the digits: without it a suffix letter would be one more digit
        e = src.choice("pP") + src.choice(["", "+", "-"]) + str(src.int(0, 40))
        s = "0" + src.choice("xX") + a + ("." + frac if frac else "") + e
    else:
        e = ""
        if src.chance(1, 2) or not frac:
            e = src.choice("eE") + src.choice(["", "+", "-"]) + str(src.int(0, 30))
        s = a + ("." + frac if frac else "") + e
        if not frac and src.chance(1, 4):
            s = a
    sfx = src.choice(["", "f", "F", "d", "D"])
    if not hexa and not frac and not e and sfx == "":
        sfx = "d"
    if not hexa and "." not in s and "e" not in s.lower() and sfx == "":
        sfx = "f"
    t = "float" if sfx in ("f", "F") else "double"
    if t == "float":
        v = round32(Fraction_(s)) if hexa else f32(s)
    else:
        v = float.fromhex(s) if hexa else float(s)
    if math.isinf(v):
        return integer(src)
    text = s
    if not hexa and src.chance(1, 4):
        text = seps(src, s)
        if text.startswith("0_"):
            text = s
        if text.endswith("_"):
            text = text.rstrip("_")
    return ("-" if minus else "") + text + sfx, t, -v if minus else v, "hexfloat" if hexa else "float"


def bytev(n):
    return sem.wrap("byte", n)


def esc(src, string):
    """One escape -> (text, bytes); may only be followed by text that cannot extend it (the flag says which)."""
    k = src.below(6 if not string else 8)
    if k == 0:
        c = src.choice(sorted(SIMPLE))
        return "\\" + c, bytes([SIMPLE[c]]), ""
    if k in (1, 2):
        v = src.below(256)
        form = src.below(3)
        if form == 0:
            s = "%o" % v
            if src.chance(1, 2):
                s = s.zfill(3)
            return "\\" + s, bytes([v]), "" if len(s) == 3 else "octal"
        if form == 1:
            return "\\o{%o}" % v, bytes([v]), ""
        return "\\%03o" % v, bytes([v]), ""
    if k in (3, 4):
        v = src.below(256)
        s = "%x" % v if src.chance(1, 2) else "%02x" % v
        s = mixcase(src, s)
        if src.chance(1, 2):
            return "\\x{%s}" % s, bytes([v]), ""
        return "\\x" + s, bytes([v]), "" if len(s) == 2 else "hex"
    if k == 5:
        if string:
            return "\\$", b"$", ""
        return "\\0", b"\0", "octal"
    if k == 6:
        cp = src.choice([src.below(0x80), src.below(0x800), src.below(0xD800), 0xE000 + src.below(0x2000), 0x10000 + src.below(0x100000), 0x10FFFF, 0xFFFF, 0x7FF, 0x800, src.choice([0x80, 0x800, 0x10000, 0xE000, 0x1000, 0x40000]) + src.int(-1, 1)])
        if 0xD800 <= cp <= 0xDFFF:
            cp = 0x3042
        return "\\N{U+%s}" % mixcase(src, ("%x" if src.chance(1, 2) else "%04x") % cp), chr(cp).encode(), ""
    c = src.choice(RAW)
    return "\\" + c, b"\\" + c.encode(), "brace" if c == "N" else ""


def character(src):
    if src.chance(1, 2):
        s, b, _ = esc(src, False)
        if _ == "octal" and False:
            pass
        return "'%s'" % s, "byte", bytev(b[0]), "char"
    c = src.choice([chr(i) for i in range(32, 127) if chr(i) not in "'\\"])
    return "'%s'" % c, "byte", ord(c), "char"


PLAIN = [chr(i) for i in range(32, 127) if chr(i) not in '"\\$'] + ["é", "あ", "𝒳", "\n"]
# what an expansion may stand for: (text, value), in the method's scope; only the ones followed by a letter need braces
EXPANSIONS = [("$s", b"foo"), ("$i", b"-7"), ("${s}", b"foo"), ("${i}", b"-7"), ("$V", b"cls"), ("${V}", b"cls"), ("$$r", b"42"), ("$o->{x}", b"9"), ("$o->{s}", b"bar"), ("$a->[0]", b"1"), ("$a->[2]", b"3"), ("$o->{a}[1]", b"20"), ("$o->{a}->[0]", b"10"),
              ("$o->{o}{x}", b"5"), ("$o->{o}->{s}", b"in"), ("$m->[1]", b"w"), ("$@", b"err"), ("${@}", b"err"), ("$T::V", b"cls"), ("$d", b"1.5"), ("$z", b"")]


def string(src):
    out, val = "", b""
    pend = ""
    tag = "string"
    n = src.size(30)
    for _ in range(n):
        k = src.weighted([(5, "plain"), (4, "esc"), (2, "exp")])
        if k == "plain":
            c = src.choice(PLAIN)
            s, b, p = c, c.encode(), ""
        elif k == "esc":
            s, b, p = esc(src, True)
            tag = "string escapes"
        else:
            s, b = src.choice(EXPANSIONS)
            p = "exp" if not s.endswith("}") or "->" in s else ""
            tag = "string expansion"
        if pend == "octal" and s[:1] in "01234567":
            continue
        if pend == "hex" and s[:1] in "0123456789abcdefABCDEF":
            continue
        if pend == "brace" and s[:1] in "{":
            continue
        if pend == "exp" and (s[:1].isalnum() or s[:1] in "_:-[{>"):
            continue
        out += s
        val += b
        pend = p
    if pend != "exp" and src.chance(1, 8):
        out += "$"
        val += b"$"
    return '"%s"' % out, "string", val, tag


def single(src):
    out, val = "", b""
    for _ in range(src.size(20)):
        k = src.below(4)
        if k == 0:
            out += "\\'"
            val += b"'"
        elif k == 1:
            out += "\\\\"
            val += b"\\"
        else:
            c = src.choice([chr(i) for i in range(32, 127) if chr(i) not in "'\\"] + ["é", "あ", "\n", "\t"])
            out += c
            val += c.encode()
    return "q'%s'" % out, "string", val, "single"


def heredoc(src):
    name = src.choice("abzAZ_E") + "".join(src.choice("aZ09") for _ in range(src.int(0, 4)))
    lines = []
    for _ in range(src.int(0, 4)):
        l = "".join(src.choice([chr(i) for i in range(32, 127)] + ["é", "あ", "\t"]) for _ in range(src.size(12)))
        if l.startswith(name):
            l = " " + l
        lines.append(l + "\n")
    if src.chance(1, 3):
        lines.append(" " + name + "\n")
    if src.chance(1, 4):
        lines.append("\n")
    b = "".join(lines)
    return "<<'%s';\n%s%s\n" % (name, b, name), "string", b.encode(), "heredoc"


def boolean(src):
    return src.choice([("undef", "string", None, "undef"), ("__PACKAGE__", "string", b"T", "package"), ("true", "int", 1, "true"), ("false", "int", 0, "false")])


KINDS = [(5, integer), (4, floating), (3, character), (6, string), (2, single), (2, heredoc)]
PRE = """class T { use Int; our $V : string; has x : int; has s : string; has a : int[]; has o : T;
  static method new : T () { my $o = new T; $o->{x} = 9; $o->{s} = "bar"; $o->{a} = [10, 20]; my $p = new T; $p->{x} = 5; $p->{s} = "in"; $o->{o} = $p; return $o; }
"""
VARS = "$V = \"cls\"; my $s = \"foo\"; my $i = -7; my $q = 42; my $r = \\$q; my $o = &new; my $a = [1, 2, 3]; my $m = [\"v\", \"w\"]; my $d = 1.5; my $z = \"\"; $@ = \"err\"; "


def use_of(src, lit, t):
    """The literal in a context that gives back its value: (body, return type)"""
    if lit.startswith("<<"):
        return "my $ret = %s return $ret;" % lit, t
    if lit.startswith("-") and src.chance(1, 2):
        return "return (%s);" % lit, t
    k = src.below(7)
    sp = src.choice(["", " "])
    if k == 0:
        return "my $ret = %s; return $ret;" % lit, t
    if k == 1:
        return "my $ret : %s = %s%s; return $ret;" % (t, lit, sp), t
    if k == 2:
        return "my $ret = new %s[1]; $ret->[0] = %s; return $ret->[0];" % (t, lit), t
    if k == 3:
        return "return &id_%s(%s%s);" % (t, lit, sp), t
    if k == 4:
        return "if (1) { return%s(%s%s); } return %s;" % (sp, lit, sp, lit), t
    if k == 5 and t != "byte":
        return "my $ret = [%s%s, %s]; return $ret->[1];" % (lit, sp, lit), t
    return "return %s%s;" % (lit, sp), t


def positives(src, ctx):
    items = []
    for _ in range(60):
        k = src.weighted(KINDS)
        items.append(k(src))
    bodies, types = [], []
    for i, (lit, t, v, tag) in enumerate(items):
        b, rt = use_of(src, lit, t)
        bodies.append("  static method m%d : %s () { %s%s }" % (i, rt, VARS, b))
        # without context the type of the literal is the documented one
        if not lit.startswith("<<"):
            bodies.append("  static method t%d : string () { %smy $x = %s; my $arr = [$x]; return type_name $arr; }" % (i, VARS, lit))
    ids = "".join("  static method id_%s : %s ($x : %s) { return $x; }\n" % (t, t, t) for t in ("byte", "int", "long", "float", "double", "string"))
    text = PRE + ids + "\n".join(bodies) + "\n}"
    d = ctx.drv("plain")
    r = d.program([("T", text)])
    if r.code:
        # find the literal
        for i, (lit, t, v, tag) in enumerate(items):
            one = PRE + ids + "\n".join(b for b in bodies if " m%d :" % i in b or " t%d :" % i in b) + "\n}"
            r1 = d.program([("T", one)])
            if r1.code:
                raise Violation("the %s %r is rejected: %s" % (tag, lit, r1.errors[:2]), "rejected " + tag)
        raise Violation("a class of correct literals is rejected: %s\n%s" % (r.errors[:2], text), "rejected")
    dig, tags = [], set()
    for i, (lit, t, v, tag) in enumerate(items):
        c = d.call("T", "m%d" % i)
        exp = sem.rec(t, v) if t in sem.NUM else v
        got = c.ret
        if t in ("float", "double") and c.status == "ok":
            got = sem.norm(got)
        if c.status != "ok" or got != exp:
            raise Violation("the %s %r has the value %r, expected %r in: %s" % (tag, lit, got if c.status == "ok" else c.msg, exp, [b for b in bodies if " m%d :" % i in b]), "value " + tag)
        if not lit.startswith("<<"):
            c = d.call("T", "t%d" % i)
            if c.ret != (t + "[]").encode():
                raise Violation("the %s %r has the type %r, expected %s" % (tag, lit, c.ret, t), "type " + tag)
        tags.add(tag)
        dig.append(lit)
    d.done()
    return Info(True, sorted(tags), items[0][0], digest=dig, evals=len(items))


# ---- malformed
def bad(src):
    """-> (statement text, what) that must be a compile error"""
    n = src.int(0, 1 << 30)
    h = "%x" % n
    K = [
        lambda: ("my $x = %d;" % (2147483648 + n * 3), "int range"),
        lambda: ("my $x = -%d;" % (2147483649 + n * 3), "int range"),
        lambda: ("my $x = 0x1%08x;" % n, "int range"),
        lambda: ("my $x = 0b1%s;" % bin(n + (1 << 32))[3:], "int range"),
        lambda: ("my $x = 0%o;" % (n + (1 << 32)), "int range"),
        lambda: ("my $x = %dL;" % (9223372036854775808 + n), "long range"),
        lambda: ("my $x = -%dL;" % (9223372036854775809 + n), "long range"),
        lambda: ("my $x = 0x1%016xL;" % n, "long range"),
        lambda: ("my $x = 0%s8;" % ("%o" % n), "octal digit"),
        lambda: ("my $x = 0b1012;", "binary digit"),
        lambda: ("my $x = 0b;", "no digits"),
        lambda: ("my $x = 0x;", "no digits"),
        lambda: ("my $x = %d.%de;" % (n, n), "exponent"),
        lambda: ("my $x = 1e%s;" % src.choice(["+", "-", "e", "e1", ".5"]), "exponent"),
        lambda: ("my $x = 1.%s2;" % src.choice(["3.", "."]) + "5;" if False else "my $x = 1.2.3;", "two points"),
        lambda: ("my $x = 0x1.8p;", "exponent"),
        lambda: ("my $x = '%s';" % src.choice(["ab", "", "abc", "\\x", "\\xg", "\\x{", "\\x{12", "\\x{}", "\\x{123}", "\\o{", "\\o{}", "\\o{400}", "\\o{8}", "\\q", "\\e", "\\777", "\\400", "あ"]), "character"),
        lambda: ("my $x = \"%s\";" % src.choice(["\\x", "\\xg", "\\x{", "\\x{12", "\\x{}", "\\x{123}", "\\o{", "\\o{}", "\\o{400}", "\\q", "\\e", "\\c", "\\i", "\\777", "\\400", "\\N{U+}", "\\N{U+D800}", "\\N{U+DFFF}", "\\N{U+110000}", "\\N{U+3042", "\\N{3042}", "\\N{U+123456789}", "\\u", "\\l", "\\y", "\\E", "\\Q", "\\C", "\\U", "\\L"]), "escape"),
        lambda: ("my $x = \"%s\";" % src.choice(["${s", "$s->{x", "$nosuch", "${nosuch}", "$o->{nosuch}", "$NOSUCH", "a $nosuch b"]), "expansion"),
        lambda: ("my $x = q'%s';" % src.choice(["\\n", "\\q", "\\x41", "a\\b", "\\$", "\\\""]), "single"),
        lambda: ("my $x = <<'%s';\nfoo\n%s\n" % ((lambda z: (z, z))(src.choice(["1A", "A__B", "A B", "A-B", " A", "A "]))), "here document name"),
        lambda: ("my $x = <<'EOS';\nfoo\nEO\n", "here document end"),
        lambda: (" #line %d\n" % (n + 1), "line directive position"),
        lambda: ("\n#line \n", "line directive number"), lambda: ("\n#line 0\n", "line directive number"), lambda: ("\n#line %d\n" % (2147483648 + n), "line directive number"),
        lambda: ("\n#file \"a\"\n", "file directive position"),
        lambda: ("\n#lib \"\"\n", "lib directive"), lambda: (" #lib \"a\"\n", "lib directive"), lambda: ("\n#lib \"a\n", "lib directive"),
        lambda: ("my $x = \"abc;", "open string"),
        lambda: ("my $x = q'abc;", "open string"),
        lambda: ("my $%s = 1;" % src.choice(["a__b", "1a", "__a", "a::", "::a", "a__", "a-b"]), "name"),
        lambda: ("my $x = \"\xff\";", "utf8"),
        lambda: ("my $x = 1 %s 2;" % src.choice(["\\", "?", "`", "^^", "!!", "@"]), "token"),
    ]
    s, w = src.choice(K)()
    return s, w


def negatives(src, ctx):
    lines = src.int(0, 5)
    s, what = bad(src)
    pad = "\n" * lines
    text = "class T { has x : int; static method m : void () { my $s = \"a\"; my $o = new T;%s %s } }\n" % (pad, s)
    b = text.encode("utf8") if what != "utf8" else text.encode("latin1")
    d = ctx.drv("plain")
    d.new("v")
    d.add("T", b)
    r = d.compile("T")
    d.done()
    if r.code == 0:
        raise Violation("the malformed text (%s) is accepted: %r" % (what, s), "accepted " + what)
    if what == "utf8":
        return Info(True, [what], "", digest=text)
    m = re.search(r"at (.*?) line (\d+)", r.errors[0])
    if not m or m.group(1) != "T.spvm":
        raise Violation("no location in %r for %r" % (r.errors, s), "location")
    ln = int(m.group(2))
    want = lines + 1
    hi = want + s.count("\n") + (1 if what.startswith("open") or "end" in what or "directive" in what else 0) + (1 if "open" in what else 0)
    if not want <= ln <= max(hi, want + (3 if "open" in what or "end" in what else 0)):
        raise Violation("the error for %r at line %d is located at line %d: %r" % (s, want, ln, r.errors), "line " + what)
    return Info(True, [what], "%r -> %s" % (s, r.errors[0].split("\n")[0]), digest=text)


# ---- layout
TOK = re.compile(r'''"(?:[^"\\]|\\.)*"|q'(?:[^'\\]|\\.)*'|'(?:[^'\\]|\\.)*'|[$@]?\$*[A-Za-z_@][A-Za-z0-9_]*(?:::[A-Za-z0-9_]+)*|[0-9][0-9A-Za-z_.]*(?:(?<=[eEpP])[+-]?[0-9]+[fFdD]?)?|[ \t\n]+|<=>|>>>=|<<=|>>=|>>>|<<|>>|[-+*/%&|^<>=!~.]=|->|\+\+|--|&&|\|\||=>|.''', re.S)
WORDCH = re.compile(r"[A-Za-z0-9_$@'\"]")
GLUE = set("+-*/%&|^<>=!~.:$@\\?#")


def relayout(src, text):
    """The same tokens in another layout; every line keeps its number through #line."""
    out = []
    changes = 0
    for no, line in enumerate(text.split("\n"), 1):
        toks = [t for t in TOK.findall(line)]
        if "#" in line or "<<'" in line or "q'" in line or line.lstrip().startswith("="):
            out.append(line)
            continue
        res = ""
        prev = ""
        for k, t in enumerate(toks):
            if t.isspace():
                nxt = toks[k + 1] if k + 1 < len(toks) else ""
                changes += 1
                must = need(prev, nxt)
                ch = src.below(6)
                if ch == 0 and not must:
                    ws = ""
                else:
                    ws = filler(src, no, nxt, ch)
                res += ws
            else:
                if prev and k and not toks[k - 1].isspace() and not glued(prev, t) and src.chance(1, 8):
                    res += filler(src, no, t, src.int(1, 5))
                    changes += 1
                res += t
                prev = t
        out.append("#line %d" % no if src.chance(1, 4) else None)
        if out[-1] is None:
            out.pop()
            if changes:
                out.append("#line %d" % no)
        out.append(res)
    t = "\n".join(out)
    if src.chance(1, 3):
        t += "\n__END__\nclass { my $x = \"\\q } }} =pod " + src.choice(["", "\n}"])
        changes += 1
    return t, changes


def need(a, b):
    """Must the tokens be separated?"""
    if not a or not b:
        return False
    if WORDCH.match(a[-1]) and WORDCH.match(b[0]):
        return True
    tight = set("<>=*/|^")
    if (set(a) <= tight and (b[0] in "$(" or b[0].isalnum())) or (set(b) <= tight and (a[-1] in ")]}" or a[-1].isalnum())):
        return False
    if a[-1] in GLUE or b[0] in GLUE:
        return True
    return False


def glued(a, b):
    """Adjacent pieces that are (or may be) one token."""
    if a[-1] in GLUE or b[0] in GLUE:
        return True
    if WORDCH.match(a[-1]) and WORDCH.match(b[0]):
        return True
    return a[-1] in "\\&" or (a + b) in ("[]",) or b in ("[", "{", "(", "]", ")") and False


def filler(src, no, nxt, ch):
    nl = "\n#line %d\n" % no
    k = src.below(5)
    if k == 0:
        return " " * src.int(1, 3)
    if k == 1:
        return src.choice(["\t", " \t ", "  ", "\f "])
    if nxt[:1] == "=" or nxt.startswith("__END__"):
        # '=' at the beginning of a line may open POD
        return " "
    if k == 2:
        return nl + " " * src.below(3)
    if k == 3:
        return " # " + src.choice(["comment", "\" ' { } class", "#", "=cut", "あ", "line 5", "\\", "'"]) + nl
    return "\n\n=%s %s\n\n%s\n\n=cut\n" % (src.choice(["pod", "head1", "begin", "x"]), src.choice(["", "T }"]), src.choice(["text", "} \" '", "#line 77", " =cut", "x =cut y", ""])) + "#line %d\n" % no


def layout(src, ctx):
    g, text, exp = lang.gen(src, dict(stmts=6, depth=2))
    new, n = relayout(src, text)
    if src.chance(1, 4) and False:
        pass
    lang.run(ctx, g, new, exp)
    return Info(n >= 10, sorted(g.tags)[:3], new[:1500], digest=new)


# ---- positions
def positions(src, ctx):
    """Line numbers of messages, __LINE__, __FILE__ and directives."""
    out = ["class T {"]
    line, fname = 1, "T.spvm"
    exp = []
    if src.chance(1, 3):
        fname = src.choice(["/path/x.spvm", "a b.spvm", "あ.spvm", "x"])
        # the line of a file directive does not count (commands put it before the text of a script)
        out = ["#file \"%s\"" % fname] + out
        if src.chance(1, 2):
            out = ["#!command x"] + out
            line = 2

    def put(s):
        nonlocal line
        out.append(s)
        line += 1 + s.count("\n")
    k = 0
    for _ in range(src.int(1, 12)):
        c = src.below(9)
        here = line + 1
        if c == 0:
            put("  static method m%d : int () { return __LINE__; }" % k)
            exp.append((k, here))
            k += 1
        elif c == 1:
            put("  static method m%d : string () { return __FILE__; }" % k)
            exp.append((k, fname.encode()))
            k += 1
        elif c == 2:
            put("  static method m%d : int () {\n\n    die \"e\";\n  }" % k)
            exp.append((k, ("die", b"e\n  T->m%d at %s line %d" % (k, fname.encode(), here + 2))))
            k += 1
        elif c == 3:
            n = src.choice([1, 5, here, 1000, 99999, 1000000])
            put("#line %d" % n)
            line = n - 1
        elif c == 4:
            put(src.choice(["  # comment", "#lib \"x\"", "#lines 3", "", "\n\n", "\n=pod\n\nfoo\n\n=cut\n", "  # __END__"]))
        elif c == 5 and src.chance(1, 2):
            put("  static method m%d : int () { my $r = [1, 2]; my $n = scalar\n@$r; return __LINE__; }" % k)
            exp.append((k, here + 1))
            k += 1
        elif c == 5:
            put("  static method s%d : string () { return \"a\nb\n\"; }" % line if False else "  static method s%d_%d : string () { return q'a\nb\n'; }" % (k, len(out)))
        elif c == 6:
            put("  static method h%d_%d : string () { my $s = <<'EOS';\na\n\nEOS\n  return $s; }" % (k, len(out)))
        elif c == 7:
            put("  static method m%d : int () { my $x = 0; return 1 / $x;\n }" % k)
            exp.append((k, ("die", b"%s\n  T->m%d at %s line %d" % (sem.DIV0.encode(), k, fname.encode(), here))))
            k += 1
        else:
            put("  static method m%d : int () {\n    return\n      &m%d_x(1,\n 2) + __LINE__;\n  }\n  static method m%d_x : int ($a : int, $b : int) { return $a; }" % (k, k, k))
            exp.append((k, here + 3 + 1))
            k += 1
    put("}")
    text = "\n".join(out)
    d = ctx.drv("plain")
    r = d.program([("T", text)])
    if r.code:
        raise Violation("rejected: %s\n%s" % (r.errors[:2], text), "rejected")
    for k, e in exp:
        c = d.call("T", "m%d" % k)
        got = c.ret if c.status == "ok" else ("die", c.msg)
        if got != e:
            raise Violation("m%d: expected %r, got %r\n%s" % (k, e, got, text), "position")
    d.done()
    return Info(len(exp) >= 2, ["file directive" if fname != "T.spvm" else "plain"], text, digest=text, evals=max(1, len(exp)))


SUITES = [
    Suite("literals", positives, 2400, 30000, chunk=20),
    Suite("malformed", negatives, 6000, 100000, chunk=250),
    Suite("layout", layout, 2000, 30000, chunk=50),
    Suite("positions", positions, 4500, 80000, chunk=100),
]
