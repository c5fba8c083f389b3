"""P17: the dump, print, say and warn operators.  Generated object graphs are dumped and compared with the text of a model."""
import re, struct
from vt import pbt
from vt.pbt import Suite

TITLE = "dump, print, say and warn write exactly the data they are given"
RULE = ("One case is a generated set of classes and an object graph (shared, cyclic and weak references, all array types, multi-numeric arrays, strings of any bytes), of which several nodes are dumped, mixed with print, "
        "say and warn of strings of any bytes; standard output, standard error, the dumps and the memory blocks are compared with the model. Non-trivial: at least one dump of at least 4 lines or 4 output operators.")

NUM = ["byte", "short", "int", "long", "float", "double"]
MUL = {"Cd": ("Cd_2d", [("re", "double"), ("im", "double")]), "Ci": ("Ci_3i", [("x", "int"), ("y", "int"), ("z", "int")]), "Cb": ("Cb_1b", [("v", "byte")]), "Cf": ("Cf_2f", [("p", "float"), ("q", "float")]),
       "Cs": ("Cs_2s", [("p", "short"), ("q", "short")]), "Cl": ("Cl_2l", [("m", "long"), ("n", "long")])}
BOX = {"Byte": "byte", "Short": "short", "Int": "int", "Long": "long", "Float": "float", "Double": "double"}
B = {"byte": 8, "short": 16, "int": 32, "long": 64}


def f32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


def num(src, t):
    if t in B:
        b = B[t]
        return src.choice([0, 1, -1, 7, (1 << (b - 1)) - 1, -(1 << (b - 1)), src.int(-(1 << (b - 1)), (1 << (b - 1)) - 1)])
    v = src.choice([0.0, 1.5, -0.25, 3.14159265358979, 1e10, 123456.0, 1234567.0, 1e-5, 0.0001, 1e300, -1e-300, 100000.0, 999999.5, float("inf"), float("-inf"), float("nan"), -0.0, 1e22,
                    src.int(-10**9, 10**9) / 1000.0, src.int(1, 999999) * 10.0 ** src.int(-12, 12)])
    return f32(v) if t == "float" else v


def lit(t, v):
    if t == "long":
        return "%dL" % v if v != -(1 << 63) else "(-9223372036854775807L - 1L)"
    if t in B:
        return "(%s)%s" % (t, "%d" % v if v != -(1 << 31) else "(-2147483647 - 1)")
    if v != v:
        return "(%s)(1e308 * 10.0 * 0.0)" % t
    if v in (float("inf"), float("-inf")):
        return "(%s)(%s1e308 * 10.0)" % (t, "-" if v < 0 else "")
    s = repr(v)
    if "e" not in s and "." not in s:
        s += ".0"
    return "(-%s%s)" % (s[1:], "f" if t == "float" else "") if s[0] == "-" else s + ("f" if t == "float" else "")


def text(t, v):
    if t in B:
        return b"%d" % v
    if v != v:
        return b"nan"
    return ("%g" % v).encode()


def slit(b):
    return '"' + "".join(chr(c) if c < 128 and chr(c).isalnum() or chr(c) in " .,-_:;(){}[]=" else "\\x%02X" % c for c in b) + '"'


def rstr(src):
    k = src.weighted([(3, 0), (2, 1), (2, 2), (2, 3), (1, 4)])
    if k == 0:
        return src.choice([b"", b"a", b"hello world", b"x" * src.int(1, 300)])
    if k == 1:
        return "".join(chr(src.choice([0x41, 0xe9, 0x3042, 0x1f600, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10ffff, 0xd7ff, 0xe000])) for _ in range(src.int(1, 6))).encode()
    if k == 2:
        return src.bytes(src.int(1, 12))
    if k == 3:
        return b"".join(src.choice([b"\xe3\x81", b"\xe3", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xf0\x9f\x98", b"\x80", b"\0", b"A", b"\n", b"\t", b"\x7f", b"\"", b"\\", b"\xe3\x81\x82", b"\xc3\xa9", b"\x1b", b"~", b" "])
                        for _ in range(src.int(1, 8)))
    return b"\0" * src.int(1, 3) + b"z"


def strtext(b):
    out, i = b'"', 0
    while i < len(b):
        for n in (1, 2, 3, 4):
            try:
                c = b[i:i + n]
                if len(c) == n and len(c.decode("utf-8")) == 1:
                    break
            except UnicodeDecodeError:
                pass
        else:
            out += b"\\x{%02X}" % b[i]
            i += 1
            continue
        out += b"\\x{%02X}" % b[i] if n == 1 and not 0x20 <= b[i] <= 0x7e else c
        i += n
    return out + b'"'


class Node:
    pass


def build(src):
    """classes: {name: [(field, type)]}, nodes, links"""
    nc = src.int(1, 3)
    classes = {}
    names = ["A%d" % i for i in range(nc)]
    ext = {}
    for i, n in enumerate(names):
        fs = []
        if i and src.chance(1, 3):
            p = names[src.below(i)]
            ext[n] = p
            fs = list(classes[p])
        for j in range(src.int(0, 6)):
            t = src.weighted([(5, "num"), (3, "string"), (4, "class"), (2, "object"), (3, "arr"), (1, "objarr"), (1, "mut")])
            t = {"num": lambda: src.choice(NUM), "string": lambda: "string", "mut": lambda: "mutable string", "class": lambda: src.choice(names), "object": lambda: "object",
                 "arr": lambda: src.choice([x + "[]" for x in NUM] + ["string[]", "int[][]", "Cd_2d[]", "Ci_3i[]"] + [m + "[]" for m in names]), "objarr": lambda: "object[]"}[t]()
            fs.append(("f%d_%d" % (i, j), t))
        classes[n] = fs
    nodes = []
    for k in range(src.int(1, 14)):
        o = Node()
        o.id = k
        kind = src.weighted([(6, "class"), (3, "num"), (2, "string"), (2, "strs"), (3, "objs"), (2, "mul"), (2, "box"), (1, "deep"), (1, "empty")])
        o.kind = kind
        if kind == "class":
            o.type = src.choice(names)
            o.vals = {}
            for f, t in classes[o.type]:
                o.vals[f] = num(src, t) if t in NUM and src.chance(5, 6) else (0 if t in NUM else None)
        elif kind == "num":
            t = src.choice(NUM)
            o.elem, o.type = t, t + "[]"
            o.vals = [num(src, t) for _ in range(src.weighted([(16, 0), (48, 1), (48, 3), (15, 20), (1, src.choice([300, 5000]))]))]
        elif kind == "string":
            o.type, o.vals = "string", rstr(src)
        elif kind == "strs":
            o.type = "string[]"
            o.vals = [rstr(src) if src.chance(4, 5) else None for _ in range(src.int(0, 4))]
            if src.chance(1, 60):
                o.vals = (o.vals + [b"x"]) * 1500
        elif kind == "objs":
            o.type = src.choice(["object[]"] + [m + "[]" for m in names])
            o.vals = [None] * src.int(0, 5)
            if src.chance(1, 60):
                o.vals = [None] * src.choice([260, 4500])
        elif kind == "mul":
            m = src.choice(sorted(MUL))
            o.mul = MUL[m][1]
            o.type = MUL[m][0] + "[]"
            o.vals = [[num(src, t) for f, t in o.mul] for _ in range(src.int(0, 3))]
        elif kind == "box":
            o.type = src.choice(sorted(BOX))
            o.vals = num(src, BOX[o.type])
        elif kind == "deep":
            t = src.choice(["int", "string", "byte", names[0]])
            o.type = t + "[][]"
            o.vals = [None] * src.int(1, 3)
        else:
            o.type = "object[]"
            o.vals = []
            o.kind = "objs"
        nodes.append(o)
    def isa(a, b):
        while a:
            if a == b:
                return True
            a = ext.get(a)
        return False

    def fits(t, o):
        if t == "object" or t == o.type:
            return True
        if t == "mutable string":
            return o.type == "string"
        if t.endswith("[]"):
            return o.type.endswith("[]") and (t == "object[]" and o.kind in ("objs", "strs", "deep") or False)
        return not o.type.endswith("[]") and isa(o.type, t)
    links = []
    for o in nodes:
        if o.kind == "class":
            for f, t in classes[o.type]:
                if t in NUM:
                    continue
                c = [x for x in nodes if fits(t, x)]
                if c and src.chance(3, 4):
                    x = src.choice(c)
                    o.vals[f] = x
                    weak = src.chance(1, 6) and t not in ("string", "mutable string")
                    links.append((o, f, t, x, weak))
        elif o.kind in ("objs", "deep"):
            et = o.type[:-2]
            c = [x for x in nodes if (et == "object" or fits(et, x))]
            for i in range(len(o.vals)):
                if c and src.chance(3, 4):
                    x = src.choice(c)
                    o.vals[i] = x
                    links.append((o, i, et, x, False))
    return classes, ext, nodes, links


def dump(o, classes, depth=0, seen=None, path=()):
    """-> lines of the model (bytes); addresses as \\1<id>\\2"""
    if o is None:
        return b"undef"
    a = b"\1%d\2" % o.id
    ind = b"  "
    if o.type == "string":
        return strtext(o.vals)
    if o.type.endswith("[]"):
        if o.id in path:
            return b"REUSE_OBJECT(" + a + b")"
        out = b"[\n"
        for i, v in enumerate(o.vals):
            out += ind * (depth + 1)
            if o.kind == "num":
                out += text(o.elem, v)
            elif o.kind == "mul":
                out += b"{\n"
                for j, (f, t) in enumerate(o.mul):
                    out += ind * (depth + 2) + f.encode() + b" => " + text(t, v[j]) + (b",\n" if j + 1 < len(o.mul) else b"\n")
                out += b"  }"
            elif o.kind == "strs":
                out += b"undef" if v is None else strtext(v)
            else:
                out += dump(v, classes, depth + 1, seen, path + (o.id,))
            out += b",\n" if i + 1 < len(o.vals) else b"\n"
        return out + ind * depth + b"] : " + o.type.encode() + b"(" + a + b")"
    if o.id in seen:
        return b"REUSE_OBJECT(" + a + b")"
    seen.add(o.id)
    out = o.type.encode() + b" (" + a + b") {\n"
    fs = [("value", BOX[o.type])] if o.kind == "box" else classes[o.type]
    for j, (f, t) in enumerate(fs):
        v = o.vals if o.kind == "box" else o.vals[f]
        out += ind * (depth + 1) + f.encode() + b" => "
        out += text(t, v) if t in NUM else dump(v, classes, depth + 1, seen, path)
        out += b",\n" if j + 1 < len(fs) else b"\n"
    return out + ind * depth + b"}"


ADDR = re.compile(rb"\(0x[0-9a-f]+\)")
NAN = re.compile(rb"(?<![\w\"])-nan\b")


def canon(b, model=False, whole=False):
    m = {}
    r = re.compile(rb"\(\x01\d+\x02\)") if model else ADDR
    def f(x):
        return b"(#%d)" % m.setdefault(x.group(0), len(m))
    b = r.sub(f, b)
    b = NAN.sub(b"nan", b)
    # the place of the closing brace of an element of a multi-numeric array is not documented
    if not whole:
        return re.sub(rb"\n +(\},?)(?=\n)", rb"\n\1", b)
    out, st = [], []
    for l in b.split(b"\n"):
        if l.endswith(b"{"):
            st.append(l.strip() == b"{")
        elif l.strip() in (b"}", b"},") and st and st.pop():
            l = l.strip()
        out.append(l)
    return b"\n".join(out)


def mk_case(variant, precompile=False):
    def case(src, ctx):
        d = ctx.drv(variant)
        classes, ext, nodes, links = build(src)
        code = ["my $n = new object[%d];" % len(nodes)]
        tags, L = set(), {}
        for o in nodes:
            i = o.id
            tags.add(o.kind)
            if o.kind == "class":
                code.append("{ my $o = new %s; %s $n->[%d] = $o; }" % (o.type, " ".join("$o->{%s} = %s;" % (f, lit(t, o.vals[f])) for f, t in classes[o.type] if t in NUM and (o.vals[f] != 0 or str(o.vals[f])[0] == "-" or src.chance(1, 2))), i))
            elif o.kind == "num":
                code.append("{ my $o = new %s[%d]; %s $n->[%d] = $o; }" % (o.elem, len(o.vals), " ".join("$o->[%d] = %s;" % (j, lit(o.elem, v)) for j, v in enumerate(o.vals)), i))
            elif o.kind == "string":
                code.append("$n->[%d] = (object)copy %s;" % (i, slit(o.vals)))
            elif o.kind == "strs":
                code.append("{ my $o = new string[%d]; %s $n->[%d] = $o; }" % (len(o.vals), " ".join("$o->[%d] = %s;" % (j, slit(v)) for j, v in enumerate(o.vals) if v is not None), i))
            elif o.kind in ("objs", "deep"):
                code.append("$n->[%d] = new %s[%d]%s;" % (i, o.type[:-2] if o.kind == "objs" else o.type[:-4] + "[]", len(o.vals), ""))
            elif o.kind == "mul":
                code.append("{ my $o = new %s[%d]; %s $n->[%d] = $o; }" % (o.type[:-2], len(o.vals), " ".join("$o->[%d]{%s} = %s;" % (j, f, lit(t, v[k])) for j, v in enumerate(o.vals) for k, (f, t) in enumerate(o.mul)), i))
            else:
                code.append("$n->[%d] = %s->new(%s);" % (i, o.type, lit(BOX[o.type], o.vals)))
        for o, f, t, x, weak in links:
            if o.kind == "class":
                code.append("((%s)$n->[%d])->{%s} = (%s)$n->[%d];" % (o.type, o.id, f, t, x.id))
                if weak:
                    tags.add("weak")
                    code.append("{ my $w = (%s)$n->[%d]; weaken $w->{%s}; }" % (o.type, o.id, f))
            else:
                code.append("((%s)$n->[%d])->[%d] = (%s)$n->[%d];" % (o.type, o.id, f, t, x.id))
        # output
        out, err = [], []
        line = [0]
        ops, lines, nops = [], 0, 0

        def warn(b):
            ops.append(("warn", b))
        for _ in range(src.int(1, 6)):
            k = src.weighted([(5, "dump"), (2, "print"), (2, "say"), (2, "warn"), (1, "sayu"), (1, "printu"), (1, "warnu"), (1, "warn0"), (1, "warno"), (1, "sayd")])
            ops.append((k, rstr(src), src.choice(nodes)))
        body = []
        for k, s, o in ops:
            if k == "dump":
                m = dump(o, classes, 0, set())
                lines = max(lines, m.count(b"\n"))
                body.append("VT->o((object)dump $n->[%d]);" % o.id if src.chance(1, 2) else "{ my $d = dump $n->[%d]; VT->o($d); }" % o.id)
                L.setdefault("trace", []).append(m)
            elif k == "sayd":
                m = dump(o, classes, 0, set())
                out.append(m + b"\n")
                body.append("say dump $n->[%d];" % o.id)
            else:
                nops += 1
                e = slit(s) if src.chance(1, 2) else "self_s(%s)" % slit(s)
                e = e.replace("self_s", "T->s")
                body.append({"print": "print %s;" % e, "say": "say %s;" % e, "warn": "warn %s;" % e, "sayu": "say T->u;", "printu": "print T->u;", "warnu": "warn T->u;", "warn0": "warn;", "warno": "warn $n->[%d];" % o.id}[k])
                ln = 100 + len(body)
                tr = b"\n  T->main at T.spvm line %d\n" % ln
                if k in ("print", "say", "sayu"):
                    out.append({"print": s, "say": s + b"\n", "sayu": b"\n"}[k])
                elif k[:4] == "warn":
                    w = {"warn": s, "warnu": b"undef", "warn0": b"Warning"}.get(k)
                    if w is None:
                        w = o.vals if o.type == "string" else o.type.encode() + b"(\1%d\2)" % o.id
                    err.append(w + tr)
            tags.add(k)
        clear = ["((%s)$n->[%d])->{%s} = undef;" % (o.type, o.id, f) for o, f, t, x, w in links if o.kind == "class"] + ["((%s)$n->[%d])->[%d] = undef;" % (o.type, o.id, f) for o, f, t, x, w in links if o.kind != "class"]
        uses = "use VT; use Fn; use Byte; use Short; use Int; use Long; use Float; use Double; " + " ".join("use %s;" % c for c in classes) + " " + " ".join("use %s;" % v[0] for v in MUL.values())
        head = "class T : public { %s static method s : string ($s : string) { return $s; } static method u : string () { return undef; } %sstatic method main : void () {\n#line 2\n" % (uses, "precompile " if precompile else "")
        text_ = head + "\n".join(code) + "\n#line 101\n" + "\n".join(body) + "\n" + "\n".join(clear) + "\n} }\n"
        progs = [("T", text_)]
        for c, fs in classes.items():
            own = fs[len(classes[ext[c]]):] if c in ext else fs
            progs.append((c, "class %s%s : public { %s %s }" % (c, " extends " + ext[c] if c in ext else "", " ".join("use %s;" % x for x in list(classes) + [v[0] for v in MUL.values()] if x != c), " ".join("has %s : public %s;" % (f, t) for f, t in own))))
        for n, fs in MUL.values():
            progs.append((n, "class %s : mulnum_t { %s }" % (n, " ".join("has %s : %s;" % x for x in fs))))
        tmp = None
        if precompile:
            r = d.precompiled(ctx.infos[variant], progs, ["T"], ctx.scratch(), opt="-O0")
        else:
            r = d.program(progs)
        if r.code:
            raise pbt.Violation("does not compile: %r\n%s" % (r.errors, text_), key="compile")
        c = d.call("T", "main")
        rest = d.done()[0]
        show = "\n".join(s for n, s in progs)
        if c.status != "ok":
            raise pbt.Violation("fails: %r\n%s" % (c, show), key="fails")
        got, exp = [canon(x, whole=True) if x is not None else None for x in c.trace], [canon(x, True, True) for x in L.get("trace", [])]
        if got != exp:
            k = next((i for i in range(len(exp)) if i >= len(got) or got[i] != exp[i]), len(exp))
            raise pbt.Violation("dump %d is\n%s\nthe model\n%s\n%s" % (k, (got[k] if k < len(got) else b"-").decode("utf8", "replace"), (exp[k] if k < len(exp) else b"-").decode("utf8", "replace"), show), key="dump")
        for what, g, e in (("standard output", c.out, b"".join(out)), ("standard error", c.errout, b"".join(err))):
            if canon(g) != canon(e, True):
                raise pbt.Violation("%s is %r, the model %r\n%s" % (what, canon(g), canon(e, True), show), key=what)
        if rest != 4 or c.leak:
            raise pbt.Violation("memory blocks remain: %d, leak %d\n%s" % (rest, c.leak, show), key="leak")
        return pbt.Info(lines >= 4 or nops >= 4, sorted(tags), sample=text_, digest=[show], evals=len(ops))
    return case


SUITES = [Suite("graphs", mk_case("plain"), 6000, 60000, ("plain",), 50), Suite("graphs, precompiled", mk_case("plain", True), 40, 600, ("plain",), 5), Suite("graphs, asan", mk_case("asan"), 600, 8000, ("asan",), 20)]

META = dict(
    statement="dump returns the text of the whole object graph it is given: every field (those of the parent classes first) and element in order, numbers in their shortest %g or integer form, strings in double quotes with every byte that is not a printable character or part of a valid UTF-8 character written as \\x{..}, undef for undefined values, each object with its type name and address, and REUSE_OBJECT for an object that was already dumped, so that it ends on every graph, cyclic ones included. It changes nothing. print and say write exactly the bytes of the string (say followed by a newline; nothing for undef) to the standard output, and warn writes its operand, or \"Warning\", \"undef\" or the type name and the address, followed by the method, the file and the line of the operator, to the standard error.",
    over=["inputs"], quant="all object graphs of the supported types (shared, cyclic, weak), all strings of bytes, all sequences of output operators",
    why="the unit tests dump a few fixed objects and print a few ASCII strings; the escapes, the recursion, the depth and the reuse of addresses depend on the graph and on the bytes",
    files=["lib/SPVM/Builder/src/spvm_api.c", "lib/SPVM/Builder/src/spvm_utf8.c", "lib/SPVM/Builder/include/spvm_implement.h", "lib/SPVM/Document/Language/Operators.pm"],
    mech=[("dump", "spvm_api.c SPVM_API_dump, SPVM_API_dump_recursive"), ("output", "spvm_api.c SPVM_API_fprint, SPVM_API_print, SPVM_API_say, SPVM_API_warn"), ("characters", "spvm_utf8.c SPVM_UTF8_iterate")],
    observe=["the returned dump", "bytes on standard output and standard error", "remaining memory blocks"],
    technique="property-based testing with a reference model of the text, on generated object graphs",
    note="Generated object graphs and byte strings against a Python model of the text, addresses compared up to renaming; in the VM, precompiled and with address sanitizer.")
