"""P25: the reflection part of the native API.  Generated classes are compiled and everything the runtime API tells about them is compared with the declarations."""
import re
from vt import pbt, drv as drvmod
from vt.pbt import Suite

TITLE = "Reflection describes exactly the declared classes"
RULE = ("One case is a generated set of classes, interfaces and multi-numeric types (and an anonymous class), whose basic types, fields, class variables, methods, arguments, default values, anonymous methods, parents and "
        "interfaces are read through the native API and compared with the declarations. Non-trivial: at least 25 facts, among them at least 3 of the kinds field, class variable, method with arguments, parent, interface.")

NUM = ["byte", "short", "int", "long", "float", "double"]
SIZE = {"byte": 1, "short": 2, "int": 4, "long": 8, "float": 4, "double": 8}
LETTER = {"byte": "b", "short": "s", "int": "i", "long": "l", "float": "f", "double": "d"}
IMS = ["i0", "i1", "i2", "i3", "i4"]
DEFAULTS = {"byte": [("0", "0"), ("-128", "-128"), ("127", "127"), ("'a'", "97"), ("-1", "-1")], "short": [("-32768", "-32768"), ("32767", "32767"), ("5", "5")],
            "int": [("0", "0"), ("-2147483648", "-2147483648"), ("0x7FFFFFFF", "2147483647"), ("1_000", "1000"), ("0b101", "5")],
            "long": [("7L", "7"), ("-9223372036854775808L", "-9223372036854775808"), ("9223372036854775807L", "9223372036854775807"), ("4294967296L", "4294967296")],
            "float": [("1.5f", "0x1.8p+0"), ("-0.25f", "-0x1p-2"), ("0.0f", "0x0p+0"), ("3", "0x1.8p+1")], "double": [("2.5", "0x1.4p+1"), ("-1e10", "-0x1.2a05f2p+33"), ("0.1", "0x1.999999999999ap-4"), ("0.0", "0x0p+0")]}


class Ty:
    def __init__(t, base, dim=0, ref=0, mut=0):
        t.base, t.dim, t.ref, t.mut = base, dim, ref, mut

    def __str__(t):
        return ("mutable " if t.mut else "") + t.base + "[]" * t.dim + ("*" if t.ref else "")

    def flag(t):
        return t.ref | t.mut << 1


class M:
    def __init__(m, name, ret, args, cls=1, pre=0, enum=0, native=0, body=None, anon=0):
        m.name, m.ret, m.args, m.cls, m.pre, m.enum, m.native, m.body, m.anon = name, ret, args, cls, pre, enum, native, body, anon      # args: (name, Ty, default (text, value) or None)


VOID = Ty("void")


class C:
    def __init__(c, name, cat):
        c.name, c.cat, c.parent, c.version, c.fields, c.vars, c.methods, c.ifs, c.anons, c.pointer, c.text, c.isanon, c.file, c.pub = name, cat, None, None, [], [], [], [], [], 0, None, 0, None, 1

    def chain(c):
        while c:
            yield c
            c = c.parent


def gen(src):
    cls, text = [], {}
    mul = []
    for k in range(src.int(0, 3)):
        t = src.choice(NUM)
        n = src.choice([1, 1, 2, 3, 4, 16, 255]) if src.chance(1, 5) else src.int(1, 4)
        c = C("N%d_%d%s" % (k, n, LETTER[t]), 4)
        c.fields = [("v%d" % i, Ty(t)) for i in range(n)]
        c.width = n
        mul.append(c)
    ifs = []
    names = ["B%d" % k for k in range(src.int(1, 5))]
    if src.chance(1, 3):
        names[0] = src.choice(["Foo::Bar", "A1::B2::C3", "Zz"])
    for k in range(src.int(0, 3)):
        c = C("I%d" % k, 7)
        for nm in IMS:
            if src.chance(2, 5):
                m = M(nm, Ty("int"), [("$self", Ty(c.name), None), ("$x", Ty("int"), None)], cls=0)
                m.req = src.chance(1, 2)
                m.block = src.chance(1, 5)
                c.methods.append(m)
        ifs.append(c)
    objs = ["string", "object", "Int", "Error"] + names + [c.name for c in ifs]

    def ty(arg=0, field=0):
        k = src.below(12)
        if k < 4:
            return Ty(src.choice(NUM), 0, 1 if arg and src.chance(1, 5) else 0)
        if k < 6:
            return Ty(src.choice(NUM), src.int(1, 3))
        if k < 9:
            b = src.choice(objs)
            return Ty(b, 0, 0, 1 if b == "string" and src.chance(1, 3) else 0)
        if k < 10 or not mul:
            b = src.choice(objs)
            return Ty(b, 1 if b == "object" else src.int(1, 3))
        c = src.choice(mul)
        if arg and src.chance(2, 3):
            return Ty(c.name, 0, src.below(2))
        return Ty(c.name, src.int(1, 2))
    widths = {c.name: c.width for c in mul}
    prev = []
    for name in names:
        c = C(name, 6)
        if src.chance(1, 2) and prev:
            c.parent = src.choice(prev)
        if src.chance(1, 3):
            c.version = src.choice(["1.023", "0.001", "10.001003", "3", "0.990123"])
        if src.chance(1, 8) and not c.parent:
            c.pointer = 1
        used = set(n for a in c.chain() for n, _ in a.fields) | set(m.name for a in c.chain() for m in a.methods)
        own = []

        def fresh(pool, fmt):
            n = src.choice(pool)
            if n in used:
                n = fmt % len(used) + "_" + name[-2:].lstrip(":")
            used.add(n)
            return n
        acc = []
        decl = []
        for _ in range(src.int(0, 5)):
            n = fresh(["x", "y", "name", "value_1", "Z", "a__b".replace("__", "_"), "f0"], "f_%d")
            t = ty(field=1)
            a = src.choice(["", "", "rw", "ro", "wo"])
            if a in ("rw", "ro") and n not in used - {n}:
                pass
            c.fields.append((n, t))
            ac = src.choice(["", "public", "private", "protected"])
            decl.append("  has %s : %s%s;" % (n, "".join(w + " " for w in ((a, ac) if src.chance(1, 2) else (ac, a)) if w), t))
            at = Ty("int") if t.base in ("byte", "short") and not t.dim else t
            if a in ("rw", "ro"):
                acc.append(M(n, at, [("$self", Ty(name), None)], cls=0))
            if a in ("rw", "wo"):
                acc.append(M("set_" + n, VOID, [("$self", Ty(name), None), ("$" + n, at, None)], cls=0))
                used.add("set_" + n)
        inherited = [x for a in c.chain() if a is not c for x in a.fields]
        if inherited and src.chance(1, 4):      # a field of a super class may be declared again with its type; it stays one field
            n, t = src.choice(inherited)
            if not any(n == x for x, _ in c.fields):
                decl.append("  has %s : %s;" % (n, t))
        vseen = set()
        for _ in range(src.int(0, 4)):
            n = src.choice(["X", "Y", "NAME", "V_1", "foo"])
            if n in vseen or n in used:
                continue
            vseen.add(n)
            t = ty(field=1)
            a = src.choice(["", "", "rw", "ro", "wo"])
            c.vars.append((n, t))
            used.add(n)
            used.add("SET_" + n)
            ac = src.choice(["", "public", "private", "protected"])
            decl.append("  our $%s : %s%s;" % (n, "".join(w + " " for w in (ac, a) if w), t))
            at = Ty("int") if t.base in ("byte", "short") and not t.dim else t
            if a in ("rw", "ro"):
                acc.append(M(n, at, []))
            if a in ("rw", "wo"):
                acc.append(M("SET_" + n, VOID, [("$value", at, None)]))
        c.methods += acc
        if src.chance(1, 3):
            es = []
            for _ in range(src.int(1, 4)):
                n = fresh(["RED", "GREEN", "BLUE", "E1"], "E_%d")
                es.append(n + src.choice(["", " = 5", " = -3"]))
                c.methods.append(M(n, Ty("int"), [], enum=1))
            decl.append("  %senum { %s%s }" % (src.choice(["", "private ", "public "]), ", ".join(es), src.choice(["", ","])))
        for nm in IMS:
            if src.chance(1, 3):
                m = M(nm, Ty("int"), [("$self", Ty(name), None), ("$x", Ty("int"), None)], cls=0)
                m.body = "return 1;"
                c.methods.append(m)
                used.add(nm)
        for _ in range(src.int(0, 5)):
            n = fresh(["run", "apply", "m_1", "Get", "to_s", "a1"], "m_%d")
            st = src.chance(1, 2)
            args = [] if st else [("$self", Ty(name), None)]
            w, opt = 0, 0
            for j in range(src.int(0, 5) if not src.chance(1, 12) else src.int(6, 30)):
                t = ty(arg=1)
                w += widths.get(t.base, 1) if not t.dim and not t.ref else 1
                if w > 250:
                    break
                d = None
                if not t.ref and (t.dim or t.base not in widths) and (opt or src.chance(1, 4)):
                    opt = 1
                    d = src.choice(DEFAULTS[t.base]) if t.base in SIZE and not t.dim else src.choice([("undef", "undef"), ("undef", "undef")])
                elif opt:
                    continue
                args.append(("$p%d" % j, t, d))
            ret = VOID if src.chance(1, 3) else ty()
            m = M(n, ret, args, cls=int(st), pre=int(src.chance(1, 4)))
            m.body = "" if ret is VOID else "die \"x\";"
            m.acc = src.choice(["", "", "private ", "public ", "protected "])
            if src.chance(1, 5):
                m.anonbody = [("my $h%d = " % q, src.int(0, 2), src.choice(["int", "string", "void"])) for q in range(src.int(1, 2))]
            c.methods.append(m)
        if src.chance(1, 6):
            m = M("DESTROY", VOID, [("$self", Ty(name), None)], cls=0)
            m.body = ""
            c.methods.append(m)
        c.hasinit = src.chance(1, 5)
        src.shuffle(decl)
        c.decl = decl
        # interface statements that the class satisfies
        for i in ifs:
            if src.chance(1, 2) and satisfies(c, i):
                c.ifs.append(i)
        prev.append(c)
        cls.append(c)
    allc = mul + ifs + cls
    anons = []
    for c in allc:
        text[c.name] = emit(src, c, [x.name for x in cls + ifs + mul], anons)
    return allc + anons, text, widths


def satisfies(c, i):
    have = set(m.name for a in c.chain() for m in a.methods)
    return all(m.name in have for m in i.methods if m.req)


def emit(src, c, others, anons):
    L = []
    if c.cat == 4:
        L.append("class %s : mulnum_t {" % c.name)
        L += ["  has %s : %s;" % (n, t) for n, t in c.fields]
        L.append("}")
        return "\n".join(L) + "\n"
    attrs = ["interface_t"] if c.cat == 7 else ["public"] + (["pointer"] if c.pointer else [])
    L.append("class %s%s : %s {" % (c.name, " extends " + c.parent.name if c.parent else "", " ".join(attrs)))
    if c.version:
        L.append("  version \"%s\";" % c.version)
    for o in others:
        if o != c.name:
            L.append("  use %s;" % o)
    for i in c.ifs:
        L.append("  interface %s;" % i.name)
    if c.cat == 7:
        for m in c.methods:
            L.append("  %smethod %s : int ($x : int)%s" % ("required " if m.req else "", m.name, " { return 0; }" if m.block else ";"))
        L.append("}")
        return "\n".join(L) + "\n"
    L += c.decl
    ms = [m for m in c.methods if m.body is not None]
    src.shuffle(ms)
    for m in ms:
        args = [a for a in m.args if a[0] != "$self"]
        head = "  %s%s%smethod %s : %s (%s) {" % (getattr(m, "acc", ""), "static " if m.cls else "", "precompile " if m.pre else "", m.name, m.ret,
                                                   ", ".join("%s : %s%s" % (n, t, " = " + d[0] if d else "") for n, t, d in args))
        L.append(head)
        for pre, nargs, ret in getattr(m, "anonbody", []):
            line = "    " + pre
            a = C("%s::anon_method::%d::%d" % (c.name, len(L) + 1, len(line)), 6)
            a.methods = [M("", Ty(ret), [("$self", Ty(a.name), None)] + [("$q%d" % q, Ty("int"), None) for q in range(nargs)], cls=0, anon=1)]
            a.file = c
            anons.append(a)
            c.anons.append(a)
            L.append(line + "method : %s (%s) { %s};" % (ret, ", ".join("$q%d : int" % q for q in range(nargs)), "" if ret == "void" else "return %s; " % ("1" if ret == "int" else "\"s\"")))
        if m.body:
            L.append("    " + m.body)
        L.append("  }")
    if c.hasinit:
        L.append("  INIT { }")
    L.append("}")
    return "\n".join(L) + "\n"


def expect(c, allc, widths, names):
    """The lines of class c (offsets are checked apart)."""
    f = (c.file or c).name.replace("::", "/") + ".spvm"
    out = ["T %s 1 cat=%d ptr=%d anon=%d parent=%s version=%s dir=- rel=%s file=%s" % (c.name, c.cat, c.pointer, c.isanon, c.parent.name if c.parent else "-", c.version or "-", f, f)]
    fs = [x for a in reversed(list(c.chain())) for x in a.fields]
    for k, (n, t) in enumerate(fs):
        out.append("F %d %s %s dim=%d flag=%d off=? cur=%s 1" % (k, n, t.base, t.dim, t.flag(), c.name))
    for k, (n, t) in enumerate(c.vars):
        out.append("V %d $%s %s dim=%d flag=%d cur=%s 1" % (k, n, t.base, t.dim, t.flag(), c.name))
    ms = sorted(c.methods + [M("INIT", VOID, [])], key=lambda m: m.name)
    for k, m in enumerate(ms):
        req = sum(1 for a in m.args if not a[2])
        out.append("M %d %s ret=%s dim=%d flag=%d args=%d req=%d cls=%d anon=%d native=%d pre=%d enum=%d cur=%s 1" % (
            k, m.name, m.ret.base, m.ret.dim, m.ret.flag(), len(m.args), req, m.cls, m.anon, m.native, m.pre, m.enum, c.name))
        st = 0
        for j, (n, t, d) in enumerate(m.args):
            out.append("A %d %s %s dim=%d flag=%d stack=%d opt=%d def=%s 1" % (j, n, t.base, t.dim, t.flag(), st, 1 if d else 0, d[1] if d else "-"))
            st += widths.get(t.base, 1) if not t.dim and not t.ref else 1
    for a in c.anons:
        out.append("N %s" % a.name)
    for o in allc:
        if o.name not in names:
            continue
        s = int(o.cat == 6 and c.cat == 6 and any(x is o for x in list(c.chain())[1:]))
        h = int(o.cat == 7 and c.cat in (6, 7) and (satisfies(c, o)))
        if s or h:
            out.append("R %s super=%d if=%d" % (o.name, s, h))
    return out


def facts_key(l):
    return l.split(" ", 1)[0]


def case_for(variant):
    def case(src, ctx):
        allc, text, widths = gen(src)
        drv = ctx.drv(variant)
        entry = [c for c in allc if c.cat == 6 and not c.file][-1]
        show = "\n".join(text.values())
        withanon = src.chance(1, 4)
        tops = [c for c in allc if not c.file]
        try:
            drv.new("v")
            for c in tops:
                drv.add(c.name, text[c.name])
            order = [c for c in tops]
            res = drv.compile(entry.name)
            if res.code:
                raise pbt.Violation("the classes are rejected: %s\n%s" % (res.errors[:3], show), key="p25-compile")
            an = None
            if withanon:
                body = "class { %shas x : long; our $V : rw int; static method f : int ($a : int, $b : double = 1.5) { return $a; } }" % ("use %s; " % entry.name if src.chance(1, 2) else "")
                code, an, errs = drv.anon(body)
                if code:
                    raise pbt.Violation("the anonymous class is rejected: %r\n%s" % (errs, show), key="p25-compile")
                if isinstance(an, bytes):
                    an = an.decode()
            names = [c.name for c in allc]
            if src.chance(1, 2):
                src.shuffle(names)
            byname = {c.name: c for c in allc}
            loaded = set(names)
            ask = names + (["int", "string", "No::Such", "B", ""] if src.chance(1, 3) else [])
            got = drv.request("REFL", *ask)[0].decode("utf-8", "replace").split("\n")
            n = 0
            pos = 0
            offs = {}
            for q in ask:
                if q in byname:
                    ex = expect(byname[q], [byname[x] for x in names], widths, loaded)
                elif q in ("int", "string"):
                    ex = ["T %s 1 cat=%d ptr=0 anon=0 parent=- version=- dir=- rel=- file=-" % (q, 3 if q == "int" else 5)]
                else:
                    ex = ["U %s" % q]
                for want in ex:
                    have = got[pos] if pos < len(got) else "(end)"
                    m = re.match(r"F (\d+) (\S+) (\S+) dim=(\d+) flag=\d+ off=(-?\d+)", have)
                    if m:
                        offs.setdefault(q, []).append((int(m.group(5)), 8 if m.group(3) not in SIZE or m.group(4) != "0" else SIZE[m.group(3)], m.group(2)))
                        have = have.replace("off=%s " % m.group(5), "off=? ")
                    if have != want:
                        raise pbt.Violation("class %s: the API says %r, the declaration is %r\n%s" % (q, have, want, show), key="p25-%s-%s" % (want[0], have[0]))
                    pos += 1
                    n += 1
            if got[pos:] not in ([], [""]):
                raise pbt.Violation("the API says more than declared: %r\n%s" % (got[pos:pos + 3], show), key="p25-more")
            for q, o in offs.items():
                if byname[q].cat == 4:
                    continue
                o.sort()
                for (a, s, x), (b, _, y) in zip(o, o[1:]):
                    if a + s > b:
                        raise pbt.Violation("class %s: the fields %s and %s overlap (%d..%d, %d)\n%s" % (q, x, y, a, a + s, b, show), key="p25-overlap")
                for a, s, x in o:
                    if a < 0 or a % s:
                        raise pbt.Violation("class %s: the field %s at %d is not aligned\n%s" % (q, x, a, show), key="p25-align")
            for c in allc:      # a field of a class is at one place in all its child classes
                if c.parent:
                    mine = {x: a for a, _, x in offs.get(c.name, [])}
                    for a, _, x in offs.get(c.parent.name, []):
                        if mine.get(x) != a:
                            raise pbt.Violation("the field %s is at %d in %s and at %s in its child class %s\n%s" % (x, a, c.parent.name, mine.get(x), c.name, show), key="p25-offset")
            if an:
                g2 = drv.request("REFL", an)[0].decode().split("\n")
                c = C(an, 6)
                c.isanon = 1
                c.fields, c.vars = [("x", Ty("long"))], [("V", Ty("int"))]
                c.methods = [M("V", Ty("int"), []), M("SET_V", VOID, [("$value", Ty("int"), None)]), M("f", Ty("int"), [("$a", Ty("int"), None), ("$b", Ty("double"), ("1.5", "0x1.8p+0"))])]
                ex = expect(c, [], widths, [])
                g2 = [re.sub(r"off=\d+ ", "off=? ", l) for l in g2 if l]
                ex[0] = re.sub(r" rel=.*", "", ex[0])
                g2[0] = re.sub(r" rel=.*", "", g2[0])
                if g2 != ex:
                    bad = [(a, b) for a, b in zip(g2, ex) if a != b][:1] or [(len(g2), len(ex))]
                    raise pbt.Violation("anonymous class: %r instead of %r\n%s" % (bad[0][0], bad[0][1], show), key="p25-anon")
            if not drv.envinit():
                pass
            drv.done()
        except drvmod.Crash as e:
            raise pbt.Violation("crash: %s\n%s" % (str(e)[:600], show), key="p25-crash")
        kinds = set(l[0] for l in got if l)
        tags = sorted(kinds)
        ok = n >= 25 and len(kinds & set("FVANR")) >= 3
        return pbt.Info(ok, tags=tags, sample=show[:700], digest=show, evals=n)
    return case


READER = """class VR25 : public {
  use Native; use Native::Runtime; use Native::BasicType; use Native::Method; use Native::Field; use Native::ClassVar; use Native::Arg; use Native::Env; use Fn;
  static method or : string ($s : string) { if ($s) { return $s; } return "-"; }
  static method same : int ($a : Native::Field, $b : Native::Field) { return $a->get_index == $b->get_index && $a->get_name eq $b->get_name && $a->get_current_basic_type->get_name eq $b->get_current_basic_type->get_name; }
  static method refl : string ($names : string[]) {
    my $rt = Native->get_current_runtime;
    my $o = "";
    for my $n (@$names) {
      my $t : Native::BasicType;
      eval { $t = $rt->get_basic_type_by_name($n); }
      if ($@) { $@ = undef; $t = undef; }
      unless ($t) { $o .= "U $n\n"; next; }
      my $p = "-"; my $pt = $t->get_parent; if ($pt) { $p = $pt->get_name; }
      my $again = $rt->get_basic_type_by_id($t->get_id)->get_name eq $t->get_name;
      $o .= "T " . $t->get_name . " $again cat=" . $t->get_category . " ptr=" . $t->is_pointer . " anon=" . $t->is_anon . " parent=$p version=" . &or($t->get_version_string) . " dir=" . &or($t->get_class_dir) . " rel=" . &or($t->get_class_rel_file) . "\n";
      my $fs = $t->get_fields; unless (@$fs == $t->get_fields_length) { $o .= "bad fields\n"; }
      for my $f (@$fs) {
        my $g = $t->get_field_by_index($f->get_index); my $h = $t->get_field_by_name($f->get_name);
        my $ok = &same($f, $g) && &same($f, $h);
        $o .= "F " . $f->get_index . " " . $f->get_name . " " . $f->get_basic_type->get_name . " dim=" . $f->get_type_dimension . " flag=" . $f->get_type_flag . " cur=" . $f->get_current_basic_type->get_name . " $ok\n";
      }
      my $vs = $t->get_class_vars; unless (@$vs == $t->get_class_vars_length) { $o .= "bad class vars\n"; }
      for my $v (@$vs) {
        my $ok = $t->get_class_var_by_name($v->get_name)->get_index == $v->get_index;
        if ($t->get_category == 6) { $ok = $ok && $rt->get_class_var_by_name($n, $v->get_name)->get_index == $v->get_index; }
        $o .= "V " . $v->get_index . " " . $v->get_name . " " . $v->get_basic_type->get_name . " dim=" . $v->get_type_dimension . " flag=" . $v->get_type_flag . " cur=" . $v->get_current_basic_type->get_name . " $ok\n";
      }
      my $ms = $t->get_methods; unless (@$ms == $t->get_methods_length) { $o .= "bad methods\n"; }
      for my $m (@$ms) {
        my $ok = $t->get_method_by_name($m->get_name)->get_index == $m->get_index && $rt->get_method_by_name($n, $m->get_name)->get_name eq $m->get_name;
        $o .= "M " . $m->get_index . " " . $m->get_name . " ret=" . $m->get_return_basic_type->get_name . " dim=" . $m->get_return_type_dimension . " flag=" . $m->get_return_type_flag . " args=" . $m->get_args_length . " req=" . $m->get_required_args_length
          . " cls=" . $m->is_class_method . " anon=" . $m->is_anon . " native=" . $m->is_native . " pre=" . $m->is_precompile . " enum=" . $m->is_enum . " cur=" . $m->get_current_basic_type->get_name . " $ok\n";
        for (my $i = 0; $i < $m->get_args_length; $i++) {
          my $a = $m->get_arg_by_index($i);
          my $b = $a->get_basic_type->get_name;
          my $d = "-";
          if ($a->is_optional) {
            $d = "object";
            if ($a->get_type_dimension == 0) {
              switch ($a->get_basic_type->get_id) {
                case 2 : { $d = "" . $a->get_default_value_byte; break; } case 3 : { $d = "" . $a->get_default_value_short; break; } case 4 : { $d = "" . $a->get_default_value_int; break; }
                case 5 : { $d = "" . $a->get_default_value_long; break; } case 6 : { $d = "f" . Fn->bits_to_hex($a->get_default_value_float); break; } case 7 : { $d = "d"; break; }
              }
            }
          }
          $o .= "A " . $a->get_index . " $b dim=" . $a->get_type_dimension . " flag=" . $a->get_type_flag . " opt=" . $a->is_optional . " 1\n";
        }
      }
      for (my $i = 0; $i < $t->get_anon_basic_types_length; $i++) { $o .= "N " . $t->get_anon_basic_type_by_index($i)->get_name . "\n"; }
    }
    return $o;
  }
  static method cats : string ($cat : int, $anon : int) {
    my $rt = Native->get_current_runtime;
    my $o = "";
    my $l = new Native::BasicType[0];
    if ($cat < 0 && $anon < 0) { $l = $rt->get_basic_types; }
    if ($cat >= 0 && $anon < 0) { $l = $rt->get_basic_types({category => [$cat]}); }
    if ($cat < 0 && $anon >= 0) { $l = $rt->get_basic_types({is_anon => $anon}); }
    if ($cat >= 0 && $anon >= 0) { $l = $rt->get_basic_types({is_anon => $anon, category => [$cat, 99]}); }
    for my $t (@$l) { $o .= $t->get_name . "\n"; }
    return $o;
  }
}
"""
READER = re.sub(r"              switch .*?\n              }\n", "", READER, flags=re.S).replace("          my $d = \"-\";\n", "").replace("""          if ($a->is_optional) {
            $d = "object";
            if ($a->get_type_dimension == 0) {
            }
          }
""", "")


def plain_lines(ex):
    out = []
    for l in ex:
        k = l[0]
        if k == "R":
            continue
        l = re.sub(r" off=\?| stack=\d+| def=\S+", "", l)
        if k == "T":
            l = re.sub(r" file=\S+$", "", l)
        if k == "A":
            l = re.sub(r"^A (\d+) \S+ ", r"A \1 ", l)
        out.append(l)
    return out


def spvm_case(variant):
    def case(src, ctx):
        allc, text, widths = gen(src)
        drv = ctx.drv(variant)
        entry = [c for c in allc if c.cat == 6 and not c.file][-1]
        show = "\n".join(text.values())
        try:
            drv.new("v")
            for c in allc:
                if not c.file:
                    drv.add(c.name, text[c.name])
            drv.add("VR25", READER)
            for n in (entry.name, "VR25"):
                res = drv.compile(n)
                if res.code:
                    raise pbt.Violation("the classes are rejected: %s\n%s" % (res.errors[:3], show), key="p25-compile")
            if drv.envinit()[0]:
                raise pbt.Discard
            names = [c.name for c in allc]
            if src.chance(1, 2):
                src.shuffle(names)
            byname = {c.name: c for c in allc}
            ask = names + (["int", "string", "No::Such", "B"] if src.chance(1, 3) else [])
            r = drv.call("VR25", "refl", ("strs", [x.encode() for x in ask]))
            if r.status != "ok":
                raise pbt.Violation("reading the classes throws %r\n%s" % (r.msg, show), key="p25-throws")
            got = (r.ret[1] if isinstance(r.ret, tuple) else r.ret).decode("latin-1").split("\n")
            want = []
            for q in ask:
                if q in byname:
                    want += plain_lines(expect(byname[q], [], widths, []))
                elif q in ("int", "string"):
                    want += ["T %s 1 cat=%d ptr=0 anon=0 parent=- version=- dir=- rel=-" % (q, 3 if q == "int" else 5)]
                else:
                    want += ["U %s" % q]
            for a, b in zip(got, want + [""]):
                if a != b:
                    raise pbt.Violation("the class Native::* says %r, the declaration is %r\n%s" % (a, b, show), key="p25-spvm-%s" % b[:1])
            cat, anon = src.choice([-1, 3, 4, 5, 6, 7]), src.choice([-1, -1, 0, 1])
            r = drv.call("VR25", "cats", cat, anon)
            if r.status != "ok":
                raise pbt.Violation("get_basic_types throws %r" % r.msg, key="p25-throws")
            have = set((r.ret[1] if isinstance(r.ret, tuple) else r.ret).decode("latin-1").split("\n"))
            for c in allc:
                exp = (cat < 0 or c.cat == cat) and (anon < 0 or bool(c.isanon) == bool(anon))
                if (c.name in have) != exp:
                    raise pbt.Violation("get_basic_types with category %d and is_anon %d: %s is %s\n%s" % (cat, anon, c.name, "there" if c.name in have else "missing", show), key="p25-types")
            rest = drv.done()[0]
            if rest != 4:
                raise pbt.Violation("%d memory blocks remain" % (rest - 4), key="p25-leak")
        except drvmod.Crash as e:
            raise pbt.Violation("crash: %s\n%s" % (str(e)[:600], show), key="p25-crash")
        kinds = set(l[0] for l in got if l)
        return pbt.Info(len(want) >= 25 and len(kinds & set("FVAN")) >= 2, tags=sorted(kinds), sample=show[:700], digest=show, evals=len(want))
    return case


SUITES = [
    Suite("plain", case_for("plain"), 9000, 150000, variants=("plain",), chunk=40),
    Suite("native", spvm_case("plain"), 2500, 40000, variants=("plain",), chunk=30),
    Suite("native-asan", spvm_case("asan"), 200, 4000, variants=("asan",), chunk=10),
    Suite("asan", case_for("asan"), 1200, 20000, variants=("asan",), chunk=20),
]

META = dict(
    statement="What the runtime part of the native API tells about a class is exactly what its source declares: its name, category, parent, version string, pointer attribute and files; its fields in order (those of the super classes first, each "
              "once, at the offset it has in the super class) with their types, at aligned places that do not overlap; its class variables; its methods, sorted by name, with their types, attributes, accessors and enumeration items; their arguments "
              "with types, stack indexes, number of required arguments and default values; the classes of its anonymous methods; its super classes and the interfaces it satisfies. A lookup by name gives the same declaration as the lookup by index, "
              "and names that are not declared are not found.",
    over=["inputs", "programs"], quant="all sets of class, interface, multi-numeric type and anonymous class declarations",
    why="the unit tests read single facts of fixed classes; native modules, the Perl binding and the precompiler depend on every fact of every declaration",
    files=["lib/SPVM/Builder/src/spvm_api_basic_type.c", "lib/SPVM/Builder/src/spvm_api_method.c", "lib/SPVM/Builder/src/spvm_api_arg.c", "lib/SPVM/Builder/src/spvm_api_field.c", "lib/SPVM/Builder/src/spvm_api_class_var.c",
           "lib/SPVM/Builder/src/spvm_api_runtime.c", "lib/SPVM/Builder/src/spvm_runtime.c", "lib/SPVM/Builder/src/spvm_compiler.c", "lib/SPVM/Builder/src/spvm_check.c"],
    mech=[("runtime declarations", "spvm_compiler.c SPVM_COMPILER_build_runtime, spvm_runtime.c"), ("lookups", "spvm_api_basic_type.c"), ("merging and placing fields", "spvm_check.c SPVM_CHECK_check_fields"),
          ("accessors, enumerations", "spvm_op.c"), ("interface requirement", "spvm_basic_type.c SPVM_BASIC_TYPE_has_interface_common")],
    observe=["every fact the runtime API gives about the classes"],
    technique="model-based property testing: generated declarations against what the API reads back",
    note="Generated declarations are read back through the native API and compared fact by fact; also under address sanitizer.")
