"""Generator of programs about object lifetimes and exceptions, with a reference model of both.

The model counts references exactly as the documents define them: assignments, fields, elements, arguments, local
variables until the end of their scope, weak references.  Destructor records that fall between two other records are
compared as a multiset, because the order in which the objects of one scope are released is not documented."""
from . import pbt, sem
from .prog import M_ELEM_UNDEF, M_ELEM_RANGE, M_FIELD, M_LEN, M_CATL, M_CALL, NEXT, LAST

HELP = [
    ("D", """class D { use VT; has id : rw public int; has l : rw public D; has r : rw public D; has a : rw public D[]; has o : rw public object;
 static method new : D ($id : int) { my $s = new D; $s->{id} = $id; return $s; }
 method me : D () { return $self; }
 method DESTROY : void () { VT->i(100000 + $self->{id}); } }"""),
    ("DE", """class DE extends D { use VT; static method new : DE ($id : int) { my $s = new DE; $s->{id} = $id; return $s; }
 method DESTROY : void () { VT->i(200000 + $self->{id}); } }"""),
    ("DF", """class DF extends D { static method new : DF ($id : int) { my $s = new DF; $s->{id} = $id; return $s; } }"""),
    ("DX", """class DX extends D { use VT; static method new : DX ($id : int) { my $s = new DX; $s->{id} = $id; return $s; }
 method DESTROY : void () { VT->i(300000 + $self->{id}); $@ = "changed"; die "in a destructor"; } }"""),
    ("DY", """class DY extends D { use VT; static method new : DY ($id : int) { my $s = new DY; $s->{id} = $id; return $s; }
 method DESTROY : void () { my $x = D->new($self->{id} + 50000); eval { my $y = $x; die "caught"; }; VT->i(400000 + $self->{id}); } }"""),
    ("ErrA", "class ErrA extends Error { }"),
    ("ErrB", "class ErrB extends ErrA { }"),
    ("ErrC", "class ErrC extends Error { }"),
]
DBASE = {"D": 100000, "DE": 200000, "DF": 100000, "DX": 300000, "DY": 400000}
SUPER = {"Error": [], "ErrA": ["Error"], "ErrB": ["ErrA", "Error"], "ErrC": ["Error"], "Error::System": ["Error"]}
ERRS = ["Error", "ErrA", "ErrB", "ErrC", "Error::System"]
DW = "[An exception thrown in DESTROY method is converted to a warning message]\n"


class Die(Exception):
    def __init__(self, msg, eid="Error"):
        self.msg, self.eid = msg, eid


class Ob:
    """An object or an array of objects; slots hold Ob or None; weak: set of slot names."""
    __slots__ = ("k", "id", "s", "rc", "weak", "back", "dead", "n")

    def __init__(self, k, id=0, n=0):
        self.k, self.id, self.n = k, id, n
        self.s = {} if n is None else {}
        self.rc = 0
        self.weak = set()
        self.back = []
        self.dead = False


class Model:
    def __init__(self):
        self.tr = []
        self.exc = None
        self.g = {}
        self.objs = []
        self.warn = 0
        self.steps = 0
        self.frees = 0
        self.caught = 0
        self.depth = 0

    def tick(self):
        self.steps += 1
        if self.steps > 3000:
            raise pbt.Discard("long")

    def new(self, k, id=0, n=0):
        o = Ob(k, id, n)
        self.objs.append(o)
        return o

    def dec(self, o):
        o.rc -= 1
        if o.rc == 0:
            self.free(o)

    def free(self, o):
        o.dead = True
        self.frees += 1
        if o.k in DBASE:
            if o.k == "DY":
                self.tr.append(("x", 100000 + o.id + 50000))
            self.tr.append(("x", DBASE[o.k] + o.id))
            if o.k == "DX":
                self.warn += 1
        for h, s in o.back:
            h.s[s] = None
            h.weak.discard(s)
        o.back = []
        for s in list(o.s):
            self.put(o, s, None)

    def put(self, h, s, new):
        """Assignment to a field or an element."""
        old = h.s.get(s)
        if new is not None:
            new.rc += 1
        h.s[s] = new
        if s in h.weak:
            h.weak.discard(s)
            if old is not None:
                old.back.remove((h, s))
        elif old is not None:
            self.dec(old)

    def weaken(self, h, s):
        o = h.s.get(s)
        if o is None or s in h.weak:
            return
        if o.rc == 1:
            h.s[s] = None
            self.dec(o)
        else:
            h.weak.add(s)
            o.back.append((h, s))
            o.rc -= 1

    def unweaken(self, h, s):
        if s in h.weak:
            h.weak.discard(s)
            o = h.s[s]
            o.back.remove((h, s))
            o.rc += 1


class Frame:
    __slots__ = ("v", "line", "eid", "who")

    def __init__(self, who):
        self.v, self.line, self.eid, self.who = {}, 0, None, who


class Meth:
    def __init__(self, name, cls, ret, params, inst):
        self.name, self.cls, self.ret, self.params, self.inst = name, cls, ret, params, inst
        self.body = None
        self.lines = []

    @property
    def who(self):
        return "%s->%s at %s.spvm line " % (self.cls, self.name, self.cls)


class Gen:
    def __init__(self, src, exc=2, gc=2):
        self.src = src
        self.wexc, self.wgc = exc, gc
        self.M = Model()
        self.tags = set()
        self.nid = 0
        self.nv = 0
        self.out = {"T": [], "U": []}
        self.meths = []
        self.nst = 0

    # ---- text
    def emit(self, s):
        o = self.out[self.cls]
        o.append("  " * self.ind + s)
        return len(o)

    def at(self, ln, f):
        M = self.M

        def run(fr):
            M.tick()
            fr.line = ln
            return f(fr)
        self.nst += 1
        return run

    # ---- variables of the current method: [(name, type)], scoped
    def vars(self, t):
        return [n for sc in self.sc for n, u in sc if u == t]

    def declare(self, t):
        self.nv += 1
        n = "v%d" % self.nv
        return n

    def setv(self, fr, n, o):
        M = self.M
        old = fr.v.get(n)
        if o is not None:
            o.rc += 1
        fr.v[n] = o
        if old is not None:
            M.dec(old)

    def block(self, n, d):
        """Statements in a scope of their own -> run function."""
        self.sc.append([])
        self.ind += 1
        st = [self.stmt(d) for _ in range(n)]
        self.ind -= 1
        names = [x for x, t in self.sc.pop() if t in ("D", "D[]", "object")]
        setv = self.setv

        def run(fr):
            try:
                for s in st:
                    r = s(fr)
                    if r is not None:
                        return r
            finally:
                for x in names:
                    if x in fr.v:
                        setv(fr, x, None)
                        del fr.v[x]
        return run

    def marker(self):
        self.nid += 1
        k = self.nid
        M = self.M
        ln = self.emit("VT->i(%d);" % k)
        return self.at(ln, lambda fr: M.tr.append(k))

    # ---- statements
    def stmt(self, d):
        src = self.src
        ks = [(2, "marker")]
        if self.wgc:
            w = self.wgc
            ks += [(3 * w, "newvar"), (2 * w, "assign"), (2 * w, "setf"), (2 * w, "getf"), (w, "chain"), (2 * w, "weak"), (w, "weaks"), (w, "arr"), (w, "elem"), (w, "glob"), (w, "obj")]
        if self.wexc:
            w = self.wexc
            ks += [(2 * w, "die"), (w, "rterr"), (w, "excvar")]
        if d > 0:
            ks += [(2, "blk"), (2, "if"), (2, "loop"), (1 + 2 * self.wexc, "eval")]
            if self.lower:
                ks += [(5, "call")]
        else:
            if self.lower:
                ks += [(2, "call")]
        if self.loop:
            ks += [(1, "jump")]
        if self.depth_ret > 0:
            ks += [(1, "ret")]
        k = src.weighted([(w, v) for w, v in ks])
        if self.wexc and not self.in_eval and d > 0 and k in ("die", "rterr", "call", "if", "loop") and src.chance(3 if self.in_main else 1, 4):
            k = "eval"
        return getattr(self, "s_" + k)(d)

    def s_marker(self, d):
        return self.marker()

    def dvar(self):
        vs = self.vars("D")
        if not vs:
            return None
        return self.src.choice(vs)

    def cls_(self):
        return self.src.weighted([(6, "D"), (2, "DE"), (2, "DF"), (1, "DX"), (1, "DY")])

    def s_newvar(self, d):
        src = self.src
        M, setv = self.M, self.setv
        k = src.weighted([(5, 0), (2, 2), (1, 3), (2, 4)])
        self.tags.add("newvar%d" % k)
        if k <= 2:
            c = self.cls_()
            self.nid += 1
            i = self.nid
            vs = self.vars("D")
            if k == 2 and vs:
                n = src.choice(vs)
                ln = self.emit("$%s = %s->new(%d);" % (n, c, i))
            else:
                n = self.declare("D")
                ln = self.emit("my $%s : D = %s->new(%d);" % (n, c, i))
                self.sc[-1].append((n, "D"))
            return self.at(ln, lambda fr: setv(fr, n, M.new(c, i)))
        n = self.declare("D")
        if k == 3 or not self.dvar():
            ln = self.emit("my $%s : D;" % n)
            self.sc[-1].append((n, "D"))
            return self.at(ln, lambda fr: setv(fr, n, None))
        w = self.dvar()
        ln = self.emit("my $%s = $%s;" % (n, w))
        self.sc[-1].append((n, "D"))
        return self.at(ln, lambda fr: setv(fr, n, fr.v[w]))

    def s_assign(self, d):
        src, setv = self.src, self.setv
        v = self.dvar()
        if not v:
            return self.s_newvar(d)
        if src.chance(1, 5):
            ln = self.emit("$%s = undef;" % v)
            return self.at(ln, lambda fr: setv(fr, v, None))
        w = self.dvar()
        ln = self.emit("$%s = $%s;" % (v, w))
        return self.at(ln, lambda fr: setv(fr, v, fr.v[w]))

    def s_setf(self, d):
        src, M = self.src, self.M
        v = self.dvar()
        if not v:
            return self.s_newvar(d)
        f = src.choice("lr")
        self.tags.add("setf")
        k = src.below(5)
        if k == 0:
            ln = self.emit("if ($%s) { $%s->{%s} = undef; }" % (v, v, f))
            return self.at(ln, lambda fr: M.put(fr.v[v], f, None) if fr.v[v] else None)
        if k == 1:
            c = self.cls_()
            self.nid += 1
            i = self.nid
            ln = self.emit("if ($%s) { $%s->{%s} = %s->new(%d); }" % (v, v, f, c, i))
            return self.at(ln, lambda fr: M.put(fr.v[v], f, M.new(c, i)) if fr.v[v] else None)
        w = self.dvar()
        form = ("$%s->{%s} = $%s;" if k < 4 else "$%s->set_%s($%s);") % (v, f, w)
        ln = self.emit("if ($%s) { %s }" % (v, form))
        return self.at(ln, lambda fr: M.put(fr.v[v], f, fr.v[w]) if fr.v[v] else None)

    def s_getf(self, d):
        src, M, setv = self.src, self.M, self.setv
        v = self.dvar()
        if not v:
            return self.s_newvar(d)
        f, w = src.choice("lr"), self.dvar()
        self.tags.add("getf")
        if src.chance(2, 3):
            ln = self.emit("if ($%s) { if ($%s->{%s}) { $%s = $%s->{%s}; } }" % (v, v, f, w, v, f))

            def run(fr):
                o = fr.v[v] and fr.v[v].s.get(f)
                if o:
                    o.rc += 1
                    setv(fr, w, o)
                    M.dec(o)
            return self.at(ln, run)
        ln = self.emit("if ($%s) { $%s = $%s->{%s}; }" % (v, w, v, f))
        return self.at(ln, lambda fr: setv(fr, w, fr.v[v].s.get(f)) if fr.v[v] else None)

    def s_chain(self, d):
        """A field of a field: the object in between lives to the end of the block."""
        src, M, setv = self.src, self.M, self.setv
        v = self.dvar()
        if not v:
            return self.s_newvar(d)
        f, g, w = src.choice("lr"), src.choice("lr"), self.dvar()
        self.tags.add("chain")
        if src.chance(1, 2):
            ln = self.emit("if ($%s) { if ($%s->{%s}) { $%s->{%s}{%s} = $%s; } }" % (v, v, f, v, f, g, w))

            def run(fr):
                o = fr.v[v] and fr.v[v].s.get(f)
                if o:
                    o.rc += 1
                    M.put(o, g, fr.v[w])
                    M.dec(o)
        else:
            ln = self.emit("if ($%s) { if ($%s->{%s}) { $%s = $%s->{%s}->%s; } }" % (v, v, f, w, v, f, g))

            def run(fr):
                o = fr.v[v] and fr.v[v].s.get(f)
                if o:
                    o.rc += 1
                    setv(fr, w, o.s.get(g))
                    M.dec(o)
        return self.at(ln, run)

    def s_weak(self, d):
        src, M = self.src, self.M
        v = self.dvar()
        if not v:
            return self.s_newvar(d)
        f = src.choice("lr")
        k = src.below(5)
        self.tags.add("weak%d" % k)
        if k <= 2:
            ln = self.emit("if ($%s) { weaken $%s->{%s}; }" % (v, v, f))
            return self.at(ln, lambda fr: M.weaken(fr.v[v], f) if fr.v[v] else None)
        if k == 3:
            ln = self.emit("if ($%s) { unweaken $%s->{%s}; }" % (v, v, f))
            return self.at(ln, lambda fr: M.unweaken(fr.v[v], f) if fr.v[v] else None)
        ln = self.emit("if ($%s) { VT->i(isweak $%s->{%s}); { VT->i($%s->{%s} ? 1 : 0); } }".replace("$%s->{%s} ? 1 : 0", "!$%s->{%s}") % (v, v, f, v, f))

        def run(fr):
            o = fr.v[v]
            if o:
                M.tr.append(int(f in o.weak))
                M.tr.append(int(o.s.get(f) is None))
        return self.at(ln, run)

    def s_weaks(self, d):
        """Several weak references to one object, some of them strengthened or dropped again, before it may die."""
        src, M, setv = self.src, self.M, self.setv
        w = self.dvar()
        hs = [(self.dvar(), src.choice("lr")) for _ in range(src.int(2, 5))]
        if not w or not all(v for v, _ in hs):
            return self.s_newvar(d)
        self.tags.add("weaks")
        pre = []
        for _ in range(src.weighted([(4, 0), (1, 2), (2, 4), (1, 5)])):
            # fresh holders: many references that all count
            self.nid += 1
            n, i = self.declare("D"), self.nid
            pre.append(self.at(self.emit("my $%s : D = D->new(%d);" % (n, i)), lambda fr, n=n, i=i: setv(fr, n, M.new("D", i))))
            self.sc[-1].append((n, "D"))
            hs += [(n, "l"), (n, "r")]
        ops = [("w", v, f) for v, f in hs]
        for _ in range(src.below(3)):
            ops.append((src.choice("uud"),) + src.choice(hs))
        if src.chance(2, 3):
            ops.append(("x", w, ""))
        ops += [("p", v, f) for v, f in hs]
        txt = {"w": "if ($%s) { $%s->{%s} = $%s; weaken $%s->{%s}; }", "u": "if ($%s) { unweaken $%s->{%s}; }", "d": "if ($%s) { $%s->{%s} = undef; }",
               "p": "if ($%s) { VT->i(isweak $%s->{%s}); { VT->i(!$%s->{%s}); } }"}
        out = []
        for k, v, f in ops:
            out.append("$%s = undef;" % v if k == "x" else txt[k] % {"w": (v, v, f, w, v, f), "u": (v, v, f), "d": (v, v, f), "p": (v, v, f, v, f)}[k])
        ln = self.emit(" ".join(out))

        def run(fr):
            for k, v, f in ops:
                if k == "x":
                    setv(fr, v, None)
                    continue
                o = fr.v[v]
                if not o:
                    continue
                if k == "w":
                    M.put(o, f, fr.v[w])
                    M.weaken(o, f)
                elif k == "u":
                    M.unweaken(o, f)
                elif k == "d":
                    M.put(o, f, None)
                else:
                    M.tr.append(int(f in o.weak))
                    M.tr.append(int(o.s.get(f) is None))
        step = self.at(ln, run)

        def both(fr):
            for q in pre:
                q(fr)
            return step(fr)
        return both

    def s_arr(self, d):
        src, M, setv = self.src, self.M, self.setv
        self.tags.add("array")
        k = src.below(4)
        if k == 0 or not self.vars("D[]"):
            n = self.declare("D[]")
            ln_ = src.int(0, 3)
            ln = self.emit("my $%s = new D[%d];" % (n, ln_))
            self.sc[-1].append((n, "D[]"))
            return self.at(ln, lambda fr: setv(fr, n, M.new("A", 0, ln_)))
        a = src.choice(self.vars("D[]"))
        v = self.dvar()
        if k == 1 or not v:
            ln = self.emit("$%s = undef;" % a)
            return self.at(ln, lambda fr: setv(fr, a, None))
        if k == 2:
            ln = self.emit("if ($%s) { $%s->{a} = $%s; }" % (v, v, a))
            return self.at(ln, lambda fr: M.put(fr.v[v], "a", fr.v[a]) if fr.v[v] else None)
        ws = [v] + [self.dvar() for _ in range(src.int(0, 3))]
        ln = self.emit("{ $%s = [%s]; }" % (a, ", ".join("$" + x for x in ws)))

        def run(fr):
            o = M.new("A", 0, len(ws))
            for i, x in enumerate(ws):
                M.put(o, i, fr.v[x])
            setv(fr, a, o)
        return self.at(ln, run)

    def s_elem(self, d):
        src, M, setv = self.src, self.M, self.setv
        vs = self.vars("D[]")
        v = self.dvar()
        if not vs or not v:
            return self.s_arr(d)
        a, i = src.choice(vs), src.below(3)
        self.tags.add("elem")
        if src.chance(1, 2):
            e = self.src.choice([v, None])
            ln = self.emit("if ($%s) { if (@$%s > %d) { $%s->[%d] = %s; } }" % (a, a, i, a, i, "$" + e if e else "undef"))
            return self.at(ln, lambda fr: M.put(fr.v[a], i, fr.v[e] if e else None) if fr.v[a] and fr.v[a].n > i else None)
        ln = self.emit("if ($%s) { if (@$%s > %d) { $%s = $%s->[%d]; } }" % (a, a, i, v, a, i))
        return self.at(ln, lambda fr: setv(fr, v, fr.v[a].s.get(i)) if fr.v[a] and fr.v[a].n > i else None)

    def s_glob(self, d):
        src, M, setv = self.src, self.M, self.setv
        v = self.dvar()
        if not v:
            return self.s_newvar(d)
        self.tags.add("classvar")
        g = src.choice(["G0", "G1"])

        def setg(o):
            old = M.g.get(g)
            if o is not None:
                o.rc += 1
            M.g[g] = o
            if old is not None:
                M.dec(old)
        k = src.below(3)
        if k == 0:
            ln = self.emit("$T::%s = undef;" % g)
            return self.at(ln, lambda fr: setg(None))
        if k == 1:
            ln = self.emit("$T::%s = $%s;" % (g, v))
            return self.at(ln, lambda fr: setg(fr.v[v]))
        ln = self.emit("$%s = $T::%s;" % (v, g))
        return self.at(ln, lambda fr: setv(fr, v, M.g.get(g)))

    def s_obj(self, d):
        """The any object type, and a field of it."""
        src, M, setv = self.src, self.M, self.setv
        v = self.dvar()
        if not v:
            return self.s_newvar(d)
        w = self.dvar()
        k = src.below(3)
        self.tags.add("object%d" % k)
        if k == 0:
            ln = self.emit("if ($%s) { $%s->{o} = $%s; }" % (v, v, w))
            return self.at(ln, lambda fr: M.put(fr.v[v], "o", fr.v[w]) if fr.v[v] else None)
        if k == 1:
            arrs = self.vars("D[]")
            if not arrs:
                return self.s_arr(d)
            a = src.choice(arrs)
            ln = self.emit("if ($%s) { $%s->{o} = $%s; }" % (v, v, a))
            return self.at(ln, lambda fr: M.put(fr.v[v], "o", fr.v[a]) if fr.v[v] else None)
        ln = self.emit("if ($%s) { if ($%s->{o} isa D) { $%s = (D)$%s->{o}; } }" % (v, v, w, v))

        def run(fr):
            o = fr.v[v] and fr.v[v].s.get("o")
            if o and o.k != "A":
                o.rc += 1
                setv(fr, w, o)
                M.dec(o)
        return self.at(ln, run)

    # ---- control
    def cond(self):
        """-> (text, function): not constant for the compiler."""
        src = self.src
        k = src.below(4)
        v = self.dvar()
        if k == 0 and v:
            return "$" + v, lambda fr: fr.v[v] is not None
        if k == 1 and v:
            return "!$" + v, lambda fr: fr.v[v] is None
        b = src.below(3)
        n = src.int(-1, 2)
        if b == 0:
            return "$n == %d" % n, lambda fr: fr.v["n"] == n
        if b == 1:
            return "$n != %d" % n, lambda fr: fr.v["n"] != n
        return "$n <= %d" % n, lambda fr: fr.v["n"] <= n

    def s_blk(self, d):
        self.emit("{ ;")
        b = self.block(self.src.int(1, 3), d - 1)
        self.emit("}")
        return b

    def s_if(self, d):
        src = self.src
        s, f = self.cond()
        self.tags.add("if")
        un = src.chance(1, 4)
        ln = self.emit("%s (%s) {" % ("unless" if un else "if", s))
        a = self.block(src.int(1, 3), d - 1)
        b = None
        if src.chance(1, 2):
            self.emit("}")
            self.emit("else {")
            b = self.block(src.int(1, 3), d - 1)
        self.emit("}")

        def run(fr):
            if bool(f(fr)) != un:
                return a(fr)
            return b(fr) if b else None
        return self.at(ln, run)

    def s_loop(self, d):
        src = self.src
        n = src.int(0, 3)
        self.nv += 1
        i = "i%d" % self.nv
        self.tags.add("loop")
        k = src.below(2)
        if k == 0:
            ln = self.emit("for (my $%s = 0; $%s < %d; $%s++) {" % (i, i, n, i))
        else:
            self.emit("my $%s = 0;" % i)
            ln = self.emit("while ($%s++ < %d) {" % (i, n))
        self.loop += 1
        b = self.block(src.int(1, 3), d - 1)
        self.loop -= 1
        self.emit("}")

        def run(fr):
            for _ in range(n):
                r = b(fr)
                if r == LAST:
                    break
                if r is not None and r != NEXT:
                    return r
        return self.at(ln, run)

    def s_jump(self, d):
        k = self.src.choice([NEXT, LAST])
        s, f = self.cond()
        self.tags.add(k)
        ln = self.emit("if (%s) { %s; }" % (s, k))
        return self.at(ln, lambda fr: k if f(fr) else None)

    def s_ret(self, d):
        s, f = self.cond()
        self.tags.add("return")
        e, g = self.retval()
        ln = self.emit("if (%s) { return%s; }" % (s, e))

        def run(fr):
            if f(fr):
                return ("ret", g(fr))
        return self.at(ln, run)

    def retval(self):
        if self.ret == "void":
            return "", lambda fr: None
        M = self.M
        vs = self.vars("D")
        k = self.src.below(4)
        if vs and k:
            v = self.src.choice(vs)

            def g(fr):
                o = fr.v[v]
                if o is not None:
                    o.rc += 1       # held until the caller has it
                return o
            return " $" + v, g
        if k == 0 and self.src.chance(1, 2):
            self.nid += 1
            i = self.nid
            c = self.cls_()

            def g(fr):
                o = M.new(c, i)
                o.rc += 1
                return o
            return " %s->new(%d)" % (c, i), g
        return " undef", lambda fr: None

    def die_at(self, fr, msg, eid):
        e = Die(msg, eid)
        raise e

    def s_die(self, d):
        src = self.src
        s, f = self.cond()
        M = self.M
        k = src.below(8)
        self.tags.add("die%d" % k)
        self.nid += 1
        m = "m%d" % self.nid
        if k == 0:
            t, mk = "die;", lambda fr: ("Error", "Error")
        elif k == 1:
            t, mk = "die \"%s\";" % m, lambda fr: (m, "Error")
        elif k == 2:
            c = src.choice(ERRS)
            t, mk = "die %s \"%s\";" % (c, m), lambda fr: (m, c)
        elif k == 3:
            c = src.choice(ERRS)
            t, mk = "die %s;" % c, lambda fr: ("Error", c)
        elif k == 4:
            c = src.choice(ERRS)
            t, mk = "die basic_type_id %s, \"%s\";" % (c, m), lambda fr: (m, c)
        elif k == 5:
            t, mk = "die $@;", lambda fr: (M.exc if M.exc is not None else "Error", "Error")
        elif k == 6:
            t, mk = "die \"%s\" . $n;" % m, lambda fr: (m + str(fr.v["n"]), "Error")
        else:
            t, mk = "my $s : string; die $s;", lambda fr: ("Error", "Error")
        if src.chance(1, 3):
            ln = self.emit(t if k < 7 else "{ %s }" % t)
            f = lambda fr: True
        else:
            ln = self.emit("if (%s) { %s }" % (s, t))

        def run(fr):
            if f(fr):
                raise Die(*mk(fr))
        return self.at(ln, run)

    RT = [("my $z = 0; my $q = 1 / $z;", sem.DIV0), ("my $z = new int[2]; my $q = $z->[2];", M_ELEM_RANGE), ("my $z : int[]; my $q = $z->[0];", M_ELEM_UNDEF),
          ("my $z : D; my $q = $z->{id};", M_FIELD), ("my $z : D; $z->{l} = undef;", M_FIELD), ("my $z = -1; my $q = new D[$z];", M_LEN),
          ("my $z : string; my $q = $z . \"a\";", M_CATL), ("my $z : D; $z->me;", M_CALL % ("D", "me")), ("my $z = new D[1]; $z->[1] = undef;", M_ELEM_RANGE)]

    def s_rterr(self, d):
        src = self.src
        s, f = self.cond()
        t, m = src.choice(self.RT)
        self.tags.add("runtime")
        ln = self.emit("if (%s) { %s }" % (s, t))
        m = m.decode() if isinstance(m, bytes) else m

        def run(fr):
            if f(fr):
                raise Die(m)
        return self.at(ln, run)

    def s_excvar(self, d):
        src, M = self.src, self.M
        k = src.below(5)
        self.tags.add("excvar%d" % k)
        self.nid += 1
        m = "e%d" % self.nid
        if k == 0:
            ln = self.emit("$@ = \"%s\";" % m)

            def run(fr):
                M.exc = m
        elif k == 1:
            ln = self.emit("$@ = undef;")

            def run(fr):
                M.exc = None
        elif k == 2:
            ln = self.emit("if ($@) { $@ .= \"%s\"; }" % m)

            def run(fr):
                if M.exc is not None:
                    M.exc += m
        elif k == 3:
            ln = self.emit("if (my $e = $@) { VT->o($e); }")

            def run(fr):
                if M.exc is not None:
                    M.tr.append(M.exc.encode())
        else:
            ln = self.emit("VT->o($@);")

            def run(fr):
                M.tr.append(M.exc.encode() if M.exc is not None else None)
        return self.at(ln, run)

    def s_eval(self, d):
        src, M = self.src, self.M
        self.tags.add("eval")
        ln = self.emit("eval {")
        self.in_eval += 1
        b = self.block(src.int(1, 4), d - 1)
        self.in_eval -= 1
        self.emit("};")
        k = src.below(5)
        c = src.choice(ERRS)
        l2 = self.emit(["VT->o($@);", "if ($@) { VT->i(eval_error_id isa_error %s); }" % c, "if ($@) { VT->i(eval_error_id is_error %s); }" % c,
                        "if ($@) { die $@; }", "if ($@) { die eval_error_id, $@; }"][k])
        who = self.who

        def run(fr):
            M.exc = None
            fr.eid = None
            try:
                r = b(fr)
                if r is not None:
                    return r
            except Die as e:
                M.caught += 1
                M.exc = e.msg + "\n  " + who + str(fr.line)
                fr.eid = e.eid
            fr.line = l2
            M.tick()
            if k == 0:
                M.tr.append(M.exc.encode() if M.exc is not None else None)
            elif M.exc is None:
                pass
            elif k == 1:
                M.tr.append(int(fr.eid is not None and (fr.eid == c or c in SUPER[fr.eid])))
            elif k == 2:
                M.tr.append(int(fr.eid == c))
            elif k == 3:
                raise Die(M.exc)
            elif fr.eid is not None:
                raise Die(M.exc, fr.eid)
            else:
                raise pbt.Discard("error id 0")
        return self.at(ln, run)

    def s_call(self, d):
        src, M, setv = self.src, self.M, self.setv
        m = src.choice(self.lower)
        self.tags.add("call_" + ("inst" if m.inst else "static") + m.ret)
        args, fs = [], []
        for pn, pt in m.params:
            if pt == "int":
                v = src.int(-1, 2)
                if src.chance(1, 3):
                    args.append("$n")
                    fs.append(lambda fr: fr.v["n"])
                else:
                    args.append(str(v))
                    fs.append(lambda fr, v=v: v)
            else:
                v = self.dvar()
                if v is None or src.chance(1, 8):
                    args.append("undef")
                    fs.append(lambda fr: None)
                else:
                    args.append("$" + v)
                    fs.append(lambda fr, v=v: fr.v[v])
        call = "%s->%s(%s)" % (m.cls, m.name, ", ".join(args))
        gen = self
        if m.ret == "D":
            vs = self.vars("D")
            if vs and src.chance(1, 2):
                n = src.choice(vs)
                ln = self.emit("$%s = %s;" % (n, call))
            else:
                n = self.declare("D")
                ln = self.emit("my $%s = %s;" % (n, call))
                self.sc[-1].append((n, "D"))
        else:
            n = None
            ln = self.emit(call + ";")

        def run(fr):
            r = gen.invoke(m, [f(fr) for f in fs])
            if n:
                setv(fr, n, r)
                if r is not None:
                    M.dec(r)
        return self.at(ln, run)

    def invoke(self, m, vals):
        M = self.M
        M.tick()
        fr = Frame(m.who)
        M.depth += 1
        if M.depth > 30:
            raise pbt.Discard("deep")
        for (pn, pt), v in zip(m.params, vals):
            fr.v[pn] = v
            if pt == "D" and v is not None:
                v.rc += 1
        try:
            r = m.body(fr)
        except Die as e:
            e.msg += "\n  " + m.who + str(fr.line)
            raise
        finally:
            M.depth -= 1
            for pn, pt in m.params:
                if pt == "D":
                    self.setv(fr, pn, None)
        return r[1] if isinstance(r, tuple) else None

    # ---- the program
    def method(self, i, cls, pre):
        src = self.src
        self.cls, self.ind = cls, 1
        main = cls == "T" and i is None
        name = "main" if main else "m%d" % i
        ret = "void" if main else src.choice(["void", "D", "D"])
        params = [("n", "int")] + ([] if main else [("p%d" % k, "D") for k in range(src.int(0, 2))])
        if not main:
            src.shuffle(params)
        m = Meth(name, cls, ret, params, False)
        self.who = m.who
        self.ret = ret
        self.sc = [[(n, t) for n, t in params]]
        self.loop = 0
        self.depth_ret = 1
        self.in_main, self.in_eval = main, 0
        self.lower = list(self.meths)
        self.emit("%sstatic method %s : %s (%s) {" % ("precompile " if pre else "", name, ret, ", ".join("$%s : %s" % p for p in params)))
        M = self.M
        if main:
            self.ind += 1
            self.sc.append([])
            st = [self.s_newvar(3) for _ in range(src.int(1, 3))] + [self.s_setf(3) for _ in range(src.int(0, 2) if self.wgc else 0)]
            st += [self.stmt(3) for _ in range(src.int(3, 14))]
            e = self.emit("$T::G0 = undef; $T::G1 = undef;")
            names = [x for x, t in self.sc.pop() if t in ("D", "D[]", "object")]
            self.ind -= 1
            self.emit("}")
            setv = self.setv

            def body(fr):
                try:
                    for s in st:
                        r = s(fr)
                        if r is not None:
                            return r
                    for g in ("G0", "G1"):
                        o = M.g.get(g)
                        M.g[g] = None
                        if o is not None:
                            M.dec(o)
                finally:
                    for x in names:
                        if x in fr.v:
                            setv(fr, x, None)
            m.body = body
        else:
            self.sc.append([])
            self.ind += 1
            st = [self.stmt(2) for _ in range(src.int(1, 6))]
            rt, g = self.retval()
            rl = None
            if ret != "void":
                rl = self.emit("return%s;" % rt)
            names = [x for x, t in self.sc.pop() if t in ("D", "D[]", "object")]
            self.ind -= 1
            self.emit("}")
            setv = self.setv

            def body(fr):
                try:
                    for s in st:
                        r = s(fr)
                        if r is not None:
                            return r
                    if rl:
                        fr.line = rl
                        return ("ret", g(fr))
                finally:
                    for x in names:
                        if x in fr.v:
                            setv(fr, x, None)
            m.body = body
            self.meths.append(m)
        return m

    def program(self, pre=()):
        src = self.src
        for c in "TU":
            self.out[c].append("class %s { use VT; use D; use DE; use DF; use DX; use DY; use ErrA; use ErrB; use ErrC; use T; use U; use Error::System;" % c)
        self.out["T"].append("  our $G0 : public rw D; our $G1 : public rw D;".replace("public rw", "rw public"))
        for i in range(src.int(1, 4)):
            c = src.choice("TU")
            self.method(i, c, c in pre)
        self.main = self.method(None, "T", "T" in pre)
        for c in "TU":
            self.out[c].append("}")
        return [(c, "\n".join(self.out[c])) for c in "TU"]

    def run(self, n):
        M = self.M
        try:
            self.invoke(self.main, [n])
        except Die as e:
            res = ("die", e.msg.encode(), e.eid)
        except RecursionError:
            raise pbt.Discard("deep")
        else:
            res = ("ok", None, None)
        # what the class variables still hold is released with them
        self.atend = not any(M.g.values())
        self.tr1, M.tr = M.tr, []
        self.warn1 = M.warn
        for g in ("G0", "G1"):
            o, M.g[g] = M.g.get(g), None
            if o is not None:
                M.dec(o)
        self.cyc = sum(1 for o in M.objs if not o.dead)
        return res


def segs(tr):
    """Destructor records as sorted groups between the others."""
    out, cur = [], []
    for x in tr:
        y = x[1] if isinstance(x, tuple) and x[0] == "x" else x if isinstance(x, int) and x >= 100000 else None
        if y is not None:
            cur.append(y)
        else:
            if cur:
                out.append(("freed", sorted(cur)))
                cur = []
            out.append(x)
    if cur:
        out.append(("freed", sorted(cur)))
    return out


def number(t):
    return "\n".join("%4d %s" % (i + 1, l) for i, l in enumerate(t.split("\n")))


def case(exc, gc, mode, variant="plain", nontrivial=None):
    """mode: 'vm', 'pre' (both classes precompiled), 'mix' (one of them)."""
    def run(src, ctx):
        pre = {"vm": "", "pre": "TU", "mix": None}[mode]
        if pre is None:
            pre = src.choice("TU")
        g = Gen(src, exc, gc)
        cl = g.program(pre)
        n = src.int(-1, 2)
        res = g.run(n)
        M = g.M
        d = ctx.drv(variant)
        classes = cl + HELP
        if pre:
            r = d.precompiled(ctx.infos[variant], classes, list(pre), ctx.scratch(), opt="-O1")
        else:
            r = d.program(classes)
        text = "\n".join(number(t) for _, t in cl)
        if r.code:
            raise pbt.Violation("a correct program is rejected: %s\n%s" % ("; ".join(r.errors[:3]), text), "rejected")
        c = d.call("T", "main", n)
        got, exp = segs(c.trace), segs(g.tr1)
        if got != exp or c.status != res[0] or (res[1] is not None and (c.msg != res[1] or c.err != res[2])):
            dif = ""
            for i in range(max(len(got), len(exp))):
                if i >= len(got) or i >= len(exp) or got[i] != exp[i]:
                    dif = "record %d: expected %r, got %r" % (i, exp[i:i + 2], got[i:i + 2])
                    break
            raise pbt.Violation("main(%d)%s: expected %r, got %s %r %s; %s\n%s" % (n, " precompiled " + pre if pre else "", res, c.status, c.msg, c.err, dif, text), "differs")
        if c.errout.count(DW.encode()) != g.warn1:
            raise pbt.Violation("expected %d warnings of destructors, got %r\n%s" % (g.warn1, c.errout, text), "warning")
        cyc = g.cyc
        if not cyc and g.atend and c.leak:
            raise pbt.Violation("main(%d): %d memory blocks are left\n%s" % (n, c.leak, text), "leak")
        if cyc and c.leak < cyc:
            raise pbt.Violation("main(%d): %d objects of cycles should be alive, %d memory blocks are\n%s" % (n, cyc, c.leak, text), "freed early")
        rest, tr, out, err = d.done()
        if segs(tr) != segs(M.tr):
            raise pbt.Violation("main(%d): at the end expected %r, got %r\n%s" % (n, segs(M.tr), segs(tr), text), "end")
        if not cyc and rest != 4:
            raise pbt.Violation("main(%d): %d memory blocks are left at the end\n%s" % (n, rest - 4, text), "leak")
        if cyc and rest - 4 < cyc:
            raise pbt.Violation("main(%d): %d objects of cycles should be alive, %d memory blocks are at the end\n%s" % (n, cyc, rest - 4, text), "freed early")
        nt = (M.frees >= 4) if not exc else (M.caught >= 1)
        g.tags.add("ends:" + c.status)
        if cyc:
            g.tags.add("cycle")
        return pbt.Info(nt, sorted(g.tags), text, digest=text + str(n))
    return run
