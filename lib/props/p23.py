"""P23: lifetimes, calls and exceptions across the Perl border."""
from vt import pbt, perlx, xc
from vt.pbt import Suite
from props.p22 import SETUP, quote

TITLE = "Objects, calls and exceptions behave alike across the Perl border"
RULE = ("One case is a history of 10 to 60 operations from Perl on objects of a small class hierarchy: creation, calls of every form (class, instance, static instance, call_method, class objects), storing in fields, arrays, class variables and Perl variables, calls that throw, calls with wrong names, argument counts or argument types. "
        "Non-trivial: at least one exception crossed the border and at least one object was held from both sides.")
ASSUMPTIONS = []


def perl(ctx):
    p = ctx.memo.get("perl")
    if p is None or not p.alive():
        d = ctx.scratch() + "/spvmlib"
        xc.write(d)
        p = ctx.memo["perl"] = perlx.Perl(perlx.dist(), lib=d, setup=SETUP)
    return p


class Obj:
    def __init__(self, kind, v=0, elems=None, t=None):
        self.kind, self.v, self.child, self.elems, self.t = kind, v, None, elems, t


class G:
    def __init__(self, src):
        self.src = src
        self.L = []
        self.vars = [None] * src.int(2, 7)
        self.keep = None
        self.tags = set()

    def ck(self, got, exp):
        self.L.append("ck { %s } %s;" % (got, exp))

    def reach(self, roots):
        seen, todo = [], [r for r in roots if r is not None]
        while todo:
            o = todo.pop()
            if any(o is s for s in seen):
                continue
            seen.append(o)
            todo += [x for x in [o.child] + (o.elems or []) if x is not None]
        return seen

    def alive(self):
        return sum(1 for o in self.reach(self.vars + [self.keep]) if o.kind in "NC")

    def pick(self, kinds="NC"):
        c = [i for i, o in enumerate(self.vars) if o is not None and o.kind in kinds]
        return self.src.choice(c) if c else None

    def new(self):
        src = self.src
        k, v = src.choice("NC"), src.int(-50, 50)
        c = "VX::" + k
        t = src.choice(["SPVM::%s->new(%d)" % (c, v), "$API->call_method('%s', 'new', %d)" % (c, v), "$API->class('%s')->new(%d)" % (c, v), "SPVM::%s->new" % c])
        return t, Obj(k, 0 if t.endswith("new") else v)

    def step(self):
        src = self.src
        i = src.below(len(self.vars))
        g = "$V{%d}" % i
        k = src.weighted([(4, "new"), (2, "undef"), (2, "copy"), (3, "child"), (2, "getchild"), (3, "array"), (2, "elem"), (1, "setelem"), (2, "keep"), (2, "kept"), (4, "call"), (4, "fail"), (4, "wrong"), (2, "badarg"), (1, "exc"), (1, "temp"), (1, "refs"), (1, "deep"), (1, "options")])
        self.tags.add(k)
        if k == "new":
            t, o = self.new()
            self.L.append("%s = %s;" % (g, t))
            self.vars[i] = o
        elif k == "undef":
            self.L.append("%s;" % src.choice(["undef %s" % g, "%s = undef" % g, "delete %s" % g]))
            self.vars[i] = None
        elif k == "copy":
            j = src.below(len(self.vars))
            self.L.append("%s = %s;" % (g, src.choice(["$V{%d}", "SPVM::VX->echo_object($V{%d})"]) % j))
            self.vars[i] = self.vars[j]
        elif k == "child":
            j = self.pick()
            o = self.vars[i]
            if j is not None and (o is None or not any(x is self.vars[j] for x in self.reach([o]))):
                self.L.append("$V{%d}->set_child(%s);" % (j, g))
                self.vars[j].child = o
        elif k == "getchild":
            j = self.pick()
            if j is not None:
                self.L.append("%s = $V{%d}->child;" % (g, j))
                self.vars[i] = self.vars[j].child
        elif k == "array":
            n = src.int(0, 4)
            t = src.choice(["object", "VX::N", "VX::I"])
            js = [src.choice([None] + [x for x in range(len(self.vars)) if self.vars[x] is None or t == "object" or self.vars[x].kind in "NC"]) for _ in range(n)]
            el = ", ".join("undef" if j is None else "$V{%d}" % j for j in js)
            self.L.append("%s = $API->new_object_array('%s[]', [%s]);" % (g, t, el))
            self.vars[i] = Obj("A", 0, [None if j is None else self.vars[j] for j in js], t)
        elif k == "elem":
            j = self.pick("A")
            if j is not None and self.vars[j].elems:
                e = src.below(len(self.vars[j].elems))
                self.L.append("%s = %s;" % (g, src.choice(["$V{%d}->get(%d)", "$V{%d}->to_elems->[%d]", "$V{%d}->[%d]", "SPVM::VX->get_object($V{%d}, %d)"]) % (j, e)))
                self.vars[i] = self.vars[j].elems[e]
        elif k == "setelem":
            j = self.pick("A")
            o = self.vars[i]
            if j is not None and self.vars[j].elems:
                a = self.vars[j]
                e = src.below(len(a.elems))
                f = src.choice(["$V{%d}->set(%d, %s)", "SPVM::VX->set_object($V{%d}, %d, %s)"]) % (j, e, g)
                if o is None or ((a.t == "object" or o.kind in "NC") and not any(x is a for x in self.reach([o]))):
                    self.L.append(f + ";")
                    a.elems[e] = o
                elif a.t != "object" and o.kind == "A":
                    self.ck(f, '"DIE"')
        elif k == "keep":
            self.L.append("SPVM::VX->keep(%s);" % g)
            self.keep = self.vars[i]
        elif k == "kept":
            if src.chance(1, 3):
                self.L.append("SPVM::VX->drop;")
                self.keep = None
            else:
                self.L.append("%s = SPVM::VX->kept;" % g)
                self.vars[i] = self.keep
        elif k == "call":
            j = self.pick()
            if j is not None:
                o = self.vars[j]
                h = "$V{%d}" % j
                x, y = src.int(-9, 9), src.int(-9, 9)
                m = src.below(9)
                if m == 0:
                    o.v += x * y
                    self.ck(src.choice(["%s->add(%d, %d)", "$API->call_method(%s, 'add', %d, %d)", "%s->SPVM::VX::N::add(%d, %d)", "$API->call_method(%s, 'VX::N::add', %d, %d)"]) % (h, x, y), '"i%d"' % o.v)
                elif m == 1:
                    o.v += x
                    self.ck("%s->add(%d)" % (h, x), '"i%d"' % o.v)
                elif m == 2:
                    self.ck(src.choice(["%s->name", "$API->call_method(%s, 'name')", "my $m = 'name'; %s->$m", "%s->name()"]) % h, '"S%s"' % (b"N" if o.kind == "N" else b"C/N").hex())
                elif m == 3:
                    self.ck(src.choice(["%s->SPVM::VX::N::name", "$API->call_method(%s, 'VX::N::name')", "my $m = 'VX::N::name'; my @r = $API->call_method(%s, $m); die 'name changed' if $m ne 'VX::N::name'; $r[0]"]) % h, '"S%s"' % b"N".hex())
                elif m == 4:
                    self.ck("(SPVM::VX->same(%s->me, %s), SPVM::VX->same(%s, SPVM::VX->echo_i(%s)))" % (h, h, h, h), '"i1;i1"')
                elif m == 5:
                    if o.kind == "C":
                        self.ck(src.choice(["(%s->only, %s->SPVM::VX::C::only)", "($API->call_method(%s, 'only'), $API->call_method(%s, 'VX::C::only'))"]) % (h, h), '"i77;i77"')
                    else:
                        self.ck(src.choice(["%s->only", "%s->SPVM::VX::C::only", "$API->call_method(%s, 'VX::C::only')"]) % h, '"DIE"')
                elif m == 6:
                    o.v = x
                    self.L.append("%s->set_v(%d);" % (h, x))
                elif m == 7:
                    self.ck("(%s->value, %s->v)" % (h, h), '"i%d;i%d"' % (o.v, o.v))
                else:
                    self.ck("(SPVM::VX::N->cls(%d), $API->call_method('VX::N', 'cls', %d), $API->class('VX::N')->cls(%d))" % (x, x, x), '"i%d;i%d;i%d"' % ((x + 1,) * 3))
        elif k == "fail":
            msg = src.choice(["boom", "x%d" % src.int(0, 999), "a'b%s", "line1 line2", ""])
            how = src.int(0, 4)
            lit = '"' + "".join("\\x{%x}" % ord(c) for c in msg) + '"'
            self.tags.add("thrown")
            times = 1500 if src.chance(1, 60) else 1 if how else 1
            if how == 0:
                self.ck("SPVM::VX->fail(%s, 0)" % lit, '"i5"')
            elif times > 1:
                self.ck("my $z = 0; for (1 .. %d) { eval { SPVM::VX->fail(%s, %d); 1 } or $z++ } $z" % (times, lit, how), '"i%d"' % times)
            elif src.chance(1, 2):
                self.ck("my $e = $API->new_error; my $z = $e->id; eval { SPVM::VX->fail(%s, %d, $e) }; my $w = $@ ne '' ? 1 : 0; (0 + $z, $w, $e->id %s)" % (lit, how, "== SPVM::VX->eid ? 1 : 0" if how == 2 else "> 0 ? 1 : 0"), '"i0;i1;i1"')
            else:
                self.ck("SPVM::VX->fail(%s, %d)" % (lit, how), '"DIE"')
                self.ck("eval { SPVM::VX->fail(%s, %d) }; my $x = $@; utf8::decode($x) unless utf8::is_utf8($x); index($x, %s) >= 0 ? 1 : $x" % (lit, how, lit if how < 3 else '"VX"'), '"i1"')
            j = self.pick()
            if j is not None and src.chance(1, 2):
                self.ck("$V{%d}->fail(%s)" % (j, lit), '"DIE"')
        elif k == "wrong":
            self.tags.add("thrown")
            j = self.pick()
            c = ["SPVM::VX->no_such", "SPVM::VX::N->value", "SPVM::VX::N->new(1, 2)", "SPVM::VX->echo_int", "SPVM::VX->echo_int(1, 2)", "$API->call_method('No::Such', 'new')", "$API->call_method('VX', 'nope', 1)", "$API->class('No::Such')->new",
                 "$API->call_method($API->new_string('x'), 'length')", "$API->call_method($API->new_int_array([1]), 'length')", "$API->call_method('VX::N', 'value')", "SPVM::VX->def_int()", "$API->call_method('VX::N', 'VX::N::new')", "$API->call_method('int', 'foo')", "$API->call_method('', 'foo')", "$API->call_method('VX', '')"]
            if j is not None:
                h = "$V{%d}" % j
                c += [x % h for x in ["%s->no_such", "%s->cls(1)", "%s->add", "%s->add(1, 2, 3)", "%s->SPVM::No::Such::name", "%s->SPVM::Int::value", "$API->call_method(%s, 'VX:name')", "$API->call_method(%s, ':name')", "$API->call_method(%s, 'VX::N::cls', 1)", "$API->call_method(%s, 'VX::N::')", "$API->call_method(%s, '::name')", "%s->value(1)"]]
                if src.chance(1, 5):
                    m = src.choice(["No::Such::name", "Int::value", "VX::C::nope", "VX::N::nope"])
                    self.ck("my $m = '%s'; eval { $API->call_method(%s, $m) }; $m" % (m, h), '"sB%s"' % m.encode().hex())
                    return
            self.ck(src.choice(c), '"DIE"')
        elif k == "badarg":
            self.tags.add("thrown")
            good = ["1", "'s'", "[1, 2]", "SPVM::VX::N->new(3)", "1.5", "{x => 1, y => 2}", "$API->new_string('o')", "7"]
            bad = {0: ["[]", "undef"], 1: ["[]", "{}"], 2: ["[1, undef]", "5", "{}", "['a', []]"], 3: ["$API->new_string('x')", "5", "[]"], 4: ["undef", "{}"], 5: ["{x => 1}", "[]", "5"], 6: ["[]", "\\1"], 7: ["undef", "sub {}"]}
            b = src.below(8)
            a = list(good)
            a[b] = src.choice(bad[b])
            self.ck("SPVM::VX->mix(%s)" % ", ".join(a), '"DIE"')
            lists = ["$API->new_%s_array([1, 2, undef])" % src.choice(xc.NUM), "$API->new_object_array('object[]', [SPVM::VX::N->new(1), 5])", "$API->new_object_array('VX::C[]', [SPVM::VX::C->new(1), SPVM::VX::N->new(1)])", "$API->new_string_array(['a', 'b', []])",
                     "$API->new_mulnum_array('VX::P_2i[]', [{x => 1, y => 2}, 5])", "$API->new_mulnum_array('VX::P_2i[]', [{x => 1}])", "$API->new_muldim_array('int[][]', [$API->new_int_array([1]), $API->new_long_array([1])])", "$API->new_muldim_array('int[][]', [5])", "$API->new_object_array('No::Such[]', [])", "$API->new_object_array('int[]', [])",
                     "$API->new_object_array('VX::N', [])", "$API->new_object_array('VX::N[][]', [])", "$API->new_muldim_array('int[]', [])", "$API->new_mulnum_array('int[]', [])", "$API->new_mulnum_array('VX::N[]', [])", "$API->new_int_array_len(-1)", "$API->new_string_array_len(-1)", "$API->new_object_array_len('VX::N[]', -1)",
                     "$API->new_muldim_array_len('int[][]', -1)", "$API->new_mulnum_array_len('VX::P_2i[]', -1)", "$API->new_options([])", "$API->new_options({a => 5})", "$API->new_options({a => SPVM::VX::N->new(1), b => []})", "$API->dump(5)", "$API->new_object_array('VX::P_2i[]', [])", "$API->new_object_array('', [])", "$API->new_int_array_from_bin(undef)",
                     "$API->new_int_array_from_bin([])", "$API->new_int_array_from_bin('abc')", "$API->new_mulnum_array_from_bin('VX::P_2i[]', 'abcd')", "$API->new_mulnum_array_from_bin('VX::P_2i[]', undef)", "$API->new_mulnum_array_from_bin('VX::N[]', '')", "$API->new_string({})", "$API->set_exception([])", "$API->new_muldim_array('No::Such[][]', [])"]
            self.ck(src.choice(lists), '"DIE"')
        elif k == "exc":
            m = src.choice(["e1", "", "\u3042"])
            lit = '"' + "".join("\\x{%x}" % ord(c) for c in m) + '"'
            self.ck("$API->set_exception(%s); my $x = $API->get_exception; $API->set_exception(undef); ($x, $API->get_exception)" % lit, '"S%s;u"' % m.encode().hex())
        elif k == "temp":
            # temporaries
            t, o = self.new()
            self.ck("(%s)->value" % t, '"i%d"' % o.v)
            self.L.append("SPVM::VX->nothing1(%s);" % t)
        elif k == "refs":
            x, y = src.int(0, 99), src.int(0, 99)
            n = src.int(0, 5)
            self.ck("my ($r, $p, $q) = (%d, {x => 5, y => %d}, 0.25); my $z = SPVM::VX->refarr([1 .. %d], \\$r, 'abc', \\$p, undef, \\$q); ($z, $r, $p, 0 + ($q == 0.5))" % (x, y, n), '"i3;i%d;{x=i5,y=i%d};i1"' % (x + n, y + 1))
        elif k == "deep":
            n = src.choice([5, 900, 990])
            self.ck("SPVM::VX->deep(%d)" % n, '"i%d"' % n)
            self.ck("SPVM::VX->deep(%d)" % src.choice([1001, 1500]), '"DIE"')
        elif k == "options":
            j = src.below(len(self.vars))
            n = src.int(0, 3)
            self.ck("SPVM::VX->count($API->new_options({%s}))" % ", ".join("k%d => $V{%d}" % (z, src.below(len(self.vars))) for z in range(n)), '"i%d"' % (2 * n))
        self.ck("SPVM::VX->alive", '"i%d"' % self.alive())


def case(src, ctx):
    g = G(src)
    for _ in range(src.int(10, 60)):
        g.step()
    code = "@BAD = (); $N = 0; %V = ();\nmy $start = $API->get_memory_blocks_count;\n" + "\n".join(g.L) + "\n%V = (); SPVM::VX->drop; $API->set_exception(undef);\nck { SPVM::VX->alive } 'i0';\nck { $API->get_memory_blocks_count } \"i$start\"; push @REC, $N, @BAD;"
    p = perl(ctx)
    try:
        r = p.run(code)
    except perlx.PerlCrash as e:
        ctx.memo.pop("perl", None)
        raise pbt.Violation("%s\n%s\n%s" % (e, e.err.decode("utf8", "replace")[-1000:], code), "crash")
    if r[-1]:
        raise pbt.Violation("the snippet failed: %s\n%s" % (r[-1].decode("utf8", "replace")[:600], code), "snippet")
    if len(r) > 2:
        # the blocks stay: start anew
        p.kill()
        ctx.memo.pop("perl", None)
        raise pbt.Violation("%s\n%s" % (b"\n".join(r[1:-1]).decode("utf8", "replace"), code), "history")
    return pbt.Info("thrown" in g.tags and len(g.tags) > 5, sorted(g.tags), "\n".join(g.L[:4])[:600], digest=code, evals=int(r[0]))


SUITES = [Suite("border", case, 4000, 120000, variants=(), chunk=30)]
META = dict(
    statement="An SPVM object lives exactly as long as Perl or SPVM still holds it, whatever the history of calls across the border: every way of calling a method selects the same method and gives the same result, an exception thrown by SPVM arrives in Perl with its message and error id and leaves both sides usable, and a call that fails, for whatever reason, neither leaks nor frees an object nor changes its arguments.",
    over=["histories", "inputs"], quant="all sequences of creations, calls, stores, drops, failures and conversions from Perl",
    why="the unit tests call each method once with right arguments; failures in the middle of the conversion of an argument list, calls with unknown names, objects held from both sides and repeated failures are not sampled",
    files=["SPVM.xs", "lib/SPVM/ExchangeAPI.pm", "lib/SPVM/BlessedObject.pm", "lib/SPVM/BlessedObject/Class.pm", "lib/SPVM.pm"],
    mech=[("reference counts of objects owned by Perl", "SPVM.xs SPVM_XS_UTIL_new_sv_blessed_object"), ("exceptions and error ids", "SPVM.xs _xs_call_method"), ("method name resolution", "SPVM.xs _xs_call_method, lib/SPVM.pm")],
    observe=["results", "exceptions and their ids", "number of live objects", "number of live memory blocks"],
    technique="stateful property-based testing against a model of the object graph",
    note="Histories of 10 to 60 operations in one Perl process, compared operation by operation with a model; the live object and memory block counts are checked during and after each history.")
