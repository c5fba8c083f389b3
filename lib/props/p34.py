"""P34: runtime environments made at run time.  Histories over Native::Compiler, Native::Env, Native::Stack and Native::API against a model of the environments."""
import os
from vt import pbt, build
from vt import drv as drvmod
from vt.pbt import Suite

TITLE = "Environments made at run time live apart and do what they are told"
RULE = ("One case is a history of 12 to 45 operations on up to 3 runtime environments with up to 3 call stacks each (made by Native::Compiler, Native::Runtime, Native::Env): INIT blocks, calls, exceptions, "
        "command information, the destruction of the class variables, new stacks, dropped stacks and dropped compilers; every result is compared with a model. Non-trivial: at least 8 operations on at least 2 environments, one of which after INIT.")

H = """class H : public {
  use Native; use Native::Compiler; use Native::Env; use Native::Stack; use Native::Runtime; use Native::API; use Native::MethodCall; use Native::MethodCall::Error::ExceptionThrown; use Error::Compile; use Fn;
  our $C : Native::Compiler[]; our $E : Native::Env[]; our $S : Native::Stack[];
  our $PROG : mutable string; our $ARGV : string[];
  static method setup : void () { $C = new Native::Compiler[3]; $E = new Native::Env[3]; $S = new Native::Stack[9]; }
  static method err : string () { my $x = $@; $@ = undef; return "died;$x"; }
  static method open : string ($i : int, $dir : string, $std : string) {
    my $c = Native::Compiler->new; $c->add_include_dir($dir); $c->add_include_dir($std); $c->set_start_file("F"); $c->set_start_line(1);
    $C->[$i] = $c;
    eval { $c->compile("K34"); }
    if ($@) { return &err; }
    $E->[$i] = $c->get_runtime->get_env;
    return "ok";
  }
  static method stack : string ($i : int, $k : int) { $S->[$i * 3 + $k] = $E->[$i]->new_stack; return "ok"; }
  static method drop : string ($i : int, $k : int) { $S->[$i * 3 + $k] = undef; return "ok"; }
  static method close : string ($i : int) { for (my $k = 0; $k < 3; $k++) { $S->[$i * 3 + $k] = undef; } $E->[$i] = undef; $C->[$i] = undef; return "ok"; }
  static method api : Native::API ($i : int, $k : int) { return Native::API->new($E->[$i], $S->[$i * 3 + $k]); }
  static method wrong : string ($i : int, $j : int, $k : int) { eval { if ($i < 0) { Native::API->new(undef, $S->[$j * 3 + $k]); } else { Native::API->new($E->[$i], undef); } } if ($@) { $@ = undef; return "died"; } return "ok"; }
  static method init : string ($i : int, $k : int) { my $a = &api($i, $k); eval { $a->call_init_methods; } if ($@) { return &err; } return "ok"; }
  static method destroy : string ($i : int, $k : int) { my $a = &api($i, $k); $a->destroy_class_vars; return "ok"; }
  static method getex : string ($i : int, $k : int) { my $a = &api($i, $k); my $x = $a->get_exception; if ($x) { return "ok;$x"; } return "undef"; }
  static method setex : string ($i : int, $k : int, $m : string) { my $a = &api($i, $k); $@ = undef; $a->set_exception($m); if ($@) { return "leaks;$@"; } return "ok"; }
  static method prog : string ($i : int, $k : int, $m : string) { my $a = &api($i, $k); if ($m) { $PROG = (mutable string)copy $m; } else { $PROG = undef; } eval { $a->set_command_info_program_name($PROG); } if ($@) { return &err; } return "ok"; }
  static method argv : string ($i : int, $k : int, $m : string[]) { my $a = &api($i, $k); $ARGV = $m; eval { $a->set_command_info_argv($m); } if ($@) { return &err; } return "ok"; }
  static method base : string ($i : int, $k : int, $m : long) { my $a = &api($i, $k); $a->set_command_info_base_time($m); return "ok"; }
  static method spoil : string () { if ($PROG && length $PROG > 0) { $PROG->[0] = '#'; } if ($ARGV && @$ARGV > 0) { $ARGV->[0] = "#"; } return "ok"; }
  static method callx : string ($i : int, $k : int, $m : string, $args : object[]) {
    my $r = "ok;";
    eval {
      my $o = Native::MethodCall->new_class_method_with_env_stack($E->[$i], $S->[$i * 3 + $k], "K34", $m)->call($args);
      if ($o) { if ($o is_type Int) { $r .= $o->(Int)->value; } if ($o is_type Long) { $r .= $o->(Long)->value; } if ($o isa string) { $r .= (string)$o; } } else { $r .= "undef"; }
    }
    if ($@) { return &err; }
    return $r;
  }
  static method call0 : string ($i : int, $k : int, $m : string) { return &callx($i, $k, $m, undef); }
  static method calli : string ($i : int, $k : int, $m : string, $x : int) { return &callx($i, $k, $m, [(object)$x]); }
  static method calls : string ($i : int, $k : int, $m : string, $x : string) { return &callx($i, $k, $m, [(object)$x]); }
  static method fini : void () { for (my $i = 0; $i < 3; $i++) { &close($i); } $C = undef; $E = undef; $S = undef; $PROG = undef; $ARGV = undef; }
}
"""

KB = """class K34B : public { our $N : int; INIT { $N += 5; } static method n : int () { return $N; } }
"""

K = """class K34 {
  use K34B;
  our $I : int; our $S : string; our $O : K34; our $D : int; our $IN : int; has n : int; has next : K34;
  INIT { $IN++; $I = %d; $S = "%s"; %s }
  method DESTROY : void () { $D += $self->{n}; }
  static method seti : void ($v : int) { $I = $v; }
  static method addi : int ($v : int) { $I += $v; return $I; }
  static method geti : int () { return $I; }
  static method sets : void ($v : string) { $S = $v; }
  static method gets : string () { return $S; }
  static method hold : void ($n : int) { my $o = new K34; $o->{n} = $n; $o->{next} = $O; $O = $o; }
  static method held : int () { my $r = 0; my $o = $O; while ($o) { $r += $o->{n}; $o = $o->{next}; } return $r; }
  static method release : void () { $O = undef; }
  static method dead : int () { return $D; }
  static method inits : int () { return $IN; }
  static method fail : void ($m : string) { $I++; die $m; }
  static method caught : string ($m : string) { eval { die $m; } my $x = $@; $@ = undef; $I += 2; return $x; }
  static method rec : int ($n : int) { if ($n <= 0) { return 0; } return 1 + &rec($n - 1); }
  static method prog : string () { return CommandInfo->PROGRAM_NAME; }
  static method argv : string () { my $a = CommandInfo->ARGV; unless ($a) { return undef; } my $r = "" . @$a; for my $s (@$a) { $r .= "|" . $s; } return $r; }
  static method b : int () { return K34B->n; }
  static method base : long () { return CommandInfo->BASE_TIME; }
}
"""


def text(r):
    return (r.ret[1] if isinstance(r.ret, tuple) else r.ret).decode("latin-1")


class Env:
    def __init__(e, iv, sv, bad):
        e.iv, e.sv, e.bad = iv, sv, bad
        e.I, e.S, e.O, e.D, e.IN = 0, None, [], 0, 0
        e.prog, e.argv, e.base = None, None, 0
        e.ex = {}
        e.inited = False
        e.b = 0


OPS = [("init", 3), ("call", 16), ("getex", 5), ("setex", 3), ("prog", 3), ("argv", 3), ("base", 2), ("spoil", 3), ("destroy", 1), ("stack", 3), ("drop", 1), ("open", 3), ("close", 1), ("wrong", 1)]
WORDS = ["a", "xyz", "", "%s%d", "p.spvm", "A\\tB", "long" * 30]


def env_case(variant):
    def case(src, ctx):
        drv = ctx.drv(variant)
        std = os.path.join(build.REPO, "blib", "lib", "SPVM")
        hist, envs, used = [], {}, set()
        n = src.int(12, 45)
        done_init = 0

        def show():
            return "\n".join(hist)

        def step(want, what, meth, *args):
            hist.append("%s%s   -> %s" % (meth, tuple(args), what if what is not None else want))
            r = drv.call("H", meth, *args)
            if r.status != "ok":
                raise pbt.Violation("H->%s throws %r\n%s" % (meth, r.msg, show()), key="p34-throws")
            t = text(r)
            if isinstance(want, tuple):
                good = t.split("\n")[0] == want[0]
            else:
                good = t == want
            if not good:
                raise pbt.Violation("H->%s%s gives %r, expected %r\n%s" % (meth, tuple(args), t, want, show()), key="p34-" + meth)
            return t
        try:
            drv.new("v")
            drv.add("H", H)
            res = drv.compile("H")
            if res.code:
                raise pbt.Violation("H is rejected: %s" % res.errors[:3], key="p34-compile")
            if drv.envinit()[0]:
                raise pbt.Discard
            drv.call("H", "setup")
            dirs = ctx.scratch()
            for _ in range(n):
                op = src.weighted([(w, o) for o, w in OPS])
                live = [(i, k) for i in envs for k in envs[i].ex]
                if op == "open" or not envs:
                    free = [i for i in range(3) if i not in envs]
                    if not free:
                        continue
                    i = src.choice(free)
                    e = Env(src.int(-100, 100), src.choice(["s", "tt", "u" * 40]), src.chance(1, 6))
                    d = os.path.join(dirs, "e%d" % i)
                    os.makedirs(d, exist_ok=True)
                    with open(os.path.join(d, "K34.spvm"), "w") as f:
                        f.write(K % (e.iv, e.sv, 'die "bad init";' if e.bad else ""))
                    with open(os.path.join(d, "K34B.spvm"), "w") as f:
                        f.write(KB)
                    step("ok", None, "open", i, d, std)
                    envs[i] = e
                    used.add(i)
                    step("ok", None, "stack", i, 0)
                    e.ex[0] = None
                    if src.chance(4, 5):
                        op, live = "init", [(i, 0)]
                    else:
                        continue
                if op == "stack":
                    i = src.choice(sorted(envs))
                    free = [k for k in range(3) if k not in envs[i].ex]
                    if free:
                        k = src.choice(free)
                        step("ok", None, "stack", i, k)
                        envs[i].ex[k] = None
                    continue
                if not live:
                    continue
                i, k = src.choice(live)
                e = envs[i]
                if op == "drop":
                    if len(e.ex) > 1:
                        step("ok", None, "drop", i, k)
                        del e.ex[k]
                    continue
                if op == "close":
                    step("ok", None, "destroy", i, k)
                    step("ok", None, "close", i)
                    del envs[i]
                    continue
                if op == "wrong":
                    step("died", None, "wrong", src.choice([-1, i]), i, k)
                    continue
                if op == "init":
                    first = not e.inited
                    if first:
                        e.IN, e.I, e.S, e.inited = 1, e.iv, e.sv, True
                    done_init += 1
                    e.b = None if first and e.bad else 5
                    if e.bad and first:
                        step(("died;bad init",), None, "init", i, k)
                        e.ex[k] = "any"
                    else:
                        step("ok", None, "init", i, k)
                        e.ex[k] = e.ex[k] and "any"
                elif op == "getex":
                    x = e.ex[k]
                    if x == "any":
                        continue
                    step("undef" if x is None else ("ok;" + x,) if x else "ok;", None, "getex", i, k)
                elif op == "setex":
                    m = src.choice(["boom", "x", "", None])
                    step("ok", None, "setex", i, k, None if m is None else m.encode())
                    e.ex[k] = m
                elif op == "prog":
                    m = src.choice(WORDS + [None])
                    if m is None:
                        t = step(("died;The obj_program_name must be defined.",), None, "prog", i, k, None)
                        e.ex[k] = "any"
                    else:
                        step("ok", None, "prog", i, k, m.encode())
                        e.prog = m
                elif op == "argv":
                    m = [src.choice(WORDS) for _ in range(src.below(4))]
                    step("ok", None, "argv", i, k, ("strs", [x.encode() for x in m]))
                    e.argv = m
                elif op == "base":
                    m = src.choice([0, 1, -1, 1 << 40, (1 << 63) - 1])
                    step("ok", None, "base", i, k, m)
                    e.base = m
                elif op == "spoil":
                    step("ok", None, "spoil")
                elif op == "destroy":
                    e.D += sum(e.O)
                    e.O, e.S, e.prog, e.argv = [], None, None, None
                    step("ok", None, "destroy", i, k)
                elif op == "call":
                    m = src.choice(["seti", "addi", "geti", "sets", "gets", "hold", "held", "release", "dead", "inits", "fail", "caught", "rec", "prog", "argv", "base", "b", "no"])
                    v = src.choice([0, 1, -5, 1000, 2147483000])
                    if m == "seti":
                        e.I = v
                        step("ok;undef", None, "calli", i, k, m, v)
                    elif m == "addi":
                        e.I = (e.I + v + (1 << 31)) % (1 << 32) - (1 << 31)
                        step("ok;%d" % e.I, None, "calli", i, k, m, v)
                    elif m == "geti":
                        step("ok;%d" % e.I, None, "call0", i, k, m)
                    elif m == "sets":
                        w = src.choice(WORDS)
                        e.S = w
                        step("ok;undef", None, "calls", i, k, m, w.encode())
                    elif m == "gets":
                        step("ok;" + ("undef" if e.S is None else e.S), None, "call0", i, k, m)
                    elif m == "hold":
                        v = src.int(1, 9)
                        e.O.append(v)
                        step("ok;undef", None, "calli", i, k, m, v)
                    elif m == "held":
                        step("ok;%d" % sum(e.O), None, "call0", i, k, m)
                    elif m == "release":
                        e.D += sum(e.O)
                        e.O = []
                        step("ok;undef", None, "call0", i, k, m)
                    elif m == "dead":
                        step("ok;%d" % e.D, None, "call0", i, k, m)
                    elif m == "inits":
                        step("ok;%d" % e.IN, None, "call0", i, k, m)
                    elif m == "fail":
                        w = src.choice(["one", "two %s", "x" * 50])
                        e.I = (e.I + 1 + (1 << 31)) % (1 << 32) - (1 << 31)
                        step(("died;" + w,), None, "calls", i, k, m, w.encode())
                        e.ex[k] = w
                        continue
                    elif m == "caught":
                        w = src.choice(["one", "three"])
                        e.I = (e.I + 2 + (1 << 31)) % (1 << 32) - (1 << 31)
                        step(("ok;" + w,), None, "calls", i, k, m, w.encode())
                    elif m == "rec":
                        v = src.choice([0, 3, 50])
                        step("ok;%d" % v, None, "calli", i, k, m, v)
                    elif m == "prog":
                        step("ok;" + ("undef" if e.prog is None else e.prog), None, "call0", i, k, m)
                    elif m == "argv":
                        step("ok;" + ("undef" if e.argv is None else "|".join([str(len(e.argv))] + e.argv)), None, "call0", i, k, m)
                    elif m == "b":
                        if e.b is None:
                            continue
                        step("ok;%d" % e.b, None, "call0", i, k, m)
                    elif m == "base":
                        step("ok;%d" % e.base, None, "call0", i, k, m)
                    else:
                        r = drv.call("H", "call0", i, k, "no_such")
                        if r.status != "ok" or not text(r).startswith("died;"):
                            raise pbt.Violation("a call of a method that does not exist gives %r\n%s" % (r.ret, show()), key="p34-no")
                        continue
                    if e.ex[k] is not None:
                        e.ex[k] = "any"
            for i in sorted(envs):
                e = envs[i]
                k = sorted(e.ex)[0]
                step("ok;%d" % e.I, None, "call0", i, k, "geti")
                step("ok;" + ("undef" if e.S is None else e.S), None, "call0", i, k, "gets")
                step("ok;%d" % e.D, None, "call0", i, k, "dead")
                step("ok", None, "destroy", i, k)
                step("ok;%d" % (e.D + sum(e.O)), None, "call0", i, k, "dead")
            drv.call("H", "fini")
            drv.done()
        except drvmod.Crash as x:
            raise pbt.Violation("crash: %s\n%s" % (str(x)[:900], show()), key="p34-crash")
        return pbt.Info(len(hist) >= 10 and len(used) >= 2 and done_init >= 1, tags=sorted(set(h.split("(")[0] for h in hist)), sample=show()[:700], digest=show(), evals=len(hist))
    return case


SUITES = [
    Suite("environments", env_case("plain"), 2500, 20000, variants=("plain",), chunk=20),
    Suite("environments-asan", env_case("asan"), 250, 3000, variants=("asan",), chunk=6),
]

META = dict(
    statement="Runtime environments made at run time by Native::Compiler are independent: the class variables, INIT blocks, command information and held objects of one are neither seen nor changed by operations on another or by the program that made them, and all call stacks of one environment share its class variables but have exceptions of their own. Native::API#call_init_methods runs every INIT block of the environment once and throws what an INIT block throws; set_exception and get_exception set and get the exception of the given call stack only; set_command_info_program_name and set_command_info_argv copy what they are given; destroy_class_vars sets every object class variable to undef and destroys the objects exactly once. Dropping stacks, environments and compilers in the order of ownership is safe.",
    over=["histories", "inputs"], quant="all histories of operations on up to three environments with up to three call stacks each",
    why="the unit tests make one environment with one stack and call one method; what one environment does to another, or one stack to another, shows only in histories",
    files=["lib/SPVM/Native/API.c", "lib/SPVM/Native/Env.c", "lib/SPVM/Native/Stack.c", "lib/SPVM/Native/Compiler.c", "lib/SPVM/Native/MethodCall.c", "lib/SPVM/Builder/src/spvm_api.c"],
    mech=[("operations on an environment", "lib/SPVM/Native/API.c"), ("environments and stacks", "lib/SPVM/Native/Env.c, Stack.c, Compiler.c"), ("INIT, class variables, command information", "spvm_api.c SPVM_API_call_init_methods, SPVM_API_destroy_class_vars, SPVM_API_set_command_info_*")],
    observe=["the results and exceptions of every operation","the values read back through each environment","invalid memory accesses (address sanitizer)"],
    technique="stateful property-based testing: generated histories over several runtime environments against a reference model, in the VM and with address sanitizer",
    note="Generated histories of operations on several runtime environments against a Python model.")
