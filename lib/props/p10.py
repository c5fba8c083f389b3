from vt import life, lang, pbt
from vt.pbt import Suite

TITLE = "Exceptions reach the innermost eval block with their message, trace and ID"
RULE = ("One case is a generated program that throws (die in all its forms, run-time errors), catches, rethrows and changes the exception variable in nested eval blocks, loops and calls across two classes, "
        "compared with a reference model; or a recursion of random depth. Non-trivial: distinct program in which at least one exception is caught.")
META = dict(
    statement="A die statement or a failing operation leaves every frame and block up to the innermost enclosing eval block, or ends the program's call; nothing after it runs, and the locals of every scope left are released. $@ then is the message given (Error if none) followed by one line for each frame passed, naming class, method, file and line; eval_error_id is the ID of the error class given, Error otherwise, and isa_error and is_error judge it by the class hierarchy. Each eval block starts with $@ undef and ID 0, and $@ keeps what was last set, across calls and destructors. Rethrowing keeps the message. return, next and last inside eval blocks work as outside. This holds for any nesting, across methods of several classes, interpreted or precompiled or mixed, called by native code or not.",
    over=["programs", "histories"], quant="all programs that throw, catch and rethrow at any nesting",
    why="tests throw and catch in a few fixed shapes; unwinding depends on the combination of blocks, loops, frames and compiled code that is left",
    files=["lib/SPVM/Builder/src/spvm_opcode_builder.c", "lib/SPVM/Builder/src/spvm_vm.c", "lib/SPVM/Builder/src/spvm_precompile.c", "lib/SPVM/Builder/src/spvm_api.c", "lib/SPVM/Builder/include/spvm_implement.h", "lib/SPVM/Document/Language/ExceptionHandling.pm"],
    mech=[("jump targets of exceptions in eval blocks and loops", "lib/SPVM/Builder/src/spvm_opcode_builder.c"), ("stack trace lines", "lib/SPVM/Builder/src/spvm_api.c")],
    observe=["recorded values, $@ texts, eval_error_id tests and destructor calls", "message and error class of uncaught exceptions", "live memory blocks"],
    technique="model-based property testing of generated programs against a reference model of exceptions",
    note="Generated programs against a reference model. A die with the ID 0 is a recorded finding and not generated.")


def deep(src, ctx):
    """Recursion of random depth through methods of two classes, interpreted or precompiled, and native frames."""
    pre = [c for c in "TU" if src.chance(1, 2)] if src.chance(1, 12) else []
    nat = src.chance(1, 3)
    n = src.int(1, 44 if nat else 90)       # a trace has at most 100 frames
    at = src.int(0, n)          # depth at which it is caught
    t = """class T { use U; use VT; use CB; our $D : int; our $AT : int;
 %sstatic method f : int ($n : int) {
   my $s = "x" . $n;
   if ($n == 0) { die Error::System "deep"; }
   if ($n == $AT) {
     eval { U->g($n - 1); };
     VT->o($@); VT->i(eval_error_id isa_error Error::System);
     return $n;
   }
   return U->g($n - 1);
 }
 static method main : int ($n : int, $at : int) { $AT = $at; return &f($n); }
}""" % ("precompile " if "T" in pre else "")
    u = """class U { use T; use CB; use VT;
 %sstatic method g : int ($n : int) {
   my $o = new CB;
   $o->{n} = $n;
   if ($n == 0) { die Error::System "deep"; }
   %s
 }
}""" % ("precompile " if "U" in pre else "", "VT->call0($o); return $o->{n};" if nat else "return T->f($n - 1);")
    cb = """class CB : public { use T; has n : rw public int;
 method : void () {
   $self->{n} = T->f($self->{n} - 1);
 }
}"""
    d = ctx.drv("plain")
    cl = [("T", t), ("U", u), ("CB", cb)]
    r = d.precompiled(ctx.infos["plain"], cl, pre, ctx.scratch(), opt="-O1") if pre else d.program(cl)
    if r.code:
        raise pbt.Violation("rejected: %s" % r.errors, "rejected")
    c = d.call("T", "main", n, at)
    # the model: frames from the innermost
    fr = []
    k = n
    top = []
    isT = True
    caught = None
    stack = []
    while True:
        if isT:
            stack.append(("T", k))
            if k == 0:
                break
        else:
            stack.append(("U", k))
            if k == 0:
                break
            if nat:
                stack.append(("CB", k))
        isT = not isT
        k -= 1
    msg = "deep"
    got = None
    for i in range(len(stack) - 1, -1, -1):
        w, k = stack[i]
        leaf = i == len(stack) - 1
        if w == "T":
            ln = 4 if leaf else 6 if k == at else 10
            msg += "\n  T->f at T.spvm line %d" % ln
            if k == at and not leaf:
                got = msg
                break
        elif w == "U":
            msg += "\n  U->g at U.spvm line %d" % (5 if leaf else 6)
        else:
            msg += "\n  CB-> at CB.spvm line 3"
    # deeper traces are cut; only complete ones are compared in full
    where = "depth %d caught at %d%s precompiled %s: " % (n, at, " native" if nat else "", pre)
    if got is not None:
        if c.status != "ok" or len(c.trace) != 2 or c.trace[1] != 1:
            raise pbt.Violation(where + "%r" % c, "deep")
        m = c.trace[0].decode()
    else:
        msg += "\n  T->main at T.spvm line 12"
        got = msg
        if c.status != "die" or c.err != "Error::System":
            raise pbt.Violation(where + "%r" % c, "deep")
        m = c.msg.decode()
    if m != got:
        raise pbt.Violation(where + "expected %r, got %r" % (got, m), "trace")
    rest = d.done()[0]
    if c.leak or rest != 4:
        raise pbt.Violation(where + "%d blocks left" % c.leak, "leak")
    return pbt.Info(n > 1, ["native" if nat else "plain", "depth%d" % (n // 30)], where, digest="%d %d %d %s" % (n, at, nat, pre))


def zero(d):
    d.program([("T", "class T { use VT; static method z : int ($n : int) { die $n, \"zero\"; return 1; } static method main : int () { eval { &z(0); VT->i(77); }; return 1; } }")])
    c = d.call("T", "main")
    return c.trace == [77]


KNOWN = [("die-id-0", "die with the error ID 0 (die $n, \"...\" with $n == 0) sets $@ but throws no exception: the caller goes on after the call", zero)]

SUITES = [
    Suite("vm", life.case(2, 1, "vm"), 10000, 200000, chunk=200),
    Suite("pure", life.case(2, 0, "vm"), 6000, 100000, chunk=200),
    Suite("precompile", life.case(2, 1, "pre"), 250, 8000, chunk=10),
    Suite("mixed", life.case(2, 1, "mix"), 250, 8000, chunk=10),
    Suite("deep", deep, 2000, 20000, chunk=25),
    Suite("programs", lang.programs(dict(evals=True, throws=True, loops=True, switch=True, stmts=8)), 300, 8000, chunk=50),
]
