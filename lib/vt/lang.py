"""Cases that run generated programs whose meaning is known (prog.py) on the VM or as precompiled code."""
from . import build, prog, pbt


def gen(src, cfg=None, precompile=False):
    g = prog.Gen(src, cfg)
    text = g.program(precompile=precompile)
    exp = g.run()
    return g, text, exp


def compare(exp, c, text, where):
    status, msg, tr = exp
    got = prog.norm_trace(c.trace)
    if c.status != status or c.msg != msg or not prog.trace_eq(tr, got):
        d = "" if prog.trace_eq(tr, got) else "; " + prog.first_diff(tr, got)
        raise pbt.Violation("%s: expected %s %r, got %s %r%s\n%s" % (where, status, msg, c.status, c.msg, d, number(text)), "differs")


def number(text):
    return "\n".join("%4d %s" % (i + 1, l) for i, l in enumerate(text.split("\n")))


def run(ctx, g, text, exp, variant="plain", precompile=False, extra=()):
    d = ctx.drv(variant)
    classes = [("T", text)] + list(prog.HELPERS) + list(extra)
    if precompile:
        r = d.precompiled(ctx.infos[variant], classes, ["T"], ctx.scratch())
    else:
        r = d.program(classes)
    where = "precompiled" if precompile else "VM"
    if r.code:
        raise pbt.Violation("%s: a correct program is rejected: %s\n%s" % (where, "; ".join(r.errors[:3]), number(text)), "rejected")
    c = d.call("T", "main")
    compare(exp, c, text, where)
    rest, tr, out, err = d.done()
    if not g.cyc and (c.leak or rest != 4):
        raise pbt.Violation("%s: %d memory blocks left by the call, %d at the end\n%s" % (where, c.leak, rest - 4, number(text)), "leak")
    return c


def programs(cfg=None, variant="plain", precompile=False, minops=8, minsteps=4):
    """A case function: one generated program."""
    def case(src, ctx):
        g, text, exp = gen(src, cfg, precompile)
        run(ctx, g, text, exp, variant, precompile)
        return pbt.Info(g.nops >= minops and g.S.steps >= minsteps and len(exp[2]) >= 1, sorted(g.tags) + ["ends:" + exp[0]], text, digest=text)
    return case
