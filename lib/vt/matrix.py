"""Cases that call many small generated methods of one class with random arguments and compare with a reference.

An Op is one method; the class of all of them is compiled once per worker chunk, for the VM or as precompiled code."""
from . import drv as D, pbt, sem


class Op:
    __slots__ = ("name", "params", "ret", "body", "ref", "gen", "tag", "src")

    def __init__(self, params, ret, body, ref, tag, gen=None):
        """params: [types]; body: source with $a $b ...; ref(*values) -> value, raises sem.Die / sem.UB;
        gen(src) -> list of argument values (default: draw_num of each type)."""
        self.params, self.ret, self.body, self.ref, self.tag, self.gen = params, ret, body, ref, tag, gen


VN = "abcdefgh"


def class_source(ops, cls="T", extra="", attr="", uses=()):
    out = ["class %s {" % cls] + ["  use %s;" % u for u in uses] + [extra]
    for i, o in enumerate(ops):
        o.name = "m%d" % i
        o.src = "  %sstatic method %s : %s (%s) { %s }" % (attr, o.name, o.ret, ", ".join("$%s : %s" % (VN[k], t) for k, t in enumerate(o.params)), o.body)
        out.append(o.src)
    out.append("}")
    return "\n".join(out)


def load(ctx, key, ops, variant="plain", precompile=False, extra="", uses=(), classes=()):
    """The driver with the class compiled (once per chunk)."""
    if ctx.memo.get("loaded") == key:
        return ctx.drv(variant)
    ctx.memo["loaded"] = None
    d = ctx.drv(variant)
    src = class_source(ops, "T", extra, "precompile " if precompile else "", uses)
    cl = [("T", src)] + list(classes)
    if precompile:
        r = d.precompiled(ctx.infos[variant], cl, ["T"], ctx.scratch(), opt="-O2", cache=True)
    else:
        r = d.program(cl)
    if r.code:
        lines = src.split("\n")
        import re
        m = re.search(r"line (\d+)", r.errors[0]) if r.errors else None
        ln = int(m.group(1)) if m else 0
        raise pbt.Violation("the operator matrix does not compile: %s\n%s" % ("; ".join(r.errors[:2]), lines[ln - 1][:400] if 0 < ln <= len(lines) else ""), "rejected")
    ctx.memo["loaded"] = key
    return d


def to_arg(t, v):
    if v is None:
        return None
    if t == "float":
        return ("f", v)
    if t == "double":
        return ("d", v)
    if t.endswith("[]") and isinstance(v, list):
        if t == "string[]":
            return ("strs", v)
        return ("arr", sem.CHR[t[:-2]], v)
    return v


def expect(op, vals):
    """-> ('ok', rec) | ('die', first line) | None when outside the defined domain."""
    try:
        r = op.ref(*vals)
    except sem.UB:
        return None
    except sem.Die as e:
        return ("die", e.msg if e.msg != b"*" else None)
    return ("ok", sem.rec(op.ret, r) if op.ret in sem.NUM else r)


def outcome(c, ret):
    if c.status == "ok":
        r = c.ret
        if ret in ("float", "double") and isinstance(r, tuple):
            r = sem.norm(r)
        return ("ok", r)
    return ("die", c.msg.split(b"\n")[0])


def call_op(d, op, vals):
    try:
        c = d.call("T", op.name, *[to_arg(t, v) for t, v in zip(op.params, vals)])
    except D.Crash as e:
        raise pbt.Violation("%s with (%s): %s" % (op.src.strip(), ", ".join(map(repr, vals)), str(e)[:1500]), op.tag)
    if c.leak:
        raise pbt.Violation("%s with (%s): %d memory blocks are left after the call" % (op.src.strip(), ", ".join(map(repr, vals)), c.leak), "leak")
    return outcome(c, op.ret)


def matrix_case(ops, key, calls=40, variant="plain", precompile=False, extra="", uses=(), classes=()):
    def case(src, ctx):
        d = load(ctx, key, ops, variant, precompile, extra, uses, classes)
        tags, dig, shown = set(), [], []
        n = 0
        for _ in range(calls):
            op = src.choice(ops)
            vals = op.gen(src) if op.gen else [sem.draw_num(src, t) for t in op.params]
            exp = expect(op, vals)
            if exp is None:
                continue
            try:
                got = call_op(d, op, vals)
            except pbt.Violation:
                ctx.memo.clear()
                raise
            n += 1
            if exp == ("die", None) and got[0] == "die":
                got = exp
            if got != exp:
                ctx.memo.clear()
                raise pbt.Violation("%s%s with (%s): expected %r, got %r" % ("precompiled: " if precompile else "", op.src.strip(), ", ".join(map(repr, vals)), exp, got), op.tag)
            tags.add(op.tag if exp[0] == "ok" else "dies")
            dig.append((op.name, repr(vals)))
            if len(shown) < 3:
                shown.append("%s (%s) -> %r" % (op.src.strip(), ", ".join(map(repr, vals)), exp))
        return pbt.Info(n > 0, sorted(tags), "\n".join(shown), digest=dig, evals=n)
    return case
