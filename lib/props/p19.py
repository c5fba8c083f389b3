import struct
from vt import sem, pbt, matrix
from vt.matrix import Op
from vt.pbt import Suite
from vt.sem import Die

TITLE = "List, hash and string buffer classes behave as their abstract data types"
RULE = ("One case is a history of 1 to 60 operations on one container, replayed inside SPVM and on the model; after each operation the result or exception, "
        "the whole content, the internal invariants and the reference counts of all elements are compared. Non-trivial: at least 5 operations that succeed.")
ASSUMPTIONS = ["the order of the keys of a hash is unspecified", "a list of a typed array is not used after an exception for an element of another type"]

ELEM = {"Byte": "byte", "Short": "short", "Int": "int", "Long": "long", "Float": "float", "Double": "double"}
FMT = {"byte": "b", "short": "h", "int": "i", "long": "q", "float": "f", "double": "d"}


def arr(t, xs):
    return ("N", t + "[]", struct.pack("<%d%s" % (len(xs), FMT[t]), *xs))


# ---------------------------------------------------------------- the SPVM side
def tr(t):
    return {"float": "f", "double": "d"}.get(t, "i")


def xlist_class(X):
    t = ELEM[X]
    L = X + "List"
    return """class H%(X)s {
  use VT; use %(L)s;
  static method slice : %(t)s[] ($v : %(t)s[], $n : int) {
    if ($n < 0) { return undef; }
    my $o = $n %% 256; my $l = $n / 256;
    my $r = new %(t)s[$l];
    for (my $i = 0; $i < $l; $i++) { $r->[$i] = $v->[$o + $i]; }
    return $r;
  }
  %(p)sstatic method run : void ($ops : int[], $v : %(t)s[]) {
    my $l = (%(L)s)undef;
    for (my $i = 0; $i < @$ops; $i += 4) {
      my $a = $ops->[$i + 1]; my $b = $ops->[$i + 2]; my $c = $ops->[$i + 3];
      my $ok = 0;
      eval {
        switch ($ops->[$i]) {
          case 0: { $l->push($v->[$a]); break; }
          case 1: { VT->%(tr)s($l->pop); break; }
          case 2: { VT->%(tr)s($l->shift); break; }
          case 3: { $l->unshift($v->[$a]); break; }
          case 4: { $l->insert($a, $v->[$b]); break; }
          case 5: { VT->%(tr)s($l->remove($a)); break; }
          case 6: { $l->replace($a, $b, &slice($v, $c)); break; }
          case 7: { $l->reserve($a); break; }
          case 8: { $l->resize($a); break; }
          case 9: { $l->set($a, $v->[$b]); break; }
          case 10: { VT->%(tr)s($l->get($a)); break; }
          case 11: { my $r = $l->to_array; for (my $k = 0; $k < @$r; $k++) { $r->[$k] = (%(t)s)77; } break; }
          case 20: { $l = %(L)s->new(&slice($v, $a)); break; }
          case 21: { $l = %(L)s->new(&slice($v, $a), $b); break; }
          case 22: { $l = %(L)s->new_len($a); break; }
          case 23: { $l = %(L)s->new_len($a, $b); break; }
          case 24: { $l = %(L)s->new; break; }
          case 25: { my $s = &slice($v, $a); $l = %(L)s->new($s); if ($s) { for (my $k = 0; $k < @$s; $k++) { $s->[$k] = (%(t)s)99; } } break; }
        }
        $ok = 1;
      };
      VT->i($ok);
      if ($l) {
        VT->i($l->length); VT->i($l->capacity); VT->o($l->to_array); VT->o($l->get_array_unsafe);
      }
    }
  }
}""" % dict(X=X, L=L, t=t, tr=tr(t), p="%s")


OBJ = """class HObj {
  use VT; use List; use StringList;
  static method slice : object[] ($pool : object[], $n : int, $str : int) {
    if ($n < 0) { return undef; }
    my $o = $n % 256; my $l = $n / 256;
    my $r = (object[])undef;
    if ($str) { $r = new string[$l]; } else { $r = new object[$l]; }
    for (my $i = 0; $i < $l; $i++) { $r->[$i] = $pool->[$o + $i]; }
    return $r;
  }
  %sstatic method run : void ($ops : int[], $strs : string[], $base : int[]) {
    my $pool = new object[@$strs];
    for (my $i = 0; $i < @$strs; $i++) { $pool->[$i] = $strs->[$i]; }
    $strs = undef;
    for (my $i = 0; $i < @$pool; $i++) { if ($pool->[$i]) { $base->[$i] = VT->refcnt($pool->[$i]); } }
    my $l = (List)undef;
    for (my $i = 0; $i < @$ops; $i += 4) {
      my $a = $ops->[$i + 1]; my $b = $ops->[$i + 2]; my $c = $ops->[$i + 3];
      my $ok = 0;
      eval {
        switch ($ops->[$i]) {
          case 0: { $l->push($pool->[$a]); break; }
          case 1: { VT->o($l->pop); break; }
          case 2: { VT->o($l->shift); break; }
          case 3: { $l->unshift($pool->[$a]); break; }
          case 4: { $l->insert($a, $pool->[$b]); break; }
          case 5: { VT->o($l->remove($a)); break; }
          case 6: { $l->replace($a, $b, &slice($pool, $c, 0)); break; }
          case 7: { $l->reserve($a); break; }
          case 8: { $l->resize($a); break; }
          case 9: { $l->set($a, $pool->[$b]); break; }
          case 10: { VT->o($l->get($a)); break; }
          case 11: { my $r = $l->to_array; for (my $k = 0; $k < @$r; $k++) { $r->[$k] = undef; } break; }
          case 20: { $l = List->new(&slice($pool, $a, $c)); break; }
          case 21: { $l = List->new(&slice($pool, $a, $c), $b); break; }
          case 22: { $l = List->new_len(&slice($pool, 0, $c), $a); break; }
          case 23: { $l = List->new_len(&slice($pool, 0, $c), $a, $b); break; }
          case 24: { $l = List->new; break; }
          case 25: { $l = List->new_len(undef, $a); break; }
        }
        $ok = 1;
      };
      $@ = undef;
      VT->i($ok);
      if ($l) {
        VT->i($l->length); VT->i($l->capacity); { my $r = $l->to_array; VT->o($r); VT->o(type_name $r); }
        my $n = 0;
        for (my $k = 0; $k < @$pool; $k++) { if ($pool->[$k]) { VT->i(VT->refcnt($pool->[$k]) - $base->[$k]); } }
      }
    }
  }
  %sstatic method run_s : void ($ops : int[], $strs : string[], $base : int[]) {
    my $pool = new string[@$strs];
    for (my $i = 0; $i < @$strs; $i++) { $pool->[$i] = $strs->[$i]; }
    $strs = undef;
    for (my $i = 0; $i < @$pool; $i++) { if ($pool->[$i]) { $base->[$i] = VT->refcnt($pool->[$i]); } }
    my $l = (StringList)undef;
    for (my $i = 0; $i < @$ops; $i += 4) {
      my $a = $ops->[$i + 1]; my $b = $ops->[$i + 2]; my $c = $ops->[$i + 3];
      my $ok = 0;
      eval {
        switch ($ops->[$i]) {
          case 0: { $l->push($pool->[$a]); break; }
          case 1: { VT->o($l->pop); break; }
          case 2: { VT->o($l->shift); break; }
          case 3: { $l->unshift($pool->[$a]); break; }
          case 4: { $l->insert($a, $pool->[$b]); break; }
          case 5: { VT->o($l->remove($a)); break; }
          case 6: { $l->replace($a, $b, (string[])&slice($pool, $c, 1)); break; }
          case 7: { $l->reserve($a); break; }
          case 8: { $l->resize($a); break; }
          case 9: { $l->set($a, $pool->[$b]); break; }
          case 10: { VT->o($l->get($a)); break; }
          case 11: { my $r = $l->to_array; for (my $k = 0; $k < @$r; $k++) { $r->[$k] = undef; } break; }
          case 20: { $l = StringList->new((string[])&slice($pool, $a, 1)); break; }
          case 21: { $l = StringList->new((string[])&slice($pool, $a, 1), $b); break; }
          case 22: { $l = StringList->new_len($a); break; }
          case 23: { $l = StringList->new_len($a, $b); break; }
          case 24: { $l = StringList->new; break; }
          case 25: { $l = StringList->new_len($a); break; }
        }
        $ok = 1;
      };
      $@ = undef;
      VT->i($ok);
      if ($l) {
        VT->i($l->length); VT->i($l->capacity); { my $r = $l->to_array; VT->o($r); VT->o(type_name $r); }
        for (my $k = 0; $k < @$pool; $k++) { if ($pool->[$k]) { VT->i(VT->refcnt($pool->[$k]) - $base->[$k]); } }
      }
    }
  }
}"""

BUF = """class HBuf {
  use VT; use StringBuffer;
  %sstatic method run : void ($ops : int[], $v : string[]) {
    my $l = (StringBuffer)undef;
    my $m = (StringBuffer)undef;
    for (my $i = 0; $i < @$ops; $i += 4) {
      my $a = $ops->[$i + 1]; my $b = $ops->[$i + 2]; my $c = $ops->[$i + 3];
      my $ok = 0;
      eval {
        switch ($ops->[$i]) {
          case 0: { $l->push($v->[$a]); break; }
          case 1: { $l->push($v->[$a], $b); break; }
          case 2: { $l->push($v->[$a], $b, $c); break; }
          case 3: { $l->push_char($a); break; }
          case 4: { $l->replace($a, $b, $v->[$c]); break; }
          case 5: { $l->reserve($a); break; }
          case 6: { $l->set_length($a); break; }
          case 7: { $l->set($v->[$a]); break; }
          case 8: { my $t = $l; $l = $m; $m = $t; break; }
          case 9: { $m = $l->clone; break; }
          case 10: { VT->i($l->cmp($l, $m)); VT->i($l->eq($l, $m)); VT->i($l->cmp($m, $l)); VT->i($l->cmp(undef, $l)); VT->i($l->cmp($l, undef)); VT->i($l->eq($l, undef)); VT->i($l->eq(undef, undef)); break; }
          case 20: { $l = StringBuffer->new($v->[$a]); break; }
          case 21: { $l = StringBuffer->new($v->[$a], $b); break; }
          case 22: { $l = StringBuffer->new_len($a); break; }
          case 23: { $l = StringBuffer->new_len($a, $b); break; }
          case 24: { $l = StringBuffer->new; break; }
        }
        $ok = 1;
      };
      VT->i($ok);
      if ($l) { VT->i($l->length); VT->i($l->capacity); VT->o($l->to_string); VT->i(length $l->get_string_unsafe); }
      if ($m) { VT->o($m->to_string); } else { VT->i(-1); }
    }
  }
}"""

HASH = """class HHash {
  use VT; use Hash; use Byte; use Short; use Int; use Long; use Float; use Double;
  %sstatic method run : void ($ops : int[], $keys : string[], $vals : string[], $nums : long[], $base : int[]) {
    my $n = @$vals;
    my $pool = new object[$n];
    for (my $i = 0; $i < $n; $i++) {
      switch ($i %% 8) {
        case 0: { $pool->[$i] = copy $vals->[$i]; break; }
        case 1: { $pool->[$i] = Byte->new((int)$nums->[$i]); break; }
        case 2: { $pool->[$i] = Short->new((int)$nums->[$i]); break; }
        case 3: { $pool->[$i] = Int->new((int)$nums->[$i]); break; }
        case 4: { $pool->[$i] = Long->new($nums->[$i]); break; }
        case 5: { $pool->[$i] = Float->new((float)$nums->[$i]); break; }
        case 6: { $pool->[$i] = Double->new((double)$nums->[$i]); break; }
        case 7: { $pool->[$i] = copy $vals->[$i]; break; }
      }
    }
    $vals = undef;
    for (my $i = 0; $i < $n; $i++) { if ($pool->[$i]) { $base->[$i] = VT->refcnt($pool->[$i]); } }
    my $h = Hash->new;
    my $g = (Hash)undef;
    for (my $i = 0; $i < @$ops; $i += 4) {
      my $k = (string)undef;
      if ($ops->[$i + 1] >= 0) { $k = $keys->[$ops->[$i + 1]]; }
      my $b = $ops->[$i + 2]; my $c = $ops->[$i + 3];
      my $ok = 0;
      eval {
        switch ($ops->[$i]) {
          case 0: { $h->set($k, $b < 0 ? undef : $pool->[$b]); break; }
          case 1: { VT->o($h->get($k)); break; }
          case 2: { VT->i($h->exists($k)); break; }
          case 3: { VT->o($h->delete($k)); break; }
          case 4: { $g = $h->copy; break; }
          case 5: { $g = $h->clone; break; }
          case 6: { my $t = $h; $h = $g; $g = $t; break; }
          case 7: { VT->o($h->to_array($b)); break; }
          case 8: { VT->o($h->values); break; }
          case 9: { my $m = (mutable string)copy $k; $h->set($m, $b < 0 ? undef : $pool->[$b]); if (length $m > 0) { $m->[0] = 'Z'; } break; }
          case 10: { $h->set_byte($k, (int)$nums->[$b]); break; }
          case 11: { $h->set_short($k, (int)$nums->[$b]); break; }
          case 12: { $h->set_int($k, (int)$nums->[$b]); break; }
          case 13: { $h->set_long($k, $nums->[$b]); break; }
          case 14: { $h->set_float($k, (float)$nums->[$b]); break; }
          case 15: { $h->set_double($k, (double)$nums->[$b]); break; }
          case 16: { $h->set_string($k, "s$b"); break; }
          case 20: { VT->i($h->get_byte($k)); break; }
          case 21: { VT->i($h->get_short($k)); break; }
          case 22: { VT->i($h->get_int($k)); break; }
          case 23: { VT->i($h->get_long($k)); break; }
          case 24: { VT->f($h->get_float($k)); break; }
          case 25: { VT->d($h->get_double($k)); break; }
          case 26: { VT->o($h->get_string($k)); break; }
          case 30: { VT->i($h->get_or_default_byte($k, 7)); break; }
          case 31: { VT->i($h->get_or_default_short($k, 7)); break; }
          case 32: { VT->i($h->get_or_default_int($k, 7)); break; }
          case 33: { VT->i($h->get_or_default_long($k, 7)); break; }
          case 34: { VT->f($h->get_or_default_float($k, 7)); break; }
          case 35: { VT->d($h->get_or_default_double($k, 7)); break; }
          case 36: { VT->o($h->get_or_default_string($k, "7")); break; }
          case 37: { VT->o($h->get_or_default($k, "7")); break; }
          case 40: { VT->i($h->delete_or_default_byte($k, 7)); break; }
          case 41: { VT->i($h->delete_or_default_short($k, 7)); break; }
          case 42: { VT->i($h->delete_or_default_int($k, 7)); break; }
          case 43: { VT->i($h->delete_or_default_long($k, 7)); break; }
          case 44: { VT->f($h->delete_or_default_float($k, 7)); break; }
          case 45: { VT->d($h->delete_or_default_double($k, 7)); break; }
          case 46: { VT->o($h->delete_or_default_string($k, "7")); break; }
          case 47: { VT->o($h->delete_or_default($k, "7")); break; }
          case 50: { $h->weaken($k); break; }
          case 51: { $h->unweaken($k); break; }
          case 52: { VT->i($h->isweak($k)); break; }
          case 53: { $pool->[$b] = undef; break; }
          case 54: { $h = Hash->new([(object)"a", $pool->[$b], "b", $pool->[$c], "a", $pool->[$c]]); break; }
          case 55: { $h = Hash->new([(object)"a", $pool->[$b], "b"]); break; }
          case 56: { $h = Hash->new([(object)"a", $pool->[$b], undef, $pool->[$c]]); break; }
          case 57: { $h = Hash->new; break; }
        }
        $ok = 1;
      };
      $@ = undef;
      VT->i($ok);
      VT->i($h->keys_length); VT->i($h->has_keys); VT->o($h->keys);
      for (my $j = 0; $j < $n; $j++) { if ($pool->[$j]) { VT->i(VT->refcnt($pool->[$j]) - $base->[$j]); } }
    }
  }
}"""
# SPVM has no conditional operator
HASH = HASH.replace("$h->set($k, $b < 0 ? undef : $pool->[$b]);", "if ($b < 0) { $h->set($k, undef); } else { $h->set($k, $pool->[$b]); }")
HASH = HASH.replace("$h->set($m, $b < 0 ? undef : $pool->[$b]);", "if ($b < 0) { $h->set($m, undef); } else { $h->set($m, $pool->[$b]); }")

CLASSES = ["H" + x for x in ELEM] + ["HObj", "HBuf", "HHash"]


def program(pre):
    a = "precompile " if pre else ""
    cl = [("T", "class T {\n" + "".join("  use %s;\n" % c for c in CLASSES) + "  static method main : int () { return 1; }\n}")]
    for X in ELEM:
        cl.append(("H" + X, xlist_class(X).replace("%sstatic", a + "static")))
    cl.append(("HObj", OBJ.replace("%sstatic", a + "static")))
    cl.append(("HBuf", BUF.replace("%sstatic", a + "static")))
    cl.append(("HHash", HASH.replace("%sstatic", a + "static").replace("%%", "%")))
    return cl


def load(ctx, pre, variant):
    key = ("p19", pre, variant)
    d = ctx.drv(variant)
    if ctx.memo.get("loaded") == key:
        return d
    ctx.memo["loaded"] = None
    cl = program(pre)
    if pre:
        r = d.precompiled(ctx.infos[variant], cl, CLASSES, ctx.scratch(), opt="-O2", cache=True)
    else:
        r = d.program(cl)
    if r.code:
        raise pbt.Violation("the history classes do not compile: %s" % "; ".join(r.errors[:2]), "rejected")
    ctx.memo["loaded"] = key
    return d


class Bad(Exception):
    """The operation throws an exception and changes nothing."""


def num(t, v):
    if t == "float":
        return ("f", struct.unpack("<I", struct.pack("<f", v))[0])
    if t == "double":
        return ("d", struct.unpack("<Q", struct.pack("<d", v))[0])
    return v


def around(src, n):
    """An index or length around 0..n."""
    k = src.weighted([(20, 0), (3, 1), (1, 2)])
    if k == 0:
        return src.int(0, n)
    if k == 1:
        return src.int(-2, n + 2)
    return src.choice([2147483647, -2147483648, 2147483647 - n])


def gen_op(src, n, N, obj):
    """One operation of a list of length n over a pool of N values: (code, a, b, c)."""
    code = src.weighted([(4, 0), (3, 1), (3, 2), (3, 3), (3, 4), (2, 5), (5, 6), (2, 7), (2, 8), (2, 9), (1, 10), (1, 11)])
    a = b = c = 0
    if code in (0, 3):
        a = src.below(N)
    elif code in (4, 9):
        a, b = around(src, n), src.below(N)
    elif code in (5, 10):
        a = around(src, n)
    elif code == 6:
        a = around(src, n)
        b = src.int(0, max(0, n - a)) if src.chance(5, 6) else around(src, n)
        c = gen_slice(src, N)
    elif code == 7:
        a = src.int(0, 40) if obj or src.chance(7, 8) else -src.below(3)
    elif code == 8:
        a = src.int(0, 24) if src.chance(7, 8) else -1 - src.below(2)
    return code, a, b, c


def gen_slice(src, N):
    if src.chance(1, 10):
        return -1
    l = src.int(0, min(N, 6))
    return src.below(N - l + 1) + 256 * l


def cut(pool, c):
    return None if c < 0 else pool[c % 256:c % 256 + c // 256]


def list_step(L, pool, op, zero):
    """-> result or None; changes the model list L in place; raises Bad."""
    code, a, b, c = op
    n = len(L)
    if code == 0:
        L.append(pool[a])
    elif code in (1, 2):
        if not n:
            raise Bad
        return L.pop() if code == 1 else L.pop(0),
    elif code == 3:
        L.insert(0, pool[a])
    elif code == 4:
        if not 0 <= a <= n:
            raise Bad
        L.insert(a, pool[b])
    elif code == 5:
        if not 0 <= a < n:
            raise Bad
        return L.pop(a),
    elif code == 6:
        if a < 0 or b < 0 or a + b > n:
            raise Bad
        L[a:a + b] = cut(pool, c) or []
    elif code == 8:
        if a < 0:
            raise Bad
        L[a:] = [zero] * (a - n) if a > n else []
    elif code in (9, 10):
        if not 0 <= a < n:
            raise Bad
        if code == 10:
            return L[a],
        L[a] = pool[b]
    return None


def gen_new(src, N):
    code = src.choice([24, 20, 21, 22, 23, 25])
    a = b = 0
    if code in (20, 21):
        a = gen_slice(src, N)
    elif code in (22, 23):
        a = src.int(0, 9)
    if code in (21, 23):
        b = src.int(-1, 12)
    return code, a, b, 0


def history(src, N, obj):
    """The operations, with the model run along to aim the arguments."""
    ops = [gen_new(src, N)]
    n = (src.int(20, 58) if src.chance(1, 4) else src.size(58)) + 2
    return ops, n


def show(cls, ops):
    return "%s %s" % (cls, " ".join("%d(%d,%d,%d)" % o for o in ops))


NAMES = {0: "push", 1: "pop", 2: "shift", 3: "unshift", 4: "insert", 5: "remove", 6: "replace", 7: "reserve", 8: "resize", 9: "set", 10: "get", 11: "to_array", 20: "new", 21: "new", 22: "new_len", 23: "new_len", 24: "new", 25: "new"}


def check_cap(fail, i, op, cap, ncap, n):
    if ncap < n:
        fail(i, "the capacity %d is less than the length %d" % (ncap, n))
    if op[0] < 20 and ncap < cap:
        fail(i, "the capacity went from %d to %d" % (cap, ncap))
    if op[0] == 7 and ncap < op[1]:
        fail(i, "the capacity is %d after reserve(%d)" % (ncap, op[1]))
    if op[0] in (21, 23) and ncap < op[2]:
        fail(i, "the capacity is %d after new(..., %d)" % (ncap, op[2]))


class Reader:
    def __init__(self, tr):
        self.t, self.i = tr, 0

    def next(self):
        if self.i >= len(self.t):
            return "nothing"
        self.i += 1
        return self.t[self.i - 1]


def xlists(pre=False, variant="plain"):
    def case(src, ctx):
        d = load(ctx, pre, variant)
        X = src.choice(list(ELEM))
        t = ELEM[X]
        N = 16
        pool = [sem.draw_num(src, t) if t in sem.BITS else float(src.int(-100, 100)) for _ in range(N)]
        ops, n = history(src, N, False)
        L = None
        exp = []
        i = 0
        while i < n:
            if i:
                ops.append(gen_op(src, len(L), N, False) if src.chance(24, 25) else gen_new(src, N))
            i += 1
            op = ops[-1]
            res = None
            try:
                if op[0] >= 20:
                    if op[0] in (20, 21, 25):
                        L = list(cut(pool, op[1]) or [])
                    elif op[0] == 24:
                        L = []
                    else:
                        L = [0] * op[1]
                elif op[0] == 7 and op[1] < 0:
                    raise Bad
                else:
                    res = list_step(L, pool, op, 0)
                ok = 1
            except Bad:
                ok = 0
            exp.append((ok, res, list(L)))
        c = d.call("H" + X, "run", ("arr", "i", [x for o in ops for x in o]), ("arr", sem.CHR[t], pool))

        def fail(i, what):
            ctx.memo.clear()
            raise pbt.Violation("%sList (pool %r): operation %d of %s: %s" % (X, pool, i, show(X, ops[:i + 1]), what), NAMES[ops[i][0]])
        if c.status != "ok" or c.leak:
            ctx.memo.clear()
            raise pbt.Violation("%s: %r" % (show(X, ops), c), "ends")
        r = Reader(c.trace)
        cap = 0
        for i, (ok, res, L) in enumerate(exp):
            if res is not None:
                g = r.next()
                if g != num(t, res[0]):
                    fail(i, "expected the result %r, got %r" % (res[0], g))
            g = r.next()
            if g != ok:
                fail(i, "expected %s, got %r" % ("no exception" if ok else "an exception", g))
            gl, gc, ga, gu = r.next(), r.next(), r.next(), r.next()
            if gl != len(L) or ga != arr(t, L):
                fail(i, "expected %r, got length %r, %r" % (L, gl, ga))
            check_cap(fail, i, ops[i], cap, gc, gl)
            if gu != arr(t, L + [0] * (gc - gl)):
                fail(i, "the internal array is not the elements followed by zeros up to the capacity: %r" % (gu,))
            cap = gc
        good = sum(e[0] for e in exp)
        return pbt.Info(good >= 5, sorted({X} | {NAMES[o[0]] for o, e in zip(ops, exp) if e[0]} | ({"throws"} if good < len(exp) else set())), show(X + "List", ops[:12]), digest=[X] + ops, evals=len(ops))
    return case


def olists(pre=False, variant="plain"):
    def case(src, ctx):
        d = load(ctx, pre, variant)
        S = src.chance(1, 2)
        N = 9
        pool = [b"s%d" % i for i in range(N - 1)] + [None]
        ops, n = history(src, N, True)
        if not S and src.chance(1, 2):
            ops[0] = ops[0][:3] + (1,)  # a list over a string[]
        if S:
            ops[0] = ops[0][:3] + (0,)
        typ = b"string[]" if S or (ops[0][3] and ops[0][0] in (20, 21, 22, 23) and not (ops[0][0] in (20, 21) and ops[0][1] < 0)) else b"object[]"
        L = None
        exp = []
        i = 0
        while i < n:
            if i:
                ops.append(gen_op(src, len(L), N, True))
            i += 1
            op = ops[-1]
            res = None
            try:
                if op[0] >= 20:
                    if op[0] in (20, 21):
                        L = list(cut(pool, op[1]) or [])
                    elif op[0] == 24:
                        L = []
                    else:
                        L = [None] * op[1]
                else:
                    res = list_step(L, pool, op, None)
                ok = 1
            except Bad:
                ok = 0
            exp.append((ok, res, list(L)))
        c = d.call("HObj", "run_s" if S else "run", ("arr", "i", [x for o in ops for x in o]), ("strs", pool), ("arr", "i", [0] * N))
        nm = "StringList" if S else "List"

        def fail(i, what):
            ctx.memo.clear()
            raise pbt.Violation("%s: operation %d of %s: %s" % (nm, i, show(nm, ops[:i + 1]), what), NAMES[ops[i][0]])
        if c.status != "ok" or c.leak:
            ctx.memo.clear()
            raise pbt.Violation("%s: %r" % (show(nm, ops), c), "ends")
        r = Reader(c.trace)
        cap = 0
        for i, (ok, res, L) in enumerate(exp):
            if res is not None:
                g = r.next()
                if g != res[0]:
                    fail(i, "expected the result %r, got %r" % (res[0], g))
            g = r.next()
            if g != ok:
                fail(i, "expected %s, got %r" % ("no exception" if ok else "an exception", g))
            gl, gc, ga, gt = r.next(), r.next(), r.next(), r.next()
            if gl != len(L) or ga[2] != L or gt != typ:
                fail(i, "expected %r %r, got length %r, %r" % (typ, L, gl, ga))
            check_cap(fail, i, ops[i], cap, gc, gl)
            cap = gc
            for k in range(N - 1):
                g = r.next()
                if g != L.count(pool[k]):
                    fail(i, "the list holds %d references to %r, which it contains %d times" % (g, pool[k], L.count(pool[k])))
        good = sum(e[0] for e in exp)
        return pbt.Info(good >= 5, sorted({nm} | {NAMES[o[0]] for o, e in zip(ops, exp) if e[0]} | ({"throws"} if good < len(exp) else set())), show(nm, ops[:12]), digest=[nm] + ops, evals=len(ops))
    return case


def buffers(pre=False, variant="plain"):
    def case(src, ctx):
        d = load(ctx, pre, variant)
        N = 6
        pool = [bytes(src.choice(b"abc\0\xff\n") for _ in range(src.size(12))) for _ in range(N - 1)] + [None]
        n = (src.int(20, 58) if src.chance(1, 4) else src.size(58)) + 2
        ops, exp = [], []
        L = M = None
        for i in range(n):
            if i == 0 or src.chance(1, 30):
                code = src.choice([24, 20, 21, 22, 23])
                a = src.below(N) if code in (20, 21) else src.int(0, 9) if src.chance(9, 10) or i == 0 else -1
                op = (code, a, src.int(-1, 12), 0)
            else:
                m = len(L)
                code = src.weighted([(4, 0), (2, 1), (3, 2), (3, 3), (5, 4), (1, 5), (4, 6), (1, 7), (2, 8), (2, 9), (2, 10)])
                a = b = c = 0
                if code in (0, 1, 2, 7):
                    a = src.below(N)
                    k = len(pool[a] or b"")
                    b = around(src, k)
                    c = src.int(0, max(0, k - b)) if src.chance(5, 6) else src.choice([-1, min(k - b + 1, 2147483647), 2147483647])
                    if code == 2 and c < 0:
                        c = -1
                    if code == 1 and b > k:
                        b = k  # the length to the end would be negative: not documented
                    if code == 2 and c == -1 and b > k:
                        c = 0
                elif code == 3:
                    a = src.int(-2, 300)
                elif code == 4:
                    a = around(src, m)
                    b = src.int(0, max(0, m - a)) if src.chance(5, 6) else around(src, m)
                    c = src.below(N)
                elif code in (5, 6):
                    a = src.int(0, 30) if src.chance(9, 10) else -1
                op = (code, a, b, c)
            code, a, b, c = op
            res = None
            ok = 1
            if code == 8 and M is None:
                op = (11, 0, 0, 0)
                code = 11
            K = L
            if code in (0, 1, 2):
                s = pool[a]
                if code == 0:
                    b, c = 0, -1
                if code == 1:
                    c = -1
                if s is None or b < 0:
                    ok = 0
                else:
                    e = len(s) - b if c == -1 else c
                    if b + e > len(s):
                        ok = 0
                    else:
                        K = L + s[b:b + e]
            elif code == 3:
                K = L + bytes([a & 255])
            elif code == 4:
                if a < 0 or b < 0 or a + b > len(L):
                    ok = 0
                else:
                    K = L[:a] + (pool[c] or b"") + L[a + b:]
            elif code == 5:
                ok = int(a >= 0)
            elif code == 6:
                if a < 0:
                    ok = 0
                else:
                    K = L[:a] + b"\0" * (a - len(L))
            elif code == 7:
                if pool[a] is None:
                    ok = 0
                    K = b""  # the length is set to 0 before the push throws
                else:
                    K = pool[a]
            elif code == 8:
                K, M = M, L
            elif code == 9:
                M = L
            elif code == 10:
                x, y = L, M
                if M is None:
                    cm, eq, mc = 1, 0, -1
                else:
                    cm, eq = (x > y) - (x < y), int(x == y)
                    mc = -cm
                res = [cm, eq, mc, -1, 1, 0, 1]
            elif code in (20, 21):
                K = pool[a] or b""
            elif code in (22, 23):
                if a < 0:
                    ok = 0
                else:
                    K = b"\0" * a
            elif code == 24:
                K = b""
            L = K
            ops.append(op)
            exp.append((ok, res, L, M))
        cl = d.call("HBuf", "run", ("arr", "i", [x for o in ops for x in o]), ("strs", pool))

        def fail(i, what):
            ctx.memo.clear()
            raise pbt.Violation("StringBuffer (pool %r): operation %d of %s: %s" % (pool, i, show("", ops[:i + 1]), what), "buf%d" % ops[i][0])
        if cl.status != "ok" or cl.leak:
            ctx.memo.clear()
            raise pbt.Violation("%s: %r" % (show("StringBuffer", ops), cl), "ends")
        r = Reader(cl.trace)
        for i, (ok, res, L, M) in enumerate(exp):
            if res is not None:
                g = [r.next() for _ in res]
                if g != res:
                    fail(i, "expected cmp, eq, ... %r, got %r" % (res, g))
            g = r.next()
            if g != ok:
                fail(i, "expected %s, got %r" % ("no exception" if ok else "an exception", g))
            gl, gc, gs, gu, gm = r.next(), r.next(), r.next(), r.next(), r.next()
            if gl != len(L) or gs != L:
                fail(i, "expected %r, got length %r, %r" % (L, gl, gs))
            if gc < gl or gu < gl or (ops[i][0] == 5 and ok and gc < ops[i][1]):
                fail(i, "capacity %r, length %r, buffer %r" % (gc, gl, gu))
            if gm != (-1 if M is None else M):
                fail(i, "the other buffer: expected %r, got %r" % (M, gm))
        good = sum(e[0] for e in exp)
        return pbt.Info(good >= 5, sorted({"b%d" % o[0] for o in ops}), show("StringBuffer", ops[:12]), digest=[repr(pool)] + ops, evals=len(ops))
    return case


KEYS = [b"a", b"b", b"", b"a\0", b"a\0b", b"\xff\xfe", b"key", b"keykeykey"]


class Slot:
    """The value of a hash entry: an index into the pool or a value of its own, weak or not."""
    __slots__ = ("v", "weak")

    def __init__(self, v, weak=False):
        self.v, self.weak = v, weak


TYPES = ["string", "byte", "short", "int", "long", "float", "double", "string"]
GET = {20: ("byte",), 21: ("byte", "short"), 22: ("byte", "short", "int"), 23: ("byte", "short", "int", "long"), 24: ("float",), 25: ("double",), 26: ("string",)}


def hashes(pre=False, variant="plain"):
    def case(src, ctx):
        d = load(ctx, pre, variant)
        nk = src.choice([3, 8, 40])
        keys = (KEYS + [b"k%d" % i for i in range(60)])[:nk] if src.chance(2, 3) else [src.bytes(src.below(6)) + b"%d" % i for i in range(nk)]
        N = 16
        strs = [b"v%d" % i for i in range(N)]
        nums = [sem.draw_num(src, "long") if src.chance(1, 2) else src.int(-300, 300) for _ in range(N)]
        objs = []  # object id -> [type, value]
        for i in range(N):
            t = TYPES[i % 8]
            v = strs[i] if t == "string" else conv(t, nums[i])
            objs.append((t, v))
        pool = [True] * N  # still referenced by the pool
        n = (src.int(30, 118) if src.chance(1, 4) else src.size(78)) + 2
        H, G = {}, None
        ops, exp = [], []
        new = []

        def strong(o):
            c = int(pool[o]) if o < N else 0
            for m in (H, G or {}):
                c += sum(1 for s in m.values() if s.v == o and not s.weak)
            return c

        def release():
            """Weak references to objects without strong references become undef."""
            for m in (H, G or {}):
                for s in m.values():
                    if s.weak and (s.v is None or strong(s.v) == 0):
                        s.v = None
                        s.weak = False

        def fresh(t, v):
            objs.append((t, v))
            return len(objs) - 1

        for _ in range(n):
            code = src.weighted([(14, 0), (3, 1), (2, 2), (6, 3), (1, 4), (1, 5), (1, 6), (1, 7), (1, 8), (2, 9), (4, 10), (3, 20), (3, 30), (3, 40), (4, 50), (1, 51), (2, 52), (1, 53), (1, 54)])
            if code in (10, 20):
                code += src.below(7)
            elif code in (30, 40):
                code += src.below(8)
            elif code == 54:
                code += src.below(4)
            ki = src.below(len(keys)) if src.chance(40, 41) else -1
            k = keys[ki] if ki >= 0 else None
            b = src.below(N)
            c = src.below(N)
            if code in (0, 9) and src.chance(1, 10):
                b = -1
            if code in (0, 9) and b >= 0 and not pool[b]:
                b = -1
            if code == 7:
                b = src.choice([1, -1, 2, -3])
            if code in (54, 55, 56) and not (pool[b] and pool[c]):
                code = 57
            if code == 6 and G is None:
                code = 2
            if code == 9 and k is None:
                code = 0
            res = None
            ok = 1
            needs = code not in (4, 5, 6, 7, 8, 53, 54, 55, 56, 57)
            if needs and k is None:
                ok = 0
            elif code in (0, 9):
                H[k] = Slot(None if b < 0 else b)
            elif code == 1:
                res = ("o", H[k].v if k in H else None)
            elif code == 2:
                res = ("i", int(k in H))
            elif code == 3:
                res = ("o", H.pop(k).v if k in H else None)
            elif code in (4, 5):
                G = {x: Slot(s.v) for x, s in H.items()}
            elif code == 6:
                H, G = G, H
            elif code == 7:
                res = ("array", [(x, H[x].v) for x in sorted(H, reverse=b < 0)])
            elif code == 8:
                res = ("values", [s.v for s in H.values()])
            elif 10 <= code <= 15:
                t = ["byte", "short", "int", "long", "float", "double"][code - 10]
                H[k] = Slot(fresh(t, conv(t, nums[b])))
            elif code == 16:
                H[k] = Slot(fresh("string", b"s%d" % b))
            elif 20 <= code <= 26 or 30 <= code <= 37 or 40 <= code <= 47:
                w = code % 10
                want = ["byte", "short", "int", "long", "float", "double", "string", "object"][w]
                if k not in H and code >= 30:
                    res = ("n", want, 7) if w < 6 else ("s", b"7")
                elif w == 7:
                    res = ("o", H[k].v)
                    if code >= 40:
                        del H[k]
                else:
                    o = H[k].v if k in H else None
                    if w == 6 and o is None:
                        res = ("o", None)
                    elif o is None or objs[o][0] not in GET[20 + w]:
                        ok = 0
                    else:
                        res = ("n", want, objs[o][1]) if w < 6 else ("o", o)
                    if ok and code >= 40:
                        del H[k]
            elif code == 50:
                if k in H and H[k].v is not None:
                    H[k].weak = True
            elif code == 51:
                if k in H:
                    H[k].weak = False
            elif code == 52:
                res = ("i", int(k in H and H[k].weak))
            elif code == 53:
                pool[b] = False
            elif code == 54:
                H = {b"a": Slot(c), b"b": Slot(c)}
            elif code in (55, 56):
                ok = 0
            elif code == 57:
                H = {}
            if res and res[0] in ("o", "array", "values"):
                res = (res[0], render(objs, res))  # values as they are now
            release()
            ops.append((code, ki, b, c))
            exp.append((ok, res, sorted(H), [strong(o) - 1 if pool[o] else None for o in range(N)]))
        cl = d.call("HHash", "run", ("arr", "i", [x for o in ops for x in o]), ("strs", keys), ("strs", strs), ("arr", "l", nums), ("arr", "i", [0] * N))

        def fail(i, what):
            ctx.memo.clear()
            raise pbt.Violation("Hash (keys %r, values %r): operation %d of %s: %s" % (keys, nums, i, show("", ops[:i + 1]), what), "hash%d" % ops[i][0])
        if cl.status != "ok" or cl.leak:
            ctx.memo.clear()
            raise pbt.Violation("%s: %r" % (show("Hash", ops), cl), "ends")
        r = Reader(cl.trace)
        for i, (ok, res, ks, cnt) in enumerate(exp):
            if res is not None:
                g = r.next()
                if res[0] == "o":
                    good = obj_eq(g, res[1])
                elif res[0] == "array":
                    good = isinstance(g, tuple) and len(g[2]) == len(res[1]) and all(obj_eq(x, y) for x, y in zip(g[2], res[1]))
                elif res[0] == "values":
                    good = isinstance(g, tuple) and sorted(map(repr, map(canon, g[2]))) == sorted(map(repr, res[1]))
                elif res[0] == "n":
                    good = g == num(res[1], float(res[2]) if res[1] in ("float", "double") else res[2])
                else:
                    good = g == res[1]
                if not good:
                    fail(i, "expected the result %r, got %r" % (res, g))
            g = r.next()
            if g != ok:
                fail(i, "expected %s, got %r" % ("no exception" if ok else "an exception", g))
            gl, gh, gk = r.next(), r.next(), r.next()
            if gl != len(ks) or gh != int(bool(ks)) or sorted(gk[2]) != ks:
                fail(i, "expected the keys %r, got %r, %r, %r" % (ks, gl, gh, gk))
            for k in range(N):
                if cnt[k] is not None:
                    g = r.next()
                    if g != cnt[k]:
                        fail(i, "%r references to value %d, expected %d" % (g, k, cnt[k]))
        good = sum(e[0] for e in exp)
        return pbt.Info(good >= 5, sorted({"op%d" % o[0] for o in ops}) + ["keys%d" % nk], show("Hash", ops[:12]), digest=[repr(keys), repr(nums)] + ops, evals=len(ops))
    return case


def conv(t, v):
    if t in ("float", "double"):
        return sem.conv("long", t, v)
    return sem.conv("int", t, sem.conv("long", "int", v)) if t in ("byte", "short") else sem.conv("long", t, v)


def canon(g):
    """A traced object as the model renders it."""
    if g is None or isinstance(g, bytes):
        return g
    if g[0] == "B":
        k = {"b": "byte", "h": "short", "s": "short", "i": "int", "l": "long", "f": "float", "d": "double"}[g[1]]
        return (k, g[2] & (2 ** 64 - 1 if k == "double" else 2 ** 32 - 1) if k in ("float", "double") else g[2])
    return g


def robj(objs, o):
    if o is None:
        return None
    t, v = objs[o]
    if t == "string":
        return v
    if t in ("float", "double"):
        return (t, num(t, v)[1])
    return (t, v)


def render(objs, res):
    if res[0] == "o":
        return robj(objs, res[1])
    if res[0] == "array":
        return [y for k, o in res[1] for y in (k, robj(objs, o))]
    return [robj(objs, o) for o in res[1]]


def obj_eq(g, want):
    return canon(g) == want


# ---------------------------------------------------------------- immutable lists, small classes
def iops():
    O = []
    for X, t in ELEM.items():
        I = "Immutable::%sList" % X
        ct = sem.CHR[t]
        r = "int" if t in ("byte", "short") else t

        def xs(src, t=t):
            return [sem.draw_num(src, t) if t in sem.BITS else float(src.int(-100, 100)) for _ in range(src.below(7))]

        def ga(src, xs=xs):
            return [None if src.chance(1, 10) else xs(src)]

        def gi(src, ga=ga):
            a = ga(src)
            return a + [around(src, len(a[0] or []))]
        O.append(Op([t + "[]"], t + "[]", "my $l = %s->new($a); if ($a) { for (my $i = 0; $i < @$a; $i++) { $a->[$i] = (%s)9; } } my $x = $l->to_array; for (my $i = 0; $i < @$x; $i++) { $x->[$i] = (%s)8; } return $l->to_array;" % (I, t, t), (lambda a, t=t: arr(t, a or [])), I, ga))
        O.append(Op([t + "[]", "int"], r, "my $l = %s->new($a); return $l->get($b);" % I, (lambda a, i: a[i] if 0 <= i < len(a or []) else die()), I, gi))
        O.append(Op([t + "[]"], "int", "return %s->new($a)->length;" % I, (lambda a: len(a or [])), I, ga))
        O.append(Op(["int"], t + "[]", "return %s->new_len($a)->to_array;" % I, (lambda n, t=t: arr(t, [0] * n) if n >= 0 else die()), I, lambda s: [s.int(-2, 9)]))
    st = lambda s: [None if s.chance(1, 10) else [None if s.chance(1, 8) else s.bytes(s.below(5)) for _ in range(s.below(6))]]
    I = "Immutable::StringList"
    O.append(Op(["string[]"], "string[]", "my $l = %s->new($a); if ($a) { for (my $i = 0; $i < @$a; $i++) { if ($a->[$i] && length $a->[$i] > 0) { my $m = (mutable string)$a->[$i]; $m->[0] = 'Q'; } $a->[$i] = \"x\"; } } my $x = $l->to_array; for (my $i = 0; $i < @$x; $i++) { $x->[$i] = undef; } return $l->to_array;" % I, (lambda a: ("A", "string[]", list(a or []))), I, st))
    O.append(Op(["string[]", "int"], "string", "return %s->new($a)->get($b);" % I, (lambda a, i: a[i] if 0 <= i < len(a or []) else die()), I, lambda s: (lambda a: a + [around(s, len(a[0] or []))])(st(s))))
    O.append(Op(["string[]"], "int", "my $l = %s->new($a); for (my $i = 0; $i < $l->length; $i++) { if ($l->get($i) && !is_read_only $l->get($i)) { return -1; } } return $l->length;" % I, (lambda a: len(a or [])), I, st))
    O.append(Op(["int"], "string[]", "return %s->new_len($a)->to_array;" % I, (lambda n: ("A", "string[]", [None] * n) if n >= 0 else die()), I, lambda s: [s.int(-2, 9)]))
    # points
    g2 = lambda s: [sem.draw_num(s, "int"), sem.draw_num(s, "int")]
    g3 = lambda s: [sem.draw_num(s, "int") for _ in range(3)]
    O.append(Op(["int", "int"], "string", "my $p = Point->new($a, $b); my $q = $p->clone; $p->clear; return $q->x . \",\" . $q->y . \",\" . $q->to_string . \",\" . $p->to_string;", (lambda a, b: b"%d,%d,(%d,%d),(0,0)" % (a, b, a, b)), "Point", g2))
    O.append(Op(["int", "int", "int"], "string", "my $p = Point3D->new($a, $b, $c); my $q = (Point3D)$p->clone; $p->clear; return $q->x . \",\" . $q->y . \",\" . $q->z . \",\" . $q->to_string;", (lambda a, b, c: b"%d,%d,%d,(%d,%d,%d)" % (a, b, c, a, b, c)), "Point3D", g3))
    return O


def die():
    raise Die("*")


IOPS = iops()
IUSES = ["VT", "Point", "Point3D"] + ["Immutable::%sList" % x for x in list(ELEM) + ["String"]]
SUITES = [
    Suite("numeric lists", xlists(), 6000, 150000, chunk=200),
    Suite("numeric lists, precompiled", xlists(True), 3000, 60000, chunk=200),
    Suite("object lists", olists(), 6000, 150000, chunk=200),
    Suite("object lists, precompiled", olists(True), 3000, 60000, chunk=200),
    Suite("string buffers", buffers(), 4000, 100000, chunk=200),
    Suite("string buffers, precompiled", buffers(True), 2000, 40000, chunk=200),
    Suite("hashes", hashes(), 5000, 120000, chunk=200),
    Suite("hashes, precompiled", hashes(True), 4000, 80000, chunk=200),
    Suite("immutable lists", matrix.matrix_case(IOPS, "p19i", 60, uses=IUSES), 600, 10000, chunk=100),
    Suite("object lists, asan", olists(False, "asan"), 300, 8000, variants=("asan",), chunk=50),
    Suite("hashes, asan", hashes(False, "asan"), 300, 8000, variants=("asan",), chunk=50),
]

META = dict(
    statement="For every history of operations, the numeric lists, List, StringList, StringBuffer, Hash and the immutable lists behave as the sequence, byte string, map and constant sequence they represent: results, exceptions, lengths, contents, key sets and copies are those of the model, the capacity covers the length and never shrinks, the unused part of a numeric list's array is zero, weak hash values stay weak until they are set again or their object is freed, and a container holds exactly one reference to each element for each time it contains it.",
    over=["histories", "inputs"], quant="all sequences of operations with all arguments, including invalid ones, on each container class",
    why="unit tests run a few short scripted sequences per method; stale elements, ring-buffer arithmetic, rehashing and reference leaks only show in particular longer histories",
    files=["lib/SPVM/List.spvm", "lib/SPVM/IntList.spvm", "lib/SPVM/StringList.spvm", "lib/SPVM/StringBuffer.spvm", "lib/SPVM/Hash.spvm", "lib/SPVM/Hash.c", "lib/SPVM/Immutable/IntList.spvm"],
    mech=[("ring buffer with offset and capacity", "lib/SPVM/List.spvm"), ("capacity doubling and element moves", "lib/SPVM/IntList.spvm"), ("open hashing with chained entries and rehashing", "lib/SPVM/Hash.spvm")],
    observe=["the public methods of the container classes and the reference counts of their elements"],
    technique="stateful model-based property testing of operation histories",
    note="Histories of up to 80 operations against Python models, interpreted, precompiled and with address sanitizer; reference counts are read through a native method.")
