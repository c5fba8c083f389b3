"""P26: threads.  Generated tasks run one after another and then at the same time; both must give the same results."""
from vt import pbt, drv as drvmod
from vt.pbt import Suite

TITLE = "Threads with stacks of their own do not disturb each other"
RULE = ("One case is a set of 2 to 8 generated tasks over shared objects that run first one after another and then at the same time, each on a thread and a stack of its own; "
        "the results of both runs, the counters, the reference counts of the shared objects and the memory blocks must be the same. Non-trivial: at least 2 tasks with at least 3 kinds of operations and 100 operations.")
ASSUMPTIONS = ["threads share objects that outlive them; a variable itself is not read and written at the same time (documented as the duty of the program)"]

OPS = ["alloc", "field", "weaken", "types", "exception", "string", "copy", "mutex", "rwlock", "recursion", "closure", "array", "deep", "native", "blocks", "dispatch", "sort", "format", "release", "revive"]

SRC = """class T {
  use VT; use D; use E; use I; use Fn; use Array; use Sync::Mutex; use Sort; use Format; use StringList; use Hash;
  our $S : object[]; our $MU : Sync::Mutex; our $RW : Sync::Mutex; our $C : long; our $A : long; our $B : long; our $GM : Sync::Mutex; our $GC : int;
  has ops : int[]; has rounds : int; has id : int; has h : long; has ref : object; has d : D; has bad : int; has gifts : object[]; has at : int;
  %(P)sstatic method make : T ($ops : int[], $rounds : int, $id : int) { my $t = new T; $t->{ops} = $ops; $t->{rounds} = $rounds; $t->{id} = $id; return $t; }
  %(P)smethod add : void ($v : long) { $self->{h} = $self->{h} * 31 + $v; }
  %(P)smethod : void () {
    $self->{h} = $self->{id};
    for (my $r = 0; $r < $self->{rounds}; $r++) {
      my $ops = $self->{ops};
      for (my $k = 0; $k + 1 < @$ops; $k += 2) { $self->op($ops->[$k], $ops->[$k + 1]); }
    }
    $self->{ref} = undef; $self->{d} = undef; $self->{gifts} = undef;
  }
  %(P)smethod op : void ($o : int, $n : int) {
    my $s = $S->[$n %% @$S];
    switch ($o) {
      case 0: { my $d : D = undef; for (my $i = 0; $i < $n; $i++) { my $e = D->new($i); $e->{next} = $d; $d = $e; } my $t = 0; while ($d) { $t += $d->{v}; $d = $d->{next}; } $self->add($t); break; }
      case 1: { for (my $i = 0; $i < $n; $i++) { $self->{ref} = $s; $self->{ref} = $S->[$i %% @$S]; my $x = $self->{ref}; my $y = $x; } $self->{ref} = undef; $self->add(1); break; }
      case 2: { my $q = new Q; for (my $i = 0; $i < $n; $i++) { $q->{o} = $s; weaken $q->{o}; $self->add(isweak $q->{o}); my $x = $q->{o}; unless ($x) { $self->{bad} = 2; } unweaken $q->{o}; $self->add(isweak $q->{o}); weaken $q->{o}; if ($i %% 2) { $q->{o} = undef; } } break; }
      case 3: { my $t = 0; for (my $i = 0; $i < @$S; $i++) { my $x = $S->[$i]; if ($x isa D) { $t += 1; } if ($x isa E) { $t += 2; } if ($x isa I) { $t += 4; } if ($x isa D[]) { $t += 8; } if ($x isa object[]) { $t += 16; } if ($x isa string) { $t += 32; } if ($x is_type D) { $t += 64; } my $ok = 0; eval { my $e = (E)$x; $ok = 1; }; $t = $t * 3 + $ok; } $self->add($t); break; }
      case 4: { my $m = "task" . $self->{id} . "-" . $n; my $i = 0; eval { $i = 1; &thrower($m, $n %% 5); $i = 2; }; my $e = $@; my $l = length $m; unless ($e) { $self->{bad} = 4; break; } unless (Fn->substr($e, 0, $l) eq $m) { $self->{bad} = 5; } $self->add(length $e); $self->add($i); $self->add(eval_error_id); eval { }; if ($@) { $self->{bad} = 6; } break; }
      case 5: { my $x = ""; for (my $i = 0; $i < $n; $i++) { $x .= "ab" . $i; } my $t = 0; for (my $i = 0; $i < length $x; $i++) { $t = $t * 3 + $x->[$i]; } $self->add($t); my $y = Fn->uc($x); if ($y eq $x && $n > 0) { $self->{bad} = 7; } break; }
      case 6: { my $a = new int[$n]; for (my $i = 0; $i < $n; $i++) { $a->[$i] = $i * 7; } my $b = (int[])copy $a; my $t = 0; for my $v (@$b) { $t += $v; } my $c = Array->copy_int($a); $self->add($t + @$c); break; }
      case 7: { for (my $i = 0; $i < $n; $i++) { $MU->lock; my $c = $C; $C = $c + 1; $MU->unlock; } break; }
      case 8: { for (my $i = 0; $i < $n; $i++) { if ($i %% 4 == 0) { $RW->lock; $A++; $B++; $RW->unlock; } else { $RW->reader_lock; unless ($A == $B) { $self->{bad} = 8; } $RW->reader_unlock; } } break; }
      case 9: { $self->add(&rec($n * 5, $s)); break; }
      case 10: { my $z = $n; my $f = (I)[$z : int, has s : object = $s] method : int ($x : int) { my $o = $self->{s}; $z += $x; return $z * 2; }; for (my $i = 0; $i < $n; $i++) { $self->add($f->($i)); } break; }
      case 11: { for (my $i = 0; $i < $n; $i++) { my $a = new object[5]; for (my $k = 0; $k < 5; $k++) { $a->[$k] = $S->[($i + $k) %% @$S]; } my $b = new object[2]; $b->[0] = $a; $b->[1] = $a; } $self->add(11); break; }
      case 12: { my $ok = 0; eval { &deep(0); $ok = 1; }; $self->add($ok); if ($@) { $self->add(1); } break; }
      case 13: { my $l = StringList->new; for (my $i = 0; $i < $n; $i++) { $l->push("k" . $i); } while ($l->length > 0) { $self->add(length $l->pop); } my $p = Fn->split(",", "a,b,c,d"); $self->add(@$p); $self->add(VT->addr($s) == VT->addr($s)); break; }
      case 14: { for (my $i = 0; $i < $n; $i++) { my $b = VT->blocks; unless ($b > 0) { $self->{bad} = 9; } my $o = new Q; } break; }
      case 15: { my $t = 0; for (my $i = 0; $i < @$S; $i++) { my $x = $S->[$i]; if ($x isa I) { my $y = (I)$x; $t = $t * 5 + $y->($n); } } $self->add($t); break; }
      case 16: { my $a = new int[$n]; my $v = $n * 7919; for (my $i = 0; $i < $n; $i++) { $v = ($v * 1103515 + 12345) & 0xFFFF; $a->[$i] = $v; } Sort->sort_int_asc($a); for (my $i = 1; $i < $n; $i++) { if ($a->[$i - 1] > $a->[$i]) { $self->{bad} = 10; } } if ($n > 0) { $self->add($a->[0]); } break; }
      case 18: { my $g = $self->{gifts}; for (my $i = 0; $i < $n; $i++) { if ($self->{at} < @$g) { $g->[$self->{at}] = undef; $self->{at} = $self->{at} + 1; } } break; }
      case 19: { my $g = $self->{gifts}; for (my $i = 0; $i < $n; $i++) { if (@$g) { my $x = $g->[$i %% @$g]; my $y = $x; if ($x) { $self->{d} = undef; $self->{ref} = $x; $self->{ref} = undef; } } } break; }
      default: { my $x = Format->sprintf("%%d-%%s-%%x", [(object)Int->new($n), "q", Int->new($n * 3)]); $self->add(length $x); my $h = Hash->new; for (my $i = 0; $i < $n; $i++) { $h->set("k" . $i, $s); } my $k = $h->keys; $self->add(@$k); }
    }
  }
  static method gone : void () { $GM->lock; $GC++; $GM->unlock; }
  %(P)sstatic method thrower : void ($m : string, $d : int) { if ($d <= 0) { die $m; } my $o = D->new($d); &thrower($m, $d - 1); }
  %(P)sstatic method rec : int ($n : int, $o : object) { if ($n <= 0) { return 1; } my $q = $o; return &rec($n - 1, $q) + 1; }
  %(P)sstatic method deep : int ($n : int) { return &deep($n + 1) + 1; }
  static method shared : void ($k : int) {
    $S = new object[$k];
    for (my $i = 0; $i < $k; $i++) {
      switch ($i %% 6) { case 0: { $S->[$i] = D->new($i); break; } case 1: { $S->[$i] = E->new2($i); break; } case 2: { $S->[$i] = new D[3]; break; } case 3: { $S->[$i] = "str" . $i; break; } case 4: { $S->[$i] = (I)method : int ($x : int) { return $x + 3; }; break; } default: { $S->[$i] = new int[4]; } }
    }
    $MU = Sync::Mutex->new; $GM = Sync::Mutex->new; $RW = Sync::Mutex->new; $C = 0; $A = 0; $B = 0; $GC = 0;
  }
  static method main : int ($k : int, $n : int, $lens : int[], $all : int[], $rounds : int[], $reps : int, $gn : int, $cold : int) {
    &shared($k);
    my $r = &go($n, $lens, $all, $rounds, $reps, $gn, $cold);
    $S = undef; $MU = undef; $RW = undef; $GM = undef;
    return $r;
  }
  static method tasks : object[] ($n : int, $lens : int[], $all : int[], $rounds : int[], $gn : int) {
    my $ts = new object[$n]; my $p = 0; my $gs = new object[$gn]; for (my $i = 0; $i < $gn; $i++) { $gs->[$i] = new G; }
    for (my $i = 0; $i < $n; $i++) { my $ops = Array->copy_int($all, $p, $lens->[$i]); $p += $lens->[$i]; my $t = T->make($ops, $rounds->[$i], $i); $t->{gifts} = Array->copy_object_address($gs); $ts->[$i] = $t; }
    return $ts;
  }
  static method go : int ($n : int, $lens : int[], $all : int[], $rounds : int[], $reps : int, $gn : int, $cold : int) {
    my $rc = new int[@$S];
    for (my $i = 0; $i < @$S; $i++) { $rc->[$i] = VT->refcnt($S->[$i]); }
    my $hs = new long[$n]; my $c = 0L; my $a = 0L; my $cs = new long[$n];
    if ($cold) {
      my $ts = &tasks($n, $lens, $all, $rounds, $gn);
      my $e = VT->threads($ts);
      if ($e) { return 3; }
      for (my $i = 0; $i < $n; $i++) { my $t = (T)$ts->[$i]; if ($t->{bad}) { VT->i($t->{bad}); return 4; } $cs->[$i] = $t->{h}; }
    }
    $C = 0; $A = 0; $B = 0; $GC = 0;
    {
      my $ts = &tasks($n, $lens, $all, $rounds, $gn);
      for (my $i = 0; $i < $n; $i++) { my $t = (T)$ts->[$i]; $t->(); $hs->[$i] = $t->{h}; if ($t->{bad}) { VT->i($t->{bad}); return 1; } }
      $c = $C; $a = $A;
    }
    unless ($GC == $gn) { VT->i($GC); return 10; }
    unless ($A == $B) { return 2; }
    if ($cold) { for (my $i = 0; $i < $n; $i++) { unless ($cs->[$i] == $hs->[$i]) { VT->i($i); return 5; } } }
    my $bl = VT->blocks;
    for (my $q = 1; $q <= $reps; $q++) {
      $C = 0; $A = 0; $B = 0; $GC = 0;
      {
        my $ts = &tasks($n, $lens, $all, $rounds, $gn);
        my $e = VT->threads($ts);
        if ($e) { return 3; }
        for (my $i = 0; $i < $n; $i++) { my $t = (T)$ts->[$i]; if ($t->{bad}) { VT->i($t->{bad}); return 4; } unless ($t->{h} == $hs->[$i]) { VT->i($i); return 5; } }
      }
      unless ($GC == $gn) { VT->i($GC); VT->i($gn); return 10; }
      unless ($C == $c) { VT->i($C); VT->i($c); return 6; }
      unless ($A == $a && $B == $a) { return 7; }
      for (my $i = 0; $i < @$S; $i++) { unless (VT->refcnt($S->[$i]) == $rc->[$i]) { VT->i($i); VT->i(VT->refcnt($S->[$i])); VT->i($rc->[$i]); return 8; } }
      unless (VT->blocks == $bl) { VT->i(VT->blocks); VT->i($bl); return 9; }
    }
    return 0;
  }
}
"""
OTHER = [("G", "class G : public { use T; method DESTROY : void () { T->gone; } }"),
         ("D", "class D { allow T; allow E; has v : int; has next : D; static method new : D ($v : int) { my $d = new D; $d->{v} = $v; return $d; } method val : int () { return $self->{v}; } }"),
         ("E", "class E extends D : public { allow T; interface I; static method new2 : E ($v : int) { my $d = new E; $d->set_v($v); return $d; } method set_v : void ($v : int) { $self->{w} = $v; } has w : int; method : int ($x : int) { return $x * 2 + $self->{w}; } }"),
         ("I", "class I : interface_t { required method : int ($x : int); }"),
         ("Q", "class Q : public { has o : public object; }")]
WHAT = {10: "an object is not destroyed exactly once when the last references to it go away", 1: "a task fails on its own", 2: "the counters differ on their own", 3: "a thread ends with an exception", 4: "a task fails among other threads", 5: "the result of a task differs from that of its sequential run",
        6: "updates under a mutex are lost", 7: "updates under a writer lock are lost", 8: "the reference count of a shared object has changed", 9: "the number of memory blocks has changed"}
LIM = {"alloc": 40, "field": 60, "weaken": 12, "types": 6, "exception": 9, "string": 20, "copy": 60, "mutex": 40, "rwlock": 40, "recursion": 8, "closure": 12, "array": 10, "deep": 1, "native": 12, "blocks": 30, "dispatch": 9, "sort": 20, "format": 12, "release": 30, "revive": 20}


def case_for(variant, pre, scale):
    text = SRC.replace("use VT;", "use VT; use Q; use G;") % {"P": "precompile " if pre else ""}
    cls = [("T", text)] + OTHER

    def case(src, ctx):
        n = src.int(2, 8)
        k = src.int(1, 8)
        gn = src.weighted([(2, 0), (1, 20), (2, 300)])
        cold = int(src.chance(1, 2))
        kinds = src.weighted([(1, 0), (2, 1)])
        focus = [src.below(len(OPS)) for _ in range(src.int(1, 4))] if kinds else list(range(len(OPS)))
        lens, alln, rounds, names, total = [], [], [], set(), 0
        same = src.chance(1, 2)
        for i in range(n):
            if same and i:
                ops = list(first)
            else:
                ops = [18, 30] * src.int(0, 9) if gn else []
                for _ in range(src.int(1, 8)):
                    o = src.choice(focus)
                    if OPS[o] == "deep" and src.chance(3, 4):
                        o = 1
                    ops += [o, src.int(0, LIM[OPS[o]])]
            first = ops
            names |= {OPS[o] for o in ops[::2]}
            lens.append(len(ops))
            alln += ops
            r = src.int(1, 40) * scale // 4 + 1
            if 12 in ops[::2]:
                r = min(r, 3)
            rounds.append(r)
            total += r * len(ops) // 2
        drv = ctx.drv(variant)
        try:
            if pre:
                c = drv.precompiled(ctx.infos[variant], cls, ["T"], ctx.scratch(), opt="-O1", cache=True)
            else:
                c = drv.program(cls)
            if c.code:
                raise pbt.Violation("the program is not compiled: %s" % (c.errors[:3],), key="p26-compile")
            x = drv.call("T", "main", k, n, ("arr", "i", lens), ("arr", "i", alln), ("arr", "i", rounds), 2, gn, cold)
            desc = "%d threads, %d shared objects, %d objects to release, operations %r, rounds %r" % (n, k, gn, [[(OPS[o], m) for o, m in zip(alln[sum(lens[:i]):sum(lens[:i + 1]):2], alln[sum(lens[:i]) + 1:sum(lens[:i + 1]):2])] for i in range(n)], rounds)
            if x.status != "ok" or x.ret:
                raise pbt.Violation("%s: %s %s %r\n%s" % (WHAT.get(x.ret, x.ret), x.status, x.msg, x.trace, desc), key="p26")
            if x.leak:
                raise pbt.Violation("%d memory blocks leak\n%s" % (x.leak, desc), key="p26-leak")
            drv.done()
        except drvmod.Crash as e:
            raise pbt.Violation("crash: %s\n%r %r %r %r" % (str(e)[:3000], k, lens, alln, rounds), key="p26-crash")
        return pbt.Info(len(names) >= 3 and total >= 100, tags=sorted(names), sample=desc[:700], digest=desc, evals=total)
    return case


SUITES = [
    Suite("threads", case_for("plain", False, 4), 300, 4000, variants=("plain",), chunk=10, racy=40),
    Suite("optimised", case_for("opt", False, 8), 200, 3000, variants=("opt",), chunk=10, racy=40),
    Suite("precompiled", case_for("plain", True, 4), 100, 2000, variants=("plain",), chunk=10, racy=40),
]

META = dict(
    statement="Programs that run at the same time on threads with runtime stacks of their own give each the result that it gives alone: exception variables, arguments and return values are per stack. Updates of reference counts, weak references, the count of memory blocks and runtime caches by different threads are never lost, so shared objects keep exact reference counts, an object whose last references are dropped by different threads is destroyed exactly once and freed, and nothing leaks. Sync::Mutex gives mutual exclusion, and its readers exclude writers.",
    over=["schedules", "histories"], quant="all sets of concurrently running programs, all shared objects and all interleavings",
    why="the unit tests run no two threads on the same objects; a lost update needs two operations inside a window of a few instructions",
    files=["lib/SPVM/Document/Language/System.pm", "lib/SPVM/Builder/src/spvm_api.c", "lib/SPVM/Builder/src/spvm_api_type.c", "lib/SPVM/Builder/src/spvm_mutex.c", "lib/SPVM/Builder/src/spvm_runtime.c", "lib/SPVM/Sync/Mutex.c"],
    mech=[("reference counts", "spvm_api.c SPVM_API_assign_object, SPVM_API_inc_ref_count, SPVM_API_dec_ref_count"), ("weak references", "spvm_api.c SPVM_API_weaken, SPVM_API_unweaken"), ("memory blocks", "spvm_api.c SPVM_API_new_memory_block, SPVM_API_free_memory_block"), ("runtime cache of assignability", "spvm_api_type.c SPVM_API_TYPE_can_assign"), ("locks", "spvm_mutex.c, Sync/Mutex.c")],
    observe=["results of the tasks alone and together", "counters under locks", "reference counts of shared objects", "number of destructions", "number of memory blocks"],
    technique="property-based testing with generated thread programs, compared with their sequential run",
    note="Generated tasks on 2 to 8 native threads over shared objects; released objects, weak references, type checks, exceptions, recursion, closures and locks; assertions of the runtime enabled, optimised and precompiled.",
    oracle="the sequential run of the same tasks, and exact counts (locks, destructions, reference counts, memory blocks)",
)
