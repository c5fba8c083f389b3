"""A small property-based testing engine: recorded choice sequences, shrinking, replay, parallel runs, evidence.

A case is a function case(src, ctx) that draws everything random from src and raises Violation when the property
fails.  The draws are recorded, so a failing case is a list of integers: it shrinks by deleting and lowering them
and replays from them alone.  A run is a pure function of the code and (VERIF_SEED, tier)."""
import collections, hashlib, json, math, multiprocessing as mp, os, random, sys, time, traceback

from . import build, drv as drvmod

VERIF = build.VERIF
WORK = os.path.join(VERIF, "work")
EVID = os.path.join(VERIF, "evidence")


class Violation(Exception):
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class Discard(Exception):
    pass


class Src:
    """Source of choices: fresh from a seed, or replayed (0 = simplest once exhausted)."""
    LIMIT = 60000

    def __init__(self, seed=None, choices=None):
        self.rnd = random.Random(seed) if choices is None else None
        self.pre = choices
        self.rec = []

    def below(self, n):
        """0 <= result < n; 0 is the simplest."""
        if n <= 1:
            return 0
        if len(self.rec) >= self.LIMIT:
            raise Discard("too many choices")
        if self.rnd is not None:
            v = self.rnd.randrange(n)
        else:
            k = len(self.rec)
            v = self.pre[k] if k < len(self.pre) else 0
            if v >= n:
                v = v % n
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def choice(self, xs):
        return xs[self.below(len(xs))]

    def chance(self, num, den):
        """True with probability num/den; False is simplest."""
        return self.below(den) >= den - num

    def weighted(self, pairs):
        """pairs = [(weight, value)...], the first being the simplest."""
        t = sum(w for w, _ in pairs)
        k = self.below(t)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise AssertionError

    def size(self, mx, p=None):
        """Small sizes mostly, up to mx."""
        if self.chance(1, 6):
            return self.int(0, mx)
        return self.int(0, min(mx, 6))

    def bytes(self, n):
        return bytes(self.below(256) for _ in range(n))

    def shuffle(self, xs):
        xs = list(xs)
        for i in range(len(xs) - 1, 0, -1):
            j = i - self.below(i + 1)
            xs[i], xs[j] = xs[j], xs[i]
        return xs


class Info:
    """What one case was."""
    __slots__ = ("nontrivial", "tags", "sample", "digest", "evals")

    def __init__(self, nontrivial, tags=(), sample=None, digest=None, evals=1):
        self.nontrivial, self.tags, self.sample, self.digest, self.evals = nontrivial, tags, sample, digest, evals


class Ctx:
    """Per-worker resources."""
    def __init__(self, infos):
        self.infos = infos
        self.drvs = {}
        self.tmp = None
        self.memo = {}

    def drv(self, variant="plain", timeout=60.0):
        d = self.drvs.get(variant)
        if d is None:
            d = drvmod.Driver(self.infos[variant], timeout=timeout * (6 if variant in ("asan", "tsan") else 1))
            self.drvs[variant] = d
        return d

    def scratch(self):
        if self.tmp is None:
            import tempfile
            self.tmp = tempfile.mkdtemp(prefix="vtcase")
        return self.tmp

    def reset(self):
        self.memo = {}
        for d in self.drvs.values():
            d.kill()

    def close(self):
        for d in self.drvs.values():
            d.close()
        self.drvs = {}
        if self.tmp:
            import shutil
            shutil.rmtree(self.tmp, ignore_errors=True)
            self.tmp = None


class Suite:
    """name; case(src, ctx) -> Info; n = cases per tier; variants of the driver it needs."""
    def __init__(self, name, case, quick, thorough, variants=("plain",), chunk=25, rule="", isolate=False, workers=None, racy=0):
        self.name, self.case, self.quick, self.thorough = name, case, quick, thorough
        self.variants, self.chunk, self.rule = variants, chunk, rule
        self.workers = workers
        self.racy = racy   # a schedule decides: one failure is proof; a replay gets this many attempts


def case_seed(prop, suite, seed, i):
    return int.from_bytes(hashlib.sha256(("%s/%s/%s/%d" % (prop, suite, seed, i)).encode()).digest()[:8], "big")


def run_one(suite, ctx, src):
    """-> (Info|None, Violation|None)"""
    try:
        return suite.case(src, ctx), None
    except Discard:
        return None, None
    except Violation as v:
        return None, v
    except drvmod.Crash as c:
        return None, Violation("driver %s: %s" % (c.kind, c.detail), key="crash")
    except build.BuildError as e:
        return None, Violation("generated code does not build: %s" % str(e)[-3000:], key="build")
    except (MemoryError, OSError):
        raise
    except Exception as e:
        # an answer the oracle cannot even read
        return None, Violation("unreadable outcome: %s" % traceback.format_exc()[-3000:], key="exception")


_W = {}


def _chunk(args):
    """Runs one chunk of cases on fresh drivers."""
    prop, sname, seed, lo, hi, deadline = args
    suite = _W["suites"][sname]
    ctx = _W.get("ctx")
    if ctx is None:
        ctx = _W["ctx"] = Ctx(_W["infos"])
    ctx.reset()
    st = dict(n=0, disc=0, evals=0, tags=collections.Counter(), dig=set(), samples=[], fail=None, skipped=0, lo=lo)
    for i in range(lo, hi):
        if time.time() > deadline:
            st["skipped"] += hi - i
            break
        src = Src(seed=case_seed(prop, sname, seed, i))
        try:
            info, v = run_one(suite, ctx, src)
        except (MemoryError, OSError):
            st["error"] = "case %s/%s/%d: %s" % (prop, sname, i, traceback.format_exc())
            st["choices"] = src.rec
            break
        st["n"] += 1
        if v is not None:
            st["fail"] = (i, str(v), src.rec, v.key)
            break
        if info is None:
            st["disc"] += 1
            continue
        st["evals"] += info.evals
        for t in info.tags:
            st["tags"][t] += 1
        if info.nontrivial:
            dg = info.digest if info.digest is not None else hashlib.sha256(repr(src.rec).encode()).digest()[:8]
            if isinstance(dg, (list, set, tuple)):
                st["dig"].update(hash_(x) for x in dg)
            else:
                st["dig"].add(hash_(dg))
            if len(st["samples"]) < 1 and info.sample is not None:
                st["samples"].append(str(info.sample)[:1500])
    return st


def hash_(x):
    if isinstance(x, bytes) and len(x) == 8:
        return x
    return hashlib.sha256(repr(x).encode()).digest()[:8]


def _init(infos, suites):
    _W["infos"] = infos
    _W["suites"] = suites
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    from . import drv
    drv._LIBC.prctl(1, 9, 0, 0, 0)  # ends with its parent


def fails(suite, infos, choices, deadline=None):
    """Replays a choice sequence on fresh drivers -> (Violation|None, recorded choices)."""
    ctx = Ctx(infos)
    try:
        src = Src(choices=choices)
        try:
            info, v = run_one(suite, ctx, src)
        except Exception:
            return None, src.rec
        return v, src.rec
    finally:
        ctx.close()


def shrink(suite, infos, choices, key, budget=400, wall=90.0):
    end = time.time() + wall
    best = list(choices)
    ctx = Ctx(infos)
    used = 0

    def ok(c):
        nonlocal used
        if used >= budget or time.time() > end:
            return False
        used += 1
        ctx.reset()
        src = Src(choices=c)
        try:
            info, v = run_one(suite, ctx, src)
        except Exception:
            return False
        if v is not None and (key is None or v.key == key):
            r = src.rec
            while r and r[-1] == 0:
                r = r[:-1]
            nonlocal_best(r if len(r) <= len(c) else c)
            return True
        return False

    def nonlocal_best(c):
        nonlocal best
        best = list(c)

    try:
        changed = True
        while changed and used < budget and time.time() < end:
            changed = False
            n = max(1, len(best) // 2)
            while n >= 1:
                i = 0
                while i < len(best) and used < budget:
                    c = best[:i] + best[i + n:]
                    if len(c) < len(best) and ok(c):
                        changed = True
                    else:
                        i += n
                n //= 2
            i = 0
            while i < len(best) and used < budget:
                if best[i]:
                    for v in (0, best[i] // 2, best[i] - 1):
                        if v < best[i] and ok(best[:i] + [v] + best[i + 1:]):
                            changed = True
                            break
                i += 1
    finally:
        ctx.close()
    return best, used


class Report:
    def __init__(self, prop, tier, seed, level, rule, assumptions=()):
        self.prop, self.tier, self.seed, self.level, self.rule = prop, tier, seed, level, rule
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.evals = 0
        self.dig = set()
        self.samples = []
        self.suites = {}
        self.violations = []
        self.known = []
        self.extra = {}

    def write(self):
        os.makedirs(EVID, exist_ok=True)
        cov = dict(evaluations=self.evals, distinct_nontrivial=len(self.dig), rule=self.rule, samples=self.samples[:24] or ["none"], suites=self.suites)
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 2), assumptions=self.assumptions)
        ev["violations"] = len(self.violations)
        if self.violations:
            cov["violation_details"] = self.violations
        p = os.path.join(EVID, self.prop + ".json")
        with open(p + ".tmp", "w") as fp:
            json.dump(ev, fp, indent=1, default=str)
        os.replace(p + ".tmp", p)


def save_replay(prop, suite, choices, msg, seed, extra=None):
    d = os.path.join(WORK, "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256((suite + repr(choices)).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s-%s-%s.json" % (prop, suite, h))
    with open(p, "w") as fp:
        json.dump(dict(property=prop, suite=suite, choices=choices, message=msg, seed=seed, **(extra or {})), fp, indent=1)
    return p


def run(prop, title, suites, tier, seed, level="exploration", rule="", assumptions=(), hard_wall=None, only=None, known=()):
    """Runs every suite; prints the verdict; returns the exit status."""
    rep = Report(prop, tier, seed, level, rule, assumptions)
    if hard_wall is None:
        hard_wall = 700 if tier == "quick" else 3000
    sm = {s.name: s for s in suites}
    need = []
    for s in suites:
        for v in s.variants:
            if v not in need:
                need.append(v)
    try:
        infos = {v: build.driver(v) for v in need if v != "none"}
    except build.BuildError as e:
        msg = str(e)
        print(msg[-3000:], file=sys.stderr)
        if "std class" in msg or "driver crashed" in msg or ".pre.c failed" in msg:
            p = save_replay(prop, "build", [], msg[-6000:], seed)
            rep.violations.append(dict(suite="build", message=msg[-3000:], replay=p))
            rep.evals = 1
            rep.write()
            print("VIOLATION property=%s replay=%s" % (prop, p))
            return 1
        print("ERROR property=%s the tree does not build" % prop)
        return 2
    deadline = rep.t0 + hard_wall
    status = 0
    jobs = []
    for s in suites:
        if only and s.name not in only:
            continue
        n = s.quick if tier == "quick" else s.thorough
        rep.suites[s.name] = dict(cases=0, planned=n, discarded=0, evaluations=0, nontrivial=0, tags=collections.Counter(), skipped=0)
        for lo in range(0, n, s.chunk):
            jobs.append((prop, s.name, seed, lo, min(n, lo + s.chunk), deadline))
    failures = []
    errors = []
    nontriv = {s.name: set() for s in suites}
    with mp.Pool(build.NCPU, initializer=_init, initargs=(infos, sm)) as pool:
        for job, st in zip(jobs, pool.imap(_chunk, jobs)):
            sn = job[1]
            r = rep.suites[sn]
            r["cases"] += st["n"]
            r["discarded"] += st["disc"]
            r["evaluations"] += st["evals"]
            r["skipped"] += st["skipped"]
            r["tags"].update(st["tags"])
            nontriv[sn].update(st["dig"])
            if st["samples"] and sum(1 for x in rep.samples if x.startswith("[" + sn)) < 3:
                rep.samples.append("[%s] %s" % (sn, st["samples"][0]))
            if st.get("error"):
                errors.append(st["error"])
                if len(errors) >= 3:
                    pool.terminate()
                    break
            if st["fail"]:
                failures.append((sn, job) + st["fail"])
                if len(failures) >= 8:
                    pool.terminate()
                    break
    for sn, r in rep.suites.items():
        r["nontrivial"] = len(nontriv[sn])
        rep.evals += r["evaluations"]
        rep.dig |= {sn.encode() + x for x in nontriv[sn]}
        r["tags"] = dict(sorted(r["tags"].items()))
    reported = 0
    seen_keys = set()
    for sn, job, i, msg, choices, key in failures:
        if (sn, key) in seen_keys and reported:
            continue
        suite = sm[sn]
        # must fail again on fresh drivers, three times
        hits = sum(1 for _ in range(3) if fails(suite, infos, choices)[0] is not None)
        extra = {}
        if suite.racy and hits < 3:
            # a wrong result or a crash under one schedule is a defect even when the next schedule hides it;
            # a hang or a kill can come from outside and must come back
            if "hang:" in msg or "signal 9" in msg:
                if not hits and not any(fails(suite, infos, choices)[0] is not None for _ in range(suite.racy)):
                    print("NOTE: case %s/%d failed once but not on replay: %s" % (sn, i, msg[:500]))
                    rep.extra.setdefault("unreproduced", []).append(dict(suite=sn, case=i, message=msg[:1500]))
                    continue
            small, m = choices, msg
        elif hits == 3:
            small, used = (choices, 0) if reported else shrink(suite, infos, choices, key)
            v, _ = fails(suite, infos, small)
            if v is None:
                small = choices
                v, _ = fails(suite, infos, small)
            m = str(v) if v else msg
        else:
            # depends on what ran before it on the same driver: replay the whole chunk
            h2 = 0
            for _ in range(3):
                _W.clear()
                _init(infos, sm)
                st = _chunk((prop, sn, seed, job[3], i + 1, time.time() + 600))
                if _W.get("ctx"):
                    _W["ctx"].close()
                if st["fail"]:
                    h2 += 1
            extra = dict(history=[job[3], i + 1])
            small, m = choices, msg
            if h2 < 3:
                print("NOTE: case %s/%d failed once but not on replay (%d/3 alone, %d/3 with its history): %s" % (sn, i, hits, h2, msg[:500]))
                rep.extra.setdefault("unreproduced", []).append(dict(suite=sn, case=i, message=msg[:1500]))
                # a crash seen twice out of three is still a defect of the code under test
                if max(hits, h2) < 2:
                    continue
        seen_keys.add((sn, key))
        p = save_replay(prop, sn, small, m, seed, extra)
        print("--- %s/%s case %d\n%s" % (prop, sn, i, m[:6000]))
        print("VIOLATION property=%s replay=%s" % (prop, p))
        rep.violations.append(dict(suite=sn, case=i, message=m[:3000], replay=p))
        reported += 1
        status = 1
        if reported >= 3:
            break
    if errors and status == 0:
        print("\n".join(errors[:3]), file=sys.stderr)
        print("ERROR property=%s the check itself failed" % prop)
        status = 2
    if not only:
        for fid, what, fn in known:
            if not finding_fails(fn, infos):
                continue
            rep.known.append(fid)
            if "known: property=%s id=%s " % (prop, fid) in open(os.path.join(VERIF, "KNOWN_FINDINGS")).read():
                print("KNOWN-FINDING: property=%s %s" % (prop, what))
            else:
                p = save_replay(prop, "known", [], what, seed)
                print("VIOLATION property=%s replay=%s" % (prop, p))
                rep.violations.append(dict(suite="known", message=what, replay=p))
                status = 1
    rep.write()
    for sn, r in rep.suites.items():
        print("%s/%s: %d cases, %d evaluations, %d distinct non-trivial, %d discarded%s" % (prop, sn, r["cases"], r["evaluations"], r["nontrivial"], r["discarded"], ", %d skipped at the time limit" % r["skipped"] if r["skipped"] else ""))
    print("%s %s in %.1fs: %s" % (prop, tier, time.time() - rep.t0, "held on everything explored" if status == 0 else "see above"))
    sys.stdout.flush()
    return status


def finding_fails(fn, infos):
    """Does the recorded input still fail?  A crash of the driver counts."""
    d = drvmod.Driver(infos["plain"]) if "plain" in infos else drvmod.Driver(build.driver("plain"))
    try:
        return bool(fn(d))
    except drvmod.Crash:
        return True
    finally:
        d.close()


def replay(prop, suites, path):
    d = json.load(open(path))
    s = {x.name: x for x in suites}[d["suite"]]
    infos = {v: build.driver(v) for v in s.variants if v != "none"}
    if d.get("history"):
        _init(infos, {s.name: s})
        st = _chunk((prop, s.name, d["seed"], d["history"][0], d["history"][1], time.time() + 600))
        v = st["fail"] and st["fail"][1]
    else:
        for _ in range(s.racy or 1):
            v, _ = fails(s, infos, d["choices"])
            if v:
                break
    if v:
        print(v)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("no violation")
    return 0
