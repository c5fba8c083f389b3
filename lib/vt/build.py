"""Builds the driver (and the std classes' precompiled code) from /repo's current working tree.

Everything lands in /verif/build/<variant>-<hash of every input>/, which git ignores.  A build that fails raises
BuildError: the tree under test does not compile."""
import concurrent.futures as cf
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, tempfile, time

REPO = os.environ.get("VT_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
BUILD = os.path.join(VERIF, "build")
NCPU = max(1, min(8, os.cpu_count() or 1))
CORE = "lib/SPVM/Builder"

STD_PRECOMPILE = ["Fn", "Array", "Format", "Hash", "Sort", "Packer"]


class BuildError(Exception):
    pass


def core_sources():
    return sorted(glob.glob(os.path.join(REPO, CORE, "src", "*.c")))


def native_sources():
    """C sources of the std classes' native methods."""
    out = []
    base = os.path.join(REPO, "lib/SPVM")
    for root, dirs, files in os.walk(base):
        rel = os.path.relpath(root, base)
        dirs.sort()
        if rel == "Builder" or rel.startswith("Builder/"):
            dirs[:] = []
            continue
        if ".spvm_build" in root:
            continue
        for f in sorted(files):
            if not f.endswith(".c"):
                continue
            out.append(os.path.join(root, f))
    return out


def native_includes():
    base = os.path.join(REPO, "lib/SPVM")
    inc = []
    for root, dirs, files in os.walk(base):
        dirs.sort()
        if root.endswith(".native/include"):
            inc.append(root)
    return inc


def spvm_files():
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, "lib/SPVM")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".spvm"):
                out.append(os.path.join(root, f))
    return out


def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as fp:
            h.update(hashlib.sha256(fp.read()).digest())
    return h.hexdigest()[:16]


VARIANTS = {
    # as the distribution builds it (perl's ccflags carry -fwrapv -fno-strict-aliasing), at -O1 to build fast
    "plain": dict(cc="gcc", core="-O1 -fwrapv -fno-strict-aliasing", nat="-O1", ld=""),
    "opt": dict(cc="gcc", core="-O2 -fwrapv -fno-strict-aliasing", nat="-O3", ld=""),
    "asan": dict(cc="gcc", core="-O1 -g -fwrapv -fno-strict-aliasing -fsanitize=address -fno-omit-frame-pointer",
                 nat="-O1 -g -fsanitize=address -fno-omit-frame-pointer", ld="-fsanitize=address"),
    "tsan": dict(cc="gcc", core="-O1 -g -fwrapv -fno-strict-aliasing -fsanitize=thread",
                 nat="-O1 -g -fsanitize=thread", ld="-fsanitize=thread"),
}


def _run(cmd, what):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s failed: %s\n%s" % (what, " ".join(cmd), r.stdout.decode("utf8", "replace")[-4000:]))


def _prune(keep):
    """Bound the build directory: drop all but the newest few."""
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if os.path.isdir(os.path.join(BUILD, d))]
        ds.sort(key=os.path.getmtime)
        for d in ds[:-10]:
            if d != keep and time.time() - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def driver(variant="plain", precompile=True):
    """Returns dict(exe=..., so=[(class, path)]), building it when it is not there."""
    v = VARIANTS[variant]
    inc = os.path.join(REPO, CORE, "include")
    heads = sorted(glob.glob(inc + "/*.h"))
    drv_dir = os.path.join(VERIF, "driver")
    drv = sorted(glob.glob(drv_dir + "/*.[ch]"))
    nincs = native_includes()
    nheads = [h for d in nincs for h in sorted(glob.glob(d + "/*.h"))]
    srcs = core_sources()
    nats = native_sources()
    sp = spvm_files()
    key = _hash(srcs + heads + nats + nheads + drv + sp, repr(v) + str(precompile))
    out = os.path.join(BUILD, "%s-%s" % (variant, key))
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock-%s" % variant), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        info = dict(exe=os.path.join(out, "drv"), so=[], dir=out, inc=inc, variant=variant)
        if precompile:
            info["so"] = [(c, os.path.join(out, c.replace("::", "__") + ".pre.so")) for c in STD_PRECOMPILE]
        if os.path.exists(os.path.join(out, "ok")):
            return info
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(os.path.join(out, "o"))
        jobs = []
        objs = []
        # a native method's C code may be named like a core file: number the objects
        for i, s in enumerate(srcs):
            o = os.path.join(out, "o", "c%d.o" % i)
            objs.append(o)
            jobs.append(([v["cc"], "-std=gnu99", "-D_GNU_SOURCE", "-pthread", "-fPIC", "-w", "-I" + inc] + v["core"].split() + ["-c", s, "-o", o], s))
        for i, s in enumerate(nats):
            o = os.path.join(out, "o", "n%d.o" % i)
            objs.append(o)
            jobs.append(([v["cc"], "-std=gnu99", "-pthread", "-fPIC", "-w", "-I" + inc] + ["-I" + d for d in nincs] + v["nat"].split() + ["-c", s, "-o", o], s))
        for i, s in enumerate([d for d in drv if d.endswith(".c")]):
            o = os.path.join(out, "o", "d%d.o" % i)
            objs.append(o)
            jobs.append(([v["cc"], "-std=gnu11", "-pthread", "-fPIC", "-w", "-I" + inc, "-I" + drv_dir] + v["nat"].split() + ["-c", s, "-o", o], s))
        jobs.sort(key=lambda j: -os.path.getsize(j[1]))
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda j: _run(j[0], j[1]), jobs))
        _run([v["cc"], "-rdynamic", "-pthread", "-Wl,-z,muldefs"] + v["ld"].split() + ["-o", os.path.join(out, "drv")] + objs + ["-lm", "-ldl"], "link")
        if precompile:
            _build_std_precompile(info, v, inc)
        shutil.rmtree(os.path.join(out, "o"), ignore_errors=True)
        open(os.path.join(out, "ok"), "w").close()
        _prune(out)
        return info
    finally:
        lock.close()


def _build_std_precompile(info, v, inc):
    from . import drv as drvmod
    d = drvmod.Driver(dict(info, so=[]))
    try:
        def one(args):
            c, src, so = args
            cf_ = os.path.join(info["dir"], c.replace("::", "__") + ".pre.c")
            with open(cf_, "wb") as fp:
                fp.write(src)
            compile_so(cf_, so, inc, v["nat"].split(), v["cc"])
        work = []
        for c, so in info["so"]:
            d.new()
            r = d.compile(c)
            if r.code != 0:
                raise BuildError("std class %s does not compile: %r" % (c, r.errors[:3]))
            work.append((c, d.gensrc(c), so))
            d.done()
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, work))
    except drvmod.Crash as e:
        raise BuildError("driver crashed while generating precompiled code: %s" % e)
    finally:
        d.close()


def compile_so(cfile, so, inc, flags, cc="gcc"):
    _run([cc, "-std=gnu99", "-pthread", "-fPIC", "-shared", "-w", "-I" + inc] + flags + ["-o", so, cfile, "-lm"], cfile)
