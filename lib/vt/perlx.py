"""The Perl side: builds the distribution in a scratch folder under build/ and talks to a perl process that runs snippets."""
import fcntl, os, re, shutil, signal, struct, subprocess, tempfile, time

from . import build, drv
from .build import BUILD, REPO, BuildError

SKIP = re.compile(r"\.(o|so|bs)$")


def sources():
    out = []
    for top in ("lib", "script", "t/test_files/os_support", "t/utils"):
        for root, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(d for d in dirs if d != ".spvm_build")
            out += [os.path.join(root, f) for f in sorted(files) if not SKIP.search(f)]
    for f in ("Makefile.PL", "SPVM.xs", "ppport.h", "typemap", "MANIFEST"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            out.append(p)
    return out


def dist():
    """dict(dir=, inc=[blib dirs], env=...) of the built distribution."""
    src = sources()
    h = build._hash(src, "perl 3")
    d = os.path.join(BUILD, "perl-" + h)
    os.makedirs(BUILD, exist_ok=True)
    if not os.path.exists(os.path.join(d, "done")):
        with open(d + ".lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            if not os.path.exists(os.path.join(d, "done")):
                shutil.rmtree(d, ignore_errors=True)
                for p in src:
                    q = os.path.join(d, os.path.relpath(p, REPO))
                    os.makedirs(os.path.dirname(q), exist_ok=True)
                    shutil.copy2(p, q)
                r = subprocess.run("perl Makefile.PL --no-precompile-tests --OPTIMIZE=-O1 && make -j%d" % build.NCPU, shell=True, cwd=d, env=env(), stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                so = os.path.join(d, "blib/arch/auto/SPVM/SPVM.so")
                if r.returncode or not os.path.exists(so):
                    raise BuildError("the distribution does not build\n" + r.stdout.decode("utf8", "replace")[-3000:])
                for root, dirs, files in os.walk(d):
                    for f in files:
                        if f.endswith(".o"):
                            os.unlink(os.path.join(root, f))
                open(os.path.join(d, "done"), "w").close()
        try:
            os.unlink(d + ".lock")
        except OSError:
            pass
        build._prune(d)
    os.utime(d)
    return dict(dir=d, inc=[os.path.join(d, "blib/lib"), os.path.join(d, "blib/arch")])


def env(**extra):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("PERL", "SPVM_", "MAKE"))}
    e.update(LC_ALL="C.UTF-8", LANG="C.UTF-8", PERL_MM_USE_DEFAULT="1")
    e.update(extra)
    return e


class PerlCrash(Exception):
    def __init__(self, why, err=b""):
        Exception.__init__(self, why)
        self.err = err


class Perl:
    """A perl process that reads snippets (4-byte length + code) and answers (4-byte length + records)."""

    def __init__(self, d, lib=None, setup="", timeout=60, pre=()):
        self.tmp = tempfile.mkdtemp(prefix="vtperl")
        self.timeout = timeout
        self.errf = open(os.path.join(self.tmp, "err"), "w+b")
        libs = ([lib] if lib else []) + [os.path.join(build.VERIF, "lib/perl/lib")] + d["inc"]
        a, b = os.pipe()
        c, w = os.pipe()
        self.p = subprocess.Popen(["perl"] + list(pre) + ["-I" + x for x in libs] + [os.path.join(build.VERIF, "lib/perl/server.pl"), str(a), str(w)], pass_fds=(a, w), stdin=subprocess.DEVNULL,
                                  stdout=self.errf, stderr=self.errf, cwd=self.tmp, env=env(SPVM_BUILD_DIR=os.path.join(self.tmp, "build")), start_new_session=True,
                                  preexec_fn=lambda: drv._LIBC.prctl(1, 9, 0, 0, 0))
        os.close(a), os.close(w)
        self.w, self.r = b, c
        self.pos = 0
        if setup:
            self.run(setup)

    def alive(self):
        return self.p.poll() is None

    def _read(self, n, end):
        import select
        out = b""
        while len(out) < n:
            t = end - time.time()
            if t <= 0 or not select.select([self.r], [], [], t)[0]:
                raise PerlCrash("no answer within %d s" % self.timeout)
            x = os.read(self.r, n - len(out))
            if not x:
                self.p.wait()
                raise PerlCrash("perl ended with %s" % self.p.returncode, self.stderr())
            out += x
        return out

    def stderr(self):
        self.errf.flush()
        self.errf.seek(self.pos)
        s = self.errf.read()
        self.pos += len(s)
        return s

    def run(self, code):
        """list of records (bytes); the last one is the exception or b''."""
        if isinstance(code, str):
            code = code.encode("utf8")
        end = time.time() + self.timeout
        try:
            os.write(self.w, struct.pack("<I", len(code)))
            v = memoryview(code)
            while v:
                v = v[os.write(self.w, v[:60000]):]
            n, = struct.unpack("<I", self._read(4, end))
            return [self._read(k, end) if k else b"" for k in (struct.unpack("<I", self._read(4, end))[0] for _ in range(n))]
        except PerlCrash:
            self.kill()
            raise
        except (BrokenPipeError, OSError):
            self.p.wait()
            e = self.stderr()
            self.kill()
            raise PerlCrash("perl ended with %s" % self.p.returncode, e)

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        for f in (self.w, self.r):
            try:
                os.close(f)
            except OSError:
                pass
        shutil.rmtree(self.tmp, ignore_errors=True)
