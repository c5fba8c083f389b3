"""Client of the driver process."""
import os, select, signal, struct, subprocess, tempfile, time, shutil, threading, uuid


import ctypes
_LIBC = ctypes.CDLL(None)

class Crash(Exception):
    """The driver died or hung while handling a request."""
    def __init__(self, kind, detail):
        Exception.__init__(self, kind + ": " + detail[:3000])
        self.kind = kind
        self.detail = detail


class CompileResult:
    __slots__ = ("code", "ntypes", "errors")

    def __init__(self, code, ntypes, errors):
        self.code, self.ntypes, self.errors = code, ntypes, errors


class CallResult:
    __slots__ = ("status", "ret", "msg", "err", "trace", "leak", "out", "errout")

    def key(self):
        return (self.status, self.ret, self.msg, self.err, self.trace)

    def __repr__(self):
        return "CallResult(%s ret=%r msg=%r err=%r trace=%r leak=%r out=%r errout=%r)" % (
            self.status, self.ret, self.msg, self.err, self.trace, self.leak, self.out, self.errout)


def enc_arg(a):
    if a is None:
        return b"u"
    if isinstance(a, int):
        return b"i%d" % a
    if isinstance(a, bytes):
        return b"s" + a
    if isinstance(a, str):
        return b"s" + a.encode("utf8")
    k = a[0]
    if k == "f":
        return b"f%x" % struct.unpack("<I", struct.pack("<f", a[1]))[0]
    if k == "fb":
        return b"f%x" % a[1]
    if k == "d":
        return b"d%x" % struct.unpack("<Q", struct.pack("<d", a[1]))[0]
    if k == "db":
        return b"d%x" % a[1]
    if k == "arr":  # ("arr", 'b'|'h'|'i'|'l'|'f'|'d', list)
        code = {"b": "b", "h": "h", "i": "i", "l": "q", "f": "f", "d": "d"}[a[1]]
        return b"a" + a[1].encode() + struct.pack("<%d%s" % (len(a[2]), code), *a[2])
    if k == "strs":
        o = b"S" + struct.pack("<I", len(a[1]))
        for s in a[1]:
            if s is None:
                o += struct.pack("<i", -1)
            else:
                o += struct.pack("<i", len(s)) + s
        return o
    raise ValueError(a)


class F(float):
    """A 32-bit float record."""


def parse_trace(b):
    """Decode a trace or a serialised value to a list of Python records.

    i:int  ('f',bits)  ('d',bits)  None  bytes  ('N',type,raw)  ('A',type,[..])  ('B',kind,bits)  ('O',name)"""
    out = []
    p = 0
    n = len(b)

    def one(p):
        k = b[p:p + 1]
        p += 1
        if k == b"i":
            return struct.unpack_from("<q", b, p)[0], p + 8
        if k == b"f":
            return ("f", struct.unpack_from("<I", b, p)[0]), p + 4
        if k == b"d":
            return ("d", struct.unpack_from("<Q", b, p)[0]), p + 8
        if k == b"u":
            return None, p
        if k == b"v":
            return "void", p
        if k == b"!":
            return "deep", p
        if k == b"s":
            l = struct.unpack_from("<I", b, p)[0]
            return b[p + 4:p + 4 + l], p + 4 + l
        if k == b"N":
            l = struct.unpack_from("<I", b, p)[0]
            p += 4
            t = b[p:p + l].decode()
            p += l
            c, sz = struct.unpack_from("<II", b, p)
            p += 8
            return ("N", t, b[p:p + c * sz]), p + c * sz
        if k == b"A":
            l = struct.unpack_from("<I", b, p)[0]
            p += 4
            t = b[p:p + l].decode()
            p += l
            c = struct.unpack_from("<I", b, p)[0]
            p += 4
            xs = []
            for _ in range(c):
                x, p = one(p)
                xs.append(x)
            return ("A", t, xs), p
        if k == b"B":
            kk = b[p:p + 1].decode()
            v = struct.unpack_from("<q", b, p + 1)[0]
            return ("B", kk, v), p + 9
        if k == b"O":
            l = struct.unpack_from("<I", b, p)[0]
            return ("O", b[p + 4:p + 4 + l].decode("latin1")), p + 4 + l
        raise ValueError("bad trace at %d: %r" % (p - 1, b[:80]))

    while p < n:
        x, p = one(p)
        out.append(x)
    return out


class Driver:
    def __init__(self, info, timeout=30.0, env=None, inc=None):
        from . import build
        self.info = info
        self.timeout = timeout
        self.proc = None
        self.env = env
        self.inc = inc if inc is not None else os.path.join(build.REPO, "lib/SPVM")
        self.dir = tempfile.mkdtemp(prefix="vtdrv")
        self.starts = 0
        self.log = None

    def start(self):
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=2000:handle_segv=1"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
        if self.env:
            e.update(self.env)
        self.f1 = os.path.join(self.dir, "o")
        self.f2 = os.path.join(self.dir, "e")
        args = [self.info["exe"], self.f1, self.f2, self.inc] + ["%s=%s" % x for x in self.info["so"]]
        import resource

        def lim():
            _LIBC.prctl(1, 9, 0, 0, 0)  # the driver ends with its parent
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if self.info.get("variant") not in ("asan", "tsan"):
                resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        self.proc = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, preexec_fn=lim, bufsize=0, start_new_session=True)
        self.rbuf = b""
        self.starts += 1

    def close(self):
        self.kill()
        shutil.rmtree(self.dir, ignore_errors=True)

    def kill(self):
        if self.proc:
            try:
                self.proc.kill()
            except OSError:
                pass
            self.proc.wait()
            self.proc.stdin.close()
            self.proc.stdout.close()
            self.proc = None

    def quit(self):
        """Orderly end (so a leak checker may run); returns the exit status."""
        if not self.proc:
            return 0
        try:
            self.proc.stdin.write(struct.pack("<I", 0))
            rc = self.proc.wait(self.timeout)
        except Exception:
            rc = -1
        self.kill()
        return rc

    def _read(self, n, deadline):
        while len(self.rbuf) < n:
            t = deadline - time.monotonic()
            if t <= 0:
                raise TimeoutError
            r, _, _ = select.select([self.proc.stdout], [], [], t)
            if not r:
                raise TimeoutError
            d = os.read(self.proc.stdout.fileno(), 1 << 20)
            if not d:
                raise EOFError
            self.rbuf += d
        d, self.rbuf = self.rbuf[:n], self.rbuf[n:]
        return d

    def request(self, *fields):
        if self.proc is None:
            self.start()
        fs = [f if isinstance(f, bytes) else f.encode("utf8") for f in fields]
        msg = struct.pack("<I", len(fs)) + b"".join(struct.pack("<I", len(f)) + f for f in fs)
        try:
            mv = memoryview(msg)
            while mv:
                w = self.proc.stdin.write(mv)
                mv = mv[w:]
            deadline = time.monotonic() + self.timeout
            n = struct.unpack("<I", self._read(4, deadline))[0]
            out = []
            for _ in range(n):
                l = struct.unpack("<I", self._read(4, deadline))[0]
                out.append(self._read(l, deadline) if l else b"")
            return out
        except TimeoutError:
            self.kill()
            raise Crash("hang", "no answer within %gs to %r" % (self.timeout, fields[0]))
        except (EOFError, BrokenPipeError, ConnectionResetError):
            rc = self.proc.wait()
            try:
                with open(self.f2, "rb") as fp:
                    err = fp.read().decode("utf8", "replace")
            except OSError:
                err = ""
            self.kill()
            what = "signal %d (%s)" % (-rc, signal.Signals(-rc).name) if rc < 0 else "exit %d" % rc
            raise Crash("crash", "%s during %r; stderr: %s" % (what, fields[0], err[:200] + " ... " + err[-2500:] if len(err) > 2700 else err))

    # -- operations
    def new(self, mode="v"):
        self.request("NEW", mode)

    def add(self, name, src):
        self.request("CLASS", name, src)

    def compile(self, name):
        r = self.request("COMPILE", name)
        return CompileResult(int(r[0]), int(r[1]), [x.decode("utf8", "replace") for x in r[2:]])

    def anon(self, src):
        r = self.request("ANON", src)
        return int(r[0]), r[1].decode(), [x.decode("utf8", "replace") for x in r[2:]]

    def envinit(self):
        r = self.request("ENV")
        self.init_trace = parse_trace(r[2])
        return int(r[0]), r[1]

    def call(self, cls, meth, *args):
        r = self.request("CALL", cls, meth, *[enc_arg(a) for a in args])
        c = CallResult()
        c.status = r[0].decode()
        if c.status == "nomethod":
            raise RuntimeError("no method %s->%s" % (cls, meth))
        c.ret = c.msg = c.err = None
        if c.status == "ok":
            c.ret = parse_trace(r[1])[0]
        else:
            c.msg = r[1]
            c.err = r[2].decode()
        c.trace = parse_trace(r[3])
        c.leak = int(r[4])
        c.out = r[5]
        c.errout = r[6]
        return c

    def done(self):
        r = self.request("DONE")
        return int(r[0]), parse_trace(r[1]), r[2], r[3]

    def gensrc(self, cls):
        r = self.request("GENSRC", cls)
        if r[0] != b"ok":
            raise RuntimeError("gensrc " + cls)
        return r[1]

    def so(self, cls, path):
        r = self.request("SO", cls, path)
        if r[0] != b"ok":
            raise RuntimeError("dlopen: %r" % r[0])

    # -- whole program: classes = [(name, source)], compile the first, run method
    def program(self, classes, mode="v"):
        self.new(mode)
        for n, s in classes:
            self.add(n, s)
        r = self.compile(classes[0][0])
        if r.code == 0:
            e, msg = self.envinit()
            if e:
                r.code = -1000
                r.errors = ["INIT died: " + msg.decode("utf8", "replace")]
        return r

    def precompiled(self, info, classes, names, tmp, opt="-O3", cache=False):
        """Compiles the classes, builds the precompiled code of the named ones with the C compiler and runs the
        program on it: -> CompileResult, the program being ready for call()."""
        from . import build
        self.new("v")
        for n, s in classes:
            self.add(n, s)
        r = self.compile(classes[0][0])
        if r.code:
            self.done()
            return r
        srcs = [(n, self.gensrc(n)) for n in names]
        self.done()
        self.new("p")
        for n, c in srcs:
            if cache:
                self.so(n, _cached_so(info, c, opt))
                continue
            base = os.path.join(tmp, "%s-%s" % (n.replace("::", "__"), uuid.uuid4().hex[:12]))
            with open(base + ".c", "wb") as fp:
                fp.write(c)
            build.compile_so(base + ".c", base + ".so", info["inc"], opt.split())
            self.so(n, base + ".so")
            os.unlink(base + ".c")
            os.unlink(base + ".so")
        for n, s in classes:
            self.add(n, s)
        r = self.compile(classes[0][0])
        if r.code == 0:
            e, msg = self.envinit()
            if e:
                r.code = -1000
                r.errors = ["INIT died: " + msg.decode("utf8", "replace")]
        return r


def _cached_so(info, c, opt):
    """The shared object of this C source, built once per build directory."""
    from . import build
    import fcntl, hashlib
    d = os.path.join(info["dir"], "cache")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(c + opt.encode()).hexdigest()[:20]
    so = os.path.join(d, h + ".so")
    with open(os.path.join(d, h + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(so):
            with open(os.path.join(d, h + ".c"), "wb") as fp:
                fp.write(c)
            build.compile_so(os.path.join(d, h + ".c"), so + ".tmp", info["inc"], opt.split())
            os.rename(so + ".tmp", so)
    return so
