"""P27: programs run by the spvm command and executables of the spvmcc command.  Histories of edits of the sources of an application (classes, native sources, headers, configs, resources), each followed by
a build and a run, against a model."""
import os, re, shutil, subprocess, time, signal
from vt import build, drv as drvmod, lang, pbt, perlx, prog
from vt.pbt import Suite

TITLE = "The spvm command and executables of spvmcc run the current sources faithfully"
RULE = ("One case is an application (script, generated program, native class with header, sources, config and resource, precompiled class using another class) and a history of edits, each followed by a build, a run with "
        "arguments of any bytes and sometimes by a run without edit, which must not build anything; arguments, trace, output, error message, exit code and the values compiled into each part are compared with the model. "
        "Non-trivial: at least 2 runs after different edits, or an executable whose program has at least 3 trace records.")

VT_NAMES = [("i", "void ($v : long)"), ("f", "void ($v : float)"), ("d", "void ($v : double)"), ("o", "void ($v : object)"), ("ro", "int ($v : string)"), ("refcnt", "int ($v : object)"), ("blocks", "int ()"),
            ("addr", "long ($v : object)"), ("tname", "string ($v : object)")]


def vt_c():
    s = open(os.path.join(build.VERIF, "driver/spvmdrv.c")).read()
    bufs = s[s.index("// ---------- buffers"):s.index("static void wr_all")]
    ser = s[s.index("// ---------- value serialisation"):s.index("int32_t SPVM__VT__call0")]
    tr = """#define TR(code) do { pthread_mutex_lock(&g_trace_mutex); g_trace.n = 0; code; int fd = open(getenv("VT_OUT"), O_WRONLY | O_APPEND | O_CREAT, 0600); if (write(fd, g_trace.p, g_trace.n)) {} close(fd); pthread_mutex_unlock(&g_trace_mutex); } while (0)"""
    ser = re.sub(r"#define TR\(code\).*", lambda m: tr, ser)
    return """#include "spvm_native.h"
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <unistd.h>
#include <pthread.h>
%s
static Buf g_trace;
static pthread_mutex_t g_trace_mutex = PTHREAD_MUTEX_INITIALIZER;
%s
""" % (bufs, ser)


NAT = """#include "spvm_native.h"
#include "nat.h"
#include "r.h"
#define SRC %(src)d
int extra(void);
int two(void);
int32_t SPVM__Nat__v(SPVM_ENV* env, SPVM_VALUE* stack) {
  switch (stack[0].ival) {
    case 0: stack[0].lval = SRC; break;
    case 1: stack[0].lval = HDR; break;
    case 2: stack[0].lval = CFG; break;
    case 3: stack[0].lval = extra(); break;
    case 4: stack[0].lval = r_src(); break;
    case 5: stack[0].lval = RHDR; break;
    case 6: stack[0].lval = r_cfg(); break;
    case 7: stack[0].lval = r_hdr(); break;
    case 8: stack[0].lval = %(two)s; break;
    case 9: stack[0].lval = hdr2(); break;
    case 10: stack[0].lval = r_arg(); break;
  }
  return 0;
}
"""
FT = ["int", "long", "short", "double", "byte", "float"]
EDITS = ["src", "hdr", "cfg", "extra", "rsrc", "rhdr", "rcfg", "two", "q", "prog", "pre", "opt", "script", "none", "touch", "rmode", "rarg"]


class App:
    def __init__(self, src, root, exe):
        self.src, self.root, self.exe = src, root, exe
        self.lib = os.path.join(root, "lib/SPVM")
        os.makedirs(self.lib)
        self.v = {k: src.int(1, 30000) for k in ("src", "hdr", "cfg", "extra", "rsrc", "rhdr", "rcfg", "rarg")}
        self.two = None
        self.opt = None
        self.pre = 1
        self.script = 1
        self.rmode = 0
        self.newq()
        self.newprog()
        self.w("VT.c", vt_c())
        self.w("VT.config", 'use SPVM::Builder::Config; my $config = SPVM::Builder::Config->new_gnu99(file => __FILE__); $config->optimize("-O0"); $config;')
        self.w("VT.spvm", "class VT : public { %s }" % " ".join("native static method %s : %s;" % x for x in VT_NAMES))
        self.w("Nat.spvm", "class Nat : public { native static method v : long ($k : int); }")
        self.w("Resource/R.spvm", "class Resource::R { }")
        for n, s in prog.HELPERS:
            self.w(n + ".spvm", s)
        for k in ("src", "hdr", "cfg", "extra", "rsrc", "rhdr", "rcfg", "q", "prog", "pre", "script"):
            self.write(k)
        self.write("execonf")

    def w(self, rel, text):
        p = os.path.join(self.lib, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(text)

    def newq(self):
        s = self.src
        self.q = dict(e=s.int(0, 9999), e2=s.int(0, 99), k=s.int(0, 9999), ft=s.choice(FT), pos=s.below(3), dflt=s.int(0, 9999), cv=s.choice(["int", "long", "double"]), base=s.int(0, 99), sup=s.chance(1, 2))

    def newprog(self):
        self.g, self.text, self.exp = lang.gen(self.src, None, precompile=self.src.chance(1, 3))

    def write(self, k):
        v = self.v
        rconf = 'use SPVM::Builder::Config; my ($config_class, %%args) = @_; my $config = SPVM::Builder::Config->new_gnu99(file => __FILE__); $config->optimize("-O0"); $config->add_ccflag("-DRCFG=%d", "-DRARG=$ARGV[0]"); $config->add_source_file("r.c"); $config->ext(undef); $config;'
        if k in ("src", "two"):
            self.w("Nat.c", NAT % dict(src=v["src"], two="two()" if self.two is not None else "-1"))
        if k == "hdr":
            self.w("Nat.native/include/nat.h", "#define HDR %d\nstatic inline int hdr2(void) { return HDR * 2; }\n" % v["hdr"])
        if k in ("cfg", "two", "opt", "rmode", "rarg"):
            self.w("Nat.config", 'use SPVM::Builder::Config; my $config = SPVM::Builder::Config->new_gnu99(file => __FILE__); $config->optimize("%s"); $config->add_ccflag("-DCFG=%d"); $config->add_source_file("extra.c"%s); $config->use_resource("Resource::R", argv => [%d]%s); $config;'
                   % ("-O1" if self.opt else "-O0", v["cfg"], ', "sub/two.c"' if self.two is not None else "", v["rarg"], ', mode => "m"' if self.rmode else ""))
        if k == "extra":
            self.w("Nat.native/src/extra.c", '#include "nat.h"\nint extra(void) { return %d + HDR; }\n' % v["extra"])
        if k == "two" and self.two is not None:
            self.w("Nat.native/src/sub/two.c", "int two(void) { return %d; }\n" % self.two)
        if k == "rsrc":
            self.w("Resource/R.native/src/r.c", '#include "r.h"\nint r_src(void) { return %d; }\n#ifndef MODE\n#define MODE 0\n#endif\nint r_cfg(void) { return RCFG + MODE; }\nint r_arg(void) { return RARG; }\nint r_hdr(void) { return RHDR; }\n' % v["rsrc"])
        if k == "rhdr":
            self.w("Resource/R.native/include/r.h", "#define RHDR %d\nint r_src(void); int r_cfg(void); int r_arg(void); int r_hdr(void);\n" % v["rhdr"])
        if k == "rcfg":
            self.w("Resource/R.config", rconf % v["rcfg"])
            if not os.path.exists(os.path.join(self.lib, "Resource/R.m.config")):
                self.w("Resource/R.m.config", 'use SPVM::Builder::Config; my $config = SPVM::Builder::Config->load_base_config(__FILE__, [@ARGV]); $config->add_ccflag("-DMODE=40000"); $config;')
        if k == "q":
            q = self.q
            f = ["has a : int;", "has b : string;"]
            f.insert(q["pos"], "has x : public %s;" % q["ft"])
            self.w("Q.spvm", "class Q%s : public { %s our $CV : public %s; enum { E0, E1 = %d, E2, E3 = %d } %s static method k : int () { return %d; } static method dflt : int ($x : int = %d) { return $x; } static method new : Q () { return new Q; } %s }" % (
                " extends QB" if q["sup"] else "", "use QB;", q["cv"], q["e"], q["e2"], " ".join(f), q["k"], q["dflt"], "" if q["sup"] else "method base : int () { return %d; }" % q["base"]))
            self.w("QB.spvm", "class QB : public { has z : protected int; has w : protected string; method base : int () { return %d; } }" % (q["base"] + 1000))
        if k == "pre":
            self.w("Pre.spvm", "class Pre : public { use Q; use VT; precompile static method f : void () { VT->i(Q->E1 + %d); VT->i(Q->E2); VT->i(Q->E3); VT->i(Q->k); VT->i(Q->dflt); my $q = Q->new; $q->{x} = (byte)77; VT->d((double)$q->{x}); "
                   "$Q::CV = (byte)55; VT->d((double)$Q::CV); VT->i($q->base); switch (%d) { case Q->E1: { VT->i(1); break; } default: { VT->i(2); } } } }" % (self.pre, self.q["e"]))
        if k == "prog":
            self.w("T.spvm", '#file "T.spvm"\n' + self.text)
        if k == "script":
            with open(os.path.join(self.root, "app.spvm"), "w") as f:
                f.write('class {\n  use T; use Pre; use Nat; use VT; use CommandInfo; use Fn;\n  static method main : void () {\n    VT->i(%d); my $argv = CommandInfo->ARGV; VT->o($argv); for (my $i = 0; $i < @$argv; $i++) { say $argv->[$i]; }\n'
                        '    VT->o(CommandInfo->PROGRAM_NAME);\n    for (my $i = 0; $i < 11; $i++) { VT->i(Nat->v($i)); }\n    Pre->f; print "before\\n"; T->main;\n    print "end";\n  }\n}\n' % self.script)
        if k in ("execonf", "rmode", "rarg"):
            with open(os.path.join(self.root, "app.config"), "w") as f:
                f.write('use SPVM::Builder::Config::Exe; my $config = SPVM::Builder::Config::Exe->new_gnu99(file => __FILE__); $config->use_resource("Resource::R", argv => [%d]%s); $config;' % (v["rarg"], ', mode => "m"' if self.rmode else ""))

    def edit(self, k):
        s = self.src
        if k in self.v:
            self.v[k] = (self.v[k] + s.int(1, 20000)) % 32000
        if k == "two":
            self.two = None if self.two is not None and s.chance(1, 3) else s.int(0, 32000)
        if k == "q":
            self.newq()
            if s.chance(1, 2):
                self.write("pre")
        if k == "prog":
            self.newprog()
        if k == "pre":
            self.pre = s.int(0, 9999)
        if k == "opt":
            self.opt = not self.opt
        if k == "script":
            self.script = s.int(0, 99999)
        if k == "rmode":
            self.rmode = 1 - self.rmode
        if k == "touch":
            os.utime(os.path.join(self.lib, s.choice(["Nat.c", "Nat.config", "Q.spvm", "T.spvm", "Nat.native/include/nat.h", "Resource/R.native/src/r.c"])))
        self.write(k)

    def trace(self, args, name):
        v, q = self.v, self.q
        rc = v["rcfg"] + (40000 if self.rmode else 0)
        st, msg, tr = self.exp
        out = [self.script, ("A", "string[]", list(args)), name, v["src"], v["hdr"], v["cfg"], v["extra"] + v["hdr"], v["rsrc"], v["rhdr"], rc, v["rhdr"], self.two if self.two is not None else -1, 2 * v["hdr"], v["rarg"]]
        q_e = q["e"]
        import struct
        d = lambda x: ("d", struct.unpack("<Q", struct.pack("<d", x))[0])
        out += [q_e + self.pre, q_e + 1, q["e2"], q["k"], q["dflt"], d(77.0), d(55.0), q["base"] + (1000 if q["sup"] else 0), 1 if self.preswitch == q_e else 2]
        return out + list(tr)

    def shift(self, dirs, by):
        for top in dirs:
            for r, ds, fs in os.walk(top):
                for f in fs:
                    p = os.path.join(r, f)
                    st = os.lstat(p)
                    os.utime(p, ns=(st.st_atime_ns - by, st.st_mtime_ns - by), follow_symlinks=False)


def args_of(src):
    out = []
    for _ in range(src.below(4)):
        out.append(src.choice([b"", b"a", b"--x=1", b"-h", "\u3042".encode(), b"\xff\xfe", b"a b", b"'\"$x\\", b"*", b"--", b"-o", src.bytes(src.int(1, 8)).replace(b"\0", b"z")]))
    return out


def snapshot(d):
    m = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            m[os.path.relpath(p, d)] = os.stat(p).st_mtime_ns
    return m


def mk_case(exe):
    def case(src, ctx):
        D = perlx.dist()
        vh = os.path.join(D["dir"], "blib/lib/SPVM/Builder/include/spvm_version.h")
        if os.stat(vh).st_mtime > 1.1e9:
            os.chmod(vh, 0o644)
            os.utime(vh, (1e9, 1e9))
        root = ctx.scratch()
        top = root
        root = os.path.join(root, src.choice(["app%d", "app-%d", "v1.%d", "a.b/c%d"]) % src.int(0, 9))
        os.makedirs(root)
        script = src.choice(["app.spvm", "app.spvm", "./app.spvm", os.path.join(root, "app.spvm"), "../%s/app.spvm" % os.path.basename(root)])
        log = []
        app = App(src, root, exe)
        app.preswitch = app.q["e"]
        bd = os.path.join(root, "b")
        out = os.path.join(root, "app")
        inc = ["-I" + x for x in D["inc"]]
        env = perlx.env(VT_OUT=os.path.join(root, "trace"), HOME=root)
        spvm, spvmcc = [os.path.join(D["dir"], "blib/script", x) for x in ("spvm", "spvmcc")]
        tags = set()
        runs = evals = 0
        nt = False

        def sh(cmd, to):
            p = subprocess.Popen(cmd, cwd=root, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True, preexec_fn=lambda: drvmod._LIBC.prctl(1, 9, 0, 0, 0))
            try:
                o, e = p.communicate(timeout=to)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.communicate()
                raise pbt.Discard("too slow")
            return p.returncode, o, e

        def bad(msg, key):
            raise pbt.Violation("%s\nhistory: %s\nvalues: %r two=%r Q=%r pre=%d\n%s" % (msg, ", ".join(log), app.v, app.two, app.q, app.pre, lang.number(app.text)), key)

        def back():
            "makes all files 100 s older"
            app.shift([app.lib, bd], 100 * 10**9)
            for f in ("app", "app.spvm", "app.config"):
                p = os.path.join(root, f)
                if os.path.exists(p):
                    t = os.stat(p)
                    os.utime(p, ns=(t.st_atime_ns - 100 * 10**9, t.st_mtime_ns - 100 * 10**9))

        steps = src.int(1, 3) if exe else src.int(2, 7)
        for step in range(steps):
            if step:
                back()
                for _ in range(src.int(1, 2)):
                    k = src.choice(EDITS)
                    log.append(k)
                    tags.add("edit:" + k)
                    app.edit(k)
                    if k == "pre":
                        app.preswitch = app.q["e"]
                    if k == "q" and open(os.path.join(app.lib, "Pre.spvm")).read().find("switch (%d)" % app.q["e"]) >= 0:
                        app.preswitch = app.q["e"]
            for again in (0, 1) if src.chance(1, 3) else (0,):
                if again:
                    log.append("again")
                    back()
                    before = snapshot(bd)
                if exe:
                    opts = ["--optimize=-O0"]
                    if src.chance(1, 4):
                        opts.append("-q")
                    if not again and src.chance(1, 8):
                        opts.append("-f")
                    rc, o, e = sh(["perl"] + inc + [spvmcc, "-I", app.lib, "-B", bd, "-o", out] + opts + [script], 120)
                    if rc:
                        bad("spvmcc ends with %d: %s" % (rc, e.decode("utf8", "replace")[-1500:]), "spvmcc")
                    if "-q" in opts and (o or e):
                        bad("spvmcc -q writes %r %r" % (o[:300], e[:300]), "quiet")
                for _ in range(src.int(1, 3) if exe else 1):
                    args = args_of(src)
                    try:
                        os.unlink(os.path.join(root, "trace"))
                    except OSError:
                        pass
                    cmd = [out if src.chance(1, 2) else "./app"] if exe else ["perl"] + inc + [spvm, "-I", app.lib, "-B", bd, script]
                    # the spvm command takes options after the script name, too
                    rc, o, e = sh(cmd + (["--"] if not exe and any(a[:1] in (b"-", b"+") for a in args) else []) + args, 60)
                    runs += 1
                    try:
                        tr = prog.norm_trace(drvmod.parse_trace(open(os.path.join(root, "trace"), "rb").read()))
                    except OSError:
                        tr = []
                    name = cmd[0].encode() if exe else script.encode()
                    exp = app.trace(args, name)
                    st, msg, _t = app.exp
                    eo = b"".join(a + b"\n" for a in args) + b"before\n" + (b"end" if st == "ok" else b"")
                    if not prog.trace_eq(exp, tr):
                        bad("run of %r: the trace differs: %s\nstderr %s" % (cmd[-1:] + args, prog.first_diff(exp, tr), e.decode("utf8", "replace")[:1500]), "trace")
                    if o != eo:
                        bad("run: standard output %r, the model %r" % (o, eo), "stdout")
                    if not exe and not again:
                        e = b"".join(l for l in e.splitlines(True) if not re.match(rb"\[(Compile|Generate) |\S*(cc|\+\+) ", l))
                    if st == "ok":
                        if rc or e:
                            bad("run: ends with %d and writes %r to standard error" % (rc, e[:600]), "exit")
                    else:
                        m = msg if msg is not None else b""
                        if not rc or m not in e:
                            bad("run: dies with %d and %r, the model an error and %r" % (rc, e[:800], m), "die")
                    evals += len(exp)
                    if exe and len(_t) >= 3 or runs >= 2:
                        nt = True
                if again and snapshot(bd) != before:
                    after = snapshot(bd)
                    bad("a run without any edit builds %s" % ", ".join(sorted(x for x in set(before) | set(after) if before.get(x) != after.get(x))[:6]), "rebuild")
        shutil.rmtree(top, ignore_errors=True)
        return pbt.Info(nt, sorted(tags), sample="%s history: %s\n%s" % ("spvmcc" if exe else "spvm", ", ".join(log), app.text[:600]), digest=[str(log), app.text], evals=evals)
    return case


SUITES = [Suite("command", mk_case(False), 64, 1600, (), 1), Suite("executables", mk_case(True), 24, 500, (), 1)]

META = dict(
    statement="Whatever was built before in the same build directory, the spvm command and the executable that spvmcc generates run the sources as they are now: after any edit of the script, a class, a class used by a precompiled class, a native source or header, a config file (also a base config, the mode or the arguments of a resource), or a source or header of a resource, every part behaves as if all were built from nothing; without an edit nothing is built again; -q writes nothing. The program receives its arguments byte for byte, its trace, output and exception are the same as in the virtual machine, and it ends with status 0, or with an error status and the message of the exception.",
    over=["histories", "programs", "inputs"], quant="all histories of edits of an application and builds, all generated programs, all arguments",
    why="the unit tests build a fixed set of classes and one application from nothing; stale objects, lost flags and differences between an executable and the VM only show up after particular edits",
    files=["lib/SPVM/Builder/CC.pm", "lib/SPVM/Builder/Exe.pm", "lib/SPVM/Builder/Util.pm", "lib/SPVM/Builder/Config.pm", "lib/SPVM/Builder/CompileInfo.pm", "lib/SPVM/Builder/LinkInfo.pm", "lib/SPVM/Builder.pm", "script/spvm", "script/spvmcc"],
    mech=[("need for a build", "Builder/Util.pm need_generate"), ("objects and their inputs", "Builder/CC.pm build_precompile_class_source_file, compile_class, link"), ("bootstrap of executables", "Builder/Exe.pm")],
    observe=["trace, output and exit status of each run", "files changed by a run without edit"],
    technique="stateful property-based testing: generated histories of edits, builds and runs, against a model of the sources and of the program",
    note="Generated histories of edits of an application, each followed by real builds with the C compiler and runs, for the spvm command and for executables.")
