"""P30: the spvmdist command.  Distributions of generated options: the files, what happens to existing ones, messages, and the tests of the distribution itself."""
import os, re, shutil, subprocess
from vt import pbt, perlx, drv as drvmod
from vt.pbt import Suite

TITLE = "spvmdist makes exactly the documented files, keeps existing ones, and they work"
RULE = ("files: one case is one to three runs of the spvmdist command with generated options in a directory with generated existing files; all files of the directory, the messages and the exit code are compared with the model. "
        "Non-trivial: at least 3 options. works: one case is a generated distribution that is configured, built and tested with its own Makefile.PL; non-trivial: every case.")


def rmodel(o, cls):
    """Relative files of a distribution."""
    rel = "SPVM/" + cls.replace("::", "/")
    lib = "" if o["only"] else "lib/"
    native = o["native"] or ("c" if o["resource"] else None)
    ext = {"c": "c", "c++": "cpp"}.get(native)
    fs = [lib + rel + ".spvm"]
    if not o["nopm"]:
        fs.append(lib + rel + ".pm")
    if native:
        fs.append(lib + rel + ".config")
        if not o["resource"]:
            fs.append(lib + rel + "." + ext)
        fs += [lib + rel + ".native/include/.gitkeep", lib + rel + ".native/src/.gitkeep"]
    if not o["only"]:
        t = "t/lib/SPVM/TestCase/" + cls.replace("::", "/")
        if o["resource"]:
            t = "t/lib/SPVM/TestCase/" + ("Resource/" if 0 else "") + cls.replace("::", "/")
        fs += [".gitignore", ".gitattributes", "MANIFEST.SKIP", "Changes", "README.md", "Makefile.PL", "t/basic.t", t + ".spvm", "LICENSE"]
        if o["resource"]:
            fs += [t + "." + ext, t + ".config"]
    return fs


def snapshot(root):
    out = {}
    for b, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(b, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


def run(cmd, cwd, timeout=120, **extra):
    d = perlx.dist()
    p = subprocess.Popen(cmd, cwd=cwd, env=perlx.env(HOME=cwd, PERL5LIB=":".join(d["inc"]), **extra), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True,
                         preexec_fn=lambda: drvmod._LIBC.prctl(1, 9, 0, 0, 0))
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        raise pbt.Discard("timeout")
    return p.returncode, o, e


def genname(src):
    part = lambda: src.choice("ABCXYZ") + "".join(src.choice("abcXYZ019") for _ in range(src.int(0, 5)))
    return "::".join(src.choice(["Foo", "Resource", "Net"]) if src.chance(1, 3) else part() for _ in range(src.int(1, 4)))


USERS = ["Yuki Kimoto", "Conan O'Brien", "Müller", "木本 裕紀", "a\\b", "x", "$HOME @foo", "%s", "end\\", "\"quoted\"", "{x}"]
MAILS = ["a@example.com", "o'x@example.com", "x+y@z.org"]


def options(src, cls):
    o = dict(native=src.choice([None, None, "c", "c++"]), precompile=src.chance(1, 3), resource=src.chance(1, 4), interface=src.chance(1, 5), only=src.chance(1, 4), nopm=src.chance(1, 5),
             user=src.choice(USERS) if src.chance(1, 2) else None, mail=src.choice(MAILS) if src.chance(1, 3) else None)
    if o["resource"]:
        o["interface"] = False
    a = []
    if o["native"]:
        a.append(["--native", o["native"]] if src.chance(1, 2) else ["--native=" + o["native"]])
    for k, f in (("precompile", "--precompile"), ("resource", "--resource"), ("interface", "--interface")):
        if o[k]:
            a.append([f])
    if o["only"] and o["nopm"] and src.chance(1, 2):
        a.append(["--genlib"])
    else:
        a += [["--only-lib-files"]] * o["only"] + [["--no-pm-file"]] * o["nopm"]
    if o["user"]:
        a.append(["--user-name", o["user"]])
    if o["mail"]:
        a.append(["--user-email", o["mail"]])
    return o, a


def check_content(fs, files, o, cls, what):
    """Plain facts about the text of the files."""
    rel = "SPVM/" + cls.replace("::", "/")
    for f in fs:
        t = files[f]
        if re.search(rb"\b(HASH|ARRAY|CODE|SCALAR)\(0x|\$\{?[a-z_]+_name\b|\$(description|main_doc|attributes|native_module_ext|new_method|make_rule_[a-z]+|extern_c_\w+)\b", t):
            raise pbt.Violation("%s: unexpanded text in %s:\n%s" % (what, f, t.decode("utf8", "replace")[:400]), key="p30-text")
        base = os.path.basename(f)
        if f.endswith(rel + ".spvm") and "TestCase" not in f:
            m = re.search(rb"^class (\S+) (: interface_t )?\{", t, re.M)
            if not m or m.group(1).decode() != cls or bool(m.group(2)) != bool(o["interface"]) or (b'version "0.001";' in t) == bool(o["only"]):
                raise pbt.Violation("%s: %s is\n%s" % (what, f, t.decode("utf8", "replace")[:300]), key="p30-class")
        if f.endswith(".pm") and ("package SPVM::%s;" % cls).encode() not in t:
            raise pbt.Violation("%s: %s has no package SPVM::%s" % (what, f, cls), key="p30-pm")
        if o["user"] and (f.endswith((".spvm", ".pm", "LICENSE", ".config", ".c", ".cpp")) and "TestCase" not in f) and o["user"].encode() not in t:
            raise pbt.Violation("%s: the user name is not in %s" % (what, f), key="p30-user")
        if f.endswith((".c", ".cpp")) and not re.search(rb"SPVM__" + b"(TestCase__)?" + cls.replace("::", "__").encode() + rb"__", t):
            raise pbt.Violation("%s: %s has no function of the class" % (what, f), key="p30-native")
        if f.endswith(".cpp") and b'extern "C"' not in t:
            raise pbt.Violation("%s: %s has no extern \"C\"" % (what, f), key="p30-externc")


def root_of(ctx):
    r = os.path.join(ctx.scratch(), "c")
    shutil.rmtree(r, ignore_errors=True)
    os.mkdir(r)
    return r


def files_case(src, ctx):
    d = perlx.dist()
    root = root_of(ctx)
    cls = genname(src)
    tool = os.path.join(d["dir"], "script/spvmdist")
    log, tags, nopt = [], set(), 0
    for step in range(src.int(1, 3)):
        o, a = options(src, cls)
        force, quiet = src.chance(1, 4), src.chance(1, 3)
        a += [[src.choice(["-f", "--force"])]] * force + [[src.choice(["-q", "--quiet"])]] * quiet
        src.shuffle(a)
        nopt = max(nopt, len(a))
        out = src.choice([None, "d", "d/e", "d/", root + "/abs", "x y"])
        bad = src.weighted([(10, None), (1, "name"), (1, "lang"), (1, "both"), (1, "unknown"), (1, "none"), (1, "help"), (1, "version")])
        argv = [w for x in a for w in x]
        args = [cls] + ([out] if out else [])
        if bad == "name":
            args[0] = "Foo-Bar"
        elif bad == "lang":
            argv = ["--native", "rust"]
        elif bad == "both":
            argv = ["--interface", "--resource"]
        elif bad == "unknown":
            argv = argv + ["--nothing"]
        elif bad == "none":
            args = []
        elif bad in ("help", "version"):
            argv = argv + ["--" + bad]
        argv = argv + args if src.chance(2, 3) or bad else args + argv
        target = os.path.normpath(os.path.join(root, out or "SPVM-" + cls.replace("::", "-")))
        fs = [] if bad else [os.path.relpath(os.path.join(target, f), root) for f in rmodel(o, cls)]
        for f in fs:        # some files exist
            if src.chance(1, 6):
                p = os.path.join(root, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as fh:
                    fh.write(b"mine %d" % step)
        before = snapshot(root)
        rc, so, se = run(["perl", tool] + argv, root)
        after = snapshot(root)
        what = "spvmdist %s (exit %d, %d files before)" % (" ".join(argv), rc, len(before))
        log.append(what)
        if bad in ("help", "version"):
            if rc or after != before or not re.search(rb"usage: spvmdist|^spvmdist v\d", so):
                raise pbt.Violation("%s: output %r, errors %r, changes %r" % (what, so[:200], se[:200], sorted(set(after) ^ set(before))), key="p30-help")
            continue
        if bad:
            if not rc or after != before:
                raise pbt.Violation("%s is not rejected: %r; changes %r" % (what, se[:200], sorted(set(after) ^ set(before))), key="p30-bad-" + bad)
            continue
        if rc:
            raise pbt.Violation("%s dies: %r" % (what, se[:500]), key="p30-died")
        new = set(after) - set(before)
        if set(after) - set(before) != set(fs) - set(before):
            raise pbt.Violation("%s: missing %r, unexpected %r" % (what, sorted(set(fs) - set(after)), sorted(set(after) - set(before) - set(fs))), key="p30-files")
        written = [f for f in fs if f not in before or force]
        for f in before:
            if (f not in fs or not force) and after.get(f) != before[f]:
                raise pbt.Violation("%s: the existing file %s was changed" % (what, f), key="p30-kept")
            if f in fs and force and after[f].startswith(b"mine"):
                raise pbt.Violation("%s: the existing file %s was not written" % (what, f), key="p30-forced")
        check_content(written, {f: after[f] for f in written}, o, cls, what)
        text = so.decode("utf8", "replace")
        if quiet:
            if text:
                raise pbt.Violation("%s prints %r" % (what, text[:300]), key="p30-quiet")
        else:
            w = set(os.path.relpath(os.path.normpath(os.path.join(root, x)), root) for x in re.findall(r"^\s*\[write\](.*)$", text, re.M))
            e = set(os.path.relpath(os.path.normpath(os.path.join(root, x)), root) for x in re.findall(r"^\s*\[exists\](.*)$", text, re.M))
            if w != set(written) or e != set(fs) - set(written):
                raise pbt.Violation("%s: messages of written files %r instead of %r, of existing ones %r" % (what, sorted(w ^ set(written)), sorted(written)[:3], sorted(e)), key="p30-messages")
        tags |= {k for k in o if o[k]} | ({"force"} if force else set()) | ({"existing"} if before else set())
    return pbt.Info(nopt >= 3, tags=sorted(tags), sample="\n".join(log), digest="\n".join(log).replace(root, "R"), evals=len(log))


def works_case(src, ctx):
    d = perlx.dist()
    root = root_of(ctx)
    cls = genname(src)
    o, a = options(src, cls)
    if o["only"] or o["nopm"]:
        o["only"] = o["nopm"] = False
        a = [x for x in a if x[0] not in ("--only-lib-files", "--no-pm-file", "--genlib")]
    if o["interface"]:
        pass
    argv = [w for x in a for w in x] + [cls, "dist"]
    what = "spvmdist " + " ".join(argv)
    steps = [["perl", os.path.join(d["dir"], "script/spvmdist")] + argv]
    rc, so, se = run(steps[0], root)
    if rc:
        raise pbt.Violation("%s dies: %r" % (what, se[-400:]), key="p30-died")
    w = os.path.join(root, "dist")
    for cmd in (["perl", "Makefile.PL"], ["make"], ["make", "test"]):
        rc, so, se = run(cmd, w, timeout=300)
        if rc or cmd[-1] == "test" and b"All tests successful" not in so:
            raise pbt.Violation("%s: %s fails: %s\n%s" % (what, " ".join(cmd), so.decode("utf8", "replace")[-600:], se.decode("utf8", "replace")[-900:]), key="p30-" + cmd[-1])
    blib = snapshot(os.path.join(w, "blib"))
    rel = "lib/SPVM/" + cls.replace("::", "/")
    need = [rel + ".spvm", rel + ".pm"] + ([rel + ".config"] if o["native"] or o["resource"] else []) + ([rel + ".so"] if o["native"] and not o["resource"] else [])
    miss = [f for f in need if f not in blib]
    if miss:
        raise pbt.Violation("%s: make does not install %r" % (what, miss), key="p30-blib")
    return pbt.Info(True, tags=sorted(k for k in o if o[k]), sample=what, digest=what, evals=4)


SUITES = [
    Suite("files", files_case, 400, 6000, variants=(), chunk=5),
    Suite("works", works_case, 24, 400, variants=(), chunk=1),
]

META = dict(
    statement="The spvmdist command writes exactly the documented files for the class name and options in the given or default directory, with the class name and user everywhere expanded; it leaves existing files as they are unless it is forced, "
              "reports every file it writes or leaves unless it is quiet, and rejects invalid names and options without writing anything. The distribution it writes configures, builds and passes its own tests, whatever the class name, the user "
              "name and the options.",
    over=["inputs", "histories"], quant="all class names, options, user names, output directories and existing files",
    why="the unit tests generate a few distributions with plain names and look for a few strings; combinations of options, existing files, unusual user names and whether the result works are not covered",
    files=["lib/SPVM/Dist.pm", "script/spvmdist", "lib/SPVM/Builder/Util.pm"],
    mech=[("generation", "Dist.pm generate_dist, generate_file"), ("options", "script/spvmdist, Util.pm getopt"), ("build of the distribution", "Util.pm create_make_rule, Builder/API.pm")],
    observe=["files and their bytes", "messages", "exit codes", "results of perl Makefile.PL, make and make test"],
    technique="property-based testing with a model of the files, and end-to-end runs of generated distributions",
    note="Runs of spvmdist with generated options and existing files against a model; generated distributions are built and tested end to end.")
