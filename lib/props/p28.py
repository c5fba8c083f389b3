"""P28: build configuration.  Sequences of operations on config objects (and config files, modes, resources, callbacks), and the compile and link commands made of them, against a model of the documentation; the helper functions
of the build system against models."""
import os, re, shutil
from vt import pbt, perlx
from vt.pbt import Suite

TITLE = "A build config reaches the compiler and linker exactly as written"
RULE = ("config: one case is a sequence of 5 to 40 operations on several config objects (constructors, setters, adders, clones, config files with modes and arguments, resources, callbacks, libraries found in directories), with the "
        "fields, the compile commands and the link commands compared with the model. Non-trivial: at least 2 commands of at least 8 words. rebuild: decisions about generated sets of files with generated times and the list of "
        "dependent files of a generated distribution; non-trivial: at least 2 input files. names: name conversions of generated class names and texts; non-trivial: a name of at least 2 parts.")

SETUP = r'''
use SPVM::Builder::Config; use SPVM::Builder::Config::Exe; use SPVM::Builder::CC; use SPVM::Builder::CompileInfo; use SPVM::Builder::LinkInfo; use SPVM::Builder::LibInfo; use SPVM::Builder::ObjectFileInfo; use SPVM::Builder::Resource; use SPVM::Builder::Util;
*VTX::j = sub { my ($x) = @_; !defined $x ? "u" : ref $x eq "ARRAY" ? "[" . join(",", map { VTX::j($_) } @$x) . "]" : ref $x eq "SPVM::Builder::LibInfo" ? "L" . ($x->is_static ? "s" : "") . ($x->is_abs ? "a" : "") . ":" . $x->name : "'$x'" };
*VTX::out = sub { push @VTX::REC, join "\n", map { VTX::j($_) } @_ };
*VTX::fail = sub { my ($c) = @_; my $r = eval { local $SIG{__WARN__} = sub {}; $c->(); 1 }; push @VTX::REC, $r ? "ok" : "died: " . substr("$@", 0, 300) };
'''


def j(x):
    if x is None:
        return "u"
    if isinstance(x, list):
        return "[" + ",".join(j(y) for y in x) + "]"
    if isinstance(x, Lib):
        return "L%s%s:%s" % ("s" if x.static else "", "a" if x.abs else "", x.name)
    return "'%s'" % x


def q(x):
    if x is None:
        return "undef"
    if isinstance(x, list):
        return "[" + ", ".join(q(y) for y in x) + "]"
    return "'" + str(x).replace("\\", "\\\\").replace("'", "\\'") + "'"


def fresh(ctx):
    d = os.path.join(ctx.scratch(), "c")
    shutil.rmtree(d, ignore_errors=True)
    os.mkdir(d)
    return d


def perl(ctx):
    p = ctx.memo.get("perl")
    if not p or not p.alive():
        p = ctx.memo["perl"] = perlx.Perl(perlx.dist(), setup=SETUP)
        r = p.run("push @VTX::REC, $Config::Config{cc}, $Config::Config{ld}, SPVM::Builder::Util::get_builder_dir();")
        ctx.memo["cfg"] = [x.decode() for x in r[:3]]
    return p


class Lib:
    def __init__(l, name, static=0, abs=0):
        l.name, l.static, l.abs, l.file = name, static, abs, None


ARR = ["ccflags", "dynamic_lib_ccflags", "thread_ccflags", "mingw_ccflags", "include_dirs", "source_files", "ldflags", "dynamic_lib_ldflags", "thread_ldflags", "lib_dirs", "libs"]
SCA = ["cc", "std", "optimize", "ld", "ld_optimize", "output_type", "spvm_core_include_dir", "native_include_dir", "native_src_dir", "ext", "quiet", "force", "category", "class_name", "file", "output_dir", "output_file"]
ADD = {"add_ccflag": "ccflags", "add_include_dir": "include_dirs", "add_ldflag": "ldflags", "add_lib_dir": "lib_dirs", "add_source_file": "source_files"}
CTORS = {"new": (None, None), "new_c": ("c", None), "new_c99": ("c", "c99"), "new_c11": ("c", "c11"), "new_gnu99": ("c", "gnu99"), "new_gnu11": ("c", "gnu11"), "new_cpp": ("cpp", None), "new_cpp11": ("cpp", "c++11"),
         "new_cpp14": ("cpp", "c++14"), "new_cpp17": ("cpp", "c++17")}


class Conf:
    def __init__(c, base, ctor, given, exe=0):
        cc, ld, bdir = base
        f = given.get("file")
        nat = re.sub(r"(\.[^.]+)?\.config$", "", f) + ".native" if f else None
        c.f = dict(cc=cc, ld=ld, ccflags=[], dynamic_lib_ccflags=["-fPIC"], thread_ccflags=["-pthread"], mingw_ccflags=[], optimize="-O3", include_dirs=[], spvm_core_include_dir=bdir + "/include",
                   native_include_dir=nat and nat + "/include", native_src_dir=nat and nat + "/src", source_files=[], ldflags=[], dynamic_lib_ldflags=["-shared", "-pthread"], thread_ldflags=["-pthread"],
                   ld_optimize="-O2", lib_dirs=[], libs=[], output_type="exe" if exe else "dynamic_lib", category="native", std=None, ext=None, quiet=None, force=None, class_name=None, file=None, output_dir=None, output_file=None)
        c.f.update({k: (list(v) if isinstance(v, list) else v) for k, v in given.items() if v is not None})
        ext, std = CTORS[ctor]
        if ext:
            c.f["ext"] = ext
        if std:
            c.f["std"] = std
        if ext == "cpp":
            c.f["cc"] = c.f["ld"] = "g++"
        c.sl = ["-Wl,-Bstatic", "-Wl,-Bdynamic"]
        c.res, c.loaded = [], []         # resources: [name, conf] in order of the first use
        c.cbs = {"after_create_compile_info_cbs": [], "after_create_link_info_cbs": []}

    def clone(c):
        n = object.__new__(Conf)
        n.f = {k: (list(v) if isinstance(v, list) else v) for k, v in c.f.items()}
        n.sl, n.res, n.loaded = c.sl, [list(x) for x in c.res], list(c.loaded)
        n.cbs = {k: list(v) for k, v in c.cbs.items()}
        return n

    def compile_info(c):
        for k, v in c.cbs["after_create_compile_info_cbs"]:
            c.f[k] = c.f[k] + [v]

    def ccflags(c):
        f, o = c.f, []
        if f["std"]:
            o.append("-std=" + f["std"])
        if f["optimize"]:
            o += split(f["optimize"])
        for k in ["ccflags", "thread_ccflags", "mingw_ccflags"] + (["dynamic_lib_ccflags"] if f["output_type"] == "dynamic_lib" else []):
            o += [x for x in f[k] if x]
        inc = [f["spvm_core_include_dir"]] + f["include_dirs"] + [f["native_include_dir"]] + [r[1].f["native_include_dir"] for r in c.res]
        return o + ["-I" + x for x in inc if x]

    def ldflags(c, libs):
        f, o = c.f, []
        if f["ld_optimize"]:
            o += split(f["ld_optimize"])
        for k in (["dynamic_lib_ldflags"] if f["output_type"] == "dynamic_lib" else []) + ["ldflags", "thread_ldflags"]:
            o += [x for x in f[k] if x]
        o += ["-L" + x for x in f["lib_dirs"] if x]
        return o + libs


def split(s):
    return re.split(" +", s)


def word(src):
    return src.choice(["-Wall", "-DA=1", "-g", "-DX", "-O1", "-Wextra", "-DS=\"a b\"", "-fno-inline", "-m64", "", "-DE=1,2"])


def value(src, k, d):
    if k in ("include_dirs", "lib_dirs"):
        return src.choice([d + "/la", d + "/lb", "/opt/x", "", d + "/lc", d + "/la/"][:5 if k == "include_dirs" else 6])
    if k == "source_files":
        return src.choice(["a.c", "b/c.c", "d.cpp", "e f.c"])
    if k == "libs":
        return src.choice(["z", "png", "foo", "bar", "foo_1", ""])
    if k == "mingw_ccflags":
        return src.choice(["-DM", ""])
    return word(src)


def config_case(src, ctx):
    p = perl(ctx)
    base = ctx.memo["cfg"]
    d = fresh(ctx)
    files = {}
    for sub in ("la", "lb", "lc"):
        os.makedirs(os.path.join(d, sub))
        for lib in ("z", "foo", "bar", "foo_1"):
            for e in ("so", "a"):
                if src.chance(1, 3):
                    files[sub + "/lib" + lib + "." + e] = ""
    # resources and their modes: files that use @ARGV
    rnames = ["R::A", "R::B", "R::C::D", "R::E"]
    rfiles = {}
    for r in rnames:
        for mode in (None, "m1"):
            if mode and src.chance(1, 3):
                continue
            path = "inc/SPVM/" + r.replace("::", "/") + ("." + mode if mode else "") + ".config"
            ctor, std = src.choice([("new_c99", "c99"), ("new_gnu11", "gnu11"), ("new_cpp17", "c++17")])
            flag = "-DR_%s_%s" % (r.replace("::", "_"), mode)
            based = mode and src.chance(1, 3)
            if based:
                files[path] = "my $config = SPVM::Builder::Config->load_base_config(__FILE__, [@ARGV, 'from_mode']); $config->add_ccflag('%s'); $config;" % flag
            else:
                files[path] = "my $config = SPVM::Builder::Config->%s(file => __FILE__); $config->add_ccflag('%s', map { \"-DARG=$_\" } @ARGV); $config;" % (ctor, flag)
            rfiles[r, mode] = (path, ctor, flag, based)
    for f, t in files.items():
        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
        with open(os.path.join(d, f), "w") as fh:
            fh.write(t)

    def load(r, mode, argv):
        path, ctor, flag, based = rfiles[r, mode]
        if based:
            c = load(r, None, argv + ["from_mode"])
            c.f["ccflags"] = c.f["ccflags"] + [flag]
        else:
            c = Conf(base, ctor, {"file": os.path.join(d, path)})
            c.f["ccflags"] = [flag] + ["-DARG=" + a for a in argv]
        c.loaded.append(os.path.join(d, path))
        return c
    L, want, confs = ["local @INC = (%s, @INC); my (@C, $cb);" % q(d + "/inc")], [], []
    cmds = 0

    def pick():
        return src.below(len(confs))

    def show(k, c):
        L.append("out((map { $C[%d]->$_ } qw(%s)), [@{$C[%d]->get_resource_names}]);" % (k, " ".join(SCA + ARR), k))
        want.append("\n".join([j(c.f[n]) for n in SCA] + [j(c.f[n]) for n in ARR] + [j([r[0] for r in c.res])]))
    tags = set()
    for step in range(src.int(5, 40)):
        op = src.weighted([(2 if confs else 100, "new"), (4, "set"), (5, "array"), (8, "add"), (3, "lib"), (2, "clone"), (4, "res"), (2, "load"), (2, "cb"), (5, "compile"), (4, "link"), (2, "show"), (1, "bad"), (1, "exe")])
        if not confs and op != "new":
            op = "new"
        if op in ("new", "exe"):
            ctor = src.choice(sorted(CTORS))
            given = {}
            if src.chance(2, 3):
                given["file"] = src.choice([d + "/Foo.config", d + "/lib/SPVM/A/B.config", d + "/Foo.mode_1.config"])
            for _ in range(src.int(0, 2)):
                k = src.choice([x for x in ARR + ["cc", "optimize", "std", "ld", "ld_optimize", "native_include_dir", "spvm_core_include_dir"]])
                given[k] = [value(src, k, d) for _ in range(src.int(0, 2))] if k in ARR else src.choice(["x1", "/y/z", "-O0 -g"])
            cls = "SPVM::Builder::Config" + ("::Exe" if op == "exe" else "")
            L.append("push @C, %s->%s(%s%s);" % (cls, ctor, "" if "file" in given else "file_optional => 1, ", ", ".join("%s => %s" % (k, q(v)) for k, v in given.items())))
            confs.append(Conf(base, ctor, given, op == "exe"))
        elif op == "set":
            k, n = pick(), src.choice(["cc", "std", "optimize", "ld", "ld_optimize", "output_type", "spvm_core_include_dir", "native_include_dir", "native_src_dir", "ext", "quiet", "force", "category"])
            v = src.choice(["dynamic_lib", "static_lib", "exe"]) if n == "output_type" else src.choice(["native", "precompile"]) if n == "category" else src.choice(["", "x-1", "-O2 -g", "-O0  -g3", None, "/a/b", "c11"])
            if n in ("cc", "ld") and not v:
                v = "cc-%d" % step
            L.append("push @VTX::REC, $C[%d]->%s(%s) == $C[%d] ? 'self' : 'other';" % (k, n, q(v), k))
            want.append("self")
            confs[k].f[n] = v
        elif op == "array":
            k, n = pick(), src.choice(ARR)
            v = [value(src, n, d) for _ in range(src.int(0, 3))]
            L.append("$C[%d]->%s(%s);" % (k, n, q(v)))
            confs[k].f[n] = v
        elif op == "add":
            k, n = pick(), src.choice(sorted(ADD))
            v = [value(src, ADD[n], d) for _ in range(src.int(0, 3))]
            L.append("$C[%d]->%s(%s);" % (k, n, q(v)[1:-1]))
            confs[k].f[ADD[n]] = confs[k].f[ADD[n]] + v
        elif op == "lib":
            k, n = pick(), src.choice(["add_lib", "add_static_lib", "add_lib_abs", "add_static_lib_abs"])
            v = [src.choice(["z", "foo", "bar", "foo_1", "none"]) for _ in range(src.int(1, 2))]
            L.append("$C[%d]->%s(%s);" % (k, n, q(v)[1:-1]))
            st, ab = int("static" in n), int("abs" in n)
            confs[k].f["libs"] = confs[k].f["libs"] + [x if n == "add_lib" else Lib(x, st, ab) for x in v]
            tags.add(n)
        elif op == "clone":
            k = pick()
            L.append("push @C, $C[%d]->clone;" % k)
            confs.append(confs[k].clone())
            tags.add("clone")
        elif op == "res":
            k, r, mode = pick(), src.choice(rnames), src.choice([None, None, "m1"])
            argv = [src.choice(["a", "b=1", "--x", "q"]) for _ in range(src.int(0, 2))]
            if src.chance(1, 6):
                r, mode = "R::None", None
            how = src.below(3)
            opts = (", mode => %s" % q(mode) if mode else "") + (", argv => %s" % q(argv) if argv else "")
            call = "use_resource(%s%s)" % (q(r), opts) if how == 0 else "use_resource(class_name => %s%s)" % (q(r), opts) if how == 1 else "use_resource(SPVM::Builder::Resource->new(class_name => %s%s))" % (q(r), opts)
            L.append("fail(sub { my $r = $C[%d]->%s; out($r->class_name, $r->mode, $r->config->file, $r->config->std, $r->config->ccflags, $r->config->native_include_dir, $r->config->get_loaded_config_files, $C[%d]->get_resource(%s) == $r ? 1 : 0) });"
                     % (k, call, k, q(r)))
            if (r, mode) not in rfiles:
                want.append("died")
            else:
                rc = load(r, mode, argv)
                rc.f["file"] = os.path.join(d, rfiles[r, mode][0])
                want.append("\n".join(j(x) for x in [r, mode, rc.f["file"], rc.f["std"], rc.f["ccflags"], rc.f["native_include_dir"], rc.loaded, 1]))
                want.append("ok")
                old = [x for x in confs[k].res if x[0] == r]
                if old:
                    old[0][1] = rc
                    tags.add("again")
                else:
                    confs[k].res.append([r, rc])
                tags.add("resource")
        elif op == "load":
            r, mode = src.choice(rnames), src.choice([None, "m1"])
            argv = [src.choice(["a", "b c", "'q'"]) for _ in range(src.int(0, 2))]
            cls = "SPVM::Builder::Config"
            path = d + "/inc/SPVM/" + r.replace("::", "/")
            any_ = path + src.choice([".config", ".m2.config"])
            how = src.below(3)
            if how == 0:
                call, key = "load_config(%s, %s)" % (q(path + (".m1" if mode else "") + ".config"), q(argv)), (r, mode)
            elif how == 1:
                call, key = "load_mode_config(%s, %s, %s)" % (q(any_), q(mode), q(argv)), (r, mode)
            else:
                call, key = "load_base_config(%s, %s)" % (q(any_), q(argv)), (r, None)
            L.append("fail(sub { push @C, %s->%s; });" % (cls, call))
            if key not in rfiles:
                want.append("died")
            else:
                want.append("ok")
                confs.append(load(key[0], key[1], argv))
                L.append("out($C[-1]->get_loaded_config_files);")
                want.append(j(confs[-1].loaded))
                tags.add("load")
        elif op == "cb":
            k, n = pick(), src.choice(["after_create_compile_info_cbs", "after_create_link_info_cbs"])
            fld, fn = src.choice([("ccflags", "add_ccflag"), ("include_dirs", "add_include_dir")]) if "compile" in n else src.choice([("ldflags", "add_ldflag"), ("lib_dirs", "add_lib_dir")])
            v = "-DCB%d" % step
            L.append("$C[%d]->add_%s(sub { my ($c, $i) = @_; push @VTX::REC, ref($i) . ' ' . ($i->config == $c ? 1 : 0); $c->%s(%s) });" % (k, n[:-1], fn, q(v)))
            confs[k].cbs[n] = confs[k].cbs[n] + [(fld, v)]
            tags.add("callback")
        elif op == "compile":
            k = pick()
            c = confs[k]
            L.append("{ my $i = SPVM::Builder::CompileInfo->new(config => $C[%d], source_file => 's.c', output_file => 'o.o'); out($i->create_command); out($i->create_ccflags); out($i->to_command) }" % k)
            want += ["SPVM::Builder::CompileInfo 1"] * len(c.cbs["after_create_compile_info_cbs"])
            c.compile_info()
            cmd = [c.f["cc"], "-c", "-o", "o.o"] + c.ccflags() + ["s.c"]
            want += [j(cmd), j(c.ccflags()), j(" ".join(cmd))]
            cmds += len(cmd) >= 8
        elif op == "link":
            k = pick()
            c = confs[k]
            objs = ["x%d.o" % i for i in range(src.int(0, 3))]
            outf = d + "/out/Foo" + src.choice(["", ".so", ".bin"])
            L.append("$C[%d]->output_file(%s);" % (k, q(outf)))
            L.append("{ my $c = $C[%d]; my $i = SPVM::Builder::CC->new(build_dir => %s)->create_link_info('Foo', [map { SPVM::Builder::ObjectFileInfo->new(file => $_, compile_info => 1) } (%s)], $c); out($i->create_command); out($i->create_ldflags); out($i->to_command) }"
                     % (k, q(d), ", ".join(q(o) for o in objs)))
            if "." not in os.path.basename(outf):
                outf += {"dynamic_lib": ".so", "static_lib": ".a", "exe": ""}[c.f["output_type"]]
            c.f["output_file"] = outf
            libs, infos = [], []
            dirs = [re.sub(r"[\\/]$", "", x) for x in c.f["lib_dirs"]]
            for l in c.f["libs"]:
                l = l if isinstance(l, Lib) else Lib(l)
                infos.append(l)
                if l.abs:
                    hit = [x for dd in dirs for x in ([] if l.static else [dd + "/lib%s.so" % l.name]) + [dd + "/lib%s.a" % l.name] if x.startswith(d + "/") and x[len(d) + 1:] in files]
                    l.file = hit[0] if hit else l.file      # a library object keeps the file found before
                    libs += [l.file] if l.file else []
                    tags.add("found" if hit else "notfound")
                elif l.name:
                    libs.append("%s -l%s %s" % (c.sl[0], l.name, c.sl[1]) if l.static else "-l" + l.name)
            c.f["libs"] = infos
            if any(l.abs for l in infos):
                c.f["lib_dirs"] = dirs
            want += ["SPVM::Builder::LinkInfo 1"] * len(c.cbs["after_create_link_info_cbs"])
            for kk, v in c.cbs["after_create_link_info_cbs"]:
                c.f[kk] = c.f[kk] + [v]
            cmd = [c.f["ld"], "-o", outf] + objs + c.ldflags(libs)
            want += [j(cmd), j(c.ldflags(libs)), j(" ".join(cmd))]
            cmds += len(cmd) >= 8
        elif op == "show":
            k = pick()
            show(k, confs[k])
        else:
            L.append("fail(sub { %s });" % src.choice(["SPVM::Builder::Config->new_c99", "SPVM::Builder::Config->load_config(%s, [])" % q(d + "/none.config"), "SPVM::Builder::Config->load_config(%s)" % q(d + "/none.config"),
                                                       "SPVM::Builder::LibInfo->new(name => 'x')", "$C[0]->load_mode_config(%s, 'nomode', [])" % q(d + "/Foo.config")]))
            want.append("died")
    for k, c in enumerate(confs):
        show(k, c)
    code = "\n".join(L)
    try:
        got = [x.decode("utf-8", "replace") for x in p.run(code)]
    except perlx.PerlCrash as e:
        raise pbt.Violation("perl: %s %s\n%s" % (e, e.err[-500:], code), key="p28-crash")
    err = got.pop()
    # "died: ..." records are compared by their kind
    tidy = lambda x: re.sub(r"/la/(?=['\s]|$)", "/la", x)       # the search of a library may drop the slash at the end of a directory
    gk = ["died" if x.startswith("died: ") else tidy(x) for x in got]
    want = [tidy(x) for x in want]
    if err or gk != want:
        n = next((i for i, (a, b) in enumerate(zip(gk, want)) if a != b), min(len(gk), len(want)))
        a, b = (got[n] if n < len(got) else "(end) " + err), (want[n] if n < len(want) else "(end)")
        al, bl = a.split("\n"), b.split("\n")
        if len(al) == len(bl) and len(al) > 3:
            m = next(i for i in range(len(al)) if al[i] != bl[i])
            a, b = "field %d: %s" % (m, al[m]), bl[m]
        raise pbt.Violation("record %d is %s; expected %s\n%s\n%s" % (n, a[:600], b[:600], err[:300], code), key="p28-config")
    return pbt.Info(cmds >= 2, tags=sorted(tags), sample=code[:700], digest=code.replace(d, "D"), evals=len(want))


# ------------------------------------------------------------ rebuild decisions and dependent files
def rebuild_case(src, ctx):
    p = perl(ctx)
    d = fresh(ctx)
    hdr = int(os.stat(ctx.memo["cfg"][2] + "/include/spvm_version.h").st_mtime)
    n = src.int(0, 6)
    ins, out = [], os.path.join(d, "out.o")
    times = [hdr - 1000, hdr - 1, hdr, hdr + 1, hdr + 50, hdr + 51, hdr + 1000]
    for i in range(n):
        f = os.path.join(d, "in %d.c" % i if src.chance(1, 5) else "in%d.c" % i)
        t = src.choice(times + [None, "dir"])
        if t == "dir":
            os.mkdir(f)
        elif t is not None:
            open(f, "w").close()
            os.utime(f, (hdr + 5000, t))
        ins.append((f, t if t != "dir" else None))
    if src.chance(1, 4):
        src.shuffle(ins)
    ot = src.choice(times + [None])
    if ot is not None:
        open(out, "w").close()
        os.utime(out, (hdr + 5000, ot))
    force = src.choice([0, 0, 0, 1, ""])
    have = [t for _, t in ins if t is not None]
    want = bool(force) or ot is None or bool(have) and max(have + [hdr]) > ot
    L = ["push @VTX::REC, SPVM::Builder::Util::need_generate({force => %s, output_file => %s, input_files => %s}) ? 1 : 0;" % (q(force), q(out), q([f for f, _ in ins]))]
    exp = ["%d" % want]
    tags = ["need%d" % want]
    # dependent files of a native or precompiled class
    lib = os.path.join(d, "lib/SPVM")
    os.makedirs(lib)
    cls = src.choice(["Foo", "Foo::Bar", "A::B::C1"])
    rel = cls.replace("::", "/")
    base = lib + "/" + rel
    os.makedirs(os.path.dirname(base), exist_ok=True)
    need = []

    def put(f, text="", dep=1):
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w") as fh:
            fh.write(text)
        if dep:
            need.append(f)

    def tree(b):
        for sub in ("include", "src"):
            for _ in range(src.int(0, 3)):
                put(b + ".native/" + sub + "/" + src.choice(["a.h", "x/b.h", "x/y/c.c", "d.cpp", "e.h", "z.txt"]))
    cat = src.choice(["native", "native", "precompile"])
    put(base + ".spvm")
    need.append(ctx.memo["cfg"][2] + "/include/spvm_version.h")
    ext = src.choice(["c", "cpp"])
    res = [r for r in ("R1", "R::R2") if src.chance(1, 2)] if cat == "native" else []
    if cat == "native":
        put(base + ".config", "my $c = SPVM::Builder::Config->%s(file => __FILE__); %s $c;" % ("new_c99" if ext == "c" else "new_cpp11", " ".join("$c->use_resource(%s);" % q(r) for r in res)))
        put(base + "." + ext)
        if src.chance(1, 3):
            put(base + ".mode1.config")
        tree(base)
        for r in res:
            b = lib + "/" + r.replace("::", "/")
            put(b + ".spvm")
            put(b + ".config", "SPVM::Builder::Config->new_c99(file => __FILE__);")
            tree(b)
    put(lib + "/Other.spvm", dep=0)
    put(base + "x.c", dep=0)
    L.append("{ local @INC = (%s, @INC); push @VTX::REC, join \"\\n\", @{SPVM::Builder::Util::get_dependent_files(%s, %s, {lib_dir => %s})}; push @VTX::REC, SPVM::Builder::Util::create_make_rule_%s(%s, {lib_dir => %s}); }" % (
        q(d + "/lib"), q(cls), q(cat), q(d + "/lib"), cat, q(cls), q(d + "/lib")))
    try:
        got = [x.decode("utf8", "replace") for x in p.run("\n".join(L))]
    except perlx.PerlCrash as e:
        raise pbt.Violation("perl: %s %s" % (e, e.err[-500:]), key="p28-crash")
    what = "inputs %r output %r force %r header %d" % ([(os.path.basename(f), t and t - hdr) for f, t in ins], ot and ot - hdr, force, hdr)
    if got[-1] or len(got) < 4:
        raise pbt.Violation("died: %s\n%s" % (got[-1], "\n".join(L)), key="p28-died")
    if got[0] != exp[0]:
        raise pbt.Violation("need_generate says %s, expected %s: %s" % (got[0], exp[0], what), key="p28-need")
    deps = got[1].split("\n")
    need = set(need)
    norm = set(os.path.normpath(x) for x in deps)
    miss = set(map(os.path.normpath, need)) - norm
    if miss or norm - set(map(os.path.normpath, need)):
        raise pbt.Violation("dependent files of %s %s: missing %r, unexpected %r" % (cat, cls, sorted(miss), sorted(norm - set(map(os.path.normpath, need)))), key="p28-deps")
    lf = "blib/lib/SPVM/" + rel + (".precompile.so" if cat == "precompile" else ".so")
    rule = got[2]
    if not rule.startswith("dynamic :: %s\n" % lf) or "%s :: " % lf not in rule or not all(x in rule.split("%s :: " % lf)[-1].split("\n")[0].split(" ") for x in deps) or "build_dynamic_lib_dist_%s('%s'" % (cat, cls) not in rule:
        raise pbt.Violation("make rule of %s: %r" % (cls, rule), key="p28-rule")
    return pbt.Info(len(ins) >= 2, tags=tags + [cat] + (["resources"] if res else []), sample=what, digest=what + repr(sorted(x.replace(d, "") for x in need)), evals=len(deps) + 2)


# ------------------------------------------------------------ names and texts
def names_case(src, ctx):
    p = perl(ctx)
    d = fresh(ctx)
    part = lambda: src.choice("ABCXYZ") + "".join(src.choice("abcXYZ019_") for _ in range(src.int(0, 5))).replace("__", "_").rstrip("_")
    parts = [part() for _ in range(src.int(1, 4))]
    name = "::".join(parts)
    rel = "SPVM/" + "/".join(parts)
    cat = src.choice(["native", "precompile"])
    ext = src.choice([None, "c", "cpp", "o", "spvm"])
    meth = src.choice(["foo", "new", "_x", "a_b", "M1"])
    dirp = src.choice(["/a/b", "/x y", "rel/lib", "/a.b/c", "/SPVM", "/lib/" + rel])
    S = "SPVM::Builder::Util::"
    T, E = [], []

    def t(code, want):
        T.append("out(scalar(%s));" % code)
        E.append(j(want))
    t("%sconvert_class_name_to_rel_file(%s, %s)" % (S, q(name), q(ext)), rel + ("." + ext if ext else ""))
    t("%sconvert_class_name_to_rel_dir(%s)" % (S, q(name)), os.path.dirname(rel))
    t("%sconvert_class_name_to_category_rel_file(%s, %s, %s)" % (S, q(name), q(cat), q(ext)), rel + ("" if cat == "native" else ".precompile") + ("." + ext if ext else ""))
    t("%sconvert_class_name_to_dynamic_lib_rel_file(%s, %s)" % (S, q(name), q(cat)), rel + (".so" if cat == "native" else ".precompile.so"))
    t("%sconvert_class_file_to_dynamic_lib_file(%s, %s)" % (S, q(dirp + "/" + rel + ".spvm"), q(cat)), dirp + "/" + rel + (".so" if cat == "native" else ".precompile.so"))
    t("%sget_class_base_dir(%s, %s)" % (S, q(dirp + "/" + rel + ".spvm"), q(name)), dirp)
    pre = "SPVM__" if cat == "native" else "SPVMPRECOMPILE__"
    t("%screate_cfunc_name(%s, %s, %s)" % (S, q(name), q(meth), q(cat)), pre + "__".join(parts) + "__" + meth)
    ms = [src.choice(["a", "b", "c_d"]) for _ in range(src.int(0, 3))]
    t("%screate_dl_func_list(%s, %s, {category => %s})" % (S, q(name), q(ms), q(cat)), [pre + "__".join(parts) + "__" + m for m in ms] or [""])
    # the version of a class file, #lib directives, files of any bytes
    ver = src.choice(["1.001", "0.990103", "12.5", "1.02_03"])
    with open(os.path.join(d, "V.spvm"), "w") as f:
        f.write("%sclass %s {\n  version%s\"%s\"%s;\n}\n" % (src.choice(["", "# version 9\n", "\n\n"]), name, src.choice([" ", "  ", "\t"]), ver, src.choice(["", " "])))
    t("%sget_version_string(%s)" % (S, q(os.path.join(d, "V.spvm"))), ver)
    libs, text = [], ""
    for _ in range(src.int(0, 5)):
        x = src.choice(["$FindBin::Bin/lib", "/abs/dir", "$FindBin::Bin", "$FindBin::Bin/../$FindBin::Bin", "a b"])
        form = src.below(4)
        if form < 2:
            text += "#lib \"%s\"\n" % x
            libs.append(x.replace("$FindBin::Bin", "/bin dir"))
        else:
            text += ["  #lib \"%s\"\n", "my $x = \"#lib \\\"%s\\\"\";\n"][form - 2] % x
    t("%sparse_lib_directive(%s, '/bin dir')" % (S, q(text)), libs)
    data = src.bytes(src.choice([0, 1, 5, 40, 300])) if src.chance(1, 2) else bytes(src.choice(b"\r\n\x1a\x00\xff\xe3a") for _ in range(src.int(0, 12)))
    T.append("%sspurt_binary(%s, pack('H*', '%s')); push @VTX::REC, unpack('H*', %sslurp_binary(%s));" % (S, q(d + "/n/m/f"), data.hex(), S, q(d + "/n/m/f")))
    E.append(data.hex())
    try:
        got = [x.decode("utf8", "replace") for x in p.run("\n".join(T))]
    except perlx.PerlCrash as e:
        raise pbt.Violation("perl: %s %s" % (e, e.err[-500:]), key="p28-crash")
    if got[:-1] != E or got[-1]:
        n = next((i for i, (a, b) in enumerate(zip(got, E)) if a != b), min(len(got) - 1, len(E)))
        raise pbt.Violation("%s gives %s, expected %s (%s)" % (T[n] if n < len(T) else "", got[n][:300], E[n][:300] if n < len(E) else "-", got[-1][:300]), key="p28-names-%d" % n)
    with open(os.path.join(d, "n/m/f"), "rb") as f:
        if f.read() != data:
            raise pbt.Violation("spurt_binary wrote other bytes than %r" % data, key="p28-spurt")
    return pbt.Info(len(parts) >= 2, tags=[cat], sample="%s %s %s" % (name, cat, meth), digest=repr((name, cat, ext, meth, dirp, ms, ver, text, data)), evals=len(E))


SUITES = [
    Suite("config", config_case, 12000, 150000, variants=(), chunk=25),
    Suite("rebuild", rebuild_case, 5000, 60000, variants=(), chunk=25),
    Suite("names", names_case, 6000, 60000, variants=(), chunk=50),
]

META = dict(
    statement="Every constructor, setter, adder, clone, config file (with its mode and its arguments), resource and callback of a build config has the documented effect on that config and on no other, and the compile command and the link "
              "command made of the config contain exactly the documented words in the documented order; libraries to be linked by their path are searched in the library directories in order, dynamic before static. A file is built again exactly "
              "when it is missing, forced or older than one of its inputs or the SPVM version; the files a class depends on are exactly its class file, config, sources, headers and those of its resources; names convert as documented.",
    over=["inputs", "histories"], quant="all sequences of operations on configs, all sets of files and file times, all class names",
    why="the unit tests call each accessor once; what reaches the compiler depends on the order and combination of operations on several configs, their clones, modes and resources",
    files=["lib/SPVM/Builder/Config.pm", "lib/SPVM/Builder/Config/Exe.pm", "lib/SPVM/Builder/CompileInfo.pm", "lib/SPVM/Builder/LinkInfo.pm", "lib/SPVM/Builder/LibInfo.pm", "lib/SPVM/Builder/Resource.pm", "lib/SPVM/Builder/CC.pm",
           "lib/SPVM/Builder/Util.pm"],
    mech=[("config operations", "Config.pm"), ("compile command", "CompileInfo.pm create_command, create_ccflags"), ("link command and library search", "LinkInfo.pm, LibInfo.pm create_ldflags, CC.pm create_link_info"),
          ("rebuild decision, dependent files, names", "Util.pm need_generate, get_dependent_files, convert_*")],
    observe=["fields of the configs", "compile and link commands", "rebuild decisions", "make rules", "converted names"],
    technique="stateful model-based testing of generated operation sequences",
    note="Sequences of operations on several configs (files, modes, arguments, resources, clones, callbacks, libraries) against a Python model of the documentation; rebuild decisions and dependent files of generated trees.")
