#!/usr/bin/env python3
"""Solver-based checks of the real code: see DESIGN.md.

usage: vc.py PROPERTY [--only ENTRY] [--keep] [-v]
tier comes from VERIF_TIER (quick|thorough).
exit 0: held on everything explored.  exit 1: VIOLATION line.  exit 2: error.
"""
import sys, os, re, json, time, shutil, subprocess, tempfile, hashlib, threading
import concurrent.futures as cf
import resource, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
MEM = 9 << 30

DEFAULT_STUBS = ["pvt_do_log", "pvt_do_log_fatal", "pvt_trace_quiet"]


LIBC = dict(
    vfs=("fopen open fclose close fileno feof ferror fflush fsync fwrite "
         "fwrite_unlocked fputc fputc_unlocked putc_unlocked putc fputs write "
         "read fread fgets fgetc getc fseek lseek rename unlink rmdir remove "
         "link mkdir stat lstat fstat access utime chmod opendir readdir "
         "closedir flockfile funlockfile").split(),
)
GROUPS = dict(
    dstr=["libdstr/%s.c" % f for f in (
        "common logger fmt cvt sb b64 dstr_off jsw_atree link hashmap heap "
        "unicode system").split()],
)


class Err(Exception):
    pass


def limits():
    os.setsid()
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(cmd, timeout=None, cwd=None, env=None, limit=True, out=None):
    """returns (rc, output) ; rc None on timeout"""
    p = subprocess.Popen(
        cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL,
        stdout=out or subprocess.PIPE, stderr=subprocess.STDOUT,
        preexec_fn=limits if limit else os.setsid,
    )
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, (o or b"").decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return None, ""


class Entry:
    def __init__(self, fn, opts, harness):
        self.fn = fn.split("@")[0]
        self.name = fn
        self.h = harness
        self.unwind = int(opts.pop("unwind", "10"))
        self.timeout = int(opts.pop("timeout", "300"))
        self.tier = opts.pop("tier", "quick")
        self.defs = [d for d in opts.pop("defs", "").split(",") if d]
        self.flags = [f for f in opts.pop("flags", "").split(",") if f]
        self.malloc_fail = opts.pop("mallocfail", "0") == "1"
        self.leak = opts.pop("leak", "0") == "1"
        self.solver = opts.pop("solver", "")
        self.objbits = opts.pop("objbits", "10")
        self.unwindset = opts.pop("unwindset", "")
        # separate depth for the loops of the harness itself
        self.hunwind = int(opts.pop("hunwind", "0"))
        # longest block copied at once: copies become byte loops this deep
        self.copy = int(opts.pop("copy", "0"))
        self.checks = opts.pop("checks", "1") == "1"
        self.engine = opts.pop("engine", harness.engine)
        self.jobs = int(opts.pop("jobs", "1"))
        self.steps = opts.pop("steps", "20000000")
        self.ub = opts.pop("ub", "0") == "1"
        # a harness for several properties: which of them this entry decides
        self.prop = opts.pop("prop", "")
        if opts:
            raise Err("bad entry options: %s" % opts)


class Harness:
    def __init__(self, path):
        self.path = path
        self.srcs, self.gens, self.defs = [], [], []
        self.stubs, self.nops, self.entries = [], [], []
        self.libs, self.ldflags, self.assumptions, self.bounds = [], [], [], []
        self.nodefault, self.libc = [], []
        self.engine = "cbmc"
        self.props = []
        for line in open(path):
            line = line.strip()
            if not line.startswith("//@"):
                continue
            words = line[3:].split()
            k, rest = words[0].rstrip(":"), words[1:]
            if k == "property":
                self.props += rest
            elif k == "src":
                for r in rest:
                    self.srcs += GROUPS.get(r, [r])
            elif k == "gen":
                self.gens += rest
            elif k == "def":
                self.defs += rest
            elif k == "engine":
                self.engine = rest[0]
            elif k == "stub":
                self.stubs += rest
            elif k == "nop":
                self.nops += rest
            elif k == "libc":   # C library calls which the harness models
                for r in rest:
                    self.libc += LIBC.get(r, [r])
            elif k == "lib":
                self.libs += rest
            elif k == "ld":
                self.ldflags += rest
            elif k == "real":   # keep the real body of a default stub
                self.nodefault += rest
            elif k == "bounds":
                self.bounds.append(" ".join(rest))
            elif k == "assume":
                self.assumptions.append(" ".join(rest))
            elif k == "entry":
                opts = dict(w.split("=", 1) for w in rest[1:])
                self.entries.append(Entry(rest[0], opts, self))
            else:
                raise Err("%s: bad directive %s" % (path, k))


class Builder:
    """compiles /repo's current sources, once per (source, flags)"""

    def __init__(self, d):
        self.d = d
        self.gen = os.path.join(d, "gen")
        os.makedirs(self.gen)
        # the symbolic build compiles a scratch copy of the working tree whose
        # only difference is that log and error messages take no arguments
        self.src = os.path.join(d, "src")
        for root, dirs, files in os.walk(REPO):
            rel = os.path.relpath(root, REPO)
            if rel == ".":
                dirs[:] = [x for x in dirs if x not in (
                    "_build", ".git", "test", "support_files")]
            for f in files:
                if f.endswith((".c", ".h", ".in")):
                    os.makedirs(os.path.join(self.src, rel), exist_ok=True)
                    shutil.copyfile(os.path.join(root, f),
                                    os.path.join(self.src, rel, f))
        with open(self.src + "/libdstr/logger.h", "a") as f:
            f.write(open(VERIF + "/lib/quiet_logger.h").read())
        with open(self.src + "/libdstr/common.h", "a") as f:
            f.write(open(VERIF + "/lib/quiet_common.h").read())
        self.lock = threading.Lock()
        self.sxlock = threading.Lock()
        self.done = {}
        # config.h is exported from qw.conf by the build; constants only
        with open(os.path.join(self.gen, "config.h"), "w") as f:
            f.write('#define SM_VER_MAJ 0\n#define SM_VER_MIN 4\n'
                    '#define SM_VER_PAT 2\n#define SM_VER_STR "0.4.2"\n'
                    '#define SM_SM_DIR "/var/lib/splintermail"\n'
                    '#define SM_STATUS_SOCK "/run/splintermail.sock"\n')

    def generate(self, which):
        """regenerate the parsers and scanners from the grammar files"""
        with self.lock:
            if which in self.done:
                return
            self.done[which] = 1
            g = self.gen
            genpy = os.path.join(g, "tools", "gen.py")
            if not os.path.exists(genpy):
                os.makedirs(os.path.dirname(genpy), exist_ok=True)
                self.must(["python3", REPO + "/tools/meta.py",
                           REPO + "/tools/gen.py.in"], cwd=g + "/tools")

            def re2c(i, o):
                os.makedirs(os.path.dirname(g + "/" + o), exist_ok=True)
                self.must(["re2c", "--input", "custom", "-W", "-Werror",
                           "-o", g + "/" + o, REPO + "/" + i])

            def parser(i, base):
                os.makedirs(os.path.dirname(g + "/" + base), exist_ok=True)
                for ext, act in ((".c", "gen_body"), (".h", "gen_header")):
                    self.must(["python3", genpy, "-o", g + "/" + base + ext,
                               "--action", act, REPO + "/" + i, "debug=true",
                               "--stamp", g + "/" + base + ext + ".stamp"],
                              cwd=g)
            if which == "imap":
                re2c("libimap/scan.c", "libimap/generated/imap_scan.c")
                re2c("libimap/imf_scan.c.in", "libimap/generated/imf_scan.c")
                parser("libimap/imap.in", "libimap/generated/imap_parse")
                parser("libimap/imf.in", "libimap/generated/imf_parse")
            elif which == "web":
                re2c("libweb/web_scan.c.in", "libweb/generated/web_scan.c")
                parser("libweb/web.in", "libweb/generated/web_parse")
            elif which == "qwwq":
                re2c("tools/qwwq/scan.c.in", "tools/qwwq/generated/scan.c")
                parser("tools/qwwq/qw.in", "tools/qwwq/generated/parse")
            else:
                raise Err("unknown generator " + which)

    def must(self, cmd, cwd=None):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        rc, out = run(cmd, timeout=300, cwd=cwd, env=env, limit=False)
        if rc != 0:
            raise Err("command failed: %s\n%s" % (
                " ".join(cmd)[:200], out[-1200:]))
        return out

    def resolve(self, src):
        if src.startswith("gen/"):
            return os.path.join(self.gen, src[4:])
        if src.startswith("verif/"):
            return os.path.join(VERIF, src[6:])
        return os.path.join(REPO, src)

    def compile(self, mode, src, defs):
        """mode: 'gb' or 'nat'; returns the object path"""
        path = src if os.path.isabs(src) else self.resolve(src)
        key = (mode, path, tuple(defs))
        h = hashlib.sha1(repr(key).encode()).hexdigest()[:16]
        obj = os.path.join(self.d, "%s-%s.%s" % (
            os.path.basename(path).replace(".", "_"), h,
            mode if mode != "nat" else "o"))
        with self.lock:
            ev = self.done.get(key)
            mine = ev is None
            if mine:
                ev = self.done[key] = threading.Event()
        if mine:
            try:
                base = os.path.relpath(path, REPO) if path.startswith(REPO) \
                    else os.path.basename(path)
                top = REPO
                if mode != "nat":
                    top = self.src
                    if path.startswith(REPO + "/"):
                        path = self.src + path[len(REPO):]
                cmd = ["-DFILE_BASENAME=\"%s\"" % base, "-DBUILD_DEBUG",
                       "-I" + top, "-I" + self.gen, "-I" + VERIF + "/lib",
                       "-I" + VERIF + "/harness"] + list(defs)
                if mode == "gb":
                    cmd = ["goto-cc", "-c", "-DVH_CBMC=1",
                           "-D__NO_CTYPE"] + cmd + [path, "-o", obj]
                elif mode in ("bc", "bcu"):
                    cmd = ["clang", "-c", "-emit-llvm", "-O1", "-w",
                           "-Xclang", "-disable-llvm-passes",
                           "-gline-tables-only", "-fno-vectorize",
                           "-fno-slp-vectorize", "-U_FORTIFY_SOURCE",
                           "-DVH_SX=1", "-D__NO_CTYPE",
                           "-D__NO_INLINE__"] + (
                               ["-fsanitize=signed-integer-overflow,shift,"
                                "integer-divide-by-zero",
                                "-fsanitize-trap=all"]
                               if mode == "bcu" else []) + cmd + [
                           path, "-o", obj + ".raw"]
                    self.must(cmd)
                    p = ("sroa,early-cse,instcombine<no-verify-fixpoint>,"
                         "simplifycfg")
                    cmd = ["opt", "-passes=function(%s,%s)" % (p, p),
                           obj + ".raw", "-o", obj]
                else:
                    cmd = ["gcc", "-c", "-g", "-O1", "-fno-inline", "-fPIC",
                           "-D__NO_INLINE__", "-U_FORTIFY_SOURCE",
                           "-ffunction-sections",
                           "-fsemantic-interposition", "-w",
                           "-fsanitize=address,undefined",
                           "-fno-sanitize-recover=all",
                           "-fno-sanitize=nonnull-attribute,"
                           "returns-nonnull-attribute",
                           "-fno-omit-frame-pointer"] + cmd + [
                           path, "-o", obj]
                self.must(cmd)
            except Exception as e:
                self.done[(key, "err")] = e
                raise
            finally:
                ev.set()
        else:
            ev.wait()
            if (key, "err") in self.done:
                raise self.done[(key, "err")]
        return obj

    def engine(self):
        """the path-based engine, built from /verif/sx"""
        files = [VERIF + "/sx/" + f for f in (
            "sx.cc", "expr.cc", "expr.h", "decode.h", "step.h")]
        h = hashlib.sha1(b"".join(open(f, "rb").read() for f in files))
        exe = VERIF + "/out/sx-" + h.hexdigest()[:16]
        with self.sxlock:
            if not os.path.exists(exe):
                os.makedirs(VERIF + "/out", exist_ok=True)
                tmp = "%s.%d" % (exe, os.getpid())
                self.must(["g++", "-O2", "-w", "-I/usr/include/llvm-c-18",
                           "-I/usr/include/llvm-18"] + files[:2] + [
                           "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18",
                           "-lz3", "-lpthread"])
                os.rename(tmp, exe)
        return exe

    def bitcode(self, e):
        h = e.h
        for g in h.gens:
            self.generate(g)
        out = os.path.join(self.d, "s-%s-%s.bc" % (
            os.path.basename(h.path)[:-2], re.sub(r"\W", "_", e.name)))
        defs = h.defs + ["-D" + d for d in e.defs]
        with cf.ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(lambda s: self.compile(
                "bcu" if e.ub else "bc", s, h.defs), h.srcs))
        hobj = self.compile("bc", h.path, defs)
        libc = self.compile("bc", "verif/lib/sx_libc.c", [
            "-DVH_REAL_" + s for s in h.nodefault])
        # the harness and the libc models win over the sources' definitions
        self.must(["llvm-link"] + objs + ["--override=" + libc,
                  "--override=" + hobj, "-o", out])
        return out

    def symbolic(self, e):
        h = e.h
        for g in h.gens:
            self.generate(g)
        out = os.path.join(self.d, "s-%s-%s.gb" % (
            os.path.basename(h.path)[:-2], re.sub(r"\W", "_", e.name)))
        defs = h.defs + ["-D" + d for d in e.defs]
        objs = [self.compile("gb", s, h.defs) for s in h.srcs]
        stubs = [s for s in DEFAULT_STUBS if s not in h.nodefault]
        stubs += h.stubs
        # remove the bodies being replaced, then link the harness's
        if objs:
            lib = out + ".lib"
            self.must(["goto-cc"] + objs + ["-o", lib])
            cmd = ["goto-instrument"]
            for s in stubs + h.nops:
                cmd += ["--remove-function-body", s]
            self.must(cmd + [lib, lib + "2"])
            libs = [lib + "2"]
        else:
            libs = []
        hobj = self.compile("gb", h.path, defs)
        stub = self.compile(
            "gb", "verif/lib/vh_stubs.c",
            ["-DVH_REAL_" + s for s in h.nodefault] + [
                d for d in h.defs if d.startswith("-DVH_")] + (
                    ["-DVH_LOOPMEM"] if e.copy else []))
        self.must(["goto-cc", "--function", e.fn, hobj] + libs +
                  [stub, "-o", out + ".l"])
        cur = out + ".l"
        if h.nops:
            rx = "|".join("^%s$" % n for n in h.nops)
            self.must(["goto-instrument", "--generate-function-body", rx,
                       "--generate-function-body-options", "nondet-return",
                       cur, out + ".g"])
            cur = out + ".g"
        self.must(["goto-instrument", "--drop-unused-functions", cur, out])
        for f in (out + ".lib", out + ".lib2", out + ".l", out + ".g"):
            if os.path.exists(f):
                os.unlink(f)
        return out

    def native(self, e):
        h = e.h
        out = os.path.join(self.d, "n-%s-%s" % (
            os.path.basename(h.path)[:-2], re.sub(r"\W", "_", e.name)))
        if os.path.exists(out):
            return out
        defs = h.defs + ["-D" + d for d in e.defs]
        objs = [self.compile("nat", s, h.defs) for s in h.srcs]
        # objects whose functions the harness replaces
        wk = []
        for o in objs:
            o2 = out + "-" + os.path.basename(o)
            cmd = ["objcopy"]
            for s in h.stubs:
                cmd += ["--weaken-symbol", s]
            for s in h.libc:
                cmd += ["--redefine-sym", "%s=vhw_%s" % (s, s)]
            if h.stubs or h.libc:
                # static functions get replaced too
                for s in h.stubs:
                    cmd += ["--globalize-symbol", s]
                self.must(cmd + [o, o2])
                wk.append(o2)
            else:
                wk.append(o)
        hobj = self.compile("nat", h.path, defs)
        rt = self.compile("nat", "verif/lib/vh_native.c",
                          ["-DVH_ENTRY=" + e.fn])
        link = ["gcc", "-fsanitize=address,undefined", "-Wl,--gc-sections",
                hobj, rt] + wk + h.ldflags + ["-lm", "-lpthread"] + h.libs
        rc, o = run(link + ["-o", out], timeout=120, limit=False)
        if rc != 0:
            # functions outside the encoded sources: reaching one natively
            # ends the replay without a verdict
            und = sorted(set(re.findall(r"undefined reference to `(\w+)'", o)))
            if not und:
                raise Err("native link failed: " + o[-2000:])
            uf = out + "-und.c"
            with open(uf, "w") as f:
                f.write("#include <stdlib.h>\n")
                for u in und:
                    f.write("void %s(void){ _Exit(78); }\n" % u)
            self.must(link + ["-fno-builtin", "-w", uf, "-o", out])
        return out


RX_RES = re.compile(r"^\[(\S+)\] (?:file \S+ )?(?:line (\d+) )?(.*): "
                    r"(SUCCESS|FAILURE|UNKNOWN|ERROR)$")
RX_IN = re.compile(r"^\s*INPUT nd: .*\(([01 ]+)\)\s*$")


def parse_cbmc(path):
    r = dict(props=[], traces={}, funcs=set(), vccs=0, steps=0, solver_s=0.0,
             queries=0, clauses=0, vars=0, status=None, symex_s=0.0,
             unwound=0, errors=[])
    cur = None
    where = ""
    for line in open(path, errors="replace"):
        line = line.rstrip("\n")
        if cur is None:
            if line.startswith("Unwinding loop") or \
                    line.startswith("Unwinding recursion"):
                r["unwound"] += 1
                continue
            if line.startswith("["):
                m = RX_RES.match(line)
                if m:
                    r["props"].append((m.group(1), m.group(3), m.group(4),
                                       where))
                continue
            m = re.match(r"^(/\S+|\S+\.c|<\S+>) function (\S+)$", line)
            if m:
                where = line
                if m.group(1).startswith("/"):
                    r["funcs"].add((m.group(1), m.group(2)))
                continue
            m = re.match(r"Generated (\d+) VCC\(s\), (\d+) remaining", line)
            if m:
                r["vccs"] += int(m.group(1))
                continue
            m = re.match(r"size of program expression: (\d+) steps", line)
            if m:
                r["steps"] = int(m.group(1))
                continue
            m = re.match(r"Runtime Solver: ([\d.e+-]+)s", line)
            if m:
                r["solver_s"] += float(m.group(1))
                r["queries"] += 1
                continue
            m = re.match(r"Runtime Symex: ([\d.e+-]+)s", line)
            if m:
                r["symex_s"] += float(m.group(1))
                continue
            m = re.match(r"(\d+) variables, (\d+) clauses", line)
            if m:
                r["vars"] = max(r["vars"], int(m.group(1)))
                r["clauses"] = max(r["clauses"], int(m.group(2)))
                continue
        if line.startswith("VERIFICATION "):
            r["status"] = line.split()[1]
            continue
        m = re.match(r"^Trace for (\S+):$", line)
        if m:
            cur = r["traces"].setdefault(m.group(1), [])
            continue
        if cur is not None:
            m = RX_IN.match(line)
            if m:
                cur.append(int(m.group(1).replace(" ", ""), 2))
    return r


def cbmc_cmd(e, gb, unwind):
    cmd = ["cbmc", gb, "--unwind", str(unwind), "--unwinding-assertions", "--trace", "--verbosity", "8", "--object-bits", e.objbits]
    cmd += ["--malloc-may-fail", "--malloc-fail-null"] if e.malloc_fail \
        else ["--no-malloc-may-fail"]
    if e.leak:
        cmd += ["--memory-leak-check"]
    if e.solver:
        cmd += ["--sat-solver", e.solver]
    us = [e.unwindset] if e.unwindset else []
    if e.hunwind:
        rc, o = run(["cbmc", "--show-loops", gb], timeout=60)
        for m in re.finditer(r"^Loop (\S+):\n\s+file (\S+) ", o, re.M):
            if m.group(2) == e.h.path:
                us.append("%s:%d" % (
                    m.group(1), e.hunwind * unwind // e.unwind))
    if e.copy:
        k = e.copy * unwind // e.unwind + 1
        us += ["%s:%d" % (f, k) for f in (
            "memcpy.0", "memmove.0", "memmove.1", "memset.0")]
    if us:
        cmd += ["--unwindset", ",".join(us)]
    if not e.checks:
        cmd += ["--no-standard-checks"]
    cmd += e.flags
    return cmd


def replay(b, e, values, workdir, tag):
    """run the native build on a counterexample.
    returns (kind, detail): check / sanitizer / hang / reach / assume / clean
    """
    exe = b.native(e)
    vf = os.path.join(workdir, tag + ".in")
    with open(vf, "w") as f:
        f.write("\n".join(str(v) for v in values) + "\n")
    last = None
    for fill in ("190", "0", "65"):
        env = dict(os.environ)
        env["ASAN_OPTIONS"] = (
            "exitcode=99:abort_on_error=0:detect_leaks=%d:"
            "malloc_fill_byte=%s:max_malloc_fill_size=1048576:"
            "allocator_may_return_null=1:handle_abort=0"
            % (1 if e.leak else 0, fill))
        env["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=98:print_stacktrace=1"
        scratch = tempfile.mkdtemp(dir=workdir)
        rc, out = run([exe, vf], timeout=20, cwd=scratch, env=env, limit=False)
        shutil.rmtree(scratch, ignore_errors=True)
        if rc is None:
            return "hang", "no termination within 20 s", vf
        if rc == 70:
            m = re.search(r"VH_CHECK_FAILED: (.*)", out)
            return "check", m.group(1) if m else "?", vf
        if rc in (98, 99, -6, -11, -8, -7, 1):
            m = re.search(r"(ERROR: .*|runtime error: .*)", out)
            return "crash", (m.group(1) if m else "rc=%d %s" % (
                rc, out[-300:])), vf
        if rc == 77:
            last = ("assume", out.strip()[-200:], vf)
        elif rc == 0:
            reach = re.findall(r"VH_REACH: (.*)", out)
            last = ("clean", reach, vf)
        else:
            last = ("other", "rc=%s %s" % (rc, out[-300:]), vf)
    return last


STD_UB = re.compile(r"same object violation|pointer relation|"
                    r"pointer arithmetic|pointer_arithmetic|"
                    r"invalid integer address")


def sx_entry(b, e, workdir, keep):
    t0 = time.time()
    res = dict(name=e.name, fn=e.fn, harness=os.path.basename(e.h.path),
               engine="sx", unwind=None, verdict=None, violations=[],
               notes=[], witnesses=0, witnesses_replayed=0)
    exe = b.engine()
    bc = b.bitcode(e)
    tag = re.sub(r"\W", "_", e.name) + "-" + os.path.basename(e.h.path)[:-2]
    outf = os.path.join(workdir, tag + ".txt")
    cmd = [exe, bc, e.fn, "--timeout", str(e.timeout), "--jobs", str(e.jobs),
           "--steps", e.steps, "--harness", e.h.path]
    for s in e.h.stubs:
        cmd += ["--stub", s]
    for s in e.h.nops:
        cmd += ["--nop", s]
    if e.leak:
        cmd += ["--leak"]
    if keep:
        res["notes"].append(" ".join(cmd))
    t1 = time.time()
    with open(outf, "wb") as f:
        rc, _ = run(cmd, timeout=e.timeout + 60, out=f)
    res["wall"] = round(time.time() - t0, 2)
    tot, fails, reach, want, nobody, reasons = {}, [], {}, set(), set(), set()
    funcs = set()
    for line in open(outf, errors="replace"):
        w = line.rstrip("\n").split("\t")
        if w[0] == "SUMMARY":
            for kv in w[1:]:
                k, v = kv.split("=")
                tot[k] = tot.get(k, 0) + float(v)
        elif w[0] == "FAIL":
            fails.append((w[1], w[2], w[3], [int(x) for x in w[4:]]))
        elif w[0] == "REACH":
            reach.setdefault(w[1], [int(x) for x in w[2:]])
        elif w[0] == "WANT":
            want.add(w[1])
        elif w[0] == "NOBODY":
            nobody.add(w[1])
        elif w[0] == "REASON":
            reasons.add(w[1])
        elif w[0] == "FUNC":
            funcs.add((w[1], w[2]))
    if rc is None or rc != 0 or "paths" not in tot:
        res["verdict"] = "timeout" if rc is None else "error"
        res["notes"].append("sx rc=%s: %s" % (rc, open(
            outf, errors="replace").read()[-1000:]))
        return res
    for k in ("paths", "pruned", "insts", "forks", "cached"):
        res[k] = int(tot[k])
    res["queries"] = int(tot["queries"])
    res["solver_s"] = tot["solver_s"]
    res["symex_s"] = max(0.0, time.time() - t1 - tot["solver_s"])
    res["vccs"] = int(tot["obligations"])
    res["nprops"] = int(tot["obligations"])
    res["discharged"] = int(tot["obligations"]) - len(fails)
    res["funcs"] = sorted("%s:%s" % (os.path.relpath(
        f, b.src if f.startswith(b.src) else b.gen), n)
        for f, n in funcs if f.startswith((b.src + "/", b.gen + "/")))
    res["witnesses"] = len(reach)
    # the most specific failures first
    order = dict(check=0, abort=1, memory=2)
    fails.sort(key=lambda f: order.get(f[0], 3))
    for i, (kind, msg, where, vals) in enumerate(fails[:16]):
        k, detail, vf = replay(b, e, vals, workdir, "%s-cex%d" % (tag, i))
        res["notes"].append("cex %s %s [%s] -> native %s: %s" % (
            kind, msg, where, k, detail))
        if k in ("check", "crash", "hang"):
            res["violations"].append(dict(
                property=kind, description=msg, where=where, native=k,
                detail=detail, values=vals))
            if len(res["violations"]) >= 3:
                break
    if res["violations"]:
        res["verdict"] = "violated"
        return res
    if nobody:
        res["verdict"] = "error"
        res["notes"].append("no body: " + " ".join(sorted(nobody)))
    elif tot["unsupported"]:
        res["verdict"] = "error"
        res["notes"] += sorted(reasons)
    elif fails:
        res["verdict"] = "unconfirmed"
    elif tot["incomplete"]:
        res["verdict"] = "timeout"
        res["notes"] += sorted(reasons)
        res["notes"].append("paths so far: %d" % tot["paths"])
    elif not reach or want - set(reach):
        res["verdict"] = "vacuous"
        res["notes"].append("unreachable: " + ", ".join(
            sorted(want - set(reach))))
    else:
        res["verdict"] = "held"
        for i, (desc, vals) in enumerate(sorted(reach.items())[:6]):
            kind, detail, vf = replay(b, e, vals, workdir,
                                      "%s-w%d" % (tag, i))
            if kind == "clean" and desc in detail:
                res["witnesses_replayed"] += 1
                res.setdefault("samples", []).append(
                    dict(witness=desc, values=vals[:64]))
            else:
                res["notes"].append("witness %s replayed as %s %s" % (
                    desc, kind, detail))
    return res


def check_entry(b, e, workdir, keep, verbose):
    if e.engine == "sx":
        return sx_entry(b, e, workdir, keep)
    t0 = time.time()
    res = dict(name=e.name, fn=e.fn, harness=os.path.basename(e.h.path),
               unwind=e.unwind, verdict=None, violations=[], notes=[],
               witnesses=0, witnesses_replayed=0)
    gb = b.symbolic(e)
    unwind = e.unwind
    for attempt in (0, 1):
        outf = os.path.join(workdir, re.sub(r"\W", "_", e.name) + "-%s.txt"
                            % os.path.basename(e.h.path)[:-2])
        with open(outf, "wb") as f:
            rc, _ = run(cbmc_cmd(e, gb, unwind), timeout=e.timeout, out=f)
        res["wall"] = round(time.time() - t0, 2)
        if rc is None:
            res["verdict"] = "timeout"
            res["notes"].append("timeout after %ds" % e.timeout)
            return res
        r = parse_cbmc(outf)
        if r["status"] is None:
            tail = open(outf, errors="replace").read()[-1500:]
            mem = "out of memory" in tail.lower() or rc in (6, 137, -6, -9,
                                                            134)
            res["verdict"] = "memout" if mem else "error"
            res["notes"].append("cbmc rc=%s: %s" % (rc, tail))
            return res
        for k in ("vccs", "steps", "solver_s", "symex_s", "queries",
                  "clauses", "vars", "unwound"):
            res[k] = r[k]
        res["nprops"] = len(r["props"])
        res["funcs"] = sorted("%s:%s" % (os.path.relpath(
            f, b.src if f.startswith(b.src) else b.gen), n)
            for f, n in r["funcs"] if f.startswith((b.src + "/", b.gen + "/")))
        fails, unw, missing, unknown = [], [], [], []
        reach_ok, reach_bad = [], []
        for pid, desc, st, where in r["props"]:
            if desc.startswith("REACH: "):
                (reach_ok if st == "FAILURE" else reach_bad).append(
                    (pid, desc[7:]))
            elif ".no-body." in pid:
                if st == "FAILURE":
                    missing.append(pid)
            elif st == "FAILURE":
                if ".unwind." in pid or ".recursion" in pid:
                    unw.append((pid, desc, where))
                else:
                    fails.append((pid, desc, where))
            elif st in ("UNKNOWN", "ERROR"):
                unknown.append(pid)
        res["discharged"] = sum(1 for p in r["props"] if p[2] == "SUCCESS")
        res["witnesses"] = len(reach_ok)
        if missing:
            res["notes"].append("no body: " + " ".join(missing))
            break
        # counterexamples first
        confirmed = False
        cands = fails + (unw if True else [])
        for i, (pid, desc, where) in enumerate(cands[:14]):
            vals = r["traces"].get(pid)
            if vals is None:
                continue
            kind, detail, vf = replay(b, e, vals, workdir,
                                      "%s-cex%d" % (re.sub(r"\W", "_", e.name), i))
            res["notes"].append("cex %s (%s) -> native %s: %s" % (
                pid, desc, kind, detail))
            if kind in ("check", "crash", "hang"):
                res["violations"].append(dict(
                    property=pid, description=desc, where=where,
                    native=kind, detail=detail, values=vals))
                confirmed = True
                if len(res["violations"]) >= 3:
                    break
        if confirmed:
            res["verdict"] = "violated"
            return res
        if unw and attempt == 0:
            unwind = unwind * 3
            res["notes"].append("retry with unwind %d" % unwind)
            continue
        break
    if keep or verbose:
        res["out"] = outf
    real = [f for f in fails if not STD_UB.search(f[1])]
    if missing:
        res["verdict"] = "error"
    elif unw:
        res["verdict"] = "unwind"
    elif real:
        res["verdict"] = "unconfirmed"
    elif unknown:
        res["verdict"] = "error"
        res["notes"].append("undecided: " + " ".join(unknown[:5]))
    elif reach_bad:
        res["verdict"] = "vacuous"
        res["notes"].append("unreachable: " + ", ".join(
            d for _, d in reach_bad))
    elif not reach_ok:
        res["verdict"] = "vacuous"
        res["notes"].append("no reachability witness")
    else:
        res["verdict"] = "held"
    res["unwind"] = unwind
    if res["verdict"] == "held":
        # validate the encoding: replay the witnesses on the native build
        for i, (pid, desc) in enumerate(reach_ok[:6]):
            vals = r["traces"].get(pid)
            if vals is None:
                continue
            kind, detail, vf = replay(b, e, vals, workdir,
                                      "%s-w%d" % (re.sub(r"\W", "_", e.name), i))
            if kind == "clean" and desc in detail:
                res["witnesses_replayed"] += 1
                res.setdefault("samples", []).append(
                    dict(witness=desc, values=vals[:64]))
            else:
                res["notes"].append("witness %s replayed as %s %s" % (
                    desc, kind, detail))
    return res


def load(pid):
    hs = []
    for f in sorted(os.listdir(VERIF + "/harness")):
        if f.endswith(".c"):
            h = Harness(os.path.join(VERIF, "harness", f))
            if pid in h.props:
                hs.append(h)
    return hs


def main():
    t0 = time.time()
    args = sys.argv[1:]
    keep = "--keep" in args
    verbose = "-v" in args
    only = None
    if "--only" in args:
        only = args[args.index("--only") + 1]
    pid = args[0]
    hs = load(pid)
    ents = [e for h in hs for e in h.entries if e.prop in ("", pid)]
    if only:
        ents = [e for e in ents if re.search(only, e.name)]
    elif TIER == "quick":
        ents = [e for e in ents if e.tier == "quick"]
    if not ents:
        print("no entries for", pid)
        return 2
    d = tempfile.mkdtemp(prefix="vc-%s-" % pid)
    results, errors = [], []
    try:
        b = Builder(d)
        with cf.ThreadPoolExecutor(JOBS) as ex:
            # longest first
            futs = {ex.submit(check_entry, b, e, d, keep, verbose): e
                    for e in sorted(ents, key=lambda e: -e.timeout)}
            for f in cf.as_completed(futs):
                e = futs[f]
                try:
                    r = f.result()
                except Exception as x:
                    r = dict(name=e.name, fn=e.fn, verdict="error",
                             harness=os.path.basename(e.h.path),
                             violations=[], notes=[str(x)[-3000:]],
                             witnesses=0, witnesses_replayed=0, wall=0)
                r["tier"] = e.tier
                results.append(r)
                print("  %-40s %-11s %6.1fs solver %.1fs vccs %s w %d/%d" % (
                    r["name"], r["verdict"], r.get("wall", 0),
                    r.get("solver_s", 0), r.get("vccs", 0),
                    r["witnesses_replayed"], r["witnesses"]))
                if verbose or r["verdict"] != "held":
                    for n in r["notes"]:
                        print("      " + n.replace("\n", "\n      ")[:1500])
                sys.stdout.flush()
        rc = report(pid, hs, results, t0, d)
    finally:
        if keep:
            print("kept", d)
        else:
            shutil.rmtree(d, ignore_errors=True)
    return rc


def report(pid, hs, results, t0, d):
    viol = [r for r in results if r["verdict"] == "violated"]
    # a bound too deep to finish in the thorough tier is stated, not claimed
    undecided = [r for r in results if r["verdict"] in ("timeout", "memout")
                 and r["tier"] == "thorough"]
    bad = [r for r in results if r["verdict"] not in ("held", "violated")
           and r not in undecided]
    held = [r for r in results if r["verdict"] == "held"]
    known = known_findings(pid)
    newviol = []
    for r in viol:
        key = "%s/%s" % (r["harness"], r["fn"])
        left = []
        for v in r["violations"]:
            k = known.get((r["fn"], v["detail"])) if v["native"] == "check" \
                else None
            if k:
                print("KNOWN-FINDING: property=%s %s" % (pid, k))
            else:
                left.append(v)
        if left:
            newviol.append((r, left))
    rc = 0
    if newviol:
        rc = 1
        od = os.path.join(VERIF, "out", "replay")
        os.makedirs(od, exist_ok=True)
        r, vs = newviol[0]
        path = os.path.join(od, "%s-%s.json" % (
            pid, re.sub(r"\W", "_", r["name"])))
        with open(path, "w") as f:
            json.dump(dict(property=pid, harness=r["harness"],
                           entry=r["name"], violations=vs), f, indent=1)
        for r, vs in newviol:
            for v in vs:
                print("  %s: %s [%s] native %s: %s" % (
                    r["name"], v["description"], v["where"], v["native"],
                    v["detail"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    elif bad:
        rc = 2
        print("ERROR property=%s: %s" % (pid, ", ".join(
            "%s=%s" % (r["name"], r["verdict"]) for r in bad)))
    funcs = sorted(set(f for r in results for f in r.get("funcs", [])))
    ev = dict(
        property=pid, tier=TIER, seed=SEED, level="other",
        coverage=dict(
            explanation=(
                "Symbolic execution of the functions listed, compiled from "
                "/repo's working tree on this run (engine cbmc: CBMC with its "
                "SAT back end; engine sx: every path of the LLVM IR, with Z3 "
                "deciding branches and obligations).  Every assertion and "
                "memory-safety obligation of each query was decided for all "
                "values within the stated bounds, with no path or loop cut "
                "short.  Reachability witnesses were "
                "required to be satisfiable and were replayed on a native "
                "ASan/UBSan build of the same sources."),
            functions_encoded=funcs,
            n_functions_encoded=len(funcs),
            bounds=[x for h in hs for x in h.bounds
                    if x.split(":")[0] == pid
                    or not re.match(r"P\d+:", x)],
            queries=[dict(
                entry=r["name"], harness=r["harness"], verdict=r["verdict"],
                engine=r.get("engine", "cbmc"), paths=r.get("paths"),
                instructions=r.get("insts"), branch_forks=r.get("forks"),
                unwind=r.get("unwind"), vccs=r.get("vccs"),
                obligations=r.get("nprops"),
                discharged=r.get("discharged"),
                solver_calls=r.get("queries"),
                ssa_steps=r.get("steps"), clauses=r.get("clauses"),
                loop_iterations_unwound=r.get("unwound"),
                solver_s=round(r.get("solver_s", 0), 3),
                symex_s=round(r.get("symex_s", 0), 3),
                wall_s=r.get("wall"), notes=[n[:300] for n in r["notes"]],
            ) for r in sorted(results, key=lambda r: r["name"])],
            queries_held=len(held),
            queries_undecided=[r["name"] for r in undecided],
            obligations=sum(r.get("nprops") or 0 for r in results),
            discharged=sum(r.get("discharged") or 0 for r in results),
            solver_s=round(sum(r.get("solver_s", 0) for r in results), 2),
            witnesses_satisfiable=sum(r["witnesses"] for r in results),
            traces_validated_against_impl=sum(
                r["witnesses_replayed"] for r in results),
            samples=[s for r in results for s in r.get("samples", [])][:12],
        ),
        assumptions=[x for h in hs for x in h.assumptions],
        wall_s=round(time.time() - t0, 2),
        violations=sum(len(v) for _, v in newviol),
    )
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d held, %d violated, %d undecided, %d errors in %.0fs" % (
        pid, len(held), len(viol), len(undecided), len(bad),
        time.time() - t0))
    return rc


def known_findings(pid):
    out = {}
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p)).get("open", []):
            if k["property"] == pid:
                out[(k["entry"], k["check"])] = k["what"]
    return out


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Err as e:
        print("ERROR:", e)
        sys.exit(2)
