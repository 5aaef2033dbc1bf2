"""Check context: building the generator from /repo's working tree, running it, compiling generated packages, verdicts."""
import errno, os, sys, json, time, hashlib, subprocess, shutil, tempfile, random, re, threading, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
NCPU = int(os.environ.get("VERIF_JOBS", "0")) or max(2, min(16, os.cpu_count() or 4))


class HarnessError(Exception):
    """the check itself could not do its work (neither held nor violated)."""


class Timeout(Exception):
    pass


COMPILERS = ("gcc", "g++", "clang", "clang++", "cc", "c++")
KILLED = re.compile(r"Killed signal terminated|Terminated signal terminated|unable to execute command: (Killed|Terminated)|No space left on device|Cannot allocate memory|cannot fork")


def sh(cmd, timeout=300, cwd=None, env=None, stdin=None, retry=True):
    """run, return (rc, stdout, stderr). A time-out is inconclusive: retried once, then Timeout.
    So is a compiler that was ended from outside (memory, disk): nothing about the code is learnt from that."""
    for k in (0, 1):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout * (1 + k), cwd=cwd, env=env,
                               input=stdin)
            r = p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
            if r[0] and os.path.basename(str(cmd[0])) in COMPILERS and (r[0] in (-9, -15) or KILLED.search(r[2])):
                if k:
                    raise HarnessError("compiler ended from outside: %s\n%s" % (" ".join(map(str, cmd))[:300], r[2][-500:]))
                time.sleep(5)
                continue
            return r
        except subprocess.TimeoutExpired:
            if not retry or k:
                raise Timeout("timeout: " + " ".join(map(str, cmd))[:300])
        except OSError as x:
            if x.errno != errno.ETXTBSY or k:
                raise
            time.sleep(2)


def copy_exe(a, b):
    """copy a program that is started later: by another process, since a descriptor open for writing here would be inherited
    by whatever another thread starts meanwhile ("text file busy")."""
    subprocess.run(["cp", "-p", "--", a, b], check=True)


SAN_ENV = dict(ASAN_OPTIONS="abort_on_error=0:exitcode=97:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:exitcode=98")

GEN_KINDS = {
    # name: (compiler, flags)
    "plain": ("g++", ["-O1", "-g0"]),
    "asan": ("clang++", ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow,float-divide-by-zero",
                         "-fno-sanitize=float-divide-by-zero", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]),
    "vg": ("g++", ["-O1", "-g"]),
    "fuzz": ("clang++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=fuzzer,address,undefined,float-cast-overflow", "-fno-sanitize=float-divide-by-zero", "-fno-sanitize-recover=all",
                         "-D_GLIBCXX_ASSERTIONS"]),
    # the same program with two different fill patterns of uninitialised stack variables
    "pat": ("clang++", ["-O0", "-g0", "-ftrivial-auto-var-init=pattern"]),
    "zero": ("clang++", ["-O1", "-g0", "-ftrivial-auto-var-init=zero"]),
}


class Ctx:
    def __init__(c, pid):
        c.pid = pid
        c.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        c.tier = os.environ.get("VERIF_TIER", "quick")
        if c.tier not in ("quick", "thorough"):
            c.tier = "quick"
        c.thorough = c.tier == "thorough"
        c.t0 = time.time()
        c.dir = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=os.environ.get("VERIF_TMP") or None)
        c.lock = threading.Lock()
        c.cov = {}
        c.distinct = set()
        c.samples = []
        c.evals = 0
        c.violations = []   # (key, message, files)
        c.known_seen = []
        c.pool = ThreadPoolExecutor(NCPU)
        c._gen = {}
        c._n = 0
        c.stop = False

    # -------------------------------------------------- bookkeeping
    def rng(c, *tag):
        return random.Random("%d:%s:%s" % (c.seed, c.pid, ":".join(map(str, tag))))

    def n(c, quick, thorough):
        return thorough if c.thorough else quick

    def count(c, name, k=1):
        with c.lock:
            c.cov[name] = c.cov.get(name, 0) + k

    def ev(c, k=1, key=None):
        with c.lock:
            c.evals += k
            if key is not None:
                c.distinct.add(key)

    def distinct_add(c, keys):
        with c.lock:
            c.distinct.update(keys)

    def sample(c, s, cap=6):
        with c.lock:
            if len(c.samples) < cap:
                c.samples.append(s)

    def tmp(c, prefix="w"):
        with c.lock:
            c._n += 1
            n = c._n
        d = os.path.join(c.dir, "%s%d" % (prefix, n))
        os.makedirs(d)
        return d

    def violation(c, key, msg, files=None):
        """files: {name: text/bytes}. key identifies the failing input/call site (matched with known findings)."""
        with c.lock:
            if any(k == key for k, _, _ in c.violations):
                return
            c.violations.append((key, msg, dict(files or {})))
            if len(c.violations) >= 12:
                c.stop = True

    def pmap(c, f, items):
        """map over the pool; stops handing out work once many violations were seen."""
        def g(x):
            if c.stop:
                return None
            return f(x)
        return list(c.pool.map(g, items))

    # -------------------------------------------------- the code under test
    def sources(c):
        out = []
        for root, dirs, files in os.walk(os.path.join(REPO, "src")):
            dirs[:] = sorted(d for d in dirs if d not in ("tests", "test"))
            out += [os.path.join(root, f) for f in sorted(files) if f.endswith((".cpp", ".cc", ".cxx", ".c"))]
        return out

    def tree_hash(c):
        h = hashlib.sha256()
        for root, dirs, files in os.walk(os.path.join(REPO, "src")):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
        return h.hexdigest()[:24]

    def gen(c, kind="plain", extra_src=(), extra_flags=(), tag=""):
        """path of the generator binary built from the current tree."""
        k = kind + tag
        with c.lock:
            if k in c._gen:
                return c._gen[k]
        cxx, flags = GEN_KINDS[kind]
        flags = ["-std=c++17", "-w", "-I", os.path.join(REPO, "src")] + flags + list(extra_flags)
        cache = os.path.join(VERIF, "build")
        hk = hashlib.sha256((c.tree_hash() + cxx + " ".join(flags) +
                             "".join(open(x, "rb").read().hex() for x in extra_src)).encode()).hexdigest()[:24]
        exe = os.path.join(cache, "gen-%s-%s" % (k, hk))
        if not os.path.exists(exe):
            os.makedirs(cache, exist_ok=True)
            d = c.tmp("build")
            srcs = c.sources() + list(extra_src)
            objs = [os.path.join(d, "%d.o" % i) for i in range(len(srcs))]

            def one(i):
                x = srcs[i]
                r = sh([cxx] + flags + ["-c", x, "-o", objs[i]], timeout=400)
                if kind == "fuzz" and x not in extra_src and r[0] == 0:
                    # the program's main becomes callable in-process; renamed in the object file, so that it keeps main's implicit "return 0"
                    r = sh(["objcopy", "--redefine-sym", "main=gen_main", objs[i]])
                return r
            with ThreadPoolExecutor(NCPU) as ex:
                rs = list(ex.map(one, range(len(srcs))))
            for (rc, o, e), x in zip(rs, srcs):
                if rc:
                    raise HarnessError("cannot compile %s:\n%s" % (x, e[-3000:]))
            tmpexe = os.path.join(d, "exe")
            rc, o, e = sh([cxx] + flags + objs + ["-o", tmpexe, "-lstdc++fs"] if cxx == "g++" else [cxx] + flags + objs + ["-o", tmpexe],
                          timeout=400)
            if rc:
                raise HarnessError("cannot link generator:\n" + e[-3000:])
            copy_exe(tmpexe, exe + ".tmp%d" % os.getpid())
            os.replace(exe + ".tmp%d" % os.getpid(), exe)
            shutil.rmtree(d, ignore_errors=True)
            olds = sorted(glob.glob(os.path.join(cache, "gen-*")), key=os.path.getmtime)
            for o in olds[:-40]:
                try:
                    os.unlink(o)
                except OSError:
                    pass
        else:
            try:
                os.utime(exe)       # in use: not to be removed as an old one
            except OSError:
                pass
        with c.lock:
            c._gen[k] = exe
        return exe

    def run_gen(c, args, kind="plain", cwd=None, env=None, timeout=60):
        e = dict(os.environ)
        e.update(SAN_ENV)
        if env:
            e.update(env)
        return sh([c.gen(kind)] + list(args), timeout=timeout, cwd=cwd or c.dir, env=e)

    def generate(c, dbc, drv="drv", opts=("-rw",), outdir=None, kind="plain", dbcname="in.dbc", wd=None):
        """write dbc, run the generator. returns (outdir, rc, stdout, stderr)."""
        wd = wd or c.tmp("g")
        p = os.path.join(wd, dbcname)
        with open(p, "wb") as f:
            f.write(dbc if isinstance(dbc, bytes) else dbc.encode("utf-8"))
        out = outdir or os.path.join(wd, "out")
        if not os.path.isdir(out):
            os.makedirs(out)
        rc, o, e = c.run_gen(["-dbc", p, "-out", out, "-drvname", drv] + list(opts), kind=kind, cwd=wd)
        return out, rc, o, e

    def generate_ok(c, dbc, drv="drv", opts=("-rw",), label="", **kw):
        """generate from a valid DBC; a crash of the generator is a violation of the property under check."""
        out, rc, o, e = c.generate(dbc, drv, opts, **kw)
        lib = os.path.join(out, "lib", drv.lower() + ".c")
        if rc != 0 or ("-rw" in opts and "-driverdir" not in opts and not os.path.exists(lib)):
            c.violation("generator-fails:%s" % label, "generator exit %s on a valid DBC, core source %s\n%s\n%s" % (
                rc, "written" if os.path.exists(lib) else "missing", o[-500:], e[-1500:]), {"in.dbc": dbc})
            return None
        return out

    # -------------------------------------------------- verdict
    def known(c):
        out = {}
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for l in open(p, encoding="utf-8"):
                m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", l)
                if m and m.group(1) == c.pid:
                    out[m.group(2)] = m.group(3).strip()
        return out

    def finish(c, rule, level="exploration", assumptions=(), extra=None):
        known = c.known()
        new = []
        for key, msg, files in c.violations:
            if key in known:
                print("KNOWN-FINDING: property=%s %s" % (c.pid, known[key]))
            else:
                new.append((key, msg, files))
        cov = dict(evaluations=c.evals, distinct_nontrivial=len(c.distinct), rule=rule, samples=c.samples or ["(none)"])
        cov.update(c.cov)
        cov["known_findings_reproduced"] = len(c.violations) - len(new)
        if extra:
            cov.update(extra)
        evd = dict(property=c.pid, tier=c.tier, seed=c.seed, level=level, coverage=cov, assumptions=list(assumptions),
                   wall_s=round(time.time() - c.t0, 1), violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", c.pid + ".json"), "w") as f:
            json.dump(evd, f, indent=1, ensure_ascii=False)
            f.write("\n")
        for k, (key, msg, files) in enumerate(new[:5]):
            rd = os.path.join(VERIF, "replay", "%s-%s" % (c.pid, re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:60]))
            os.makedirs(rd, exist_ok=True)
            files = dict(files)
            files["report.txt"] = "property %s\nkey %s\nseed %d tier %s\n\n%s\n" % (c.pid, key, c.seed, c.tier, msg)
            for fn, data in files.items():
                with open(os.path.join(rd, fn), "wb") as f:
                    f.write(data if isinstance(data, bytes) else str(data).encode("utf-8", "replace"))
            print("VIOLATION property=%s replay=%s" % (c.pid, os.path.relpath(rd, VERIF)))
            print("  [%s] %s" % (key, msg.strip().replace("\n", "\n  ")[:1500]))
        ok = not new
        if ok and (c.evals == 0 or not c.distinct):
            raise HarnessError("nothing was observed")
        print("%s %s: %d evaluations, %d distinct, %.1f s: %s" % (
            c.pid, c.tier, c.evals, len(c.distinct), time.time() - c.t0, "held" if ok else "%d violation(s)" % len(new)))
        return 0 if ok else 1

    def close(c):
        c.pool.shutdown(wait=True, cancel_futures=True)
        shutil.rmtree(c.dir, ignore_errors=True)


def tree(d):
    """{relative path: bytes or None for a directory}"""
    out = {}
    for root, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d)] = None
        for x in files:
            p = os.path.join(root, x)
            if os.path.islink(p) and not os.path.exists(p):
                out[os.path.relpath(p, d)] = b"-> " + os.fsencode(os.readlink(p))
                continue
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out
