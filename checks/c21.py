import os, re, shutil, subprocess
from fw import dbc as D
from fw import cli as C
from fw.core import HARNESS, SAN_ENV, Timeout, copy_exe, sh, tree

TECHNIQUE = ("compiler sanitizers and fuzzing: the generator built with AddressSanitizer, UndefinedBehaviorSanitizer and libstdc++ assertions runs on hostile files (process level, as an unprivileged user "
             "under a file-tree monitor) and on coverage-guided mutations (libFuzzer, in-process); two builds with different stack fill patterns and valgrind watch for uninitialised data")
NOTE = ("Structured mutations of valid DBCs (bytes, tokens, lines, truncations), grammar-based garbage lines, extreme numbers, every field stretched to 64 KiB, binary files, random option sets; "
        "thousands of process runs and tens of thousands of in-process runs in the quick tier.")
REPORT = dict(
    rule="one evaluation = one input run to its end under the sanitizers (or compared between fill patterns / under valgrind); distinct_nontrivial counts distinct input texts (process level) "
         "and coverage features reached by libFuzzer",
    assumptions=["lines are at most 64 KiB", "the output directory is writable"])

DICT = ["BO_ ", " SG_ ", "SG_ ", "CM_ ", "CM_ BO_ ", "CM_ SG_ ", "VAL_ ", "BA_ ", "BA_ \"GenMsgCycleTime\" BO_ ", "BO_TX_BU_ ", "VERSION \"", "\"", "\"\"", ";", " : ", ":", "|", "@1+", "@0-", "@", "(1,0)", "(0,0)", "(1e308,-1e308)", "(nan,inf)",
        "(0.1,1e-9)", "[0|0]", ",", " ", "\t", "\n", "\r\n", "\r", "\x00", "\xff", "\\", "??/", "<RollingCounter>", "<Checksum:XOR8:3>", "<Checksum:", "<Checksum:A:99999999999999999999>", "Vector__XXX", "0", "-1", "1", "8", "63", "64", "65", "255", "256", "2147483647",
        "2147483648", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "-2147483649", "1e999", "-1e999", "1e-400", "nan", "-nan", "inf", "-inf", "0x10", "1.5.2", ".", "-", "+", "--", "1e", "M", "m0", "m1M", "%s%n%x",
        "../../x", "/", "..", "éß", "_ro", "BU_:", "NS_ :"]
NUMS = ["0", "1", "-1", "7", "8", "63", "64", "65", "255", "256", "65536", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "1e18", "9.3e18",
        "1e19", "1.9e19", "-9.3e18", "1e308", "1e309", "-1e309", "nan", "inf", "-inf", "1e-308", "4.9e-324", "1e-9", "0.000000001", "0.0000000009", "0.1", "-0", "-0.0", "+5", "00012", "1" * 40, "9" * 400, "0." + "0" * 300 + "1", "0x1F", "1e", "e1", "1,5", "5.", ".5"]


def valid(r, k):
    x = k % 4
    if x == 0:
        return D.tagged_net(r, comments=True, vals=True).text()
    if x == 1:
        return D.gen_net(r, nmsg=r.choice([1, 2]), maxsig=3, comments=True, vals=True).text()
    return D.shape_net(r, k, comments=True, vals=True, nmsg=r.choice([1, 3, 6])).text()


def numbers(r):
    """valid-looking definitions with extreme numbers."""
    L = ['VERSION "%s.%s"' % (r.choice(NUMS), r.choice(NUMS))]
    for i in range(r.randint(1, 5)):
        id_ = r.choice(["5", "2147483653", r.choice(NUMS), str(r.randint(0, 2 ** 32))])
        L.append("BO_ %s M%d: %s N" % (id_, i, r.choice(["8", "8", "64", r.choice(NUMS)])))
        for j in range(r.randint(1, 6)):
            L.append(' SG_ S%d%s : %s|%s@%s%s (%s,%s) [%s|%s] "u" N' % (j, r.choice(["", "", " M", " m1", " m" + r.choice(NUMS)]), r.choice([str(r.randint(0, 63)), r.choice(NUMS)]),
                     r.choice([str(r.randint(1, 64)), r.choice(NUMS)]), r.choice("0101" + "29"), r.choice("+-+-*"), r.choice(NUMS), r.choice(NUMS), r.choice(NUMS), r.choice(NUMS)))
            if r.random() < 0.3:
                L.append('VAL_ %s S%d %s "a" %s "b" ;' % (id_, j, r.choice(NUMS), r.choice(NUMS)))
            if r.random() < 0.3:
                L.append('CM_ SG_ %s S%d "<Checksum:X:%s> <RollingCounter>";' % (id_, j, r.choice(NUMS)))
        L.append('BA_ "GenMsgCycleTime" BO_ %s %s;' % (id_, r.choice(NUMS)))
    return "\n".join(L) + "\n"


def garbage(r):
    return "".join("".join(r.choice(DICT) for _ in range(r.randint(1, 12))) + r.choice(["\n", "\n", "\r\n", ""]) for _ in range(r.randint(1, 60)))


def stretch(r, k):
    """one field of one definition becomes very long."""
    n = r.choice([100, 255, 256, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 9990, 10000, 10001, 32000, 65000])
    big = r.choice(["x" * n, "9" * n, "ab " * (n // 3), "é" * (n // 2), "\\" * n, "%s" * (n // 2), "_" * n, "\xff" * (n // 2), "- " * (n // 2), ":" * n, '""' * (n // 2), "a:b " * (n // 4), "<" * n, "1 " * (n // 2), ";" * n, "," * n])
    f = dict(v="1.0", id="100", mn="Msg", dlc="8", tx="N", sn="Sig", mux="", st="0", ln="8", fac="1", off="0", lo="0", hi="1", unit="u", rec="N", cm="text", sv="1", st_="On", cyc="100", btx="N,K", att="x", csm="X")
    key = sorted(f)[k % len(f)]
    f[key] = big
    if key == "mux":
        f["mux"] = " " + big
    t = """VERSION "%(v)s"
BU_: N
BO_ %(id)s %(mn)s: %(dlc)s %(tx)s
 SG_ %(sn)s%(mux)s : %(st)s|%(ln)s@1+ (%(fac)s,%(off)s) [%(lo)s|%(hi)s] "%(unit)s" %(rec)s
 SG_ Q : 8|8@1+ (2,0) [0|0] "" N
BO_TX_BU_ %(id)s : %(btx)s;
CM_ BO_ %(id)s "%(cm)s";
CM_ SG_ %(id)s %(sn)s "%(cm)s <RollingCounter>";
CM_ SG_ %(id)s Q "<Checksum:%(csm)s:3>";
BA_ "GenMsgCycleTime" BO_ %(id)s %(cyc)s;
BA_ "Other" BO_ %(id)s %(att)s;
VAL_ %(id)s %(sn)s %(sv)s "%(st_)s" 2 "Off" ;
""" % f
    x = r.random()
    if x < 0.2:
        t = t.replace('"', "")
    elif x < 0.3:
        t = t.replace("\n", " ")[:65000]
    return t


def many(r):
    n = r.choice([300, 1500, 4000])
    x = r.randrange(5)
    if x == 0:
        return "BO_ 1 M: 8 N\n" + "".join(' SG_ S%d : %d|%d@1+ (%s,0) [0|0] "" N\n' % (i, r.randint(0, 63), r.randint(1, 8), r.choice(["1", "0.5"])) for i in range(n))
    if x == 1:
        return "".join("BO_ %d M%d: 8 N\n" % (i, i) + ' SG_ S : 0|8@1+ (1,0) [0|0] "" N\n' * (i % 2) for i in range(min(n, 1500)))
    if x == 2:
        return 'BO_ 1 M: 8 N\n SG_ S : 0|8@1+ (1,0) [0|0] "" N\nVAL_ 1 S ' + "".join('%d "v%d" ' % (i, i) for i in range(n)) + ";\n"
    if x == 3:
        return 'BO_ 1 M: 8 N\n SG_ S : 0|8@1+ (1,0) [0|0] "" N\nCM_ SG_ 1 S "' + "\n".join("line %d" % i for i in range(n)) + '";\n'
    return 'BO_ 1 M: 8 N\n SG_ S : 0|8@1+ (1,0) [0|0] "" ' + ",".join("N%d" % i for i in range(min(n, 400))) + "\n"


def mutate(r, t):
    b = bytearray(t.encode("utf-8", "surrogateescape"))
    for _ in range(r.choice([1, 1, 2, 4, 10, 40])):
        x = r.random()
        p = r.randint(0, len(b))
        if x < 0.3:
            b[p:p] = r.choice(DICT).encode("latin-1")
        elif x < 0.45 and b:
            del b[p:p + r.choice([1, 1, 2, 5, 30])]
        elif x < 0.6 and b:
            b[min(p, len(b) - 1)] = r.randrange(256)
        elif x < 0.75:
            ls = bytes(b).split(b"\n")
            i, j = r.randrange(len(ls)), r.randrange(len(ls))
            y = r.random()
            if y < 0.3:
                ls[i], ls[j] = ls[j], ls[i]
            elif y < 0.6:
                ls.insert(i, ls[j])
            elif y < 0.8:
                del ls[i]
            else:
                ls[i] = ls[i][: r.randint(0, len(ls[i]))]
            b = bytearray(b"\n".join(ls))
        elif x < 0.85:
            m = [q for q in re.finditer(rb"\d+", bytes(b))]
            if m:
                q = r.choice(m)
                b[q.start():q.end()] = r.choice(NUMS).encode()
        else:
            q = r.randint(0, len(b))
            b[p:p] = b[q:q + r.randint(1, 200)]
    return bytes(b)


def make(r, k):
    x = k % 10
    if x == 0:
        return numbers(r).encode("latin-1", "replace")
    if x == 1:
        return stretch(r, k // 10).encode("latin-1", "replace")
    if x == 2:
        return garbage(r).encode("latin-1", "replace")
    if x == 3:
        t = valid(r, k).encode()
        return t[: r.randint(0, len(t))]
    if x == 4:
        y = r.randrange(8)
        return [b"", b"\n", b"\x00" * 1000, bytes(r.randrange(256) for _ in range(r.randint(1, 3000))), b"\xef\xbb\xbf" + valid(r, k).encode(), valid(r, k).replace("\n", "\r").encode(), b"BO_ " * 15000, valid(r, k).encode("utf-16")][y]
    if x == 5:
        return mutate(r, numbers(r))
    if x == 6 and k % 40 == 6:
        return many(r).encode()
    if x == 7:
        return mutate(r, stretch(r, k // 10).encode("latin-1", "replace").decode("latin-1"))
    return mutate(r, valid(r, k))


def unprivileged(ctx):
    """user id to run as, or None when the sandbox does not allow it."""
    try:
        subprocess.run(["true"], user=65534, group=65534, extra_groups=[], check=True)
        return dict(user=65534, group=65534, extra_groups=[])
    except Exception:
        return {}


def check(ctx):
    for kd in ("plain", "asan", "pat", "zero"):
        ctx.gen(kd)
    so = C.shim(ctx)
    who = unprivileged(ctx)
    ctx.cov["unprivileged_runs"] = bool(who)
    os.chmod(ctx.dir, 0o755)
    exes = {}
    for kd in ("plain", "asan", "pat", "zero"):
        p = os.path.join(ctx.dir, "gen-" + kd)
        copy_exe(ctx.gen(kd), p)
        os.chmod(p, 0o755)
        exes[kd] = p

    def go(kd, d, args, limit):
        env = dict(os.environ)
        env.update(SAN_ENV)
        env["HOME"] = d
        t = limit
        for att in (0, 1):
            try:
                p = subprocess.run([exes[kd]] + args, cwd=os.path.join(d, "a", "b", "c"), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=t, **who)
                return p.returncode, p.stderr.decode("utf-8", "replace")
            except subprocess.TimeoutExpired:
                t *= 3
        return "hang", "no end within %d s" % (t // 3)

    def one(k):
        r = ctx.rng("in", k)
        data = make(r, k)
        # lines up to 64 KiB
        data = b"\n".join(l[:65536] for l in data.split(b"\n"))
        d = ctx.tmp("f")
        w = os.path.join(d, "a", "b", "c")
        os.makedirs(w)
        src = os.path.join(w, "in.dbc")
        with open(src, "wb") as f:
            f.write(data)
        out = os.path.join(w, "out")
        os.mkdir(out)
        if who:
            for q in (w, out):
                os.chown(q, 65534, 65534)
            os.chown(d, 65534, 65534)
        flags = [f for f in C.FLAGS[:6] if r.random() < 0.3] + (["-rw"] if r.random() < 0.8 else [])
        args = ["-dbc", "in.dbc", "-out", "out", "-drvname", r.choice(["drv", "MyDrv", "a b"])] + flags
        before = {p for p in tree(d) if not p.startswith("a/b/c/out/")}
        label = "in%d" % k
        rc, e = go("asan", d, args, 30)
        ctx.ev(1, key=hash(data))
        if rc not in (0, 1, 2):
            kind = re.search(r"(AddressSanitizer: \S+|runtime error: .*|terminate called.*|Assertion.*|hang)", e)
            ctx.violation("%s" % label, "generator ended with %s\n%s" % (rc, (kind.group(0) if kind else "") + "\n" + e[-3000:]), {"in.dbc": data, "args.txt": " ".join(args)})
        left = {p for p in tree(d) if not p.startswith("a/b/c/out/")}
        if left != before or open(src, "rb").read() != data:
            ctx.violation("%s-outside" % label, "files outside the output directory changed: %s" % sorted(left ^ before), {"in.dbc": data, "args.txt": " ".join(args)})
        if k % 3 == 0:
            ts = []
            for kd in ("pat", "zero"):
                shutil.rmtree(out, ignore_errors=True)
                os.mkdir(out)
                if who:
                    os.chown(out, 65534, 65534)
                rc, e = go(kd, d, [a for a in args if a != "-gendate"], 30)
                ts.append((rc, tree(out)))
            ctx.ev()
            ctx.count("fill_pattern_comparisons")
            if ts[0] != ts[1]:
                ds = [p for p in set(ts[0][1]) | set(ts[1][1]) if ts[0][1].get(p) != ts[1][1].get(p)]
                ctx.violation("%s-uninit" % label, "result depends on uninitialised memory: exit %s / %s, files %s" % (ts[0][0], ts[1][0], ds[:5]), {"in.dbc": data, "args.txt": " ".join(args)})
        shutil.rmtree(d, ignore_errors=True)
    n = ctx.n(2200, 30000)
    ctx.pmap(one, range(n))

    # file-system calls of hostile names, recorded
    def paths(k):
        r = ctx.rng("path", k)
        evil = ["../../../../x", "..", "../", "/tmp/x", "a/b", ".", "~", "a..b", "-", "+.-", "..-..", "x/../../y", "CON", "a\x00b", "|id", "$(id)", "`id`", "a;b", "*"]
        t = 'BO_ 1 %s: 8 %s\n SG_ %s : 0|8@1+ (1,0) [0|0] "%s" %s,%s\nBO_TX_BU_ 1 : %s,%s;\n' % tuple(r.choice(evil + ["M"]) for _ in range(8))
        top = ctx.tmp("p")
        w = os.path.join(top, "a", "b", "c")
        os.makedirs(w)
        with open(os.path.join(w, "in.dbc"), "wb") as f:
            f.write(t.encode())
        os.mkdir(os.path.join(w, "out"))
        if who:
            for q in (w, os.path.join(w, "out"), top):
                os.chown(q, 65534, 65534)
        log = os.path.join(top, "log")
        env = dict(os.environ, WLOG=log, LD_PRELOAD=so_copy)
        p = subprocess.run([exes["plain"], "-dbc", "in.dbc", "-out", "out", "-drvname", "drv", "-rw", "-nodeutils"], cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, **who)
        ops = []
        if os.path.exists(log):
            for l in open(log, encoding="utf-8", errors="surrogateescape"):
                op, _, q = l.rstrip("\n").partition(" ")
                ops.append((op, os.path.normpath(q)))
        bad = C.outside(ops, os.path.join(w, "out"))
        ctx.ev(1, key=t)
        ctx.count("monitored_file_system_calls", len(ops))
        if bad or p.returncode not in (0, 1, 2):
            ctx.violation("path%d" % k, "exit %s, calls outside the output directory: %s" % (p.returncode, bad[:5]), {"in.dbc": t.encode()})
        shutil.rmtree(top, ignore_errors=True)
    so_copy = os.path.join(ctx.dir, "wlog.so")
    shutil.copy(so, so_copy)
    os.chmod(so_copy, 0o755)
    ctx.pmap(paths, range(ctx.n(60, 400)))

    # valgrind: use of uninitialised data
    def vg(k):
        r = ctx.rng("vg", k)
        data = b"\n".join(l[:65536] for l in make(r, k * 7 + 3).split(b"\n"))[:20000]
        d = ctx.tmp("g")
        with open(os.path.join(d, "in.dbc"), "wb") as f:
            f.write(data)
        rc, o, e = sh(["valgrind", "-q", "--error-exitcode=9", ctx.gen("vg"), "-dbc", "in.dbc", "-out", "out", "-drvname", "drv", "-rw"], cwd=d, timeout=300)
        ctx.ev()
        ctx.count("valgrind_runs")
        if rc == 9:
            ctx.violation("vg%d" % k, "valgrind memcheck: " + e[:2500], {"in.dbc": data})
        shutil.rmtree(d, ignore_errors=True)
    ctx.gen("vg")
    ctx.pmap(vg, range(ctx.n(16, 200)))

    # in-process, coverage-guided
    exe = ctx.gen("fuzz", extra_src=[os.path.join(HARNESS, "fuzz_gen.cpp")])
    fexe = os.path.join(ctx.dir, "fuzz")
    copy_exe(exe, fexe)
    os.chmod(fexe, 0o755)
    seeds = ctx.tmp("seeds")
    for k in range(150):
        r = ctx.rng("seed", k)
        t = D.gen_net(r, nmsg=2, maxsig=3, comments=True, vals=True).text() if k % 3 else (numbers(r) if k % 2 else garbage(r))
        t = t.encode("utf-8", "replace")
        i = t.find(b"BU_:")
        if k % 3 and i > 0:
            t = t[:t.find(b"\n") + 1] + t[i:]
        with open(os.path.join(seeds, "s%d" % k), "wb") as f:
            f.write(t[:4000] + bytes([r.randrange(8)]))
    dic = os.path.join(ctx.dir, "dict")
    with open(dic, "w") as f:
        for w in DICT + NUMS:
            b = w.encode("latin-1", "replace")
            if b and len(b) < 60:
                f.write('"%s"\n' % "".join("\\x%02x" % c for c in b))
    runs = ctx.n(5000, 400000)

    def fz(k):
        d = ctx.tmp("z")
        cor, out = os.path.join(d, "corpus"), os.path.join(d, "out")
        os.makedirs(cor)
        os.makedirs(out)
        if who:
            for q in (d, cor, out):
                os.chown(q, 65534, 65534)
        env = dict(os.environ, FUZZ_OUT=out, HOME=d)
        env.update(SAN_ENV)
        env["ASAN_OPTIONS"] += ":quarantine_size_mb=16"
        # asan_options: exit code of reports is 97; libFuzzer writes the input as crash-*
        cmd = [fexe, cor, seeds, "-runs=%d" % runs, "-seed=%d" % (ctx.seed * 100 + k + 1), "-max_len=%d" % [6000, 70000][k % 4 == 3], "-timeout=60", "-rss_limit_mb=3500", "-dict=" + dic, "-artifact_prefix=" + d + "/",
               "-print_final_stats=1", "-reload=0", "-max_total_time=%d" % ctx.n(120, 3000)]
        p = subprocess.run(cmd, cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=ctx.n(400, 5000), **who)
        e = p.stderr.decode("utf-8", "replace")
        m = re.search(r"number_of_executed_units: (\d+)", e)
        ft = re.findall(r"cov: (\d+) ft: (\d+)", e)
        if m:
            ctx.ev(int(m.group(1)))
            ctx.count("fuzz_runs", int(m.group(1)))
        if ft:
            with ctx.lock:
                ctx.cov["fuzz_edges_covered"] = max(ctx.cov.get("fuzz_edges_covered", 0), int(ft[-1][0]))
            ctx.distinct_add({("ft", k, i) for i in range(int(ft[-1][1]))})
        if p.returncode != 0:
            art = [q for q in os.listdir(d) if q.startswith(("crash-", "timeout-", "oom-", "leak-"))]
            if not art and "out-of-memory" not in e and not m:
                raise RuntimeError("fuzzer failed to run: %s %s" % (p.returncode, e[-800:]))
            if art and art[0].startswith("oom-"):
                return
            data = open(os.path.join(d, art[0]), "rb").read() if art else b""
            kind = re.search(r"(AddressSanitizer: [^\n]*|runtime error: [^\n]*|terminate called[^\n]*|libFuzzer: [^\n]*)", e)
            ctx.violation("fuzz%d" % k, "%s\n%s" % (kind.group(0) if kind else p.returncode, e[-3000:]), {"in.dbc": data[:-1], "fuzz-input": data})
        ctx.sample({"case": "fuzz%d" % k, "runs": m.group(1) if m else None, "edges, features": ft[-1] if ft else None}, cap=10)
    ctx.pmap(fz, range(8))
