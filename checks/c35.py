import os, re, shutil, subprocess
from fw import dbc as D
from fw.core import HARNESS, NCPU, REPO, copy_exe, sh, tree
from checks import c21

TECHNIQUE = ("runtime monitoring by differential execution: the generator is built as different hosts would build it (compilers, optimisation, signedness of char, x87 or fused floating point, C++20, release and "
             "debug libraries, a library with another order of equal keys, hash tables and heap) and every build runs on the same DBC; an offline checker compares exit status, file set and bytes with the reference build")
NOTE = ("Random networks (tagged, crowded, CAN FD, multiplexed signals with equal start bits, equal ids with and without the extended flag, signed signals of every length, tables, comments, non-ASCII texts) "
        "and hostile DBCs (the mutations of C21), the sample DBC, random option sets.")
REPORT = dict(
    rule="one evaluation = one generated file (or exit status) of one build compared with the reference build; distinct_nontrivial counts distinct (DBC, build) pairs",
    assumptions=["hosts have int of 32, long of 64 bits and IEEE-754 double (other ones cannot be built in the sandbox)"])

ALT = ["-include", os.path.join(HARNESS, "althost.h")]
BUILDS = [
    # name, kind of fw.core, more flags, more sources
    ("release", "plain", ["-O2", "-DNDEBUG"], ()),
    ("gcc-O0-debuglib", "plain", ["-O0", "-D_GLIBCXX_DEBUG", "-D_DEBUG", "-DDEBUG"], ()),
    ("unsigned-char", "plain", ["-O1", "-funsigned-char"], ()),
    ("althost", "plain", ["-O1"] + ALT, (os.path.join(HARNESS, "althost.cpp"),)),
    ("clang-O2", "zero", ["-O2", "-std=c++20"], ()),
    ("clang-O0-pattern", "pat", [], ()),
    ("x87", "plain", ["-O1", "-mfpmath=387"], ()),
    ("gcc-O3-elsewhere", "plain", ["-O3", "-std=gnu++20", "-fmacro-prefix-map=%s=/elsewhere" % REPO, "-Wno-builtin-macro-redefined", "-D__DATE__=\"Feb 29 2000\"", "-D__TIME__=\"23:59:59\"", "-D__VERSION__=\"x\""], ()),
]


def special(r, k):
    """networks whose order is not settled by a single key, and signals at the limits of the C types."""
    n = k % 5
    if n == 0:
        # multiplexed signals: equal start bits, many of them
        msgs = []
        for i in range(r.randint(1, 4)):
            dlc = r.choice([8, 8, 16, 64])
            sg = [D.Sig("Mux%d" % i, 0, 8, "I", recs=["N"])]
            sg[0].mux = "M"
            for j in range(r.choice([2, 5, 17, 40, 70])):
                st = r.choice([8, 8, 8, 16, 24])
                s = D.Sig("P%d_%d" % (i, j), st, r.choice([1, 4, 8, 9, 16, 17, 32, 40]), r.choice("IIM"), r.random() < 0.5, recs=["N"])
                if not s.fits(dlc):
                    s.order = "I"
                    s.length = 8
                s.mux = "m%d" % r.choice([j, j, r.randint(0, 9)])
                if r.random() < 0.4:
                    s.ftxt, s.otxt = r.choice([("0.5", "-40"), ("2", "1"), ("0.1", "0"), ("1", "-1")])
                if r.random() < 0.3:
                    s.vals = D.rand_vals(r, s)
                if r.random() < 0.3:
                    s.comment = D.rand_comment(r)
                sg.append(s)
            if r.random() < 0.5:
                r.shuffle(sg)
            msgs.append(D.Msg(r.randint(0, 0x7FF), "Mx%d" % i, dlc, sg, tx="N"))
            for q in msgs[:-1]:
                if q.id == msgs[-1].id:
                    msgs.pop()
                    break
        return D.Net(msgs, nodes=["N"]).text()
    if n == 1:
        # every signed and unsigned length
        msgs = []
        for i in range(1, 65):
            st = r.randint(0, 64 - i)
            msgs.append(D.Msg(0x100 + i, "L%d" % i, 8, [D.Sig("Sv%d" % i, st, i, "I", bool((i + k // 5) & 1), *r.choice([("1", "0"), ("1", "0"), ("2", "-1"), ("0.5", "0")]), recs=["N", "K"])], tx=r.choice("NK")))
        r.shuffle(msgs)
        return D.Net(msgs, nodes=["N", "K"]).text()
    if n == 2:
        # equal numbers with and without the extended flag, more than a handful
        msgs = []
        for i in r.sample(range(0x7FF), r.choice([3, 12, 30])):
            for ext in (False, True):
                msgs.append(D.Msg(i, "%s%x" % ("X" if ext else "S", i), r.randint(1, 8), [D.Sig("V%d" % q, q, 1, "I", recs=["N", "K"]) for q in range(r.randint(0, 5))], ext=ext, tx=r.choice("NK")))
        r.shuffle(msgs)
        return D.Net(msgs, nodes=["N", "K"]).text()
    if n == 3:
        # arithmetic on scalings and ranges
        msgs = []
        for i in range(r.randint(3, 20)):
            ln = r.randint(1, 64)
            f = r.choice(["0.1", "0.3", "0.7", "1e-9", "0.015625", "3.3333333", "1.1", "0.000030517578125", "%.*f" % (r.randint(1, 12), r.uniform(0.00001, 2000)), "%g" % (10 ** r.uniform(-9, 12)), str(r.randint(1, 10 ** r.randint(1, 18)))])
            o = r.choice(["0", "-40.05", "0.1", "1e15", "-1e18", "%.*f" % (r.randint(1, 12), r.uniform(-1e6, 1e6)), str(r.randint(-10 ** 18, 10 ** 18)), "1e-7"])
            msgs.append(D.Msg(0x200 + i, "A%d" % i, 8, [D.Sig("F%d" % i, 0, ln, "I", r.random() < 0.5, f, o, recs=["N"])], tx="N"))
        return D.Net(msgs, nodes=["N"]).text()
    # bytes above 127 everywhere
    t = D.gen_net(r, nmsg=4, maxsig=4, comments=True, vals=True).text()
    t = re.sub(r'"[^"\n]{2,}"', lambda m: m.group(0)[:-1] + r.choice(["", "\u00e9\u00df\u00dc", "\u00ff\u00fe", "\u0410\u042f", "\u2260\u221e"]) + '"' if not m.group(0)[1:].startswith("Gen") and r.random() < 0.6 and "VERSION" not in t[max(0, m.start() - 9):m.start()] else m.group(0), t)
    return t


def make(r, k):
    """(bytes, well-formed)."""
    x = k % 8
    if x < 3:
        return special(r, k // 8 * 3 + x).encode(), True
    if x == 3:
        return D.tagged_net(r, comments=True, vals=True).bytes(), True
    if x == 4:
        return D.shape_net(r, k // 8, comments=True, vals=True).bytes(), True
    if x == 5 and k % 16 == 5:
        return open(os.path.join(REPO, "test", "testdb.dbc"), "rb").read(), True
    return c21.make(r, r.randrange(10 ** 6)), False


def check(ctx):
    from concurrent.futures import ThreadPoolExecutor
    os.chmod(ctx.dir, 0o755)
    who = c21.unprivileged(ctx)
    exes = {}

    def build(b):
        name, kind, flags, src = b
        p = os.path.join(ctx.dir, "gen-" + name)
        copy_exe(ctx.gen(kind, extra_src=src, extra_flags=flags, tag="-h-" + name), p)
        os.chmod(p, 0o755)
        exes[name] = p
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(build, BUILDS))
    ctx.cov["builds"] = [b[0] for b in BUILDS]
    ctx.cov["unprivileged_runs"] = bool(who)

    def one(k):
        r = ctx.rng("in", k)
        data, good = make(r, k)
        data = b"\n".join(l[:65536] for l in data.split(b"\n"))
        top = ctx.tmp("h")
        flags = [f for f in ("-nodeutils", "-noconfig", "-noinc", "-nofmon", "-nocanmon", "-driverdir") if r.random() < 0.2] + (["-rw"] if r.random() < 0.9 else [])
        args = ["-dbc", "in.dbc", "-out", "out", "-drvname", r.choice(["drv", "MyDrv", "a b"])] + flags
        ref = None
        label = "in%d" % k
        for name, _, _, _ in BUILDS:
            d = os.path.join(top, name)
            w = os.path.join(d, "a", "b", "c")
            os.makedirs(os.path.join(w, "out"))
            with open(os.path.join(w, "in.dbc"), "wb") as f:
                f.write(data)
            if who:
                for q in (os.path.join(w, "out"), w, d):
                    os.chown(q, 65534, 65534)
            try:
                p = subprocess.run([exes[name]] + args, cwd=w, env=dict(os.environ, HOME=d), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120, **who)
                rc, err = p.returncode, p.stderr.decode("utf-8", "replace")
            except subprocess.TimeoutExpired:
                rc, err = "hang", ""
            t = tree(d)
            if ref is None:
                ref = (rc, t)
                if good and rc != 0:
                    ctx.violation(label + ":ref", "generator exit %s on a well-formed DBC\n%s" % (rc, err[-1500:]), {"in.dbc": data})
                if len(t) > 1:
                    ctx.count("inputs_with_output")
                continue
            ctx.ev(1, key=(k, name))
            bad = []
            if rc != ref[0]:
                bad.append("exit %s instead of %s %s" % (rc, ref[0], err[-600:]))
            for q in sorted(set(t) | set(ref[1])):
                ctx.ev()
                a, b = ref[1].get(q), t.get(q)
                if a != b:
                    if not isinstance(a, bytes) or not isinstance(b, bytes):
                        bad.append("%s: only one of the builds writes it" % q)
                        continue
                    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    bad.append("%s differs at byte %d: %r versus %r" % (q, i, a[max(0, i - 60):i + 60], b[max(0, i - 60):i + 60]))
            if bad:
                ctx.violation("%s:%s" % (label, name), "build '%s' gives another result than build '%s': %s" % (name, BUILDS[0][0], "\n".join(bad[:5])), {"in.dbc": data, "args.txt": " ".join(args)})
        ctx.sample({"case": label, "bytes": len(data), "files": len(ref[1]), "well-formed": good})
        shutil.rmtree(top, ignore_errors=True)
    ctx.pmap(one, range(ctx.n(640, 8000)))
