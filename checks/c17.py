import os, re, shutil
from fw import dbc as D
from fw import cli as C
from fw.core import sh, tree

TECHNIQUE = ("runtime monitoring: the same DBC is generated many times in different environments (locale, time zone, environment size, heap and stack fill patterns, cwd, paths, "
             "line endings, file name, load); an offline checker compares all generated bytes; valgrind memcheck watches for uninitialised data in the thorough tier")
NOTE = ("Per DBC one reference run is compared with varied runs: locales built here (comma decimal separators included), MALLOC_PERTURB_ fills, builds with two stack fill patterns (clang "
        "-ftrivial-auto-var-init), CRLF, other file names and directories, parallel processes; DBCs hold fractional scalings, comments, value tables and malformed lines too.")
REPORT = dict(
    rule="one evaluation = one generated file compared byte by byte with the reference run; distinct_nontrivial counts distinct (DBC, environment) pairs",
    assumptions=["locales come from the sandbox's glibc sources"])


def locales(ctx):
    d = os.path.join(ctx.dir, "loc")
    os.makedirs(d)
    ok = []
    for l in ("de_DE", "en_US", "tr_TR", "fr_FR"):
        rc, o, e = sh(["localedef", "-c", "-i", l, "-f", "UTF-8", os.path.join(d, l + ".UTF-8")])
        if os.path.isdir(os.path.join(d, l + ".UTF-8")):
            ok.append(l + ".UTF-8")
    return d, ok


def check(ctx):
    for kd in ("plain", "pat", "zero"):
        ctx.gen(kd)
    C.shim(ctx)
    loc, names = locales(ctx)
    ctx.cov["locales"] = names

    def one(k):
        r = ctx.rng("net", k)
        if k % 4 == 0:
            net = D.tagged_net(r, comments=True, vals=True)
        else:
            net = D.shape_net(r, k, comments=True, vals=True)
        text = net.text()
        if k % 5 == 0:
            # rejected and unsupported lines take part too
            ls = text.split("\n")
            for _ in range(r.randint(1, 8)):
                ls.insert(r.randint(0, len(ls)), r.choice(["BO_ 5 Bad: 0 N", " SG_ Broken : 1|2@1 (1,0)", "BO_ 99999999999 Big: 8 N", " SG_ Z : 3|99@1+ (1,0) [0|0] \"\" N", "VAL_ 1 x 0 ;", "BA_ \"x\" BO_ 1 2;",
                                                           "CM_ BU_ N \"text\";", "SIG_VALTYPE_ 1 x : 1;", " SG_ Zero : 0|0@1+ (1,0) [0|0] \"\" N", " SG_ Off : 63|64@1+ (0,0) [0|0] \"\" N", " SG_ Nf : 0|4@1+ (1e300,0) [0|0] \"\" N"]))
            text = "\n".join(ls)
        data = text.encode()
        drv = r.choice(["drv", "MyDrv", "Drv Name"])
        flags = [f for f in ("-nodeutils", "-noconfig", "-noinc", "-nofmon") if r.random() < 0.3]
        label = "net%d" % k
        top = ctx.tmp("t")

        def gen(env=None, kind="plain", crlf=False, name="in.dbc", cwd=None, bare=None, relout=False, wrap=()):
            d = ctx.tmp("v")
            w = os.path.join(d, "deep", "er") if cwd else d
            os.makedirs(w, exist_ok=True)
            with open(os.path.join(d, name), "wb") as f:
                f.write(data.replace(b"\n", b"\r\n") if crlf else data)
            out = os.path.join(d, "o ut" if relout else "out")
            a = ["-dbc", os.path.relpath(os.path.join(d, name), w) if relout else os.path.join(d, name), "-out", os.path.relpath(out, w) if relout else out, "-drvname", drv, "-rw"] + flags
            rc, o, e, _ = C.run(ctx, list(wrap[1:]) + ([ctx.gen(kind)] if wrap else []) + a, w, env=env, kind=kind, bare_env=bare, exe=wrap[0] if wrap else None)
            t = C.files(tree(out)) if os.path.isdir(out) else {}
            shutil.rmtree(d, ignore_errors=True)
            return rc, t

        rc0, ref = gen()
        if rc0 or not ref:
            ctx.violation(label + ":ref", "generator exit %s, %d files" % (rc0, len(ref)), {"in.dbc": data})
            return
        var = [("again", {}), ("crlf", dict(crlf=True)), ("name", dict(name=r.choice(["other name.dbc", "x", "ünï.dbc", "in.dbc.txt", "VERSION.dbc", "n" * 70 + ".dbc", "w w" * 50, "p%s%d%n.dbc", "a\\b.dbc", "x.dbc" * 40]))), ("cwd", dict(cwd=True, relout=True)),
               ("perturb165", dict(env={"MALLOC_PERTURB_": "165"})), ("perturb90", dict(env={"MALLOC_PERTURB_": str(r.randint(1, 255))})), ("stackpat", dict(kind="pat", env={"MALLOC_PERTURB_": "255"})),
               ("stackzero", dict(kind="zero")), ("empty-env", dict(bare={})), ("big-env", dict(env={"X%d" % q: "y" * r.randint(1, 3000) for q in range(30)})),
               ("tz", dict(env={"TZ": r.choice(["Asia/Tokyo", "UTC-14", "America/New_York", ":bad"])})),
               ("tcache", dict(env={"GLIBC_TUNABLES": "glibc.malloc.tcache_count=0", "MALLOC_ARENA_MAX": "1", "MALLOC_TOP_PAD_": "1000000"}))]
        for l in names:
            var.append(("loc-" + l, dict(env={"LOCPATH": loc, "LC_ALL": l, "LANG": l, "LC_NUMERIC": l})))
        var.append(("loc-C.UTF-8", dict(env={"LC_ALL": "C.UTF-8"})))
        if not ctx.thorough:
            keep = {"crlf", "stackpat", "loc-de_DE.UTF-8", "name", "perturb165"}
            var = [v for i, v in enumerate(var) if v[0] in keep or (i + k) % 3 == 0]
        for name, kw in var:
            rc, t = gen(**kw)
            bad = []
            if name == "name":
                # the same name in another directory
                rc2, t2 = gen(**kw)
                ctx.ev(len(t2))
                if t2 != t or rc2 != rc:
                    bad.append("file name %r: different files from two directories: %s" % (kw["name"], [p for p in t if t2.get(p) != t[p]][:3]))
            if rc != rc0:
                bad.append("exit %s" % rc)
            for p in sorted(set(ref) | set(t)):
                ctx.ev()
                a, b = ref.get(p), t.get(p)
                if a is not None and b is not None and name == "name":
                    # the file name may appear in header comments
                    a, b = [re.sub(rb"\A(?:[ \t]*//[^\n]*\n|[ \t]*\n)*", b"", x) for x in (a, b)]
                if a != b:
                    i = next((i for i, (x, y) in enumerate(zip(a or b"", b or b"")) if x != y), min(len(a or b""), len(b or b"")))
                    bad.append("%s: %s differs at byte %d: %r versus %r" % (p, "content" if a and b else "existence", i, (a or b"")[max(0, i - 40):i + 40], (b or b"")[max(0, i - 40):i + 40]))
            ctx.ev(0, key=(k, name))
            if bad:
                ctx.violation("%s:%s" % (label, name), "environment %s: %s" % (name, "\n".join(bad[:6])), {"in.dbc": data})
        if k < ctx.n(2, 40):
            d = ctx.tmp("vg")
            with open(os.path.join(d, "in.dbc"), "wb") as f:
                f.write(data)
            rc, o, e = sh(["valgrind", "-q", "--error-exitcode=9", "--track-origins=no", ctx.gen("vg"), "-dbc", os.path.join(d, "in.dbc"), "-out", os.path.join(d, "o"), "-drvname", drv, "-rw"] + flags, timeout=600)
            ctx.count("valgrind_runs")
            ctx.ev()
            if rc == 9:
                ctx.violation(label + ":valgrind", "valgrind memcheck: " + e[:2500], {"in.dbc": data})
            shutil.rmtree(d, ignore_errors=True)
        ctx.sample({"case": label, "files": len(ref), "environments": [v[0] for v in var]})
        shutil.rmtree(top, ignore_errors=True)
    ctx.pmap(one, range(ctx.n(40, 300)))
