import itertools, os, re, shutil
from fw import dbc as D
from fw import cli as C
from fw.core import tree

TECHNIQUE = ("runtime monitoring: the real program runs under a file-system call monitor (LD_PRELOAD) in a scratch directory; the directory trees before and after "
             "are compared with the documented file set, and contents with a reference run")
NOTE = ("All 128 option subsets are run (several times with different DBCs, driver names and output path spellings: trailing slashes, relative, '.', '..', blanks, not yet existing, existing "
        "driver directory); every write, mkdir, rename and remove call of each run is recorded and checked against the output directory.")
REPORT = dict(
    rule="one evaluation = one file (expected, found or recorded as written) compared for one run; distinct_nontrivial counts distinct (option subset, path spelling, driver name class)",
    assumptions=["the output directory is writable"])

SPELL = ["abs", "abs/", "rel", "rel/", "./rel", "./rel/", "deep/new/rel", "deep/new/rel/", "sub/../rel", "abs//", ".", "./", "sp ace", "d.o.t", "existing", "existing/", "..", "long"]
DRVS = ["drv", "MyDrv", "D", "can_1", "CAN", "x", "L" * 80]


def check(ctx):
    ctx.gen()
    C.shim(ctx)
    subsets = [s for n in range(8) for s in itertools.combinations(C.FLAGS, n)]
    jobs = []
    for rep in range(ctx.n(4, 30)):
        for k, s in enumerate(subsets):
            jobs.append((rep, k, s))

    def one(j):
        rep, k, flags = j
        r = ctx.rng("run", rep, k)
        net = C.small_net(r, empty_p=0.3, multi_tx=0.5)
        drv = r.choice(DRVS)
        sp = SPELL[(k * 7 + rep * 5 + k // len(SPELL)) % len(SPELL)]
        label = "run%d-%d" % (rep, k)
        data = net.bytes()
        top = ctx.tmp("t")
        cwd = os.path.join(top, "a", "b")
        os.makedirs(cwd)
        arg = {"abs": cwd + "/outabs", "abs/": cwd + "/outabs/", "rel": "outrel", "rel/": "outrel/", "./rel": "./outrel", "./rel/": "./outrel/", "sub/../rel": "sub/../outrel",
               "abs//": cwd + "/outabs//", "sp ace": "my out dir", "d.o.t": "v1.2.out", "existing": "ex", "existing/": "ex/", "long": "x" * 120 + "/" + "y" * 120}.get(sp, sp)
        os.makedirs(os.path.join(cwd, "sub"))
        root = os.path.normpath(os.path.join(cwd, arg))
        pre = r.random() < 0.6 or sp in ("existing", "existing/")
        if pre and sp[:4] != "deep":
            os.makedirs(root, exist_ok=True)
            if r.random() < 0.4:
                os.makedirs(os.path.join(root, drv), exist_ok=True)
            if r.random() < 0.3:
                os.makedirs(os.path.join(root, "lib"), exist_ok=True)
            with open(os.path.join(root, "foreign.txt"), "w") as f:
                f.write("keep")
        name = r.choice(["in.dbc", "My File.dbc", "n.o.d.b.c"])
        ddir = r.choice([top, cwd, os.path.join(top, "a")])
        dbc = os.path.join(ddir, name)
        with open(dbc, "wb") as f:
            f.write(data)
        before = tree(top)
        args = [["-dbc", r.choice([dbc, os.path.relpath(dbc, cwd)])], ["-out", arg], ["-drvname", drv]] + [[x] for x in flags]
        r.shuffle(args)
        argv = [x for a in args for x in a]
        rc, o, e, ops = C.run(ctx, argv, cwd)
        after = tree(top)
        fin = root
        if "-driverdir" in flags:
            fin = os.path.join(fin, drv)
        if "-rw" not in flags:
            fin = os.path.join(fin, "000")
        rel = os.path.relpath(fin, top)
        want = {os.path.normpath(os.path.join(rel, x)) for x in C.expected(net, drv, flags)}
        got = {x for x, v in after.items() if v is not None and x not in before}
        bad = []
        if rc != 0:
            bad.append("exit %d %s" % (rc, e[-400:]))
        if want - got:
            bad.append("missing files %s" % sorted(want - got)[:6])
        if got - want:
            bad.append("unexpected files %s" % sorted(got - want)[:6])
        for x, v in before.items():
            if after.get(x, 0) != v:
                bad.append("%s changed or removed" % x)
        newdirs = [x for x, v in after.items() if v is None and x not in before]
        for x in newdirs:
            p = os.path.join(top, x)
            if not (p.startswith(fin + "/") or fin == p or fin.startswith(p + "/")):
                bad.append("directory %s created outside the output directory" % x)
        base = os.path.join(root, drv) if "-driverdir" in flags else root
        bad += ["outside the output directory: " + x for x in C.outside(ops, base)]
        ctx.ev(len(want | got) + len([1 for op, p in ops if op != "read"]))
        ctx.count("monitored_file_system_calls", len(ops))
        # contents: a reference run with the same binutil choice into an empty directory
        if not bad:
            ref = os.path.join(top, "ref")
            os.mkdir(ref)
            C.run(ctx, ["-dbc", dbc, "-out", ref, "-drvname", drv, "-rw"] + (["-nodeutils"] if "-nodeutils" in flags else []), top)
            rt = C.files(tree(ref))
            for x in C.expected(net, drv, flags):
                a, b = after[os.path.normpath(os.path.join(rel, x))], rt.get(x)
                ctx.ev()
                if b is None:
                    bad.append("reference run without %s" % x)
                elif "-gendate" in flags:
                    la, lb = a.split(b"\n"), b.split(b"\n")
                    extra = [i for i in range(len(la)) if la[:i] + la[i + 1:] == lb]
                    if not extra:
                        bad.append("%s differs by more than a date line from the run without -gendate" % x)
                    else:
                        ls = [la[i].strip() for i in extra]
                        if not any(re.search(rb"\d{4}.\d\d.\d\d", l) and (l.startswith(b"//") or l.startswith(b"/*")) for l in ls):
                            bad.append("%s: the line added by -gendate is no date comment: %r" % (x, ls[:2]))
                elif a != b:
                    bad.append("%s: the options %s change its content" % (x, " ".join(flags)))
        if bad:
            ctx.violation(label, "%s (path spelling %s, pre-existing %s)\n%s" % (argv, sp, pre, "\n".join(bad[:10])), {"in.dbc": data})
        ctx.ev(0, key=(flags, sp, drv))
        ctx.sample({"case": label, "options": " ".join(flags), "out": arg[:40], "files": len(want), "calls recorded": len(ops)})
        shutil.rmtree(top, ignore_errors=True)
    ctx.pmap(one, jobs)
