import hashlib, itertools, os, re, shutil
from fw import dbc as D
from fw import cli as C
from fw.core import sh, tree, HarnessError

TECHNIQUE = ("runtime monitoring under a controlled scheduler: two or three real generator runs are held with ptrace in front of every file system call on the output directory and let through one at a time, in every order with "
             "one change of run and many orders with several; a monitor compares the exit status and every file with what each run produces alone")
NOTE = ("New and used output directories, several levels of missing directories, numbered and -rw runs, -driverdir, -nodeutils, two and three runs; all places of a single change of the running program (both orders), two changes sampled "
        "(enumerated in the thorough tier) and random schedules.")
REPORT = dict(
    rule="one evaluation = one file or one exit status after an interleaved execution compared with the run alone; distinct_nontrivial counts distinct interleavings (sequences of runs and calls)",
    assumptions=["runs into one directory with -rw have different driver names or are equal runs", "file system calls are atomic, as on a local file system"])

MARK = "OuTmK"


def snap(d):
    return {k: v for k, v in tree(d).items()}


def check(ctx):
    exe = ctx.gen()
    sched = os.path.join(ctx.tmp("s"), "sched")
    rc, o, e = sh(["gcc", "-O1", "-w", "-o", sched, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "sched.c")])
    if rc:
        raise HarnessError("cannot build the scheduler: " + e[-800:])

    def scenario(k):
        """(label, dbc bytes per program, [flags], [driver names], out path, preparation)"""
        r = ctx.rng("sc", k)
        nets = [C.small_net(r) for _ in range(3)]
        if k % 5 == 4:
            nets[0] = D.shape_net(r, 3, vals=True, comments=True, empty_p=0)
        deep = r.choice([MARK, MARK + "/a", MARK + "/a/b/c"])
        made = MARK
        nodeu = ["-nodeutils"] if r.random() < 0.3 else []
        dd = ["-driverdir"] if r.random() < 0.4 else []
        K = k % 10
        if K == 0:
            return "numbered, new directory", [0, 0], [nodeu + dd] * 2, ["drv", "drv"], deep, None, nets
        if K == 1:
            return "numbered, used directory", [0, 1], [nodeu, []], ["drv", "other"], made, "numbers", nets
        if K == 2:
            return "-rw, two drivers, new directory", [0, 1], [["-rw"] + nodeu, ["-rw"]], ["drv", "other"], deep, None, nets
        if K == 3:
            return "-rw, two drivers, used directory", [0, 1], [["-rw"], ["-rw"] + nodeu], ["drv", "other"], made, "used", nets
        if K == 4:
            return "-rw -driverdir, new directory", [0, 1], [["-rw", "-driverdir"]] * 2, ["drv", "other"], deep, None, nets
        if K == 5:
            return "-rw, the same run twice", [0, 0], [["-rw"] + nodeu] * 2, ["drv", "drv"], r.choice([deep, made]), r.choice([None, "used"]), nets
        if K == 6:
            return "-rw and numbered", [0, 1], [["-rw"], nodeu], ["drv", r.choice(["drv", "other"])], deep, None, nets
        if K == 7:
            return "three numbered", [0, 1, 0], [[], nodeu, []], ["drv", "drv", "x1"], deep, r.choice([None, "numbers"]) if deep == MARK else None, nets
        if K == 8:
            return "three -rw", [0, 1, 2], [["-rw"], ["-rw"] + nodeu, ["-rw", "-noconfig"]], ["drv", "other", "x1"], deep, None, nets
        return "numbered and -driverdir", [0, 1], [dd, ["-driverdir"]], ["drv", "drv"], deep, None, nets

    def prepare(wd, sc):
        label, which, flags, drvs, out, prep, nets = sc
        for i, w in enumerate(which):
            os.makedirs(os.path.join(wd, "d%d" % i), exist_ok=True)
            with open(os.path.join(wd, "d%d" % i, "in.dbc"), "wb") as f:
                f.write(nets[w].bytes())
        if prep:
            os.makedirs(os.path.join(wd, out))
        if prep == "numbers":
            for x in ("000", "002"):
                os.makedirs(os.path.join(wd, out, x, "lib"))
                open(os.path.join(wd, out, x, "lib", "keep"), "w").write(x)
        if prep == "used":
            p = os.path.join(wd, "old.dbc")
            with open(p, "wb") as f:
                f.write(nets[2].bytes())
            rc, o, e = sh([exe, "-dbc", p, "-out", os.path.join(wd, out), "-drvname", drvs[0], "-rw"])
            open(os.path.join(wd, out, "lib", "mine.c"), "w").write("/* mine */")
        return [[exe, "-dbc", os.path.join(wd, "d%d" % i, "in.dbc"), "-out", os.path.join(wd, out), "-drvname", drvs[i]] + list(flags[i]) for i in range(len(which))]

    def solo(sc):
        """what each run writes alone, below its own directory."""
        outs = []
        for i in range(len(sc[1])):
            wd = ctx.tmp("solo")
            cmds = prepare(wd, sc[:5] + (None,) + sc[6:])
            rc, o, e = sh(cmds[i], cwd=wd)
            t = snap(os.path.join(wd, sc[4])) if os.path.isdir(os.path.join(wd, sc[4])) else {}
            if rc or not any(v is not None for v in t.values()):
                ctx.violation("%s:alone%d" % (sc[0], i), "run alone: exit %s, %d files\n%s" % (rc, len(t), e[-600:]), {"in.dbc": sc[6][sc[1][i]].bytes()})
                return None
            outs.append({p: c for p, c in t.items() if c is not None})
            shutil.rmtree(wd, ignore_errors=True)
        return outs

    def execute(sc, alone, schedule, judge=True):
        wd = ctx.tmp("x")
        try:
            cmds = prepare(wd, sc)
            out = os.path.join(wd, sc[4])
            before = {p: c for p, c in snap(out).items() if c is not None} if os.path.isdir(out) else {}
            with open(os.path.join(wd, "cmds"), "w") as f:
                f.write("".join("\t".join(c) + "\n" for c in cmds))
            rc, o, e = sh([sched, MARK, schedule, os.path.join(wd, "log"), os.path.join(wd, "cmds")], cwd=wd, timeout=60)
            if rc:
                raise HarnessError("scheduler: exit %s %s" % (rc, e[-300:]))
            log = open(os.path.join(wd, "log"), errors="replace").read().splitlines()
            ex = [l.split() for l in log if l.startswith("exit ")]
            steps = [l for l in log if not l.startswith("exit ")]
            key = hashlib.sha1("\n".join(" ".join(l.split()[:2]) for l in steps).encode()).hexdigest()[:16]
            counts = [int(x[3]) for x in ex]
            bad = []
            for x in ex:
                ctx.ev()
                if x[2] != "0":
                    bad.append("run %s ends with status %s: %s" % (x[1], x[2], open(os.path.join(wd, "log." + x[1]), errors="replace").read()[-300:].strip()))
            got = {p: c for p, c in snap(out).items() if c is not None} if os.path.isdir(out) else {}
            # what is expected: every run's files, the numbered ones in directories of their own
            base = dict(before)
            numbered = {}
            for i, a in enumerate(alone):
                if "-rw" in sc[2][i]:
                    for p, c in a.items():
                        base[p] = c
                else:
                    pre = (sc[3][i] + "/") if "-driverdir" in sc[2][i] else ""
                    numbered.setdefault(pre, []).append({p[len(pre) + 4:]: c for p, c in a.items()})
            want = [base]
            for pre, runs in numbered.items():
                taken = {p[len(pre):len(pre) + 3] for p in before if p.startswith(pre) and re.match(r"\d\d\d/", p[len(pre):])}
                free = [x for x in ("%03d" % i for i in range(20)) if x not in taken][:len(runs)]
                new = []
                for w in want:
                    for perm in itertools.permutations(runs):
                        x = dict(w)
                        for num, files in zip(free, perm):
                            for p, c in files.items():
                                x[pre + num + "/" + p] = c
                        if x not in new:
                            new.append(x)
                want = new
            ctx.ev(len(got), key=(sc[0], key))
            if got not in want:
                w = min(want, key=lambda w: sum(got.get(p) != w.get(p) for p in set(w) | set(got)))
                for p in sorted(set(w) | set(got)):
                    if got.get(p) != w.get(p):
                        bad.append("%s: %s" % (p, "missing" if p not in got else "not expected" if p not in w else "%d bytes instead of %d" % (len(got[p]), len(w[p]))))
            if judge and bad:
                ctx.violation("%s:%s" % (sc[0], bad[0].split(":")[0][:60]), "%s, schedule %s\n%s\n\nsteps (run, call):\n%s" % (sc[0], schedule, "\n".join(bad[:10]), "\n".join(steps[:300])),
                              {"in%d.dbc" % i: sc[6][w].bytes() for i, w in enumerate(sc[1])})
            return counts, len(steps)
        finally:
            shutil.rmtree(wd, ignore_errors=True)

    jobs = []
    for k in range(ctx.n(20, 60)):
        sc = scenario(k)
        alone = solo(sc)
        if alone is None:
            continue
        counts, n = execute(sc, alone, "seg:0,1000000")
        r = ctx.rng("sched", k)
        np = len(sc[1])
        s = []
        for a in range(np):
            rest = [i for i in range(np) if i != a]
            for c in range(0, counts[a] + 1):
                s.append("seg:%d,%d;" % (a, c) + ";".join("%d,1000000" % b for b in (rest if r.random() < 0.5 else rest[::-1])))
        two = []
        for a in range(np):
            for b in range(np):
                if a != b:
                    for c in range(1, counts[a] + 1):
                        for d in range(1, counts[b] + 1):
                            two.append("seg:%d,%d;%d,%d;%d,1000000" % (a, c, b, d, a))
        # lock step of the first calls, where the directories are made
        for c, d in itertools.product(range(1, 14), repeat=2):
            if r.random() < ctx.n(0.15, 1):
                s.append("seg:" + ";".join("%d,%d" % (i % np, r.choice([c, d])) for i in range(np * 6)))
        r.shuffle(two)
        s += two[:ctx.n(30, 3000)]
        s += ["rnd:%d:%d" % (r.getrandbits(30), r.choice([20, 100, 300, 500, 900, 1000])) for _ in range(ctx.n(40, 1000))]
        jobs += [(sc, alone, x) for x in s]
        ctx.sample({"scenario": sc[0], "calls": counts, "schedules": len(s)})
        ctx.count("single_change_schedules", sum(c + 1 for c in counts))
    ctx.count("schedules", len(jobs))
    ctx.pmap(lambda j: execute(*j), jobs)
