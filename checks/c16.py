import os, shutil
from fw import dbc as D
from fw import cli as C
from fw.core import tree

TECHNIQUE = ("runtime monitoring: random histories of real runs over one output directory under a file-system call monitor; an online checker with a model of the directory "
             "compares the whole tree (content of every file) after each step")
NOTE = ("Histories mix runs with and without -rw, -driverdir, -nodeutils, -noconfig, -nofmon, -noinc, several DBCs and driver names (some differing only by case or being prefixes of others), "
        "user edits of generated files, foreign files and directories at any place including the numbered names, removed numbers, and up to 1000 used numbers.")
REPORT = dict(
    rule="one evaluation = one step of a history after which the complete tree was compared with the model; distinct_nontrivial counts distinct (step kind, state of the "
         "directory) combinations",
    assumptions=["the generator may write in the output directory"])


def check(ctx):
    ctx.gen()
    C.shim(ctx)

    def one(k):
        r = ctx.rng("hist", k)
        top = ctx.tmp("t")
        out = os.path.join(top, "out")
        if r.random() < 0.7:
            os.mkdir(out)
        nets = [C.small_net(ctx.rng("net", k, i), nodes=["Na", "Nb"], empty_p=0.1) for i in range(3)]
        for i, n in enumerate(nets):
            with open(os.path.join(top, "d%d.dbc" % i), "wb") as f:
                f.write(n.bytes())
        drvs = r.choice([["drv"], ["drv", "Drv"], ["drv", "drv2", "other"], ["a", "ab"], ["lib", "conf"], ["d000"]])
        label = "hist%d" % k
        log = []
        refs = {}

        def ref(i, drv, flags):
            """what the run writes into an empty directory."""
            key = (i, drv, tuple(sorted(flags)))
            if key not in refs:
                d = ctx.tmp("ref")
                C.run(ctx, ["-dbc", "d%d.dbc" % i, "-out", d, "-drvname", drv, "-rw"] + flags, top)
                refs[key] = C.files(tree(d))
                shutil.rmtree(d, ignore_errors=True)
            return refs[key]

        full = k % 40 == 7
        if full:
            # nearly all numbers used
            os.makedirs(out, exist_ok=True)
            for n in range(1000):
                if n not in (998, 999) and not (n % 100 == 50 and r.random() < 0.1):
                    os.mkdir(os.path.join(out, "%03d" % n))
        steps = r.randint(4, ctx.n(10, 25))
        for st in range(steps):
            if ctx.stop:
                break
            x = r.random()
            if x < 0.25 and os.path.isdir(out):
                # the user does something
                act = r.choice(["edit", "edit", "editall", "editall", "foreign", "number-file", "number-dir", "rmnumber", "link"])
                ex = [p for p, v in tree(out).items() if v is not None]
                if act == "edit" and ex:
                    with open(os.path.join(out, r.choice(sorted(ex))), r.choice(["ab", "wb"])) as f:
                        f.write(b"// edited by the user\n" * r.choice([1, 1, 5000]))
                elif act == "editall" and ex:
                    # the user's part: configuration, monitors
                    for q in ex:
                        if "/" + q.split("/")[-2] + "/" in ("/conf/", "/inc/", "/usr/") if "/" in q else False:
                            with open(os.path.join(out, q), "ab") as f:
                                f.write(b"// edited by the user %d\n" % st)
                elif act == "foreign":
                    dd = os.path.join(out, r.choice(["", "lib", "usr", "conf", "butl", "inc", "docs", "000", "001"]))
                    if not os.path.isfile(dd):
                        os.makedirs(dd, exist_ok=True)
                        with open(os.path.join(dd, r.choice(["readme", "main.c", "x.h", "drv2.c", "dr.h", "drv-fmon.c.bak"])), "w") as f:
                            f.write("foreign %d" % st)
                elif act == "number-file":
                    p = os.path.join(out, "%03d" % r.randint(0, 4))
                    if not os.path.exists(p):
                        with open(p, "w") as f:
                            f.write("a file, not a directory")
                elif act == "number-dir":
                    os.makedirs(os.path.join(out, r.choice(["%03d" % r.randint(0, 6), "0", "00", "0000", "1", "1000"])), exist_ok=True) if not os.path.isfile(os.path.join(out, "000")) else None
                elif act == "link":
                    p = os.path.join(out, "%03d" % r.randint(0, 4))
                    if not os.path.lexists(p):
                        os.makedirs(os.path.join(top, "elsewhere"), exist_ok=True)
                        os.symlink(os.path.join(top, "elsewhere"), p)
                elif act == "rmnumber":
                    c = sorted(p for p in os.listdir(out) if len(p) == 3 and p.isdigit() and os.path.isdir(os.path.join(out, p)) and not os.path.islink(os.path.join(out, p)))
                    if c:
                        shutil.rmtree(os.path.join(out, r.choice(c)))
                log.append("user: " + act)
                continue
            i, drv = r.randrange(3), r.choice(drvs)
            flags = [f for f in ("-nodeutils", "-noconfig", "-noinc", "-nofmon") if r.random() < 0.3]
            rw, dd = r.random() < 0.5, r.random() < 0.25
            base = os.path.join(out, drv) if dd else out
            if dd and os.path.isfile(base):
                continue
            before = tree(top)
            # the model
            blocked = False
            if rw:
                fin = base
                blocked = any(os.path.isfile(os.path.join(base, q)) for q in ("lib", "usr", "inc", "conf", "butl"))
                # a generated file name taken by a directory
                blocked = blocked or any(os.path.isdir(os.path.join(base, q)) for q in ref(i, drv, flags))
            else:
                n = 0
                while n < 1000 and os.path.lexists(os.path.join(base, "%03d" % n)):
                    n += 1
                fin = os.path.join(base, "%03d" % n) if n < 1000 else None
            if blocked:
                continue
            args = [["-dbc", "d%d.dbc" % i], ["-out", r.choice([out, out + "/", "out", "./out"])], ["-drvname", drv]] + [[f] for f in flags] + ([["-rw"]] if rw else []) + ([["-driverdir"]] if dd else [])
            r.shuffle(args)
            argv = [q for a in args for q in a]
            log.append(" ".join(argv))
            rc, o, e, ops = C.run(ctx, argv, top)
            after = tree(top)
            bad = []
            exp = {p: v for p, v in before.items()}
            if fin is None:
                kind = "all numbers used"
            else:
                rel = os.path.relpath(fin, top)
                gen = C.expected(nets[i], drv, flags)
                for p, v in ref(i, drv, flags).items():
                    if p in gen or os.path.join(rel, p) not in exp:
                        # what the options switch off is not replaced
                        exp[os.path.join(rel, p)] = v
                kind = "rw" if rw else "number"
            fe, fa = C.files(exp), C.files(after)
            if rc < 0 or rc > 2:
                bad.append("exit %d: %s" % (rc, e[-300:]))
            for p in sorted(set(fe) | set(fa)):
                if fe.get(p) != fa.get(p):
                    bad.append("%s: %s" % (p, "missing" if p not in fa else "unexpected" if p not in fe else "changed, but existed before and is not generated by this run"
                                           if before.get(p) == fe[p] else "not identical to the one generated into an empty directory"))
            for p, v in before.items():
                if v is None and p not in after:
                    bad.append("directory %s vanished" % p)
            if fin is None:
                bad += ["calls although no number is free: " + q for q in C.outside(ops, "/nonexistent")]
            elif not rw:
                bad += ["outside the new directory: " + q for q in C.outside(ops, fin)]
            else:
                bad += ["outside the output directory: " + q for q in C.outside(ops, base)]
            ctx.ev(1, key=(kind, dd, len([p for p in before if p.startswith("out/")]), st))
            ctx.count("steps_" + kind.replace(" ", "_"))
            if bad:
                ctx.violation("%s-%d" % (label, st), "history:\n%s\n%s" % ("\n".join(log), "\n".join(bad[:10])), {"d%d.dbc" % q: n.bytes() for q, n in enumerate(nets)})
                break
        ctx.sample({"case": label, "history": log[:6]})
        shutil.rmtree(top, ignore_errors=True)
    ctx.pmap(one, range(ctx.n(160, 1500)))
