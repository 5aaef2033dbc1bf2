import os, re, shutil
from fw import dbc as D
from fw import pkg as P
from fw.core import HARNESS, SAN_ENV, HarnessError, sh

TECHNIQUE = ("runtime monitoring of a simulated bus: every node of the network is built as a separate shared object (core and its own node utility, own feature macros, "
             "compiler, optimisation); random traffic with lost, repeated, overtaken, shortened and corrupted frames runs between them and an online end-to-end checker, which knows "
             "only what each sender put into its struct, watches every node")
NOTE = ("Random networks with 1 to 24 nodes and 1 to 40 messages (rolling counters, checksums, scaling, CAN FD, several transmitters), a random configuration for every node; "
        "thousands of frames per network.")
REPORT = dict(
    rule="one evaluation = one Pack, Receive or compared signal; distinct_nontrivial counts distinct (network, node, configuration, compiler) nodes which sent or received",
    assumptions=["numeric message ids are pairwise different", "signals of a message do not overlap", "the integer-scaled signals fit one 64-bit type"])


def net_of(r, k):
    kw = dict(fd=0.35, overlap_p=0, empty_p=0.05, multi_tx=0.5, nmsg=r.choice([1, 2, 3, 5, 8, 12, 20, 40]), maxsig=r.choice([1, 3, 6, 12, 30]))
    kw["nodes"] = [("Ecu%d" % i) if r.random() < 0.7 else "n" + chr(97 + i) for i in range(r.choice([1, 2, 2, 3, 4, 6, 9, 16]))]
    if k % 4 == 0:
        net = D.shape_net(r, k // 4, **{x: kw[x] for x in ("fd", "overlap_p", "empty_p", "multi_tx", "nodes")})
    else:
        net = D.tagged_net(r, **kw)
    for m in net.msgs:
        for s in m.sigs:
            if not D.phys_ok(s) or (s.comment and "<" in s.comment):
                s.ftxt, s.otxt = "1", "0"
            if s.comment and "<" in s.comment:
                s.signed = False
        # every message gets a receiver here and there, other than its sender
        for s in m.sigs:
            if r.random() < 0.5:
                s.recs = r.sample(kw["nodes"], r.randint(1, min(3, len(kw["nodes"]))))
    return net


def check(ctx):
    ctx.gen()
    bus = os.path.join(ctx.tmp("bus"), "bus")
    rc, o, e = sh(["gcc", "-std=gnu11", "-O1", "-w", "-rdynamic", "-I", HARNESS, os.path.join(HARNESS, "bus.c"), "-o", bus, "-ldl", "-lm"])
    if rc:
        raise HarnessError("bus.c: " + e[:2000])
    jobs = list(range(ctx.n(48, 500)))

    def one(k):
        r = ctx.rng("bus", k)
        net = net_of(r, k)
        label = "bus%d" % k
        if not any(m.sigs for m in net.msgs) or len(net.msgs) > 400 or max(len(m.sigs) for m in net.msgs) > 640:
            return
        drv = r.choice(["drv", "MyDrv", "can0", "d"])
        out = ctx.generate_ok(net.bytes(), drv, ("-rw", "-nodeutils"), label=label)
        if out is None:
            return
        P.write_conf(os.path.join(out, "conf", "dbccodeconf.h"), 64, "double", P.methods_of([net]))
        index = {m.name: i for i, m in enumerate([m for m in net.msgs if m.sigs])}
        wd = ctx.tmp("n")
        args, desc = [], []
        utils = [u for u in P.node_utils(net, drv) if u[1] or u[2]]
        for i, u in enumerate(utils[:24]):
            cfg = [f for f in P.FEATURES if r.random() < (0.6 if f in ("USE_DIAG_MONITORS", "AUTO_ROLL", "AUTO_CSM") else 0.4)]
            cc, opt = r.choice(["gcc", "clang"]), r.choice(["-O0", "-O1", "-O2", "-Os"])
            g = os.path.join(wd, "g%d.c" % i)
            with open(g, "w") as f:
                f.write(P.glue(net, drv, [u], P.methods_of([net])))
            so = os.path.join(wd, "n%d.so" % i)
            extra = r.choice([[], [], ["-D%s_INITIAL_BYTE_VALUE=0xA5U" % drv.upper()], ["-funsigned-char"], ["-fshort-enums"]])
            rc, o, e = sh([cc, "-std=gnu11", opt, "-w", "-fPIC", "-shared", "-Wl,-Bsymbolic", "-I", HARNESS] + P.includes(out) + extra +
                          ["-D%s_%s" % (drv.upper(), f) for f in cfg] +
                          [os.path.join(out, "lib", drv.lower() + ".c"), os.path.join(out, "butl", u[0] + "-binutil.c"), g, "-o", so])
            if rc:
                ctx.violation(label + ":compile", "node %s does not compile with %s\n%s" % (u[0], cfg, e[:2500]), {"in.dbc": net.bytes()})
                return
            args.append("%s:H_%s:%s:%d:%s" % (so, drv, u[0], 1 if u[1] else 0, ",".join(str(index[x]) for x in u[2]) or "-1"))
            desc.append((u[0], cfg, cc, opt, extra))
        if not args:
            return
        rc, o, e = sh([bus, str(ctx.seed * 1000 + k), str(ctx.n(4000, 40000))] + args, timeout=240)
        fails = [l[5:] for l in o.splitlines() if l.startswith("FAIL ")]
        end = re.search(r"END fails=(\d+) evals=(\d+) nontrivial=(\d+)", o)
        if not end:
            fails.append("the simulation died, exit %d: %s" % (rc, (e or o)[-1500:]))
        else:
            ctx.ev(int(end.group(2)))
            ctx.count("nontrivial_values", int(end.group(3)))
            st = re.search(r"STAT bus (.*)", o).group(1)
            for x in st.split():
                a, b = x.split("=")
                ctx.count(a, int(b))
            for dsc in desc:
                ctx.distinct_add([(k,) + tuple(map(str, dsc))])
            ctx.sample({"case": label, "nodes": len(args), "messages": len(net.msgs), "traffic": st})
        if fails:
            ctx.violation(label, "\n".join(fails[:12]) + "\nnodes: %s" % "\n       ".join(map(str, desc)), {"in.dbc": net.bytes()})
            return
        shutil.rmtree(wd, ignore_errors=True)
        shutil.rmtree(os.path.dirname(out), ignore_errors=True)
    ctx.pmap(one, jobs)
