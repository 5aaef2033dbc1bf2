from fw import dbc as D
from fw import pkg as P
from fw import sweep
from fw.flow import run_net, layout_keys

TECHNIQUE = ("compiler sanitizers: generated Pack, Unpack and Receive functions are built with AddressSanitizer and UndefinedBehaviorSanitizer (clang with float-cast-overflow, and gcc) and executed on "
             "exact-size heap payloads and message structs with arbitrary contents; any report ends the run and is a violation")
NOTE = ("All 8-byte-frame layouts, CAN FD layouts, random and tagged networks, crowded and multiplexed frames, all scalings, 32- and 64-bit extension types, many macro configurations; repeated Pack/Unpack "
        "on the same objects, random dlc arguments, ids outside the receive set, physical values at the limits of their range.")
REPORT = dict(
    rule="one evaluation = one abused object (Unpack, field writes, repeated Pack) or one Receive call under the sanitizers; distinct_nontrivial counts distinct signal layouts (dlc, start, length, "
         "order, sign) executed plus distinct (DBC, configuration) builds",
    assumptions=["struct objects are properly aligned", "signed signals wider than 31 bits use 64-bit bitext_t"])


def check(ctx):
    ctx.gen()
    jobs = []
    for i, net in enumerate(sweep.sweep_nets(ctx, "san", per=340)):
        jobs.append(("sweep%d" % i, net, dict(cfg=["USE_BITS_SIGNAL"] if i % 5 == 4 else [], modes=["abuse:%d" % ctx.n(8, 40)], bitext=64), "clang"))
    for k in range(ctx.n(90, 900)):
        r = ctx.rng("net", k)
        small = k % 4 == 3
        kw = dict(scaling=r.choice(["mixed", "mixed", "int", "float"]), signed_max=31 if small else 64, overlap_p=0.25, fd=0.35)
        net = D.tagged_net(r, **kw) if k % 2 else D.shape_net(r, k // 2, **kw)
        if k % 26 == 0:
            net.msgs = net.msgs[:130]
        drv = r.choice(["drv", "MyDrv"])
        cfg = [f for f in P.FEATURES if r.random() < 0.55]
        if k % 5 == 0:
            cfg = list(P.FEATURES)
        node = r.random() < 0.3
        utils = (P.node_utils(net, drv) if node else P.plain_utils(net, drv))[:10]
        big = sum(len(m.sigs) for m in net.msgs) > 400
        jobs.append(("net%d" % k, net, dict(drv=drv, cfg=cfg, gen_opts=("-rw", "-nodeutils") if node else ("-rw",), utils=utils, bitext=32 if small else 64,
                     sigfloat=r.choice(["double", "double", "float"]) if "USE_SIGFLOAT" not in cfg else "double", modes=["abuse:%d" % ctx.n(20 if big else 60, 300), "abuserecv:%d" % ctx.n(100, 600)],
                     opt=r.choice(["-O0", "-O1"])), "gcc" if k % 3 == 0 else "clang"))

    def one(j):
        label, net, kw, cc = j
        if not any(m.sigs for m in net.msgs):
            return
        st = run_net(ctx, net, label, seed=ctx.seed, san=True, cc=cc, timeout=600, **kw)
        if st:
            ctx.distinct_add(layout_keys(net))
            ctx.ev(0, key=(label, tuple(kw["cfg"])))
            ctx.sample({"case": label, "config": kw["cfg"], "compiler": cc, "evals": st["evals"]})
    ctx.pmap(one, jobs)
