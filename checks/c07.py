from fw import dbc as D
from fw import pkg as P
from fw.flow import run_net

TECHNIQUE = ("runtime monitoring: FMon callbacks and GetSystemTick are instrumented; an online checker keeps the specified FrameMonitor_t of every message and "
             "compares all of them, the callback log and the struct state at the callback after every Unpack, Receive and Pack of random histories")
NOTE = "Histories interleave all messages, all dlc arguments, wrapped frame counts and random previous monitor contents; both FMon models and all feature mixes are sampled."

REPORT = dict(
    rule="one evaluation = one Pack/Unpack/Receive call after which the monitors of all messages and the FMon call log were compared with the model; "
         "distinct_nontrivial counts distinct (network, macro combination) histories",
    assumptions=["the FMon functions are provided by the harness in place of the generated empty ones (the generated fmon header is used)"])


def check(ctx):
    ctx.gen()
    jobs = []
    for k in range(ctx.n(100, 1200)):
        r = ctx.rng("net", k)
        if k % 3 == 0:
            net = D.tagged_net(r, fd=0.4, overlap_p=0)
        else:
            net = D.shape_net(r, k, fd=0.3, overlap_p=0.05, empty_p=0.15)
        cfg = ["USE_DIAG_MONITORS"] + [f for f in ("USE_BITS_SIGNAL", "USE_CANSTRUCT", "USE_SIGFLOAT", "USE_MONO_FMON", "AUTO_ROLL", "AUTO_CSM") if r.random() < 0.4]
        drv = r.choice(["drv", "MyDrv", "DRV", "x_9"])
        node = k % 4 == 1
        utils = P.node_utils(net, drv) if node else P.plain_utils(net, drv)
        utils = [u for u in utils if u[1] or u[2]][:6]
        if not any(m.sigs for m in net.msgs):
            continue
        jobs.append(("net%d" % k, net, cfg, dict(modes=["mon:%d" % ctx.n(1500, 5000), "recv:%d" % 20], drv=drv, utils=utils,
                     gen_opts=("-rw", "-nodeutils") if node else ("-rw",), opt=r.choice(["-O0", "-O1"]) if len(net.msgs) < 40 else "-O0", cc=r.choice(["clang", "gcc"]), extra=["-DH_NODEFS"] if k % 9 == 5 else [])))

    def one(j):
        label, net, cfg, kw = j
        st = run_net(ctx, net, label, seed=ctx.seed, cfg=cfg, **kw)
        if st:
            ctx.ev(0, key=(label, tuple(cfg)))
            ctx.sample({"case": label, "cfg": cfg, "messages": len(net.msgs), "evals": st["evals"]})
    ctx.pmap(one, jobs)
