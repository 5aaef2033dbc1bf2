from fw import dbc as D
from fw.flow import run_net, layout_keys

TECHNIQUE = ("runtime monitoring: every field of the message struct (raw, _phys, _expt, whole monitor) is read before and after each Pack and Unpack and compared "
             "with the list of fields the call owns; calls are repeated on structs and buffers that differ in everything the call must not look at")
NOTE = ("All feature mixes, shapes, layouts, struct contents, previous monitor contents and bytes behind the frame's DLC are sampled; struct and buffer are "
        "heap blocks, every third program runs under ASan/UBSan.")

REPORT = dict(
    rule="one evaluation = one Pack or Unpack call after which all fields of the struct were compared with their values before (or with those of a second call); "
         "distinct_nontrivial counts distinct (network, macro combination, layout)",
    assumptions=["padding bits of the structs hold nothing", "scaled values are representable (as in C04)"])

ALL = ("USE_BITS_SIGNAL", "USE_CANSTRUCT", "USE_SIGFLOAT", "USE_DIAG_MONITORS", "USE_MONO_FMON", "AUTO_ROLL", "AUTO_CSM")


def check(ctx):
    ctx.gen()
    jobs = []
    for k in range(ctx.n(90, 900)):
        r = ctx.rng("net", k)
        if k % 3 == 0:
            net = D.shape_net(r, k // 3, fd=0.3, overlap_p=0.05, comments=True, vals=k % 2 == 0)
        elif k % 3 == 1:
            net = D.tagged_net(r, fd=0.4, overlap_p=0)
        else:
            net = D.tagged_net(r, fd=0.4, overlap_p=0, nmsg=r.choice([2, 5, 12]), maxsig=r.choice([2, 8, 20]))
        if not any(m.sigs for m in net.msgs):
            continue
        p = r.choice([0.3, 0.6, 0.9])
        cfg = [f for f in ALL if r.random() < p]
        big = sum(len(m.sigs) for m in net.msgs) > 150
        san = k % 3 == 0
        jobs.append(("net%d" % k, net, cfg, dict(modes=["own:%d" % (60 if big else 250)], opt="-O0" if big else r.choice(["-O0", "-O2"]), san=san,
                     cc="clang" if san else r.choice(["clang", "gcc"]), drv=r.choice(["drv", "MyDrv", "x_9"]), extra=["-DH_NODEFS"] if k % 11 == 5 else [])))

    def one(j):
        label, net, cfg, kw = j
        st = run_net(ctx, net, label, seed=ctx.seed, cfg=cfg, keys={(label, tuple(cfg)) + x for x in layout_keys(net)}, **kw)
        if st and len(ctx.samples) < 4:
            ctx.sample({"case": label, "cfg": cfg, "messages": len(net.msgs), "evals": st["evals"]})
    ctx.pmap(one, jobs)
