from fw import dbc as D
from fw.flow import run_net, layout_keys
from fw.sweep import sweep_nets

TECHNIQUE = ("runtime monitoring: compiled generated Pack functions run over swept and random layouts and struct contents in both "
             "signatures, every byte around the buffer, id, length and IDE compared online with a bit-by-bit reference")
NOTE = ("All 8320 layouts of 8-byte frames are enumerated for the raw field; CAN FD layouts, signal mixes, overlaps, struct values, previous "
        "buffer contents and initial byte values are sampled.")

REPORT = dict(
    rule="one evaluation = one Pack call of the compiled generated code whose whole 128-byte arena, return value, id, length and IDE were "
         "compared with a bit-by-bit reference; distinct_nontrivial counts distinct (DLC, start, length, order, sign, signature, initial byte)",
    assumptions=["reference bit numbering is written from the DBC format", "clang/gcc compile the generated C correctly"])


def check(ctx):
    ctx.gen()
    jobs = []
    for k, net in enumerate(sweep_nets(ctx, "pack")):
        jobs.append(("sweep%d" % k, net, ["USE_CANSTRUCT"] if k % 2 else [], 0, dict(modes=["pack:%d" % ctx.n(30, 100)], opt="-O0")))
    n = ctx.n(78, 900)
    for k in range(n):
        r = ctx.rng("net", k)
        net = D.shape_net(r, k, fd=0.4, overlap_p=0.25, long_p=0.1)
        cfg = [f for f in ("USE_CANSTRUCT", "USE_BITS_SIGNAL", "USE_DIAG_MONITORS") if r.random() < 0.4]
        if k % 4 == 1:  # messages with scaled signals, counters and checksums, whose features are on or off
            net = D.tagged_net(r, fd=0.4, overlap_p=0)
            cfg += [f for f in ("USE_SIGFLOAT", "AUTO_ROLL", "AUTO_CSM") if r.random() < 0.5]
        init = r.choice([0, 0, 255, 0x55, 0xAA, 1, 0x80, r.randint(0, 255)])
        drv = r.choice(["drv", "MyDrv", "d", "T_1"])
        extra = ["-D%s_INITIAL_BYTE_VALUE=%dU" % (drv.upper(), init)] if init else []
        if k % 5 == 3:  # an override of the driver's maximum DLC that is large enough changes nothing
            extra.append("-D%s_MAX_DLC_VALUE=64U" % drv.upper())
        san = k % 6 == 0
        jobs.append(("net%d" % k, net, cfg, init, dict(
            modes=["pack:%d" % (60 if len(net.msgs) > 40 else 200)], opt=r.choice(["-O0", "-O2", "-Os"]) if len(net.msgs) < 40 else "-O0",
            san=san, cc="clang" if san else r.choice(["clang", "gcc"]), drv=drv, extra=extra)))

    for k in range(ctx.n(4, 16)):
        r = ctx.rng("many", k)
        net = D.many_sigs_net(r, (257, 300, 512, 256, 255, 400)[k % 6], k % 2 == 1)
        cfg = [["USE_CANSTRUCT"], ["USE_BITS_SIGNAL"], []][k % 3]
        jobs.append(("many%d" % k, net, cfg, 0, dict(modes=["pack:60"], opt="-O0", san=k % 4 == 1)))

    def one(j):
        label, net, cfg, init, kw = j
        st = run_net(ctx, net, label, seed=ctx.seed, cfg=cfg, keys={x + ("USE_CANSTRUCT" in cfg, init) for x in layout_keys(net)}, **kw)
        if st and init and len(ctx.samples) < 4:
            m = next((m for m in net.msgs if m.sigs), None)
            if m:
                ctx.sample({"case": label, "message": m.lines()[:4], "evals": st["evals"], "cfg": cfg, "initial_byte": init})
    ctx.pmap(one, jobs)
