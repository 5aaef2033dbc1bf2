from fw import dbc as D
from fw.flow import run_net, layout_keys
from fw.sweep import sweep_nets

TECHNIQUE = ("runtime monitoring: compiled generated Unpack functions run over swept and random layouts and payloads, every raw field "
             "compared online with a bit-by-bit reference of the DBC layout; a part of the runs under ASan/UBSan")
NOTE = ("All 8320 layouts (start, length, order, sign) of 8-byte frames are enumerated; CAN FD layouts, messages of up to 512 signals, signal mixes and payloads are "
        "sampled. The reference numbering is written from the DBC format, not from the generator.")

REPORT = dict(
    rule="one evaluation = one Unpack call of the compiled generated code whose every raw field was compared with a bit-by-bit reference; "
         "distinct_nontrivial counts distinct (DLC, start, length, order, sign) layouts executed, each with non-zero expected values",
    assumptions=["reference bit numbering is written from the DBC format", "clang/gcc compile the generated C correctly",
                 "bitext_t/ubitext_t are 64 bit unless the net is restricted to signed signals up to 31 bits"])


def check(ctx):
    ctx.gen()
    jobs = []
    for k, net in enumerate(sweep_nets(ctx, "unpack")):
        jobs.append(("sweep%d" % k, net, dict(modes=["unpack:%d" % ctx.n(40, 120)], opt="-O0")))
    n = ctx.n(78, 900)
    for k in range(n):
        r = ctx.rng("net", k)
        small = r.random() < 0.2
        net = D.shape_net(r, k, signed_max=31 if small else 64, fd=0.4, overlap_p=0.2, long_p=0.1, comments=k % 3 == 0, vals=k % 3 == 0)
        cfg = r.choice([[], [], ["USE_BITS_SIGNAL"], ["USE_SIGFLOAT"], ["USE_CANSTRUCT"], ["USE_DIAG_MONITORS"]])
        if k % 4 == 1 and not small:  # messages with counters and checksums, whose features are on or off
            net = D.tagged_net(r, fd=0.4, overlap_p=0.1)
            cfg = [f for f in ("USE_BITS_SIGNAL", "USE_SIGFLOAT", "USE_DIAG_MONITORS", "USE_MONO_FMON", "AUTO_ROLL", "AUTO_CSM") if r.random() < 0.5]
        jobs.append(("net%d" % k, net, dict(modes=["unpack:%d" % (60 if len(net.msgs) > 40 else 200)], bitext=32 if small else 64,
                     opt=r.choice(["-O0", "-O2", "-Os"]) if len(net.msgs) < 40 else "-O0", san=k % 6 == 0,
                     cc=r.choice(["clang", "gcc"]) if k % 6 else "clang", drv=r.choice(["drv", "MyDrv", "d", "T_1"]),
                     cfg=cfg)))

    for k in range(ctx.n(4, 16)):
        r = ctx.rng("many", k)
        net = D.many_sigs_net(r, (257, 300, 512, 256, 255, 400)[k % 6], k % 2 == 1)
        jobs.append(("many%d" % k, net, dict(modes=["unpack:60"], opt="-O0", san=k % 4 == 1, cfg=[["USE_BITS_SIGNAL"], []][k // 2 % 2])))

    def one(j):
        label, net, kw = j
        st = run_net(ctx, net, label, seed=ctx.seed, keys=layout_keys(net), **kw)
        if st and len(ctx.samples) < 4:
            m = next((m for m in net.msgs if m.sigs), None)
            if m:
                ctx.sample({"case": label, "message": m.lines()[:4], "evals": st["evals"], "cfg": kw.get("cfg")})
    ctx.pmap(one, jobs)
