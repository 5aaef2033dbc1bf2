from fw import dbc as D
from fw.flow import run_net

TECHNIQUE = ("runtime monitoring: compiled generated drivers with USE_SIGFLOAT; after every Unpack each _phys field, and after every Pack each "
             "raw field on the wire, is compared with extended-precision arithmetic on the factor and offset texts of the SG_ line")
NOTE = ("Scaling texts, widths, signs and raw values are sampled from corner-biased pools and a systematic grid; integer scaling is compared exactly, "
        "fractional scaling within double rounding (Unpack) and one raw step (Pack), as the statement allows.")

REPORT = dict(
    rule="one evaluation = one _phys value after Unpack or one raw value after Pack compared with the reference; distinct_nontrivial counts distinct "
         "(factor, offset, length, sign) combinations executed",
    assumptions=["sigfloat_t is double (most runs) or long double", "80-bit long double reference arithmetic"])


def grid(ctx):
    """integer and fractional scalings times widths and signs, messages with the same signal names."""
    fs = ["1", "-1", "2", "3", "-3", "10", "-10", "100", "255", "256", "1000", "65535", "65536", "-32768", "16777216", "2147483647", "-2147483648",
          "2147483648", "4294967295", "4294967296", "0.5", "-0.5", "0.1", "0.01", "1.0", "1E1", "1e-3", "0.000000001", "1E-9", "-0.25", "12345.678901234",
          "1.5E-5", "100.0", "3.0", "1e5", "0.333333333"]
    os_ = ["0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "-32768", "32768", "65536", "-40", "2147483647", "-2147483648", "4294967296",
           "-4294967297", "0.5", "-0.5", "-40.0", "273.15", "1e3", "-0.000000001", "1E-9", "100000.000000001", "0.0", "1000000"]
    lens = [1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 30, 31, 32, 33, 40, 47, 48, 52, 53, 62, 63, 64]
    all_ = [(f, o, l, sg) for f in fs for o in os_ for l in lens for sg in (False, True)]
    r = ctx.rng("grid")
    r.shuffle(all_)
    all_ = all_[:ctx.n(9000, len(all_))]
    # ranges which end at the limits of the C types
    for k in range(ctx.n(4000, 60000)):
        l, sg = r.choice(lens + list(range(1, 65))), r.random() < 0.5
        f, o = D.edge_scaling(r, l, sg)
        if D.phys_ok(D.Sig("S", 0, l, "I", sg, f, o)):
            all_.append((f, o, l, sg))
    nets, msgs = [], []
    for i, (f, o, l, sg) in enumerate(all_):
        s = D.Sig("S%d" % (i % 7), 0, l, "I", sg, f, o, recs=["N"])
        if r.random() < 0.5:
            s.order, s.start = "M", 7
        if not D.phys_ok(s):
            continue
        msgs.append(D.Msg(len(msgs), "M%d" % len(msgs), 8, [s], tx="N"))
        if len(msgs) == 260:
            nets.append(D.Net(msgs))
            msgs = []
    if msgs:
        nets.append(D.Net(msgs))
    return nets


def check(ctx):
    ctx.gen()
    jobs = [("grid%d" % k, net, dict(modes=["phys:%d" % ctx.n(30, 100)], opt="-O0")) for k, net in enumerate(grid(ctx))]
    for k in range(ctx.n(90, 1200)):
        r = ctx.rng("net", k)
        net = D.shape_net(r, k, fd=0.3, scaling=r.choice(["mixed", "int", "float", "mixed"]), long_p=0.1, overlap_p=0)
        more = []
        if k % 4 == 1:  # messages with counters and checksums, whose features are on or off
            net = D.tagged_net(r, fd=0.3, scaling=r.choice(["mixed", "int", "float"]), overlap_p=0)
            more = [f for f in ("USE_MONO_FMON", "AUTO_ROLL", "AUTO_CSM") if r.random() < 0.5]
        jobs.append(("net%d" % k, net, dict(
            modes=["phys:%d" % (40 if len(net.msgs) > 40 else 150)], opt=r.choice(["-O0", "-O2"]) if len(net.msgs) < 40 else "-O0", cc=r.choice(["clang", "gcc"]),
            drv=r.choice(["drv", "MyDrv", "d", "T_1"]), sigfloat="long double" if k % 9 == 8 else "double",
            cfg=[f for f in ("USE_BITS_SIGNAL", "USE_CANSTRUCT", "USE_DIAG_MONITORS") if r.random() < 0.3] + more)))

    def one(j):
        label, net, kw = j
        kw["cfg"] = ["USE_SIGFLOAT"] + list(kw.get("cfg", []))
        keys = {(s.ftxt, s.otxt, s.length, s.signed) for m in net.msgs for s in m.sigs if s.kind}
        st = run_net(ctx, net, label, seed=ctx.seed, keys=keys, **kw)
        if st:
            ctx.sample({"case": label, "scalings": sorted(keys)[:4], "evals": st["evals"]})
    ctx.pmap(one, jobs)
