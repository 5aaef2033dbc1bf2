from fw import dbc as D
from fw import pkg as P
from fw.flow import run_net

TECHNIQUE = ("runtime monitoring: sender/receiver histories over compiled generated drivers with dropped, repeated, corrupted and restarted frames; "
             "an online checker keeps the specified counter state machine and compares the sent counter, the struct and roll_error at every step")
NOTE = ("Counter widths 1..64, positions and orders are covered, wrap-around is reached for every width (long histories up to 16 bits, preset counters above). "
        "Histories are random with injected faults.")

REPORT = dict(
    rule="one evaluation = one Pack or Unpack call of a message with a rolling counter compared with the counter state machine; distinct_nontrivial counts "
         "distinct (counter width, position, order, macro combination) whose history contained both accepted and rejected frames",
    assumptions=["the receiver struct starts zeroed, as the property says", "roll_error is preset at random before each Unpack, so that stale bits are noticed"])


def width_nets(ctx):
    """every counter width 1..64 at several positions."""
    out = []
    for k in range(ctx.n(2, 8)):
        r = ctx.rng("w", k)
        msgs = []
        for ln in range(1, 65):
            for dlc in ([8] if ctx.tier == "quick" else [8, 64]):
                got = D.place(r, dlc, ln, None)
                st, o, b = got
                s = D.Sig("RC", st, ln, o, recs=["N"], comment=r.choice(D.TAG_NOISE) + "<RollingCounter>" + r.choice(["", " x"]))
                sg = [s]
                got = D.place(r, dlc, r.choice([1, 4, 8]), set(b))
                if got:
                    sg.append(D.Sig("Other", got[0], 1 if got[1] == "I" else 1, got[1], recs=["N"]))
                msgs.append(D.Msg(len(msgs), "M%d" % len(msgs), dlc, sg, tx="N"))
        out.append(D.Net(msgs))
    return out


def check(ctx):
    ctx.gen()
    jobs = []
    for k, net in enumerate(width_nets(ctx)):
        for cfg in (["AUTO_ROLL", "USE_DIAG_MONITORS"], ["AUTO_ROLL", "USE_DIAG_MONITORS", "USE_BITS_SIGNAL"], ["AUTO_ROLL"], ["USE_DIAG_MONITORS"], []):
            jobs.append(("widths%d-%s" % (k, "+".join(cfg)), net, cfg, dict(modes=["roll:%d" % ctx.n(700, 3000)])))
    for k in range(ctx.n(60, 700)):
        r = ctx.rng("net", k)
        net = D.tagged_net(r, fd=0.4, overlap_p=0, long_p=0.15)
        base = r.choice([["AUTO_ROLL", "USE_DIAG_MONITORS"]] * 5 + [["AUTO_ROLL"], ["USE_DIAG_MONITORS"], []])
        cfg = base + [f for f in ("USE_BITS_SIGNAL", "USE_CANSTRUCT", "USE_SIGFLOAT", "USE_MONO_FMON", "AUTO_CSM") if r.random() < 0.35]
        # a long history reaches wrap-around of counters up to 8 (quick) or 16 bits several times
        steps = ctx.n(1500, 6000)
        jobs.append(("net%d" % k, net, cfg, dict(modes=["roll:%d" % steps], drv=r.choice(["drv", "MyDrv", "q"]), opt=r.choice(["-O0", "-O2"]), cc=r.choice(["clang", "gcc"]))))
    if ctx.thorough:
        r = ctx.rng("long")
        net = D.tagged_net(r, nmsg=6, csm=False)
        jobs.append(("long", net, ["AUTO_ROLL", "USE_DIAG_MONITORS"], dict(modes=["roll:300000"], opt="-O2")))

    def one(j):
        label, net, cfg, kw = j
        st = run_net(ctx, net, label, seed=ctx.seed, cfg=cfg, **kw)
        if st:
            keys = set()
            for m in net.msgs:
                s = P.roll_of(m)
                if s:
                    keys.add((s.length, s.start, s.order, m.dlc, tuple(cfg)))
            ctx.distinct_add(keys)
            if "AUTO_ROLL" in cfg:
                ctx.sample({"case": label, "cfg": cfg, "log": [l for l in st["text"].splitlines() if l.startswith("STAT roll")][:4]})
            for l in st["text"].splitlines():
                if l.startswith("STAT roll"):
                    d = dict(x.split("=") for x in l.split()[2:])
                    ctx.count("history_errors_expected", int(d["errors"]))
                    ctx.count("history_wraps", int(d["wraps"]))
    ctx.pmap(one, jobs)
