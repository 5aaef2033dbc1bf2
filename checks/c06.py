from fw import dbc as D
from fw import pkg as P
from fw.flow import run_net

TECHNIQUE = ("runtime monitoring: GetFrameHash is an instrumented hash that records every call (payload, DLC, id, method, option); an online checker compares "
             "the call log, the wire bytes and csm_error with the specification for good, corrupted and forced hash values")
NOTE = "Checksum positions, widths, orders, DLCs up to 64, tag texts and payloads are sampled; every single-byte position and width of an 8-byte frame is enumerated."

REPORT = dict(
    rule="one evaluation = one Pack or Unpack call with its recorded GetFrameHash calls, wire bytes and csm_error compared with the specification; "
         "distinct_nontrivial counts distinct (checksum layout, DLC, macro combination)",
    assumptions=["method names are C identifiers the user defines", "one checksum signal per message"])


def pos_nets(ctx):
    r = ctx.rng("pos")
    cases = []
    for dlc in [8]:
        for o in "IM":
            for ln in range(1, 9):
                for st in range(dlc * 8):
                    s = D.Sig("CS", st, ln, o)
                    if s.fits(dlc) and D.one_byte(s):
                        cases.append((dlc, st, ln, o))
    for _ in range(ctx.n(300, 2000)):
        dlc = r.choice([64, 64, 48, 32, 24, 20, 16, 12, 9, 10, 1, 2, 3, 4, 5, 6, 7, r.randint(9, 64)])
        ln = r.randint(1, 8)
        got = D.place(r, dlc, ln, None)
        if got and D.one_byte(D.Sig("x", got[0], ln, got[1])):
            cases.append((dlc, got[0], ln, got[1]))
    r.shuffle(cases)
    nets, msgs = [], []
    for i, (dlc, st, ln, o) in enumerate(cases):
        s = D.Sig("CS", st, ln, o, recs=["N"], comment=r.choice(D.TAG_NOISE) + "<Checksum:%s:%d>" % (r.choice(D.METHODS), r.randint(0, 300)) + r.choice(["", " >", "\nx"]))
        sg = [s]
        occ = set(s.bits())
        for q in range(3):
            l2 = r.choice([1, 3, 8, 12])
            got = D.place(r, dlc, min(l2, dlc * 8), occ)
            if got:
                occ |= got[2]
                sg.append(D.Sig("D%d" % q, got[0], min(l2, dlc * 8), got[1], recs=["N"]))
        r.shuffle(sg)
        msgs.append(D.Msg(i, "M%d" % i, dlc, sg, tx="N", ext=i > 2047))
        if len(msgs) == 150:
            nets.append(D.Net(msgs))
            msgs = []
    nets.append(D.Net(msgs))
    return nets


def check(ctx):
    ctx.gen()
    jobs = []
    for k, net in enumerate(pos_nets(ctx)):
        r = ctx.rng("posnet", k)
        cfg = ["AUTO_CSM", "USE_DIAG_MONITORS"] + [f for f in ("USE_BITS_SIGNAL", "USE_CANSTRUCT", "USE_MONO_FMON") if r.random() < 0.35]
        jobs.append(("pos%d" % k, net, cfg, dict(modes=["csm:%d" % ctx.n(40, 150)])))
    for k in range(ctx.n(70, 800)):
        r = ctx.rng("net", k)
        net = D.tagged_net(r, fd=0.5, overlap_p=0, long_p=0.1)
        base = r.choice([["AUTO_CSM", "USE_DIAG_MONITORS"]] * 5 + [["AUTO_CSM"], ["USE_DIAG_MONITORS"], []])
        cfg = base + [f for f in ("USE_BITS_SIGNAL", "USE_CANSTRUCT", "USE_SIGFLOAT", "USE_MONO_FMON", "AUTO_ROLL") if r.random() < 0.35]
        drv = r.choice(["drv", "MyDrv", "q"])
        init = r.choice([0, 0, 0, 255, 0x5A])
        jobs.append(("net%d" % k, net, cfg, dict(modes=["csm:%d" % ctx.n(200, 600)], drv=drv, opt=r.choice(["-O0", "-O2"]), cc=r.choice(["clang", "gcc"]),
                     extra=(["-D%s_INITIAL_BYTE_VALUE=%dU" % (drv.upper(), init)] if init else []) + (["-DH_NODEFS"] if k % 8 == 5 else []))))

    def one(j):
        label, net, cfg, kw = j
        st = run_net(ctx, net, label, seed=ctx.seed, cfg=cfg, **kw)
        if st:
            keys = set()
            for m in net.msgs:
                s = P.csm_of(m)[0]
                if s:
                    keys.add((s.length, s.start, s.order, m.dlc, tuple(cfg)))
            ctx.distinct_add(keys)
            logs = [l for l in st["text"].splitlines() if l.startswith("STAT csm")]
            for l in logs:
                d = dict(x.split("=") for x in l.split()[2:])
                ctx.count("checksum_matches", int(d["match"]))
                ctx.count("checksum_mismatches", int(d["mismatch"]))
            if logs and "USE_DIAG_MONITORS" in cfg and "AUTO_CSM" in cfg:
                ctx.sample({"case": label, "cfg": cfg, "log": logs[:3]})
    ctx.pmap(one, jobs)
