"""Layout sweeps: every (start, length, order, sign) of a classic 8-byte frame, plus CAN FD and short frames."""
from . import dbc as D


def all_layouts(dlc):
    out = []
    for ln in range(1, 65):
        for order in "IM":
            for st in range(dlc * 8):
                s = D.Sig("S", st, ln, order)
                if s.fits(dlc):
                    out.append((st, ln, order))
    return out


def sweep_nets(ctx, what, per=520):
    """nets of single-signal messages: all 8320 layouts of 8-byte frames; all layouts of short frames (thorough: every DLC 1..7);
    a sample (thorough: large sample) of CAN FD layouts up to 64 bytes."""
    cases = [(8,) + l + (sg,) for l in all_layouts(8) for sg in (False, True)]
    r = ctx.rng("sweep", what)
    short = [(d,) + l + (sg,) for d in range(1, 8) for l in all_layouts(d) for sg in (False, True)]
    fd = []
    for _ in range(ctx.n(1500, 12000)):
        dlc = r.choice([64, 64, 48, 32, 24, 20, 16, 12, 9, r.randint(9, 64)])
        ln = D.pick_len(r, 64)
        got = D.place(r, dlc, ln, None)
        if got:
            fd.append((dlc, got[0], ln, got[1], r.random() < 0.5))
    if not ctx.thorough:
        r.shuffle(short)
        short = short[:700]
    cases += short + sorted(set(fd))
    ctx.cov["classic_frame_layouts_enumerated"] = 8320
    ctx.cov["fd_layouts"] = len(set(fd))
    ctx.cov["short_frame_layouts"] = len(short)
    r.shuffle(cases)
    nets = []
    for k in range(0, len(cases), per):
        msgs = []
        for i, (dlc, st, ln, order, sg) in enumerate(cases[k:k + per]):
            # neighbours share the message with the signal under test only in the pack direction: here one signal per message
            msgs.append(D.Msg(0x100 + i, "M%d" % i, dlc, [D.Sig("S%d" % i, st, ln, order, sg, recs=["N1"])], ext=0x100 + i > 0x7ff, tx="N1"))
        nets.append(D.Net(msgs, nodes=["N1"]))
    return nets
