import os, re, shutil
from fw import dbc as D
from fw import pkg as P
from fw.core import sh
from fw.flow import run_net
from checks.c12 import strip, norm

TECHNIQUE = ("runtime monitoring: the real generator runs on every misfitting layout, the compiler runs on its output; an offline checker attributes compiler errors to messages, compares accepted code "
             "with that of the DBC without the signal and the code of the other messages with that of the DBC without the misfit; boundary fits are executed under the reference monitors")
NOTE = ("All start/length/order combinations up to 72 in 8-byte frames, samples (thorough: all) in frames of 1..7 bytes, CAN FD frames, start values and lengths beyond 8, 16 and 32 bits that "
        "would wrap into the frame; simple, signed, scaled, tagged misfits, alone and beside valid signals, in several configurations.")
REPORT = dict(
    rule="one evaluation = one misfitting signal judged, one other message's code compared, or one executed boundary fit; distinct_nontrivial counts distinct misfitting (dlc, start, length, order, sign) layouts",
    assumptions=["a misfit is judged from the DBC bit numbering"])


def bodies(code, drv):
    """{function name: text} of the core source."""
    out = {}
    for m in re.finditer(r"^\w[^\n;#]*\b((?:Unpack|Pack)_\w+)\s*\([^;{]*\)\s*\{(.*?)^\}", code, re.M | re.S):
        out[m.group(1)] = out.get(m.group(1), "") + m.group(0)
    return out


def misfits(ctx):
    r = ctx.rng("layouts")
    out = []
    for ln in range(0, 73):
        for st in range(0, 73):
            for o in "IM":
                if not D.Sig("x", st, ln, o).fits(8):
                    out.append((8, st, ln, o))
    short = [(d, st, ln, o) for d in range(1, 8) for ln in range(1, 65) for st in range(0, 66) for o in "IM" if not D.Sig("x", st, ln, o).fits(d)]
    # the nearest misses first: one bit too long
    near = [t for t in short if t[2] > 1 and (D.Sig("x", t[1], t[2] - 1, t[3]).fits(t[0]))]
    fdm = []
    for _ in range(ctx.n(600, 6000)):
        d = r.choice([64, 64, 48, 32, 24, 20, 16, 12, 9, r.randint(9, 64)])
        st = r.choice([r.randint(0, 8 * d + 20), 8 * d, 8 * d - 1, 8 * d + 7, r.randint(max(0, 8 * d - 70), 8 * d + 8)])
        ln = r.choice([r.randint(1, 64), 64, 63, 65, 8, 16, 1, 0])
        fdm.append((d, st, ln, r.choice("IM")))
    wrap = []
    for d in (1, 2, 8, 8, 33, 64):
        for base in (255, 256, 264, 511, 512, 513, 4096, 65535, 65536, 65544, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 7, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 7, 2 ** 33, 2 ** 63, 2 ** 64, 2 ** 64 + 8, 10 ** 30):
            for ln in (1, 4, 8):
                wrap.append((d, base, ln, r.choice("IM")))
        for ln in (65, 72, 127, 128, 255, 256, 257, 264, 272, 65535, 65536, 65544, 2 ** 31, 2 ** 32, 2 ** 32 + 8, 2 ** 64 + 8):
            wrap.append((d, r.choice([0, 7]), ln, r.choice("IM")))
    rest = short if ctx.thorough else near + r.sample(short, 1500)
    out += [t for t in set(rest + fdm + wrap) if not D.Sig("x", t[1], min(t[2], 65), t[3]).fits(t[0]) or t[2] > 64]
    out = sorted(set(out))
    r.shuffle(out)
    return out


def check(ctx):
    ctx.gen()
    lay = misfits(ctx)
    per = 150
    batches = [lay[i:i + per] for i in range(0, len(lay), per)]
    ctx.cov["misfit_layouts"] = len(lay)

    def build(r, items, tag):
        """every message has one misfit; some have valid signals beside it; valid messages between."""
        msgs, ref = [], []
        for i, (dlc, st, ln, o) in enumerate(items):
            s = D.Sig("Bad%d" % i, st, ln, o, r.random() < 0.4, recs=["N"])
            if r.random() < 0.25:
                s.ftxt, s.otxt = r.choice([("0.5", "0"), ("2", "1"), ("1", "-4")])
            x = r.random()
            if x < 0.1 and not s.signed:
                s.comment = "<RollingCounter>"
            elif x < 0.2 and not s.signed and ln <= 8:
                s.comment = "<Checksum:XOR8:1>"
            good = []
            if r.random() < 0.4:
                good.append(D.Sig("Ok%d" % i, r.randint(0, dlc * 8 - 1), 1, r.choice("IM"), recs=["N"]))
            sg = good + [s]
            r.shuffle(sg)
            msgs.append(D.Msg(0x1000 + i, "Mis%s_%d" % (tag, i), dlc, sg, ext=True, tx="N"))
            ref.append(D.Msg(0x1000 + i, "Mis%s_%d" % (tag, i), dlc, good, ext=True, tx="N"))
            if i % 25 == 0:
                g = D.Msg(0x5000 + i, "Good_%d" % i, 8, [D.Sig("Fit%d" % i, 0, 64, "I", recs=["N"]), D.Sig("Top", 56, 8, "I", recs=["N"])][: 1 + i % 2], ext=True, tx="N")
                msgs.append(g)
                ref.append(g)
        return D.Net(msgs, nodes=["N"]), D.Net(ref, nodes=["N"])

    def one(b):
        k, items = b
        r = ctx.rng("batch", k)
        net, ref = build(r, items, "")
        label = "batch%d" % k
        drv = "drv"
        cfgs = [[], [f for f in P.FEATURES if r.random() < 0.5]]
        out, rc, o, e = ctx.generate(net.bytes(), drv)
        outr = ctx.generate_ok(ref.bytes(), drv, label=label + "-ref")
        if outr is None:
            return
        if rc != 0:
            ctx.violation(label + ":gen", "the generator fails (exit %d) on misfitting signals\n%s" % (rc, e[-1500:]), {"in.dbc": net.bytes()})
            return
        src = os.path.join(out, "lib", "drv.c")
        code = open(src, encoding="utf-8").read()
        refb = bodies(open(os.path.join(outr, "lib", "drv.c"), encoding="utf-8").read(), drv)
        got = bodies(code, drv)
        for m in net.msgs:
            if m.name.startswith("Good"):
                for p in ("Unpack", "Pack"):
                    f = "%s_%s_%s" % (p, m.name, drv)
                    ctx.ev()
                    if norm(strip(got.get(f, "gone"), False)[0]) != norm(strip(refb.get(f, "none"), False)[0]):
                        ctx.violation("%s:%s" % (label, f), "the code of %s differs because of a misfit in another message\n%s" % (f, got.get(f, "")[:1500]), {"in.dbc": net.bytes(), "without.dbc": ref.bytes()})
        # attribute compiler errors to functions
        spans = []
        for m in re.finditer(r"\b(?:Unpack|Pack)_(\w+)_%s\s*\(" % drv, code):
            spans.append((code.count("\n", 0, m.start()) + 1, m.group(1)))
        flagged = None
        for cfg in cfgs:
            P.write_conf(os.path.join(out, "conf", "dbccodeconf.h"), 64, "double", ["XOR8"])
            rc, o, e = sh(["clang", "-w", "-fsyntax-only", "-ferror-limit=0"] + ["-DDRV_" + c for c in cfg] + P.includes(out) + [src])
            hit = set()
            if rc:
                for m in re.finditer(r"drv\.c:(\d+):\d+: (?:fatal )?error", e):
                    ln = int(m.group(1))
                    own = [n for l, n in spans if l <= ln]
                    if own:
                        hit.add(own[-1])
            flagged = hit if flagged is None else flagged & hit
        todo = []
        for i, it in enumerate(items):
            if "Mis_%d" % i not in flagged:
                todo.append((i, it))
            else:
                ctx.ev(1, key=it)
        ctx.count("refused_by_compiler", len(items) - len(todo))
        # the others have to be left out: the code must be that of the DBC without them
        left = todo
        if left:
            names = {"Mis_%d" % i for i, _ in left}
            a, b2 = D.Net([m for m in net.msgs if m.name in names], nodes=["N"]), D.Net([m for m in ref.msgs if m.name in names], nodes=["N"])
            ok = same(a, b2, label)
            if ok:
                ctx.count("left_out", len(left))
                for i, it in left:
                    ctx.ev(1, key=it)
            else:
                for i, it in left:
                    ma, mb = [m for m in a.msgs if m.name == "Mis_%d" % i], [m for m in b2.msgs if m.name == "Mis_%d" % i]
                    single(D.Net(ma, nodes=["N"]), D.Net(mb, nodes=["N"]), "%s-%d" % (label, i), it)
        ctx.sample({"case": label, "misfits": len(items), "refused": len(items) - len(todo), "left out": len(todo), "example": items[0]})
        for x in (out, outr):
            shutil.rmtree(os.path.dirname(x), ignore_errors=True)

    def same(a, b, label):
        res = []
        for n in (a, b):
            o, rc, so, se = ctx.generate(n.bytes(), "drv")
            if rc:
                return False
            res.append([norm(strip(open(os.path.join(o, "lib", f), encoding="utf-8").read(), False)[0]) for f in ("drv.c", "drv.h")])
            shutil.rmtree(os.path.dirname(o), ignore_errors=True)
        return res[0] == res[1]

    def single(a, b, label, it):
        if same(a, b, label):
            ctx.count("left_out")
            ctx.ev(1, key=it)
            return
        o, rc, so, se = ctx.generate(a.bytes(), "drv")
        okall = rc == 0
        why = []
        if rc == 0:
            P.write_conf(os.path.join(o, "conf", "dbccodeconf.h"), 64, "double", ["XOR8"])
            for cfg in ([], P.FEATURES):
                rc, so, se = sh(["clang", "-w", "-fsyntax-only"] + ["-DDRV_" + c for c in cfg] + P.includes(o) + [os.path.join(o, "lib", "drv.c")])
                if rc == 0:
                    why.append("config %s compiles" % cfg)
        else:
            why.append("generator exit %d" % rc)
        ctx.ev(1, key=it)
        if why:
            c = open(os.path.join(o, "lib", "drv.c"), encoding="utf-8").read() if os.path.exists(os.path.join(o, "lib", "drv.c")) else ""
            ctx.violation("misfit:%s" % "-".join(map(str, it)), "signal (dlc, start, length, order) = %s does not fit, but is generated as a codec: %s\n%s" % (it, "; ".join(why), "\n".join(bodies(c, "drv").values())[:1500]),
                          {"in.dbc": a.bytes()})
        shutil.rmtree(os.path.dirname(o), ignore_errors=True)

    ctx.pmap(one, list(enumerate(batches)))

    # signals that just fit are executed
    def fits(k):
        r = ctx.rng("fit", k)
        msgs = []
        for i in range(120):
            dlc = r.choice([1, 2, 3, 4, 5, 6, 7, 8, 8, 8, 12, 16, 33, 64])
            ln = r.randint(1, min(64, dlc * 8))
            if r.random() < 0.5:
                s = D.Sig("Fit", dlc * 8 - ln, ln, "I", r.random() < 0.4, recs=["N"])
            else:
                # Motorola: last bit is bit 0 of the last byte, or first bit the first one
                lin = r.choice([0, dlc * 8 - ln])
                s = D.Sig("Fit", lin // 8 * 8 + 7 - lin % 8, ln, "M", r.random() < 0.4, recs=["N"])
            assert s.fits(dlc)
            msgs.append(D.Msg(0x100 + i, "F%d" % i, dlc, [s], ext=True, tx="N"))
        # a message with a left-out signal beside it
        run_net(ctx, D.Net(msgs, nodes=["N"]), "fit%d" % k, modes=["unpack:20", "pack:20"], seed=ctx.seed + k)
    ctx.pmap(fits, range(ctx.n(6, 40)))
