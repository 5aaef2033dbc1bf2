import os, shutil
from fw import dbc as D
from fw import pkg as P
from fw.core import sh

TECHNIQUE = ("runtime monitoring: a probe program compiled against every generated main header prints every constant (or its absence) for all messages; "
             "an offline checker compares the printed record with the DBC")
NOTE = ("Every message of every workload DBC is asked for all four constants, the header for maximum DLC and version. Workloads place the longest message first, "
        "in the middle and last, with and without signals, use boundary ids and 1 to 700 messages, all DLC values and many version texts.")
REPORT = dict(
    rule="one evaluation = one constant (or its absence) compared with the DBC; distinct_nontrivial counts distinct (id class, ide, dlc, cycle class, empty) message shapes "
         "plus distinct (version, position of the longest message) header shapes",
    assumptions=["the attribute default of GenMsgCycleTime is 0"])

VERSIONS = [(None, (0, 0)), ("1.0", (1, 0)), ("0.0", (0, 0)), ("0.1", (0, 1)), ("10.20", (10, 20)), ("3.11", (3, 11)), ("255.255", (255, 255)), ("1.100", (1, 100)),
            ("256.1", (256, 1)), ("65535.65536", (65535, 65536)), ("2147483648.4294967295", (2147483648, 4294967295)), ("9.9", (9, 9)), ("12.34", (12, 34))]


def mk(r, k):
    nm = D.Names(r, 0.1)
    n = r.choice([1, 1, 2, 3, 5, 9, 20, 64]) if k % 12 else r.choice([256, 257, 700])
    used = set()
    lim = r.choice([1, 2, 4, 7, 8, 8, 8, 12, 33, 63, 64])
    msgs = []
    for i in range(n):
        if k % 3 == 0:
            # the same number space for standard and extended ids, ext ids below 0x800
            while True:
                v, e = r.choice([0, 1, 2, 0x7FF, 0x7FE, 0x800, 0x801, 0x10000000, 0x1FFFFFFF, 0x1FFFFFFE, r.randrange(0x800), r.randrange(2 ** 29)]), r.random() < 0.5
                e = e or v > 0x7FF
                if v not in used:
                    used.add(v)
                    break
        else:
            v, e = D.gen_id(r, used)
        m = D.Msg(v, nm.new(), r.randint(1, lim), ext=e, tx=r.choice(["A", "Vector__XXX", "Node_2"]))
        for j in range(r.choice([0, 1, 1, 3])):
            got = D.place(r, m.dlc, r.randint(1, min(8, m.dlc * 8)), set(b for s in m.sigs for b in s.bits()))
            if got:
                m.sigs.append(D.Sig(nm.new(12), got[0], 1, got[1], recs=["A"]))
        if r.random() < 0.6:
            m.cycle = r.choice([0, 1, 10, 100, 255, 256, 65535, 65536, 2147483647, r.randint(1, 5000)])
        if r.random() < 0.2:
            m.txmore = ["B"]
        if r.random() < 0.2:
            m.comment = r.choice(["text", "BO_ 5 Xx: 64 A", 'VERSION 7.7'])
        msgs.append(m)
    pos = r.choice(["first", "last", "mid", "none"])
    if pos != "none":
        i = {"first": 0, "last": n - 1, "mid": n // 2}[pos]
        m = msgs[i]
        old = m.dlc
        m.dlc = min(64, max(x.dlc for x in msgs) + r.randint(1, 5))
        if r.random() < 0.5:
            m.sigs = []
    tail = []
    for m in r.sample(msgs, min(3, n)):
        tail += r.choice([['BA_ "GenMsgSendType" BO_ %d 1;' % m.dbcid], ['BA_ "GenMsgCycleTimeFast" BO_ %d 50;' % m.dbcid], [
            'BA_ "GenMsgCycleTimeActive" BO_ %d 77;' % m.dbcid], ['BA_ "GenMsgCycleTime" BO_ %d 66;' % ((m.dbcid + 12345) & 0x1fffffff)] if (
                (m.dbcid + 12345) & 0x1fffffff) not in [x.dbcid for x in msgs] else []])
    v, vn = r.choice(VERSIONS) if r.random() < 0.8 else (lambda a, b: ("%d.%d" % (a, b), (a, b)))(r.randint(0, 99), r.randint(0, 999))
    return D.Net(msgs, version=v, nodes=["A"], extra_tail=tail), vn, pos


def check(ctx):
    ctx.gen()

    def one(k):
        r = ctx.rng("net", k)
        net, ver, pos = mk(r, k)
        drv = r.choice(["drv", "MyDrv", "D", "can_1", "A" * 40])
        U = drv.upper()
        label = "net%d" % k
        out = ctx.generate_ok(net.bytes(), drv, ("-rw", "-nodeutils") if k % 4 == 0 else ("-rw",), label=label)
        if out is None:
            return
        P.write_conf(os.path.join(out, "conf", "dbccodeconf.h"), 64)
        want = {U + "_MAX_DLC_VALUE": max(m.dlc for m in net.msgs), "VER_%s_MAJ" % U: ver[0], "VER_%s_MIN" % U: ver[1]}
        for m in net.msgs:
            want[m.name + "_CANID"] = m.id
            want[m.name + "_IDE"] = int(m.ext)
            want[m.name + "_DLC"] = m.dlc
            want[m.name + "_CYC"] = m.cycle or None
        d = ctx.tmp("p")
        with open(os.path.join(d, "p.c"), "w") as f:
            f.write('#include <stdio.h>\n#include "%s.h"\nstatic const struct { const char*n; long long v; } t[]={\n' % drv.lower())
            for w in want:
                f.write("#ifdef %s\n{\"%s\",(long long)(%s)},\n#endif\n" % (w, w, w))
            f.write("{0,0}};\n int main(void){for(int i=0;t[i].n;i++)printf(\"%s %lld\\n\",t[i].n,t[i].v);return 0;}\n")
        rc, o, e = sh(["gcc", "-w", "-O0"] + P.includes(out) + [os.path.join(d, "p.c"), "-o", os.path.join(d, "p")])
        if rc:
            ctx.violation(label + ":compile", "the main header does not compile or a constant is not an integer constant\n" + e[:2000], {"in.dbc": net.bytes()})
            return
        rc, o, e = sh([os.path.join(d, "p")])
        got = {a: int(b) for a, b in (l.split() for l in o.splitlines())}
        bad = ["%s: DBC says %s, header says %s" % (w, v, got.get(w)) for w, v in want.items() if got.get(w) != v]
        if bad:
            ctx.violation(label + ":const", "\n".join(bad[:12]), {"in.dbc": net.bytes()})
        ctx.ev(len(want))
        ctx.distinct_add({("hdr", ver, pos)} | {(min(m.id.bit_length(), 30), m.id in (0, 0x7ff, 0x1fffffff), m.ext, m.dlc,
                          None if m.cycle is None else m.cycle.bit_length(), not m.sigs) for m in net.msgs})
        ctx.sample({"case": label, "messages": len(net.msgs), "version": net.version, "longest message": pos, "constants": dict(list(sorted(got.items()))[:3])})
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(os.path.dirname(out), ignore_errors=True)
    ctx.pmap(one, range(ctx.n(250, 3000)))
