import os, re, shutil
from fw import dbc as D
from fw import pkg as P
from fw.core import sh
from fw.flow import run_net

TECHNIQUE = ("runtime monitoring: a C++ probe compiled against every generated binutil header reports, message by message, which members its rx and tx struct have; "
             "the linked Receive functions of all nodes are then executed and an online checker compares their effect on every member with the topology in the DBC")
NOTE = ("Random networks plus special topologies (up to 60 nodes and 300 messages, one-character and long node names, receive-only, transmit-only, "
        "several transmitters, signals of one message with different receivers, empty messages); the probe asks for every (node, direction, message) triple.")
REPORT = dict(
    rule="one evaluation = one (node, direction, message) membership answer, one expected or found file, or one Receive call compared with the topology; "
         "distinct_nontrivial counts distinct (network, node) utilities whose members were compared",
    assumptions=["node names do not differ only by case", "numeric message ids are pairwise different"])


def topo_net(r, k):
    """networks about topology: few signals, many nodes."""
    nm = D.Names(r, 0.1)
    nn = r.choice([1, 2, 2, 3, 4, 5, 8, 12, 20, 60]) if k % 8 != 5 else r.choice([70, 140, 270])
    nodes = [nm.new(r.choice([1, 2, 12, 30] if nn <= 60 else [3, 12, 30])) for _ in range(nn)]
    if r.random() < 0.5:
        # names where one is the beginning or the end of another
        b = nodes[0]
        for x in (b + "x", "x" + b, b + "_drv", b + "1", b[:-1]):
            if x and x[0].isalpha() and nm.ok(x) and r.random() < 0.6:
                nm.used.add(x.lower())
                nodes.append(x)
    if r.random() < 0.3:
        # long names with a long common beginning
        b = nm.new()
        while len(b) < 31:
            b += r.choice(["_Node", "Ecu", "x"])
        b += "z" * r.choice([0, 0, 1, 2, 30, 60])
        for x in r.sample(["A", "B", "_1", "_2", "longer_tail", "C3"], r.randint(2, 4)):
            if nm.ok(b + x):
                nm.used.add((b + x).lower())
                nodes.append(b + x)
    used = set()
    msgs = []
    for i in range(r.choice([1, 2, 3, 5, 9, 17, 40]) if nn > 60 or k % 9 != 1 else r.choice([300, 600])):
        v, e = D.gen_id(r, used)
        dlc = D.pick_dlc(r, 0.15)
        m = D.Msg(v, nm.new(), dlc, ext=e, tx=r.choice(nodes))
        for j in range(r.choice([0, 1, 1, 2, 3, 6])):
            got = D.place(r, dlc, r.randint(1, min(8, dlc * 8)), set(b for s in m.sigs for b in s.bits()))
            if got:
                m.sigs.append(D.Sig(nm.new(12), got[0], 1, got[1], recs=r.sample(nodes, min(nn, r.choice([1, 1, 1, 2, 3, nn])))))
        if r.random() < 0.4:
            m.txmore = [x for x in r.sample(nodes, r.randint(1, nn)) if x != m.tx]
        msgs.append(m)
    return D.Net(msgs, nodes=nodes)


PROBE = """#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include "dbccodeconf.h"
#include "canmonitorutil.h"
#include <type_traits>
namespace outer {
%(fallback)s
namespace inner {
%(inc)s
template<class T, class M> constexpr int same(){return std::is_same<typename std::remove_reference<T>::type, M>::value;}
%(conc)s
template<class T> static void q(const char* u, const char* d){
%(ask)s
}
void run(){
%(run)s
}
}
}
int main(){ outer::inner::run(); }
"""


def probe(ctx, net, drv, utils, out, label):
    """membership table {(prefix, 'rx'|'tx'): {message: 0 absent, 1 present, 2 present with another type}}"""
    cps = [re.sub("-", "_", u[0]) for u in utils]
    txt = PROBE % dict(
        fallback="\n".join("struct %s_rx_t{}; struct %s_tx_t{};" % (c, c) for c in cps),
        inc="\n".join('#include "%s-binutil.h"' % u[0] for u in utils),
        conc="\n".join("template<class T> concept has%d = requires(T t){ t.%s; };" % (i, m.name) for i, m in enumerate(net.msgs)),
        ask="\n".join(
            ' if constexpr (has%d<T>) printf("%%s %%s %d %%d\\n", u, d, %s);' % (
                i, i, "same<decltype(T::%s), %s_t>() ? 1 : 2" % (m.name, m.name) if m.sigs else "2") for i, m in enumerate(net.msgs)),
        run="\n".join(' q<%s_rx_t>("%s","rx"); q<%s_tx_t>("%s","tx");' % (c, u[0], c, u[0]) for c, u in zip(cps, utils)))
    d = ctx.tmp("p")
    src = os.path.join(d, "p.cpp")
    with open(src, "w") as f:
        f.write(txt)
    rc, o, e = sh(["clang++", "-std=c++20", "-w", "-O0"] + P.includes(out) + [src, "-o", os.path.join(d, "p")])
    if rc:
        ctx.violation("%s:probe" % label, "the generated binutil headers cannot be used together in one C++ file\n" + e[:2500], {"in.dbc": net.bytes(), "probe.cpp": txt})
        return None
    rc, o, e = sh([os.path.join(d, "p")])
    tab = {}
    for l in o.splitlines():
        u, dr, i, v = l.split()
        tab.setdefault((u, dr), {})[net.msgs[int(i)].name] = int(v)
    shutil.rmtree(d, ignore_errors=True)
    return tab


def check(ctx):
    ctx.gen()
    jobs = []
    for k in range(ctx.n(80, 900)):
        r = ctx.rng("topo", k)
        net = topo_net(r, k) if k % 3 else D.shape_net(r, k // 3, empty_p=0.2, multi_tx=0.5, maxsig=r.choice([1, 3, 6]))
        jobs.append((k, net, r.choice(["drv", "MyDrv", "D", "can_1"]), r.random() < 0.8))

    def one(j):
        k, net, drv, node = j
        label = "net%d" % k
        out = ctx.generate_ok(net.bytes(), drv, ("-rw", "-nodeutils") if node else ("-rw",), label=label)
        if out is None:
            return
        utils = P.node_utils(net, drv) if node else P.plain_utils(net, drv)
        want = {u[0] + "-binutil" + x for u in utils for x in (".c", ".h")}
        have = set(os.listdir(os.path.join(out, "butl")))
        ctx.ev(len(want | have))
        if want != have:
            ctx.violation(label + ":files", "binutil files: missing %s, unexpected %s" % (sorted(want - have), sorted(have - want)), {"in.dbc": net.bytes()})
            return
        P.write_conf(os.path.join(out, "conf", "dbccodeconf.h"), 64)
        tab = probe(ctx, net, drv, utils, out, label)
        if tab is None:
            return
        bad = []
        for pre, rx, tx in utils:
            for dr, names in (("rx", rx), ("tx", tx)):
                got = tab.get((pre, dr), {})
                for m in net.msgs:
                    w = 1 if m.name in names else 0
                    if got.get(m.name, 0) != w:
                        bad.append("%s %s %s: expected %s, got %s" % (pre, dr, m.name, w, got.get(m.name, 0)))
                ctx.ev(len(net.msgs))
            ctx.ev(0, key=(k, pre))
        if bad:
            ctx.violation(label + ":members", "\n".join(bad[:10]), {"in.dbc": net.bytes()})
            return
        ctx.sample({"case": label, "nodes": len(utils), "messages": len(net.msgs), "rx members": [len(u[1]) for u in utils][:8],
                    "tx members": [len(u[2]) for u in utils][:8]})
        if any(m.sigs for m in net.msgs):
            run_net(ctx, net, label, drv, (), ["recv:%d" % ctx.n(60, 300)], ctx.seed + k, out=out, utils=utils)
        shutil.rmtree(os.path.dirname(out), ignore_errors=True)
    ctx.pmap(one, jobs)
