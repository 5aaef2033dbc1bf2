import os, re, shutil
from fw import dbc as D
from fw import pkg as P
from fw import cli as C
from fw.core import tree
from fw.flow import run_net
from checks.c09 import probe

TECHNIQUE = ("metamorphic runtime monitoring: the real generator runs on a DBC and on permutations of its definitions; an offline checker compares the core files byte by byte and, where "
             "binutil files differ, their members (C++ probe) and executed Receive functions with the topology")
NOTE = ("Messages, signals and the CM_/VAL_/BA_/BO_TX_BU_ lines (also interleaved with each other) are reversed, rotated, sorted by id or name and shuffled; nets up to 260 messages and 200 "
        "signals per message, with tags, comments, value tables, multiplexed overlaps, equal names in several messages, empty messages.")
REPORT = dict(
    rule="one evaluation = one file of a permuted DBC compared, or one Receive call / membership answer of a differing binutil; distinct_nontrivial counts distinct (DBC, permutation) pairs that changed the text",
    assumptions=["signals of one message have different start bits; ids are distinct"])


def permute(r, net, how):
    n = net.copy()
    if how == "reverse":
        n.msgs.reverse()
        for m in n.msgs:
            m.sigs.reverse()
    elif how == "rotate":
        q = r.randrange(len(n.msgs))
        n.msgs = n.msgs[q:] + n.msgs[:q]
        for m in n.msgs:
            q = r.randrange(len(m.sigs)) if m.sigs else 0
            m.sigs = m.sigs[q:] + m.sigs[:q]
    elif how == "sorted":
        n.msgs.sort(key=lambda m: m.id)
        for m in n.msgs:
            m.sigs.sort(key=lambda s: s.start)
    elif how == "byname":
        n.msgs.sort(key=lambda m: m.name)
        for m in n.msgs:
            m.sigs.sort(key=lambda s: s.name)
    elif how == "msgs":
        r.shuffle(n.msgs)
    elif how == "sigs":
        for m in n.msgs:
            r.shuffle(m.sigs)
    elif how == "all":
        r.shuffle(n.msgs)
        for m in n.msgs:
            r.shuffle(m.sigs)
    secs = n.sections()
    if how in ("lines", "all", "reverse"):
        names = ("tx", "cm", "ba", "val")
        items = [it for nme, its in secs if nme in names for it in its]
        if how == "reverse":
            items.reverse()
        else:
            r.shuffle(items)
        out = []
        for nme, its in secs:
            if nme == "tx":
                out.append(("mixed", items))
            elif nme not in names:
                out.append((nme, its))
        if r.random() < 0.5:
            # BA_DEF_ before the mixed lines, as in usual files
            i = [q for q, x in enumerate(out) if x[0] == "badef"][0]
            b = out.pop(i)
            out.insert([q for q, x in enumerate(out) if x[0] == "mixed"][0], b)
        secs = out
    return n, n.bytes(sections=secs)


def check(ctx):
    ctx.gen()

    def one(k):
        r = ctx.rng("net", k)
        node = k % 2 == 0
        if k % 3 == 0:
            net = D.tagged_net(r, comments=True, vals=True, overlap_p=0.2)
        else:
            net = D.shape_net(r, k, comments=True, vals=True, overlap_p=0.3, empty_p=0.1)
        for m in net.msgs:
            seen = set()
            m.sigs = [s for s in m.sigs if not (s.start in seen or seen.add(s.start))]
        drv = r.choice(["drv", "MyDrv"])
        label = "net%d" % k
        opts = ("-rw", "-nodeutils") if node else ("-rw",)
        base = net.bytes()
        out = ctx.generate_ok(base, drv, opts, label=label)
        if out is None:
            return
        ref = C.files(tree(out))
        hows = ["reverse", "all", r.choice(["rotate", "sorted", "byname"]), r.choice(["msgs", "sigs", "lines"])]
        if ctx.thorough:
            hows = ["reverse", "all", "all", "all", "rotate", "sorted", "byname", "msgs", "sigs", "lines"]
        for q, how in enumerate(hows):
            n2, data = permute(ctx.rng("perm", k, q), net, how)
            o2 = ctx.generate_ok(data, drv, opts, label="%s-%s" % (label, how))
            if o2 is None:
                return
            t = C.files(tree(o2))
            bad = []
            differ = []
            if set(t) != set(ref):
                bad.append("files differ: %s" % sorted(set(t) ^ set(ref)))
            for p in sorted(set(t) & set(ref)):
                ctx.ev()
                if t[p] != ref[p]:
                    if p in ("lib/%s.c" % drv.lower(), "lib/%s.h" % drv.lower()):
                        a, b = ref[p].decode("utf-8", "replace").split("\n"), t[p].decode("utf-8", "replace").split("\n")
                        i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                        bad.append("%s line %d: %r became %r" % (p, i + 1, a[i:i + 1], b[i:i + 1]))
                    elif p.startswith("butl/"):
                        differ.append(p)
            if bad:
                ctx.violation("%s-%s" % (label, how), "permutation %s\n%s" % (how, "\n".join(bad[:8])), {"in.dbc": base, "permuted.dbc": data})
            elif differ:
                ctx.count("differing_binutil_files", len(differ))
                P.write_conf(os.path.join(o2, "conf", "dbccodeconf.h"), 64, "double", P.methods_of([net]))
                utils = [u for u in (P.node_utils(net, drv) if node else P.plain_utils(net, drv)) if any("/%s-binutil" % u[0] in p for p in differ)]
                tab = probe(ctx, net, drv, utils, o2, label)
                if tab is None:
                    return
                for pre, rx, tx in utils:
                    for dr, names in (("rx", rx), ("tx", tx)):
                        got = sorted(x for x, v in tab.get((pre, dr), {}).items())
                        ctx.ev(len(net.msgs))
                        if got != sorted(names):
                            ctx.violation("%s-%s-members" % (label, how), "permutation %s: %s %s has %s instead of %s" % (how, pre, dr, got[:10], sorted(names)[:10]), {"in.dbc": base, "permuted.dbc": data})
                if any(m.sigs for m in net.msgs):
                    run_net(ctx, net, "%s-%s" % (label, how), drv, (), ["recv:60"], ctx.seed + k, out=o2, utils=utils)
            if data != base:
                ctx.ev(0, key=(k, how, q))
            shutil.rmtree(os.path.dirname(o2), ignore_errors=True)
        ctx.sample({"case": label, "messages": len(net.msgs), "permutations": hows})
        shutil.rmtree(os.path.dirname(out), ignore_errors=True)
    ctx.pmap(one, range(ctx.n(150, 1200)))
