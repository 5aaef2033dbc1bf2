import os, re, shutil
from fw import dbc as D
from fw import cli as C
from fw.core import tree
from checks.c12 import strip

TECHNIQUE = ("metamorphic runtime monitoring: the real generator runs on a DBC and on the same DBC after an edit (messages added or removed, signals, comments, value tables, cycle times, receivers or scalings of one message changed); "
             "an offline checker cuts the generated files into macros, structs, prototypes and functions and compares those of every message and node the edit does not concern")
NOTE = ("Edits are placed everywhere in the id order and in the file; nets of 1 to 40 messages (up to 150 in some), all options of layout, scaling, tags, multiplexing, CAN FD; one to twenty edits of one kind at a time and mixed.")
REPORT = dict(
    rule="one evaluation = one generated entity (macro, struct, prototype, function or node file) of a definition outside the edit compared before and after it; distinct_nontrivial counts distinct (edit kind, number of messages) pairs",
    assumptions=["signals of the edited and of the other messages have different names (equally named signals share conversion macros)", "version unchanged"])


def entities(text):
    """{(kind, name, conditions): text} of a generated C file without its comments."""
    code, _ = strip(text, False)
    out, stack = {}, []
    cur, name, kind, depth = None, None, None, 0

    def put(k, n, body):
        key = (k, n, tuple(stack0))
        while key in out and out[key] != body:
            key += ("again",)
        out[key] = body
    stack0 = []
    for l in code.split("\n"):
        l = re.sub(r"\s+", " ", l).strip()
        if not l or l == 'extern "C" {' or (l == "}" and cur is None):
            continue
        if cur is not None:
            cur.append(l)
            depth += l.count("{") - l.count("}")
            if depth == 0 and (("}" in l) or l.endswith(";")) and not (kind == "typedef" and not l.endswith(";")):
                if kind == "typedef":
                    name = re.sub(r".*\}\s*", "", l).rstrip("; ")
                elif kind == "function" and "{" not in " ".join(cur):
                    kind = "prototype"
                put(kind, name, "\n".join(cur))
                cur = None
            continue
        if l.startswith("#"):
            w = l[1:].strip().split(None, 1)
            if w[0] in ("if", "ifdef", "ifndef"):
                stack.append(l)
            elif w[0] in ("else", "elif") and stack:
                stack[-1] += " / " + l
            elif w[0] == "endif" and stack:
                stack.pop()
            elif w[0] == "define":
                stack0 = list(stack)
                n = re.match(r"\w+", w[1])
                put("macro", n[0] if n else w[1], w[1])
            else:
                stack0 = list(stack)
                put("directive", l, l)
            stack0 = list(stack)
            continue
        stack0 = list(stack)
        cur, depth = [l], l.count("{") - l.count("}")
        if l.startswith("typedef"):
            kind, name = "typedef", None
        else:
            n = re.search(r"(\w+)\s*\(", l)
            kind, name = "function", n[1] if n else l
        if depth == 0 and (l.endswith(";") or (l.endswith("}") and "{" in l)):
            if kind == "typedef":
                name = l
            elif "{" not in l:
                kind = "prototype" if "(" in l else "object"
            put(kind, name, l)
            cur = None
    return out


def belongs(name, body, words):
    """does the entity belong to one of the definitions?"""
    return any(w in words for w in re.findall(r"\w+", name))


EDITS = ["add", "remove", "signal", "comment", "vals", "cycle", "receiver", "scaling", "dlc", "id", "rename", "tx", "order", "node"]


def edit(r, net, kind, nm):
    """edits a copy of net; returns (net, names of the concerned messages, concerned nodes)"""
    n = net.copy()
    hit, nodes = set(), set()

    def touch(m):
        hit.add(m.name)
        nodes.update(m.receivers() + m.transmitters())
    if kind == "add":
        used = {m.id for m in n.msgs}
        for _ in range(r.choice([1, 1, 2, 5, 20])):
            v, e = D.gen_id(r, used)
            dlc = r.choice([1, 2, 8, 8, 8, 64])
            m = D.Msg(v, nm.new(), dlc, [], ext=e, tx=r.choice(n.all_nodes() + ["NewNode", "Vector__XXX"]))
            for _ in range(r.choice([0, 1, 3, 9])):
                got = D.place(r, dlc, r.randint(1, min(32, dlc * 8)), set(b for s in m.sigs for b in s.bits()))
                if got:
                    L = len(got[2])
                    f, o = D.pick_scaling(r, r.choice(["none", "int", "float"]))
                    s = D.Sig(nm.new(), got[0], L, got[1], r.random() < 0.5, f, o, recs=[r.choice(n.all_nodes() + ["NewNode"])])
                    if s.kind == 1 and not D.phys_ok(s):
                        s.ftxt, s.otxt = "1", "0"
                    if r.random() < 0.3:
                        s.vals = [(i, nm.new()) for i in range(3)]
                    m.sigs.append(s)
            if r.random() < 0.3:
                m.cycle = 77
            n.msgs.insert(r.randint(0, len(n.msgs)), m)
            touch(m)
    elif kind == "remove":
        for _ in range(r.choice([1, 1, 2, 5])):
            if len(n.msgs) > 1:
                touch(n.msgs.pop(r.randrange(len(n.msgs))))
    elif kind == "order":
        r.shuffle(n.msgs)
    elif kind == "node":
        n.nodes = ["Extra1"] + n.all_nodes() + ["Extra2"]
    else:
        for m in r.sample(n.msgs, min(len(n.msgs), r.choice([1, 1, 2, 4]))):
            touch(m)
            s = r.choice(m.sigs) if m.sigs else None
            if kind == "signal":
                if s and r.random() < 0.5:
                    m.sigs.remove(s)
                else:
                    got = D.place(r, m.dlc, r.randint(1, min(12, m.dlc * 8)), set(b for s in m.sigs for b in s.bits()))
                    if got:
                        m.sigs.insert(r.randint(0, len(m.sigs)), D.Sig(nm.new(), got[0], len(got[2]), got[1], recs=[r.choice(n.all_nodes() or ["N"])]))
            elif kind == "comment":
                m.comment = "a new text"
                if s and not s.comment:
                    s.comment = "another\nnew text; BO_ 1 X: 8 Y"
            elif kind == "vals" and s:
                s.vals = [(i, nm.new()) for i in range(r.choice([1, 5]))]
            elif kind == "cycle":
                m.cycle = (m.cycle or 0) + 13
            elif kind == "receiver" and s:
                s.recs = [x for x in s.recs if r.random() < 0.5] + [r.choice((n.all_nodes() or []) + ["NewNode"])]
            elif kind == "scaling" and s:
                s.ftxt, s.otxt = ("0.5", "3") if s.ftxt == "1" else ("1", "0")
            elif kind == "dlc":
                m.dlc = min(64, m.dlc + r.choice([1, 7, 64]))
            elif kind == "id":
                used = {x.id for x in n.msgs}
                m.id, m.ext = D.gen_id(r, used)
            elif kind == "rename":
                m.name = nm.new()
            elif kind == "tx":
                m.tx = "NewNode"
            touch(m)
    return n, hit, nodes


def check(ctx):
    ctx.gen()

    def one(k):
        r = ctx.rng("net", k)
        net = D.tagged_net(r, comments=True, vals=True) if k % 5 == 0 else D.shape_net(r, k, comments=True, vals=True, overlap_p=0.2, empty_p=0.1, share_names=False)
        if k % 29 == 3:
            net = D.shape_net(r, k, nmsg=r.choice([100, 150]), maxsig=4, share_names=False)
        # names of all signals pairwise different
        seen, nm = set(), D.Names(r, 0.02)
        for m in net.msgs:
            for s in m.sigs:
                if s.name in seen:
                    s.name = nm.new() + "_%d" % len(seen)
                seen.add(s.name)
                nm.used.add(s.name.lower())
            nm.used.add(m.name.lower())
        drv = r.choice(["drv", "MyDrv"])
        node = r.random() < 0.6
        opts = ("-rw", "-nodeutils") if node else ("-rw",)
        kind = EDITS[k % len(EDITS)]
        label = "%s-%d" % (kind, k)
        n2, hit, nodes = edit(r, net, kind, nm)
        a, b = net.bytes(), n2.bytes()
        oa, ob = ctx.generate_ok(a, drv, opts, label=label), ctx.generate_ok(b, drv, opts, label=label + "-edited")
        if oa is None or ob is None:
            return
        ta, tb = C.files(tree(oa)), C.files(tree(ob))
        names = set()
        for n in (net, n2):
            for m in n.msgs:
                if m.name in hit:
                    names.add(m.name)
                    names.update(x for s in m.sigs for x in (s.name, s.field))
        low = drv.lower()
        bad = []

        def mine(key):
            n = key[1]
            return any(n == x or n.startswith(x + "_") or n.endswith("_" + x) or "_%s_" % x in n for x in names) or "MAX_DLC_VALUE" in n
        for p in ("lib/%s.h" % low, "lib/%s.c" % low, "lib/%s-fmon.h" % low, "usr/%s-fmon.c" % low):
            if p not in ta or p not in tb:
                bad.append("%s is missing" % p)
                continue
            ea, eb = entities(ta[p].decode("utf-8", "replace")), entities(tb[p].decode("utf-8", "replace"))
            for key in sorted(set(ea) | set(eb), key=str):
                if mine(key):
                    continue
                ctx.ev()
                if ea.get(key) != eb.get(key):
                    bad.append("%s: %s %s %r became %r" % (p, key[0], key[1], (ea.get(key) or "nothing")[:300], (eb.get(key) or "nothing")[:300]))
        for p in ("conf/%s-config.h" % low, "conf/dbccodeconf.h", "inc/canmonitorutil.h"):
            ctx.ev()
            if ta.get(p) != tb.get(p):
                bad.append("%s changed" % p)
        if node:
            for p in sorted(set(ta) | set(tb)):
                m = re.match(r"butl/(.*)_%s-binutil\.[ch]$" % re.escape(low), p)
                if m and m[1] not in {x.lower() for x in nodes} and kind != "order":
                    ctx.ev()
                    if ta.get(p) != tb.get(p):
                        bad.append("%s of a node without part in the edit changed" % p)
        if bad:
            ctx.violation(label, "edit %s of %s\n%s" % (kind, sorted(hit)[:5], "\n".join(bad[:8])), {"in.dbc": a, "edited.dbc": b})
        ctx.ev(0, key=(kind, len(net.msgs)))
        ctx.sample({"case": label, "messages": len(net.msgs), "edited": sorted(hit)[:4], "names": len(names)})
        for o in (oa, ob):
            shutil.rmtree(os.path.dirname(o), ignore_errors=True)
    ctx.pmap(one, range(ctx.n(336, 5000)))
