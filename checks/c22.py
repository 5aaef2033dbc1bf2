import os, re, shutil
from fw import dbc as D
from fw.core import tree

TECHNIQUE = ("runtime monitoring: a differential monitor compares everything the real generator writes for a valid DBC with what it writes for the same DBC with malformed or unsupported lines "
             "inserted; minimising re-runs name the insertion responsible; a marker monitor searches the output for the names of rejected objects")
NOTE = ("About 200 parametrised kinds of insertions (rejected messages with their signals, broken signal lines by token deletion, comments/attributes/value tables/transmitters of unknown or nearly matching ids and names, "
        "unsupported sections), 1 to 30 at a time, at every item boundary of the file, LF and CRLF, with and without node utilities.")
REPORT = dict(
    rule="one evaluation = one generated file compared with the one without the insertions; distinct_nontrivial counts distinct (kind of insertion, place in the file) pairs",
    assumptions=["comments are terminated (an unterminated one legitimately continues)",
                 "definitions which are not signal lines stand between, not inside, messages"])


def sgline(r, nm_, **kw):
    """a canonical signal line with single tokens replaced."""
    t = dict(ind=" ", sg="SG_ ", name=nm_, mux="", colon=" : ", start=str(r.randint(0, 7)), bar="|", len=str(r.randint(1, 8)), at="@", order=r.choice("01"), sign=r.choice("+-"), sp=" ",
             fo="(1,0)", lim=" [0|0]", unit=' "u"', recs="  Zbad0Node")
    t.update(kw)
    return "".join(t[k] for k in "ind sg name mux colon start bar len at order sign sp fo lim unit recs".split())


def broken_sg(r, n):
    nm = "Zbad%dSig" % n
    k = [dict(len="0"), dict(len="65"), dict(len="256"), dict(len="264"), dict(len="4294967304"), dict(len="-8"), dict(len=""), dict(len="x"), dict(len="8.5"), dict(len="0x8"),
         dict(start="-1"), dict(start=""), dict(start="x"), dict(start="1.5"), dict(start="99999999999"), dict(order=""), dict(sign=""), dict(order="2"), dict(sign="*"), dict(order="", sign=""), dict(order="+", sign="1"),
         dict(fo=""), dict(fo="(1)"), dict(fo="(,)"), dict(fo="(x,0)"), dict(fo="(1,y)"), dict(fo="()"), dict(fo="(1;0;0)", lim=""), dict(lim=""), dict(unit=""), dict(unit=' "u'), dict(unit=' u"'), dict(unit=' "a" "b"'), dict(colon=" "), dict(colon=""),
         dict(name=""), dict(name="", colon=": "), dict(bar="", start="", len=""), dict(at="", order="", sign=""), dict(recs=""), dict(sg="SG "), dict(sg="sg_ "), dict(sg="XSG_ "), dict(sg="SG_"), dict(sg="SIG_ "), dict(sg="SG_MUL_VAL_ ")]
    i = r.randrange(len(k) + 6)
    if i < len(k):
        return "sg:" + ",".join("%s=%s" % x for x in sorted(k[i].items())), [sgline(r, nm, **k[i])]
    l = [" SG_", " SG_ " + nm, " SG_ %s :" % nm, " SG_ %s : " % nm, " SG_ %s : 0|8" % nm, " SG_ : : : :"][i - len(k)]
    return "sg:cut%d" % (i - len(k)), [l]


def broken_bo(r, n, net):
    nm = "Zbad%dMsg" % n
    used = {m.id for m in net.msgs}
    ids = [m.dbcid for m in net.msgs]
    free = "555"
    while int(free) in used:
        free = str(int(free) + 1)
    kinds = []
    for d in ("0", "65", "66", "100", "128", "255", "256", "257", "264", "320", "1000", "65536", "65544", "4294967296", "4294967304", "99999999999999999999", "", "x", "-1", "-8"):
        kinds.append(("dlc=" + d, "BO_ %s %s: %s Zbad0Node" % (free, nm, d)))
    for i in ("536870912", "536871467", str(2 ** 30), str(2 ** 31 - 1), str(2 ** 31 + 2 ** 29), "3221225472", "3221226027", "4294967295", "4294967296", str(2 ** 32 + 555), "10000000000", "18446744073709551616", "99999999999999999999999", "-1", "-555", "0x22B", "x", "", "5x", "x5", "1e2"):
        kinds.append(("id=" + i, "BO_ %s %s: 8 Zbad0Node" % (i, nm)))
    kinds += [("noname", "BO_ %s : 8 Zbad0Node" % free), ("nodlc", "BO_ %s %s:" % (free, nm)), ("nodlc2", "BO_ %s %s" % (free, nm)), ("only", "BO_ "), ("id only", "BO_ %s" % free), ("colons", "BO_ : : :"), ("low", "bo_ %s %s: 8 Zbad0Node" % (free, nm)),
              ("noblank", "BO_%s %s: 8 Zbad0Node" % (free, nm)), ("BOX_", "BOX_ %s %s: 8 Zbad0Node" % (free, nm)), ("noid", "BO_ %s: 8 Zbad0Node" % nm)]
    # a rejected message that uses the id or name of a valid one
    i = str(r.choice(ids))
    kinds += [("dup-id-dlc0", "BO_ %s %s: 0 Zbad0Node" % (i, nm)), ("dup-id-dlc65", "BO_ %s %s: 65 Zbad0Node" % (i, nm)), ("dup-name", "BO_ %s %s: 0 Zbad0Node" % (free, r.choice(net.msgs).name)),
              ("dup-both", "BO_ %s %s: 300 Zbad0Node" % (i, r.choice(net.msgs).name))]
    i30 = str((r.choice(ids) & 0x1fffffff) | r.choice([0x20000000, 0x40000000, 0x60000000, 0xA0000000, 0xC0000000, 0x100000000, 0x180000000]))
    kinds += [("alias-id", "BO_ %s %s: 8 Zbad0Node" % (i30, nm))] * 3
    kind, head = r.choice(kinds)
    L = [head]
    low = kind in ("low", "noblank", "BOX_")
    for j in range(0 if low else r.choice([0, 1, 1, 3, 8])):
        names = ["Zbad%dS%d" % (n, j)] * 2 + [s.name for m in net.msgs for s in m.sigs][:20]
        L.append(sgline(r, r.choice(names), fo=r.choice(["(1,0)", "(0.5,3)", "(2,0)"]), mux=r.choice(["", "", " M", " m1"]), unit='"u"'))
        if r.random() < 0.1:
            L.append(broken_sg(r, n)[1][0])
    if r.random() < 0.5:
        L.append("")
    return "bo:" + kind, L


def other(r, n, net):
    """one-line definitions that concern no valid object."""
    used = {m.dbcid for m in net.msgs}
    m = r.choice(net.msgs)
    names = {s.name for s in m.sigs}
    un = ["555", "0", "4294967295", "4294967296", str(2 ** 32 + m.dbcid), str(2 ** 64 + m.dbcid), "-1", "x", "", str(m.dbcid ^ 0x80000000), str(m.id | 0x20000000), str(m.id | 0x40000000), str(m.id | 0xC0000000), "%dx" % m.dbcid, "0x%x" % m.dbcid, "3221225472", "-%d" % m.dbcid]
    ui = r.choice([u for u in un if not (u.isdigit() and int(u) in used)])
    sname = r.choice(m.sigs).name if m.sigs else "X"
    us = [x for x in ["NoSuch", sname + "x", "x" + sname, sname[:-1], sname + "_ro", sname + "_phys", sname.swapcase(), sname + "_", "SG_", ""] if x not in names]
    us = r.choice(us)
    i = m.dbcid
    t = r.choice(["<RollingCounter>", "<Checksum:XOR8:3>", "Zbad%dText" % n, "a; b", "BO_ 5 x: 8 N"])
    v = '1 "Zbad%dVal" 2 "two" ;' % n
    k = r.choice([
        ("cm:bo-unknown", 'CM_ BO_ %s "%s";' % (ui, t)), ("cm:sg-unknown-id", 'CM_ SG_ %s %s "%s";' % (ui, sname, t)), ("cm:sg-unknown", 'CM_ SG_ %d %s "%s";' % (i, us, t)), ("cm:net", 'CM_ "%s";' % t), ("cm:bu", 'CM_ BU_ Node "%s";' % t), ("cm:ev", 'CM_ EV_ Env "%s";' % t),
        ("cm:no-id", 'CM_ BO_ "%s";' % t), ("cm:sg-noname", 'CM_ SG_ %d "%s";' % (i, t)), ("cm:empty", "CM_ ;"), ("cm:bo-empty", "CM_ BO_ ;"), ("cm:noquote", "CM_ BO_ %d text;" % i), ("cm:type", 'CM_ XX_ %d %s "%s";' % (i, sname, t)), ("cm:low", 'cm_ BO_ %d "%s";' % (i, t)), ("cm:X", 'XCM_ BO_ %d "%s";' % (i, t)), ("cm:nob", 'CM_BO_ %d "%s";' % (i, t)),
        ("cm:swap", 'CM_ %d BO_ "%s";' % (i, t)), ("cm:sgswap", 'CM_ SG_ %s %d "%s";' % (sname, i, t)),
        ("val:id", 'VAL_ %s %s %s' % (ui, sname, v)), ("val:sig", 'VAL_ %d %s %s' % (i, us, v)), ("val:env", 'VAL_ Env %s' % v), ("val:odd", 'VAL_ %s %s 1 "a" 2 ;' % (ui, sname)), ("val:empty", "VAL_ ;"), ("val:only", "VAL_ %d ;" % i), ("val:table", "VAL_TABLE_ T%d %s" % (n, v)), ("val:low", 'val_ %d %s %s' % (i, sname, v)), ("val:X", 'XVAL_ %d %s %s' % (i, sname, v)),
        ("val:open", 'VAL_ %s %s 1 "a"' % (ui, sname)), ("val:quote", 'VAL_ %s %s 1 "a 2 ;' % (ui, sname)),
        ("ba:id", 'BA_ "GenMsgCycleTime" BO_ %s 4242;' % ui), ("ba:other", 'BA_ "GenMsgSendType" BO_ %d 4242;' % i), ("ba:cy", 'BA_ "GenMsgCycleTimeFast" BO_ %d 4242;' % i), ("ba:cx", 'BA_ "XGenMsgCycleTime" BO_ %d 4242;' % i), ("ba:low", 'BA_ "genmsgcycletime" BO_ %d 4242;' % i), ("ba:sg", 'BA_ "GenMsgCycleTime" SG_ %d %s 4242;' % (i, sname)),
        ("ba:bu", 'BA_ "GenMsgCycleTime" BU_ Node 4242;'), ("ba:net", 'BA_ "GenMsgCycleTime" 4242;'), ("ba:noval", 'BA_ "GenMsgCycleTime" BO_ ;'), ("ba:empty", "BA_ ;"), ("ba:str", 'BA_ "Text" BO_ %d "some text";' % i), ("ba:noname", 'BA_ BO_ %d 4242;' % i), ("ba:open", 'BA_ "GenMsgCycleTime" BO_ %s 4242' % ui), ("ba:X", 'XBA_ "GenMsgCycleTime" BO_ %d 4242;' % i),
        ("badef:1", 'BA_DEF_ BO_ "GenMsgCycleTime" INT 0 %d;' % i), ("badef:2", 'BA_DEF_DEF_ "GenMsgCycleTime" 4242;'), ("badef:3", 'BA_DEF_REL_ BU_SG_REL_ "X" INT 0 1;'), ("badef:4", 'BA_DEF_SGTYPE_ x INT 0 1;'), ("ba:rel", 'BA_REL_ "GenMsgCycleTime" BU_BO_REL_ Node %d 4242;' % i), ("badef:5", 'BA_DEF_ "Baud" INT 0 1000000;'), ("badef:6", 'BA_SGTYPE_ "GenMsgCycleTime" T : 5;'),
        ("tx:id", "BO_TX_BU_ %s : Zbad0Node,Zbad1Node;" % ui), ("tx:empty", "BO_TX_BU_ ;"), ("tx:noid", "BO_TX_BU_ : Zbad0Node;"), ("tx:only", "BO_TX_BU_ %d ;" % i), ("tx:name", "BO_TX_BU_ %s : Zbad0Node;" % m.name), ("tx:low", "bo_tx_bu_ %d : Zbad0Node;" % i), ("tx:X", "XBO_TX_BU_ %d : Zbad0Node;" % i), ("tx:Y", "BO_TX_BUX_ %d : Zbad0Node;" % i), ("tx:bu", "BU_BO_REL_ %d : Zbad0Node;" % i),
        ("u:valtype", "SIG_VALTYPE_ %d %s : 1;" % (i, sname)), ("u:valtype2", "SIG_VALTYPE_ %d %s : 2;" % (i, sname)), ("u:group", "SIG_GROUP_ %d G%d 1 : %s;" % (i, n, sname)), ("u:mul", "SG_MUL_VAL_ %d %s %s 0-3, 7-9;" % (i, sname, sname)), ("u:env", 'EV_ Env: 0 [0|10] "u" 0 1 DUMMY_NODE_VECTOR0 Vector__XXX;'), ("u:envd", "ENVVAR_DATA_ Env: 5;"),
        ("u:sgtype", 'SGTYPE_ T : 8@1+ (1,0) [0|0] "" 0, v;'), ("u:ref", "SIG_TYPE_REF_ %d %s : T;" % (i, sname)), ("u:cat", 'CAT_DEF_ 1 c 2;'), ("u:cat2", "CAT_ BO_ %d 1;" % i), ("u:filter", "FILTER 1 CAT_ 1;"), ("u:sigrel", 'BU_SG_REL_ Node %d %s;' % (i, sname)), ("u:evrel", "BU_EV_REL_ x;"), ("u:word", "hello world"), ("u:bs", "BS_: 500000 : 1,2"), ("u:bu", "BU_: Zbad0Node Zbad1Node"), ("u:ns", "NS_ :"),
        ("u:sgunits", "SGX_ a : 0|8@1+ (1,0) [0|0] \"\" N"), ("u:num", "12345"), ("u:semi", ";"), ("u:quote", '"'), ("u:quotes", '""'), ("u:slash", "// BO_ 5 X: 8 N"), ("u:hash", "# BO_ 5 X: 8 N"), ("u:tab", "\t"), ("u:blank", "    "), ("u:bin", "\x01\x02\x7f"), ("u:long", "x" * 20000), ("u:bom", "\ufeff"), ("u:uni", "Größe 日本"),
        ("ver:empty", 'VERSION ""'), ("ver:text", 'VERSION "abc"'), ("ver:one", 'VERSION "77"'), ("ver:none", "VERSION"), ("ver:neg", 'VERSION "a77.88"'), ("ver:X", 'XVERSION "77.88"'), ("ver:Y", 'VERSIONS "77.88"'), ("ver:tail", 'VERSION "77.88" x'), ("ver:tail2", 'VERSION "77.88x"'), ("ver:half", 'VERSION "77."'), ("ver:half2", 'VERSION ".77"'), ("ver:fmt", 'NEW_VERSION "77.88"')])
    if r.random() < 0.12:
        # a long comment of something that is not in the network, with lines that look like definitions of the network
        head = r.choice(["CM_ ", "CM_ BU_ Node ", "CM_ EV_ Env ", "CM_ BO_ %s " % ui, "CM_ SG_ %s %s " % (ui, sname), "CM_ SG_ %d %s " % (i, us), "CM_ ENVVAR_ x "])
        L = [head + '"first line'] + [r.choice(["BO_ 555 Zbad%dMsg: 8 Zbad0Node" % n, sgline(r, "Zbad%dS" % n, unit=""), "BO_ %d %s: 64 Zbad0Node" % (i, m.name), "BO_TX_BU_ %d : Zbad0Node;" % i,
                                                "BA_ GenMsgCycleTime BO_ %d 4242;" % i, "CM_ BO_ %d text;" % i, "VAL_ %d %s 1 ;" % (i, sname), "VERSION 77.88", "", ";", "plain text"]) for _ in range(r.randint(1, 6))]
        return "cm:long " + head.split(" ")[1], L + ['last line";']
    return k[0], [k[1]]


def check(ctx):
    ctx.gen()

    def one(k):
        r = ctx.rng("net", k)
        if k % 5 == 4:
            net = D.tagged_net(r, vals=True, comments=True)
        else:
            net = D.shape_net(r, k + (k // 13) % 2 * 6, comments=True, vals=True, empty_p=0.1, **(dict(nmsg=r.choice([1, 2, 4, 9]), maxsig=r.choice([1, 3, 8])) if k % 4 else {}))
        label = "net%d" % k
        eol = r.choice(["\n", "\n", "\n", "\r\n"])
        opts = r.choice([("-rw",), ("-rw", "-nodeutils")])
        secs = net.sections()
        base = net.bytes(sections=secs, eol=eol)

        # [(lines, [insertions before])]; places: item boundaries, and inside messages for broken signal lines
        n = r.choice([1, 1, 2, 3, 5, 10, 30])
        ins = []
        for j in range(n):
            x = r.random()
            place = ("item", r.randrange(10 ** 6))
            if x < 0.3:
                kind, L = broken_bo(r, j, net)
            elif x < 0.5:
                kind, L = broken_sg(r, j)
                if r.random() < 0.85:
                    place = ("in", r.randrange(10 ** 6))
            else:
                kind, L = other(r, j, net)
                # an unterminated table or attribute (of no valid object) ends at the next definition or at the line that ends it
                if kind in ("val:open", "ba:open") and r.random() < 0.4:
                    L = L + ["dummy ;"]
                if kind == "val:quote":
                    L = L + [";"]
            ins.append((kind, L, place))

        def text(which):
            items = []          # (section, lines, is message)
            for name, its in secs:
                for it in its:
                    items.append((name, list(it)))
            slots = {}
            for kind, L, (w, p) in which:
                if w == "item":
                    slots.setdefault(p % (len(items) + 1), []).append(L)
            for kind, L, (w, p) in which:
                if w == "in":
                    bo = [it for nme, it in items if nme == "bo"]
                    t = bo[p % len(bo)]
                    last = max(i for i, l in enumerate(t) if l)
                    t.insert(1 + (p // 1000) % (last + 1), L[0])
            out = []
            for i in range(len(items) + 1):
                for L in slots.get(i, []):
                    out += L
                if i < len(items):
                    out += items[i][1]
            return (eol.join(out) + eol).encode("utf-8")

        def gen(data, lab):
            wd = ctx.tmp("g")
            out, rc, o, e = ctx.generate(data, "drv", opts, wd=wd)
            t = tree(out)
            shutil.rmtree(wd, ignore_errors=True)
            return rc, t
        rc0, t0 = gen(base, "base")
        if rc0 or "lib/drv.c" not in t0:
            ctx.violation(label + ":base", "generator exit %s on a valid DBC" % rc0, {"in.dbc": base})
            return
        data = text(ins)
        rc, t = gen(data, "ins")
        ctx.ev(len([x for x in t0.values() if x is not None]))

        def differs(rc, t):
            return rc != 0 or t != t0
        if differs(rc, t):
            cur = ins[:]
            i = 0
            while i < len(cur) and len(cur) > 1:
                c = cur[:i] + cur[i + 1:]
                if differs(*gen(text(c), "min")):
                    cur = c
                else:
                    i += 1
            data = text(cur)
            rc, t = gen(data, "min")
            d = sorted(f for f in set(t) | set(t0) if t.get(f) != t0.get(f))
            ex = []
            for f in d[:3]:
                a, b = (t0.get(f) or b"").decode("utf-8", "replace").split("\n"), (t.get(f) or b"").decode("utf-8", "replace").split("\n")
                j = next((j for j in range(min(len(a), len(b))) if a[j] != b[j]), min(len(a), len(b)))
                ex.append("%s line %d: %r instead of %r" % (f, j + 1, b[j:j + 2], a[j:j + 2]))
            ctx.violation("ins:" + "+".join(sorted({c[0] for c in cur}))[:100], "inserting %s changes the output (exit %s): %s\n%s" % ([(c[0], c[1], c[2][0]) for c in cur][:3], rc, d[:6], "\n".join(ex)),
                          {"in.dbc": data, "without.dbc": base})
        for f, c in t.items():
            if c and re.search(rb"Zbad\d+(Msg|Sig|Node|Val|Text|S\d)", c):
                ctx.violation("leak:" + label, "%s contains the name of a rejected object: %r" % (f, re.search(rb".*Zbad\d+.*", c).group(0)[:200]), {"in.dbc": data})
        n_items = sum(len(i) for _, i in secs)
        ctx.distinct_add({(kd, w, "head" if p % (n_items + 1) < 2 else "body") for kd, _, (w, p) in ins})
        ctx.count("insertions", len(ins))
        if k < 8:
            ctx.sample({"case": label, "insertions": [(a, b[0][:80], c[0]) for a, b, c in ins][:5], "files compared": len(t0)})
    ctx.pmap(one, range(ctx.n(2500, 30000)))
