import os, re, shutil
from fw import dbc as D
from fw import pkg as P
from fw.core import sh, tree

TECHNIQUE = ("runtime monitoring with provenance markers: every comment line of the workload DBC carries a unique marker; an offline checker lexes the generated files "
             "into code and comments and locates every marker; a differential monitor compares the code left after removing all comments (own lexer, "
             "with and without trigraphs, and the real preprocessor) with that of the same DBC without the comments")
NOTE = ("Comments of 1 to 12 lines on messages, signals, nodes, environment variables, unknown ids and unknown signals, filled with DBC keywords and whole definitions, "
        "C comment markers, trailing backslashes and trigraphs, semicolons, non-ASCII text and very long lines, LF and CRLF files.")
REPORT = dict(
    rule="one evaluation = one marked comment line located in all generated files, or one generated file compared after comment removal; distinct_nontrivial counts "
         "distinct (object kind, hostile text) pairs",
    assumptions=["comment texts contain no double quotes and no control characters", "comments are terminated"])

HOSTILE = ["BO_ 99 Evil: 8 EvilNode", " SG_ Evil : 0|8@1+ (1,0) [0|0]", "SG_ Evil : 0|8@1+ (1,0) [0|0]", "BA_ GenMsgCycleTime BO_ %(id)d 4242;", "VAL_ %(id)d %(sig)s 0 x 1 y ;",
           "BO_TX_BU_ %(id)d : EvilNode;", "VERSION 9.9", "version 8.8", "CM_ BO_ %(id)d nested;", "CM_ SG_ %(id)d %(sig)s nested", "CM_ ", "BU_: Evil", "BS_:", "NS_ :", "end;", ";", "a ; b;",
           "*/ int x; /*", "/*", "*/", "//", "// x", "\\", "ends with \\", "two \\\\", "tri ??/", "??/", "blank after \\ ", "tab after \\\t", "??/ ", "#define X 1", "#error no", "#endif", "#else", "#if 0", "@ % %s %n %d",
           "'", "Größe °C", "日本語", "é", "µ", "<RollingCounter", "RollingCounter>", "<rollingcounter>", "<Checksum>", "<Checksum:XOR8>", "Checksum:XOR8:3", "<Check:XOR8:3>", "<Checksum:XOR8:3:4>", "<Checksum:XOR8>", "<Checksum:XOR8:3", "<xChecksum:XOR8:3>", "< Checksum:XOR8:3>", "Checksum:XOR8:3>", "<Checksum XOR8:3>", "<RollingCounter >", "<Rolling Counter>", "< >", "<>", ">", "}",
           "{", "};", "typedef struct", "%(msg)s_DLC", "%(msg)s_t", "%(sig)s", "_phys", "[0|255]", "(1,0)", ":", " : ", "|", "@1+", "0", "-1", "x" * 300, "w " * 700, "EV_ x: 0", "SIG_VALTYPE_ 1 x : 1;", "BA_DEF_ BO_ x INT 0 1;", "VAL_TABLE_ a 1 x ;",
           "trailing space ", "  leading", "\tleading tab", "$", "`", "BO_", "BO_ ", "BO_ 5", "SG_ ", " SG_ ", "\\n", "\\\"".replace('"', ''), "?" * 5, "CM_ SG_ 1 x", "EvilNode"]


PUNCT = [chr(c) for c in range(33, 127) if not chr(c).isalnum() and chr(c) not in '"_'] + list(".,!?:;)") + ["...", ".\\n", "--", "\u00a0", "\u2026"]


def strip(text, trigraphs):
    """(code, comments): translation phases 1-3. comments: list of (position in code, text)."""
    text = text.replace("\r\n", "\n")
    if trigraphs:
        for a, b in (("??/", "\\"), ("??=", "#"), ("??'", "^"), ("??(", "["), ("??)", "]"), ("??!", "|"), ("??<", "{"), ("??>", "}"), ("??-", "~")):
            text = text.replace(a, b)
    text = re.sub(r"\\[ \t\v\f]*\n", "", text)
    code, com = [], []
    i, n, ln = 0, len(text), 0
    while i < n:
        c = text[i]
        if text.startswith("//", i):
            j = text.find("\n", i)
            j = n if j < 0 else j
            com.append((ln, text[i + 2:j]))
            i = j
        elif text.startswith("/*", i):
            j = text.find("*/", i + 2)
            j = n if j < 0 else j
            com += [(ln, x) for x in text[i + 2:j].split("\n")]
            code.append(" ")
            ln += 1
            i = j + 2
        elif c in "\"'":
            j = i + 1
            while j < n and text[j] != c and text[j] != "\n":
                j += 2 if text[j] == "\\" else 1
            code.append(text[i:j + 1])
            ln += j + 1 - i
            i = j + 1
        else:
            code.append(c)
            ln += 1
            i += 1
    return "".join(code), com


def norm(code):
    return [l for l in (re.sub(r"\s+", " ", x).strip() for x in code.split("\n")) if l]


def mk(r, k):
    net = D.shape_net(r, k, nmsg=r.choice([1, 2, 4, 8]), maxsig=r.choice([1, 3, 6]), vals=k % 3 == 0, empty_p=0.15, scaling="mixed") if k % 13 > 1 else D.shape_net(
        r, k + 4, vals=True, empty_p=0.1)
    marks = {}      # marker -> (message name, signal or None, order, text)
    groups = []
    cnt = [0]
    keys = set()

    def text(kind, m, s):
        while True:
            t, mine = text1(kind, m, s)
            # pieces that happen to add up to a documented tag are out of the domain
            if "<RollingCounter>" not in t and not re.search(r"<Checksum:[^:>]*:[^:>]*>", t):
                return t, mine

    def text1(kind, m, s):
        n = r.choice([1, 1, 2, 3, 5, 12]) if r.random() < 0.97 else r.randint(40, 300)
        lines, mine = [], []
        sub = dict(id=m.dbcid, sig=s.name if s else (m.sigs[0].name if m.sigs else "none"), msg=m.name)
        for q in range(n):
            h = r.choice(HOSTILE)
            keys.add((kind, h))
            h = re.sub(r"%\((\w+)\)[ds]", lambda x: str(sub[x.group(1)]), h)
            mk_ = "Zq%dQz" % cnt[0]
            cnt[0] += 1
            form = r.random()
            if form < 0.45:
                l = h + (mk_ if h.endswith(" ") or r.random() < 0.1 else " " + mk_)
            elif form < 0.9:
                l = mk_ + " " + h
            else:
                l = h + mk_ + h
            if r.random() < 0.5:
                l += r.choice(PUNCT)
            if r.random() < 0.2:
                l = r.choice(PUNCT) + l
            lines.append(l)
            mine.append((mk_, l))
            if r.random() < 0.1:
                lines.append(r.choice(["", " "]))
        if r.random() < 0.02:
            lines[0] += " long" * 5000
        return "\n".join(lines), mine

    extra = []
    for m in net.msgs:
        if r.random() < 0.6:
            m.comment, mine = text("BO", m, None)
            groups.append((m.name, None, mine))
        for s in m.sigs:
            if r.random() < 0.6:
                s.comment, mine = text("SG", m, s)
                groups.append((m.name, s.field, mine))
    ids = {m.dbcid for m in net.msgs}
    for kind in ("", "BU_ %s " % (net.nodes or ["N"])[0], "EV_ Env ", "BO_ %d " % (r.choice(sorted(ids)) ^ 0x80000000), "SG_ %d NoSuch " % r.choice(sorted(ids)),
                 "BO_ 4294967295 ", "SG_ 12 NoSuch ", "BO_ 3221225472 ", "BO_ x "):
        if r.random() < 0.5:
            w = kind.split()
            if len(w) > 1 and w[1].isdigit() and w[0] == "BO_" and int(w[1]) in ids:
                continue
            m = r.choice(net.msgs)
            t, mine = text(w[0] if w else "none", m, None)
            extra += ('CM_ %s"%s";' % (kind, t)).split("\n")
            groups.append((None, None, mine))
    if r.random() < 0.5:
        net.extra_tail = extra
        pre = []
    else:
        net.extra_tail, pre = [], extra
    return net, groups, pre, extra, keys


def check(ctx):
    ctx.gen()

    def one(k):
        r = ctx.rng("net", k)
        net, groups, pre, extra, keys = mk(r, k)
        drv = r.choice(["drv", "MyDrv"])
        label = "net%d" % k
        eol = r.choice(["\n", "\n", "\r\n"])
        opts = ("-rw", "-nodeutils") if k % 3 == 0 else ("-rw",)
        secs = net.sections()
        if pre:
            i = [q for q, (nme, _) in enumerate(secs) if nme == "cm"][0]
            secs[i] = ("cm", r.sample(secs[i][1] + [pre], len(secs[i][1]) + 1))
        if k % 2 == 0:
            # objects without a comment text, among the commented ones: nobody else's text may land there
            i = [q for q, (nme, _) in enumerate(secs) if nme == "cm"][0]
            cm = list(secs[i][1])
            for m in net.msgs:
                for o, t in [(m, "BO_ %d" % m.dbcid)] + [(s, "SG_ %d %s" % (m.dbcid, s.name)) for s in m.sigs]:
                    if not o.comment and r.random() < 0.4:
                        cm.insert(r.randint(0, len(cm)), ['CM_ %s "%s";' % (t, r.choice(["", "", " "]))])
                        keys.add((t[:2], "empty"))
            secs[i] = ("cm", cm)
        if not pre and r.random() < 0.2:
            # comments before everything they speak about
            i = [q for q, (nme, _) in enumerate(secs) if nme == "cm"][0]
            cm = secs.pop(i)
            secs.insert(1, cm)
        bare = net.copy()
        bare.extra_tail = []
        data, base = net.bytes(sections=secs, eol=eol), bare.bytes(with_comments=False)
        out = ctx.generate_ok(data, drv, opts, label=label)
        outb = ctx.generate_ok(base, drv, opts, label=label + "-bare")
        if out is None or outb is None:
            return
        files = {"in.dbc": data, "bare.dbc": base}
        a, b = tree(out), tree(outb)
        bad = []
        if set(a) != set(b):
            ctx.violation(label + ":files", "files differ with comments: %s" % sorted(set(a) ^ set(b)), files)
            return
        hdr = "lib/%s.h" % drv.lower()
        for f in sorted(a):
            if a[f] is None:
                continue
            ta, tb = a[f].decode("utf-8", "replace"), b[f].decode("utf-8", "replace")
            for tri in (False, True):
                ca, cb = norm(strip(ta, tri)[0]), norm(strip(tb, tri)[0])
                ctx.ev()
                if ca != cb:
                    d = [(x, y) for x, y in zip(ca, cb) if x != y][:1] or [(ca[len(cb):][:1], cb[len(ca):][:1])]
                    bad.append("%s: code differs with comments (trigraphs %s): %r" % (f, tri, d[0]))
            if f != hdr and re.search(r"Zq\d+Qz", ta):
                bad.append("%s contains comment text %s" % (f, re.search(r".*Zq\d+Qz.*", ta).group(0)[:200]))
        # the real preprocessor
        for cfg in ([], P.FEATURES):
            rr = []
            for o in (out, outb):
                P.write_conf(os.path.join(o, "conf", "dbccodeconf.h"), 64)
                for std in ("c99", "gnu11"):
                    p = sh(["gcc", "-std=" + std, "-w", "-E", "-P"] + ["-D%s_%s" % (drv.upper(), c) for c in cfg] + P.includes(o) + [os.path.join(o, "lib", drv.lower() + ".c")])
                    rr.append((p[0], re.sub(r"\s+", " ", p[1])))
            ctx.ev()
            if rr[:2] != rr[2:]:
                bad.append("preprocessed core source differs with comments, config %s" % cfg)
        # placement
        text = a[hdr].decode("utf-8", "replace").replace("\r\n", "\n")
        code, com = strip(text, False)
        where = {}
        for pos, t in com:
            for x in set(re.findall(r"Zq\d+Qz", t)):
                where.setdefault(x, []).append((pos, t))
        spans = {}
        names = [m.name for m in net.msgs]
        decl = []
        for mname in names:
            mm = re.search(r"#define %s_\w+" % re.escape(mname), code)
            spans[mname] = mm.start() if mm else None
        for mname, field, mine in groups:
            if mname is None:
                for x, t in mine:
                    ctx.ev()
                    if x in where:
                        bad.append("comment of another object appears: %r" % t[:120])
                continue
            if field is None:
                target = [spans[mname]]
            else:
                e = re.search(r"\}\s*%s_t\s*;" % re.escape(mname), code)
                st = code.rfind("struct", 0, e.start()) if e else 0
                target = [st + q.start() for q in re.finditer(r"\b\w+\s+%s\s*(?::\s*\d+\s*)?;" % re.escape(field), code[st:e.end()])] if e else []
            if not target or None in target:
                bad.append("cannot find the definition of %s %s" % (mname, field or ""))
                continue
            hits = {x: where.get(x, []) for x, _ in mine}
            for n, (x, t) in enumerate(mine):
                ctx.ev()
                h = hits[x]
                if len(h) != len(target):
                    bad.append("line %r of %s %s: %d definitions but %d appearances" % (t[:100], mname, field or "", len(target), len(h)))
                    continue
                for q, (pos, ct) in enumerate(h):
                    # between the comment and its definition there is no code
                    if code[pos:target[q]].strip():
                        bad.append("line %r of %s %s is not directly before its definition: %r" % (t[:100], mname, field or "", code[pos:target[q]].strip()[:150]))
                    if t.strip() not in ct:
                        bad.append("line %r of %s %s came out as %r" % (t[:200], mname, field or "", ct[:200]))
            order = [p for x, _ in mine for p in [text.find(x)]]
            if order != sorted(order):
                bad.append("lines of %s %s out of order" % (mname, field or ""))
        if bad:
            ctx.violation(label, "\n".join(bad[:10]), files)
        ctx.distinct_add(keys)
        ctx.sample({"case": label, "commented objects": len(groups), "marked lines": sum(len(g[2]) for g in groups), "markers found": sum(len(w) for w in where.values())})
        for o in (out, outb):
            shutil.rmtree(os.path.dirname(o), ignore_errors=True)
    ctx.pmap(one, range(ctx.n(260, 3000)))
