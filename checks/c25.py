import re, shutil, os
from fw import dbc as D
from fw import cli as C
from fw.core import tree

TECHNIQUE = ("metamorphic runtime monitoring: the real generator runs on a DBC and on differently formatted spellings of the same DBC; an offline checker compares all generated files byte by byte; "
             "re-runs with one kind of formatting each name the responsible one")
NOTE = ("Every line type the generator reads (BO_, SG_, BO_TX_BU_, CM_, VAL_, BA_, VERSION) gets minimal, maximal and random blanks and tabs at every place the format allows; line ends LF, CRLF "
        "and mixed, byte order mark, blank lines, indented signal lines, trailing blanks and a missing last newline are combined. Blanks inside start|length@order+sign between order and sign, "
        "indented BO_ lines and line breaks inside definitions (other than comments, VAL_, BA_) are outside the statement.")
REPORT = dict(
    rule="one evaluation = one generated file compared with the one of the canonical formatting; distinct_nontrivial counts distinct (DBC, formatting mode) pairs that changed the text",
    assumptions=["the text of quoted strings is not changed (except CR at the line ends of comments)"])

KINDS = ["bo", "sg", "sgindent", "tx", "cm", "val", "ba", "version", "trail", "blanklines", "eol", "bom", "noeof", "bu", "wrap"]


class Ws:
    def __init__(w, r, mode):
        w.r, w.mode = r, mode

    def any(w, canon):
        """blanks where none is needed."""
        if w.mode == "min":
            return ""
        if w.mode == "max":
            return w.r.choice(["  ", "\t", " \t ", "    "])
        return w.r.choice([canon, "", " ", "  ", "\t", " \t"])

    def some(w, canon=" "):
        """blanks where at least one is needed."""
        if w.mode == "min":
            return w.r.choice([" ", " ", "\t"])
        if w.mode == "max":
            return w.r.choice(["  ", "\t\t", " \t ", "      "])
        return w.r.choice([canon, " ", "  ", "\t", " \t", "   "])


BO = re.compile(r"^BO_ (\d+) (\S+): (\d+) (\S+)$")
SG = re.compile(r'^ SG_ (\S+?)( \S+)? : (\d+)\|(\d+)@([01])([-+]) \(([^,]*),([^)]*)\) \[([^|]*)\|([^\]]*)\] "([^"]*)"  (.*)$')
TX = re.compile(r"^BO_TX_BU_ (\d+) : (.*);$")
BA = re.compile(r'^BA_ "([^"]*)" BO_ (\d+) (\d+);$')
VAL = re.compile(r"^VAL_ (\d+) (\S+) (.*);$", re.S)


def relax_item(lines, w, on):
    """one item (list of lines) in another formatting."""
    if not lines:
        return []
    l = lines[0]
    m = BO.match(l)
    if m:
        if "bo" in on:
            l = "BO_" + w.some() + m[1] + w.some() + m[2] + w.any("") + ":" + w.any(" ") + m[3] + w.some() + m[4]
        return [l]
    m = SG.match(l)
    if m:
        if "sg" in on:
            a = w.any
            ind = w.r.choice(["", " ", "  ", "\t", "\t\t", "       "]) if "sgindent" in on else " "
            mux = w.some() + m[2].strip() if m[2] else ""
            recs = (a("") + "," + a("")).join(m[12].split(","))
            l = (ind + "SG_" + w.some() + m[1] + mux + a(" ") + ":" + a(" ") + m[3] + a("") + "|" + a("") + m[4] + a("") + "@" + a("") + m[5] + m[6] + a(" ") + "(" + a("") + m[7] + a("") + "," + a("") + m[8] + a("") +
                 ")" + a(" ") + "[" + a("") + m[9] + a("") + "|" + a("") + m[10] + a("") + "]" + a(" ") + '"' + m[11] + '"' + a("  ") + recs)
        elif "sgindent" in on:
            l = w.r.choice(["", "  ", "\t", "     "]) + l[1:]
        return [l]
    m = TX.match(l)
    if m:
        if "tx" in on:
            l = "BO_TX_BU_" + w.some() + m[1] + w.any(" ") + ":" + w.any(" ") + (w.any("") + "," + w.any("")).join(m[2].split(",")) + w.any("") + ";"
        return [l]
    if l.startswith("CM_ ") and "cm" in on:
        out = lines[:]
        head, q, rest = out[0].partition('"')
        t = head.split()
        out[0] = "CM_" + "".join(w.some() + x for x in t[1:]) + (w.any(" ") if len(t) > 1 else w.any(" ")) + q + rest
        if out[-1].endswith('";'):
            out[-1] = out[-1][:-1] + w.any("") + ";"
        return out
    if "wrap" in on and len(lines) == 1:
        # a long table or attribute on several lines
        m = VAL.match(l)
        t = re.findall(r'(-?\d+) "([^"]*)"', m[3]) if m else []
        if t and w.r.random() < 0.6:
            out = ["VAL_ %s %s" % (m[1], m[2])]
            for v, x in t:
                e = '%s "%s"' % (v, x)
                if w.mode == "max" or w.r.random() < 0.4:
                    out.append(w.r.choice([" ", "  ", "\t"]) + e)
                else:
                    out[-1] += " " + e
            if w.r.random() < 0.5:
                out.append(" ;")
            else:
                out[-1] += " ;"
            return out
        m = BA.match(l)
        if m and w.r.random() < 0.6:
            return ['BA_ "%s" BO_ %s' % (m[1], m[2]), w.r.choice([" ", "\t", "    "]) + m[3] + ";"]
    m = VAL.match(l) if len(lines) == 1 else None
    if m and "val" in on:
        t = re.findall(r'(-?\d+) "([^"]*)"', m[3])
        return ["VAL_" + w.some() + m[1] + w.some() + m[2] + w.some() + w.any("").join(v + w.any(" ") + '"' + x + '"' for v, x in t) + w.any(" ") + ";"]
    m = BA.match(l)
    if m and "ba" in on:
        return ["BA_" + w.any(" ") + '"' + m[1] + '"' + w.any(" ") + "BO_" + w.some() + m[2] + w.some() + m[3] + w.any("") + ";"]
    if l.startswith("VERSION ") and "version" in on:
        return ["VERSION" + w.some() + l[8:] + w.any("")] + lines[1:]
    return lines[:]


def render(r, net, mode, on):
    w = Ws(r, mode)
    items = []
    for name, its in net.sections():
        for it in its:
            if name == "bo":
                items += [[x] for x in it]
            elif name == "head":
                items += [[x] for x in it]
            else:
                items.append(it)
    rows = []          # (text, may end with blanks)
    for it in items:
        new = relax_item(it, w, on)
        if it and it[0].startswith("BU_:") and "bu" in on:
            new = [w.some().join(it[0].split(" ")) + w.any("")]
        for i, x in enumerate(new):
            rows.append((x, i == len(new) - 1))
    lines = []
    for x, last in rows:
        if last and "trail" in on and (mode == "max" or r.random() < 0.5):
            x += r.choice([" ", "  ", "\t", " \t  "])
        lines.append((x, last))
    if "blanklines" in on:
        out = []
        for x, last in lines:
            if mode == "min" and last and x.strip() == "":
                continue
            out.append((x, last))
            if last and (mode == "max" or r.random() < 0.3):
                out += [(r.choice(["", "", " ", "\t", "   "]) if "trail" in on else "", True)] * r.randint(1, 3)
        lines = out
    eols = ["\n"]
    if "eol" in on:
        eols = r.choice([["\r\n"], ["\r\n"], ["\n", "\r\n"]])
    s = "".join(x + r.choice(eols) for x, _ in lines)
    if "noeof" in on:
        s = s.rstrip("\r\n")
    b = s.encode("utf-8")
    if "bom" in on:
        b = b"\xef\xbb\xbf" + b
    return b


def check(ctx):
    ctx.gen()

    def one(k):
        r = ctx.rng("net", k)
        if k % 3 == 0:
            net = D.tagged_net(r, comments=True, vals=True)
        else:
            net = D.shape_net(r, k, comments=True, vals=True, empty_p=0.1)
        net.version = r.choice(["1.0", "12.34", None, "0.7", "3.11"])
        for m in net.msgs:
            for s in m.sigs:
                if r.random() < 0.3:
                    s.unit = r.choice(["", "km/h", "%", "a : b", "(x,y)", "[0|1]", "m/s^2", "A;", "\u00b0C", " deg ", "1:2", "|", "@1+"])
        # tags in other signals than the first ones, comment lines that look like definitions are C12's business
        drv = r.choice(["drv", "MyDrv"])
        label = "net%d" % k
        opts = ("-rw", "-nodeutils") if k % 2 else ("-rw",)
        base = net.bytes()
        out = ctx.generate_ok(base, drv, opts, label=label)
        if out is None:
            return
        ref = C.files(tree(out))
        shutil.rmtree(os.path.dirname(out), ignore_errors=True)
        if not any(s.name.encode() in ref["lib/%s.h" % drv.lower()] for m in net.msgs for s in m.sigs) and any(m.sigs for m in net.msgs):
            ctx.violation(label + ":empty", "canonical formatting generated no signals", {"in.dbc": base})

        def compare(mode, on, tag):
            data = render(ctx.rng("fmt", k, tag), net, mode, on)
            o2, rc, so, se = ctx.generate(data, drv, opts)
            t = C.files(tree(o2))
            shutil.rmtree(os.path.dirname(o2), ignore_errors=True)
            bad = [] if rc == 0 else ["exit %s %s" % (rc, se[-300:])]
            for p in sorted(set(t) | set(ref)):
                ctx.ev()
                if t.get(p) != ref.get(p):
                    a, b = (ref.get(p) or b"").decode("utf-8", "replace").split("\n"), (t.get(p) or b"").decode("utf-8", "replace").split("\n")
                    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    bad.append("%s line %d: %r became %r" % (p, i + 1, a[i:i + 1], b[i:i + 1]))
            if data != base:
                ctx.ev(0, key=(k, tag))
            return bad, data

        plans = [("min", KINDS), ("max", KINDS), ("rnd", KINDS)]
        plans += [("rnd", [x for x in KINDS if r.random() < 0.4]) for _ in range(ctx.n(3, 12))]
        for j in range(ctx.n(3, len(KINDS))):
            plans.append((r.choice(["min", "max", "rnd"]), [KINDS[(k * 3 + j) % len(KINDS)]]))
        for q, (mode, on) in enumerate(plans):
            bad, data = compare(mode, set(on), "p%d" % q)
            if bad:
                # which kind of formatting is it
                single = []
                for x in on:
                    b1, d1 = compare(mode, {x}, "s%d%s" % (q, x))
                    if b1:
                        single.append((x, b1, d1))
                msg = "formatting %s %s\n%s" % (mode, list(on) if len(on) < 5 else "all", "\n".join(bad[:6]))
                if single:
                    x, b1, d1 = single[0]
                    msg += "\nalready with %s only:\n%s" % ([s[0] for s in single], "\n".join(b1[:4]))
                    data = d1
                ctx.violation("%s:%s:%s" % (label, mode, "+".join(s[0] for s in single) or "mix"), msg, {"in.dbc": base, "formatted.dbc": data})
                return
        ctx.sample({"case": label, "formatted": render(ctx.rng("fmt", k, "p2"), net, "rnd", set(KINDS)).decode("utf-8", "replace").replace("\r", "")[-400:]})
    ctx.pmap(one, range(ctx.n(150, 1500)))
