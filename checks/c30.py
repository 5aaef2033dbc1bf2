import os, re, shutil
from fractions import Fraction as Fr
from fw import dbc as D
from fw import pkg as P

TECHNIQUE = ("runtime monitoring of the generator's output: an offline checker reads the documentation comments of the generated headers (message headings, remarks behind the signal fields, value lists, multiplex remarks) "
             "and compares them with the DBC, for the plain and the bit-field version of every struct")
NOTE = ("Random networks with all scalings, units of any bytes (percent signs, quotes, C comment markers, Latin-1), multiplexing, value tables, crowded messages and FD frames; a field or message without its remark counts as wrong too.")
REPORT = dict(
    rule="one evaluation = one documented fact (id, width, sign, factor, offset, unit, multiplex role, value list) compared with the DBC; distinct_nontrivial counts distinct (length, signed, factor, offset) quadruples",
    assumptions=["factors and offsets have at most nine decimals", "units contain no double quote and no control character"])

UNITS = ["", "", "km/h", "%", "%s", "%d%n", "1/min", "°C", "µV", "//", "/*", "*/", "'", "Bits=99", " Factor= 7", "Unit:'x'", "[-]", "a b", " lead", "trail ", "\\", "??/", "x" * 60, "@1+", "(1,0)", "m/s²", "$", "Ω", "|", ":", "deg;"]


def structs(text):
    """{message: [lines]} of the typedef'd structs."""
    out, cur = {}, None
    for l in text.split("\n"):
        if cur is None:
            if re.match(r"\s*typedef\s+struct\b", l):
                cur = []
        else:
            m = re.match(r"\}\s*(\w+)_t;", l)
            if m:
                out[m[1]] = cur
                cur = None
            else:
                cur.append(l)
    return out


FIELD = re.compile(r"^\s*(\w+)\s+(\w+)\s*(?::\s*(\d+)\s*)?;(.*)$")


def fields(lines):
    """[(name, type, declared bits, remark, comment lines before)]"""
    out, com = [], []
    for l in lines:
        s = l.strip()
        if s.startswith("//"):
            com.append(s[2:])
            continue
        m = FIELD.match(l)
        if m:
            out.append((m[2], m[1], m[3], m[4], com))
            com = []
    return out


def num(t):
    try:
        return Fr(t)
    except ValueError:
        return None


def check(ctx):
    ctx.gen()

    def one(k):
        r = ctx.rng("net", k)
        net = D.tagged_net(r) if k % 4 == 0 else D.shape_net(r, k, empty_p=0.15, overlap_p=0.2, scaling="mixed")
        for m in net.msgs:
            muxed = r.random() < 0.3
            for i, s in enumerate(m.sigs):
                s.unit = r.choice(UNITS)
                if r.random() < 0.1:
                    # numbers beyond 32 bits
                    was = s.ftxt, s.otxt
                    s.ftxt, s.otxt = r.choice(["1", "3", "-1", "1000", "4294967296", "5000000001"]), str(r.choice([0, 2 ** 31, -2 ** 31 - 1, 2 ** 32 + 7, -10 ** 12, 2 ** 53 - 1]))
                    if not D.phys_ok(s):
                        s.ftxt, s.otxt = was
                if muxed and s.mux is None:
                    s.mux = "M" if i == 0 else (r.choice(["m0", "m1", "m12", None]))
                if r.random() < 0.3:
                    lo, hi = r.choice([(-2 ** 31, 2 ** 31 - 1), (-2 ** 63 + 1, 2 ** 63 - 1), (-2 ** 31 - 1, 2 ** 32 - 1)])
                    s.vals = [(r.choice([0, 1, 2, 3, -1, 255, 65535, lo, hi, r.randint(-100, 1000)]), r.choice(["On", "Off", "not valid", "100 %", "%s", "a//b", "x/*", "°", "1st", "Err-1", "q" * 50]) + "_%d" % j) for j in range(r.choice([1, 2, 5, 30]))]
        drv = r.choice(["drv", "MyDrv"])
        label = "net%d" % k
        enc = r.choice(["utf-8", "utf-8", "latin-1"])
        for s in (s for m in net.msgs for s in m.sigs):
            s.unit = s.unit.encode(enc, "ignore").decode(enc)
        data = net.text().encode(enc, "replace")
        out = ctx.generate_ok(data, drv, ("-rw", "-nodeutils") if k % 3 == 0 else ("-rw",), label=label)
        if out is None:
            return
        text = open(os.path.join(out, "lib", drv.lower() + ".h"), "rb").read().decode(enc)
        bad, keys = [], set()

        def differs(what, want, got):
            ctx.ev()
            if want != got:
                bad.append("%s: DBC says %r, the comment says %r" % (what, want, got))
        # message headings
        heads = {}
        for m in re.finditer(r"^//.*@(\w+)\s+CAN Message\s*\((\d+)\s+(?:0x)?([0-9a-fA-F]+)\)", text, re.M):
            nxt = re.search(r"^#define (\w+?)_(?:IDE|DLC|CANID|CYC)\b", text[m.end():], re.M)
            heads.setdefault(m[1], []).append((int(m[2]), int(m[3], 16), nxt[1] if nxt else None))
        for m in net.msgs:
            differs("heading of " + m.name, [(m.id, m.id, m.name)], heads.get(m.name))
        st = structs(text)
        for m in net.msgs:
            if not m.sigs:
                continue
            fs = {}
            for f in fields(st.get(m.name, [])):
                fs.setdefault(f[0], []).append(f)
            for s in m.sigs:
                got = fs.get(s.field, [])
                differs("%s.%s number of declarations" % (m.name, s.name), 2, len(got))
                for n, ty, bits, rem, com in got:
                    w = "%s.%s " % (m.name, s.name)
                    rem = rem.split("//", 1)[1] if "//" in rem else ""
                    head, u, unit = rem.partition(" Unit:'")
                    b = re.search(r"\bBits=\s*(\d+)", head)
                    differs(w + "width", s.length, int(b[1]) if b else None)
                    differs(w + "sign", s.signed, "[-]" in head)
                    if bits is not None:
                        differs(w + "declared width", s.length, int(bits))
                    fac, off = re.search(r"\bFactor=\s*(\S+)", head), re.search(r"\bOffset=\s*(\S+)", head)
                    wf, wo = (Fr(1), Fr(0)) if s.kind == 0 else (Fr(s.ftxt), Fr(s.otxt))
                    for what, want, g, d in (("factor", wf, fac, Fr(1)), ("offset", wo, off, Fr(0))):
                        v = num(g[1]) if g else d
                        ctx.ev()
                        if v is None or abs(v - want) > Fr(11, 10 ** 10) + abs(want) * Fr(1, 2 ** 51):
                            bad.append("%s%s: DBC says %s, the comment says %s" % (w, what, float(want), g[1] if g else "nothing"))
                    differs(w + "unit", s.unit + "'" if s.unit else "", unit)
                    differs(w + "multiplex role", None if s.mux is None else ("master" if s.mux == "M" else "value"),
                            "master" if any("MULTIPLEX master" in c for c in com) else "value" if any("multiplex variable" in c for c in com) else None)
                    vals = [(int(x[1]), x[2]) for x in (re.match(r'^\s*(-?\d+)\s*:\s*"(.*)"\s*$', c) for c in com) if x]
                    differs(w + "value list", sorted(s.vals or []), sorted(vals))
                    keys.add((s.length, s.signed, s.ftxt, s.otxt))
            ctx.count("fields", len(m.sigs))
        if bad:
            ctx.violation(label, "\n".join(bad[:10]), {"in.dbc": data, "drv.h": text})
        ctx.distinct_add(keys)
        ctx.sample({"case": label, "messages": len(net.msgs), "example": (next((l for l in text.split("\n") if "Bits=" in l), ""))})
        shutil.rmtree(os.path.dirname(out), ignore_errors=True)
    ctx.pmap(one, range(ctx.n(400, 6000)))
