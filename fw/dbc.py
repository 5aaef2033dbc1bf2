"""DBC model: what a DBC file means, written from the DBC format alone (independent of the code under test).

Sig/Msg/Net describe a network; Net.text() writes it down as a DBC file in Vector's canonical layout;
gen_net() draws random networks biased to corner cases.
"""
import random

C_KEYWORDS = set("""auto break case char const continue default do double else enum extern float for goto if inline int
long register restrict return short signed sizeof static struct switch typedef union unsigned void volatile while asm bool
catch class delete explicit false friend mutable namespace new operator private protected public template this throw true
try typename using virtual wchar_t and or not xor bitand bitor compl and_eq or_eq xor_eq not_eq alignas alignof constexpr
decltype noexcept nullptr thread_local static_assert char16_t char32_t export typeid const_cast dynamic_cast
reinterpret_cast static_cast linux unix i386 concept requires co_await co_return co_yield consteval constinit char8_t
main typeof I NULL EOF errno stdin stdout stderr assert mon1 __func__ recid""".split())
BAD_TYPE_STEMS = set("""int8 int16 int32 int64 uint8 uint16 uint32 uint64 size wchar intptr uintptr intmax uintmax bitext
ubitext sigfloat ptrdiff max_align FrameMonitor ssize off time pid uid gid""".split())
BAD_SUFFIX = ("_ro", "_phys", "_expt", "_DLC", "_CANID", "_IDE", "_CYC", "_t", "_FMON")


class Sig:
    __slots__ = "name start length order signed ftxt otxt minv maxv unit recs mux comment vals".split()

    def __init__(s, name, start, length, order="I", signed=False, ftxt="1", otxt="0", unit="", recs=(), mux=None,
                 comment=None, vals=None, minv="0", maxv="0"):
        s.name, s.start, s.length, s.order, s.signed = name, start, length, order, signed
        s.ftxt, s.otxt, s.unit, s.recs, s.mux = ftxt, otxt, unit, list(recs), mux
        s.comment, s.vals, s.minv, s.maxv = comment, vals, minv, maxv

    # ---- semantics
    def bits(s):
        """linear bit numbers (byte*8+bit) of the signal, least significant first."""
        if s.order == "I":
            return list(range(s.start, s.start + s.length))
        out, p = [], s.start
        for _ in range(s.length):
            out.append(p)
            p = p + 15 if p % 8 == 0 else p - 1
        return out[::-1]

    def fits(s, dlc):
        if s.start < 0 or not 1 <= s.length <= 64:
            return False
        return all(0 <= b < dlc * 8 for b in s.bits())

    @property
    def tiny(s):
        f, o = float(s.ftxt), float(s.otxt)
        return (f != 0 and abs(f) < 1e-9) or (o != 0 and abs(o) < 1e-9)

    @property
    def kind(s):
        """0 simple, 1 integer scaled, 2 fractional (sigfloat_t)"""
        if s.tiny:
            return 0
        if any(c in s.ftxt + s.otxt for c in ".eE"):
            return 2
        return 0 if float(s.ftxt) == 1 and float(s.otxt) == 0 else 1

    @property
    def field(s):
        return s.name if s.kind == 0 else s.name + "_ro"

    def raw_range(s):
        if s.signed:
            return -(1 << (s.length - 1)), (1 << (s.length - 1)) - 1
        return 0, (1 << s.length) - 1

    def phys_range(s):
        lo, hi = s.raw_range()
        f, o = int(s.ftxt), int(s.otxt)
        a, b = lo * f + o, hi * f + o
        return min(a, b), max(a, b)

    def line(s, sep=","):
        mux = "" if s.mux is None else " " + s.mux
        return ' SG_ %s%s : %d|%d@%s%s (%s,%s) [%s|%s] "%s"  %s' % (
            s.name, mux, s.start, s.length, "1" if s.order == "I" else "0", "-" if s.signed else "+",
            s.ftxt, s.otxt, s.minv, s.maxv, s.unit, sep.join(s.recs))

    def copy(s):
        c = Sig(s.name, s.start, s.length)
        for k in Sig.__slots__:
            v = getattr(s, k)
            setattr(c, k, list(v) if isinstance(v, list) else v)
        return c


class Msg:
    __slots__ = "id ext name dlc tx txmore sigs comment cycle".split()

    def __init__(m, id, name, dlc, sigs=(), ext=False, tx="Vector__XXX", txmore=(), comment=None, cycle=None):
        m.id, m.name, m.dlc, m.sigs, m.ext, m.tx = id, name, dlc, list(sigs), ext, tx
        m.txmore, m.comment, m.cycle = list(txmore), comment, cycle

    @property
    def dbcid(m):
        return m.id | (0x80000000 if m.ext else 0)

    def lines(m, order=None):
        sg = m.sigs if order is None else [m.sigs[i] for i in order]
        return ["BO_ %d %s: %d %s" % (m.dbcid, m.name, m.dlc, m.tx)] + [s.line() for s in sg] + [""]

    def copy(m):
        c = Msg(m.id, m.name, m.dlc, [s.copy() for s in m.sigs], m.ext, m.tx, m.txmore, m.comment, m.cycle)
        return c

    def transmitters(m):
        out = [m.tx] if m.tx else []
        return out + [t for t in m.txmore if t not in out]

    def receivers(m):
        out = []
        for s in m.sigs:
            out += [r for r in s.recs if r not in out]
        return out


NS = """NS_ :
	NS_DESC_
	CM_
	BA_DEF_
	BA_
	VAL_
	CAT_DEF_
	CAT_
	FILTER
	BA_DEF_DEF_
	EV_DATA_
	ENVVAR_DATA_
	SGTYPE_
	SGTYPE_VAL_
	BA_DEF_SGTYPE_
	BA_SGTYPE_
	SIG_TYPE_REF_
	VAL_TABLE_
	SIG_GROUP_
	SIG_VALTYPE_
	SIGTYPE_VALTYPE_
	BO_TX_BU_
	BA_DEF_REL_
	BA_REL_
	BA_DEF_DEF_REL_
	BU_SG_REL_
	BU_EV_REL_
	BU_BO_REL_
	SG_MUL_VAL_
""".split("\n")


class Net:
    def __init__(n, msgs=(), version="1.0", nodes=(), extra_tail=()):
        n.msgs, n.version, n.nodes, n.extra_tail = list(msgs), version, list(nodes), list(extra_tail)

    def copy(n):
        return Net([m.copy() for m in n.msgs], n.version, n.nodes, n.extra_tail)

    def all_nodes(n):
        out = list(n.nodes)
        for m in n.msgs:
            for x in m.transmitters() + m.receivers():
                if x not in out and x != "Vector__XXX":
                    out.append(x)
        return out

    def sections(n, with_comments=True):
        """list of (section name, [items]); an item is a list of lines."""
        secs = []
        head = []
        if n.version is not None:
            head += ['VERSION "%s"' % n.version]
        head += ["", ""] + NS + ["BS_:", "", "BU_: " + " ".join(n.all_nodes()), "", ""]
        secs.append(("head", [head]))
        secs.append(("bo", [m.lines() for m in n.msgs]))
        tx = []
        for m in n.msgs:
            if m.txmore:
                # all the transmitters, or only the additional ones, or one line for each of them
                lists = [[m.transmitters()], [m.txmore], [[x] for x in m.txmore], [m.transmitters()]][m.dbcid % 4 if m.tx else 0]
                tx += [["BO_TX_BU_ %d : %s;" % (m.dbcid, ",".join(l))] for l in lists]
        secs.append(("tx", tx))
        cm = []
        if with_comments:
            for m in n.msgs:
                if m.comment is not None:
                    cm.append(('CM_ BO_ %d "%s";' % (m.dbcid, m.comment)).split("\n"))
                for s in m.sigs:
                    if s.comment is not None:
                        cm.append(('CM_ SG_ %d %s "%s";' % (m.dbcid, s.name, s.comment)).split("\n"))
        secs.append(("cm", cm))
        secs.append(("badef", [['BA_DEF_ BO_  "GenMsgCycleTime" INT 0 65535;'],
                               ['BA_DEF_DEF_  "GenMsgCycleTime" 0;']]))
        secs.append(("ba", [['BA_ "GenMsgCycleTime" BO_ %d %d;' % (m.dbcid, m.cycle)]
                            for m in n.msgs if m.cycle is not None]))
        vals = []
        for m in n.msgs:
            for s in m.sigs:
                if s.vals:
                    vals.append(["VAL_ %d %s " % (m.dbcid, s.name) +
                                 "".join('%d "%s" ' % (v, t) for v, t in s.vals) + ";"])
        secs.append(("val", vals))
        secs.append(("tail", [list(n.extra_tail)]))
        return secs

    def text(n, eol="\n", with_comments=True, rng=None, sections=None):
        secs = sections if sections is not None else n.sections(with_comments)
        lines = []
        for name, items in secs:
            if rng is not None and name in ("cm", "ba", "val", "tx"):
                items = items[:]
                rng.shuffle(items)
            for it in items:
                lines += it
        return eol.join(lines) + eol

    def bytes(n, **kw):
        return n.text(**kw).encode("utf-8")


# ------------------------------------------------------------------ generation
class Names:
    def __init__(g, rng, long_p=0.06):
        g.rng, g.used, g.long_p = rng, set(), long_p

    def ok(g, nm):
        l = nm.lower()
        if nm in C_KEYWORDS or l in C_KEYWORDS or l in BAD_TYPE_STEMS or nm in BAD_TYPE_STEMS:
            return False
        if any(nm.upper().endswith(x.upper()) for x in BAD_SUFFIX) or nm.startswith("__"):
            return False
        return l not in g.used and (l + "_ro") not in g.used

    def raw(g, maxlen=None):
        r = g.rng
        al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
        x = r.random()
        if x < 0.08:
            n = r.choice([1, 1, 2, 2, 3])
        elif x < 1 - g.long_p:
            n = r.randint(3, 20)
        else:
            n = r.choice([22, 23, 24, 25, 26, 27, 28, 29, 31, 32, 33, 40, 43, 44, 64, 100, 128])
        if maxlen:
            n = min(n, maxlen)
        s = r.choice(al)
        while len(s) < n:
            s += r.choice(al + "0123456789_") if r.random() < 0.9 else r.choice("_0")
        return s

    def new(g, maxlen=None):
        while True:
            s = g.raw(maxlen)
            if g.ok(s):
                g.used.add(s.lower())
                return s


def pick_len(rng, maxlen):
    x = rng.random()
    if x < 0.25:
        n = rng.choice([1, 1, 2, 3, 4, 5, 6, 7])
    elif x < 0.5:
        n = rng.choice([8, 8, 16, 16, 24, 32, 32, 64])
    elif x < 0.7:
        n = rng.choice([7, 9, 15, 17, 31, 33, 63, 25, 26, 34, 40, 41, 48, 49, 56, 57])
    else:
        n = rng.randint(1, 64)
    return min(n, maxlen)


def place(rng, dlc, length, occ, tries=12, order=None):
    """find a start/order for a signal so that its bits are inside dlc bytes and free in occ."""
    for _ in range(tries):
        o = order or rng.choice("IM")
        if o == "I":
            start = rng.randint(0, dlc * 8 - length)
        else:
            lin = rng.randint(0, dlc * 8 - length)  # linear from first MSB
            start = (lin // 8) * 8 + (7 - lin % 8)
        if rng.random() < 0.35:  # byte aligned bias
            if o == "I":
                start -= start % 8
            else:
                lin = ((start // 8)) * 8
                start = lin + 7
        s = Sig("x", start, length, o)
        if not s.fits(dlc):
            continue
        b = set(s.bits())
        if occ is not None and b & occ:
            continue
        return start, o, b
    return None


INT_F = ["1", "2", "3", "5", "10", "-1", "-2", "-5", "7", "100", "1000", "4096", "1", "1", "255", "-100", "16777216"]
INT_O = ["0", "0", "0", "1", "-1", "5", "-5", "100", "-100", "-40", "1000", "-1024", "-32768", "65535", "-2147483648",
         "2147483647", "128", "-128", "127"]
FLT_F = ["0.1", "0.5", "0.01", "0.25", "1.0", "2.5", "1.2", "1.9", "2.01", "0.001", "0.0625", "0.015625", "1E-3", "1e-2",
         "1E3", "0.00001", "0.000000001", "1e-9", "-0.1", "-2.5", "3.14159", "100.5", "0.123456789", "1.0E-002", "5E-007",
         "1E+002", "12.5", "0.999999999", "10.000000001", "0.10", "1048576.5", "1234567.890625"]
FLT_O = ["0", "0", "0.0", "-40", "-100", "0.5", "-0.5", "273.15", "-273.15", "1e2", "1E-3", "-1E-009", "0.000000001",
         "-0.01", "10.1", "-10.1", "1000.125", "-3276.8", "0.987654321", "1234567.890625", "-2500000.123456789", "16777217.5", "-1048576.000000001", "1234567.1234567", "5000000.123456789"]


EDGES = [0, 1 << 31, 1 << 32, (1 << 31) - 1, (1 << 32) - 1, -(1 << 31), 1 << 63, (1 << 63) - 1, (1 << 64) - 1, -(1 << 63), 1 << 16, -(1 << 15), 1 << 8, -(1 << 7), 1 << 15, 1 << 7]


def edge_scaling(rng, length, signed):
    """integer factor and offset which put an end of the raw * factor or physical range on or next to the limit of a C type."""
    lo, hi = (-(1 << (length - 1)), (1 << (length - 1)) - 1) if signed else (0, (1 << length) - 1)
    f = rng.choice([1, 1, 1, -1, -1, -1, 2, -2, 3, -3, 5, 10, -10, 100, 255, 256, 65536, -65536, 1 << 31, -(1 << 31), 1 << 32, (1 << 31) - 1, 1 << rng.randint(0, 62)])
    t = (rng.choice(EDGES) if rng.random() < 0.7 else rng.choice([0, 1 << 31])) + rng.choice([0, 0, -1, 1, -2, 2, 100])
    x = rng.random()
    if x < 0.8:
        o = t - rng.choice([lo, hi]) * f
    elif x < 0.9:
        o = t
    else:
        o = rng.choice([0, 1, -1])
        e = rng.choice([lo, hi])
        f = t // e if e else 1
    if rng.random() < 0.9:
        f, o = int(float(f)), int(float(o))
    if (f, o) == (1, 0) or f == 0:
        o = rng.choice([1, -1])
        f = f or 1
    return str(f), str(o)


def pick_scaling(rng, mode):
    """mode: none | mixed | int | float"""
    if mode == "none":
        return "1", "0"
    x = rng.random()
    if mode == "mixed":
        mode = "none" if x < 0.5 else ("int" if x < 0.75 else "float")
        if mode == "none":
            if rng.random() < 0.04:
                return rng.choice([("1e-10", "0"), ("1", "0.0000000001"), ("0.00000000099", "5"), ("2", "1e-10"),
                                   ("1E-12", "3.5")])
            return "1", "0"
    if mode == "int":
        while True:
            f, o = rng.choice(INT_F), rng.choice(INT_O)
            if rng.random() < 0.3:
                f = str(rng.choice([rng.randint(1, 50), rng.randint(-60, -1), rng.randint(1, 100000)]))
            if rng.random() < 0.3:
                o = str(rng.choice([rng.randint(-300, 300), rng.randint(-70000, 70000), rng.randint(-2**31, 2**31 - 1)]))
            if (f, o) != ("1", "0"):
                return f, o
    f = rng.choice(FLT_F)
    o = rng.choice(FLT_O)
    if rng.random() < 0.3:
        f = ("%.*f" % (rng.randint(1, 9), rng.uniform(0.001, 50)))
        if float(f) < 1e-9:
            f = "0.1"
        if rng.random() < 0.2:
            f = "-" + f
    if rng.random() < 0.3:
        o = ("%.*f" % (rng.randint(1, 9), rng.uniform(-5000, 5000)))
    if not any(c in f + o for c in ".eE"):
        f += ".0"
    return f, o


def phys_ok(s):
    """raw range, raw * factor, factor, offset and physical range of an integer-scaled signal fit one 64-bit integer type
    (domain of C04/C19 in SIGFLOAT configurations)."""
    if s.kind != 1:
        # a step has to be much larger than the precision of a double next to the offset
        return s.kind != 2 or abs(float(s.otxt)) < abs(float(s.ftxt)) * (1 << 44)
    f, o = int(s.ftxt), int(s.otxt)
    if f == 0:
        return False
    # (the DBC format defines factor and offset as doubles)
    if int(float(f)) != f or int(float(o)) != o or max(abs(f), abs(o)) >= 1 << 63:
        return False
    lo, hi = s.raw_range()
    v = [lo, hi, lo * f, hi * f, f, o, lo * f + o, hi * f + o]
    return (min(v) >= -(1 << 63) and max(v) < (1 << 63)) or (min(v) >= 0 and max(v) < (1 << 64))


UNITS = ["", "", "", "km/h", "m/s^2", "%", "degC", "V", "A", "rpm", "1/min", "kPa", "N*m", "-", "°C", "µs", "Ω", "m/s",
         "bit", "a b", "%d", "%s%n", "x:y", "/", "//", "\\", "$", "#", "100%", "mA.h", "'"]


def gen_sigs(rng, nm, dlc, nsig, scaling="mixed", nodes=("A",), signed_max=64, maxlen=64, names=None, overlap=False,
             units=True, mux=False):
    occ = set()
    sigs = []
    for k in range(nsig):
        ln = pick_len(rng, min(maxlen, dlc * 8))
        got = place(rng, dlc, ln, None if overlap else occ)
        if got is None:
            ln = rng.randint(1, min(8, maxlen))
            got = place(rng, dlc, ln, None if overlap else occ)
            if got is None:
                continue
        start, order, b = got
        occ |= b
        signed = rng.random() < 0.45
        if signed and ln > signed_max:
            signed = False
        name = None
        if names and rng.random() < 0.3:
            c = [x for x in names if x not in [q.name for q in sigs]]
            if c:
                name = rng.choice(c)
        if name is None:
            name = nm.new()
        f, o = pick_scaling(rng, scaling)
        if f + o != "10" and scaling in ("int", "mixed") and rng.random() < 0.3:
            f, o = edge_scaling(rng, ln, signed)
        s = Sig(name, start, ln, order, signed, f, o)
        if not phys_ok(s):
            s.ftxt, s.otxt = "1", "0"
        s.unit = rng.choice(UNITS) if units else ""
        s.recs = rng.sample(list(nodes), min(len(nodes), rng.choice([1, 1, 1, 2, 3])))
        lo, hi = s.raw_range()
        s.minv, s.maxv = rng.choice([("0", "0"), (str(lo), str(hi)), ("-1.5", "1e3")])
        sigs.append(s)
    if mux and len(sigs) > 1:
        sigs[0].mux = "M"
        for s in sigs[1:]:
            if rng.random() < 0.8:
                s.mux = "m%d" % rng.randint(0, 40)
    elif rng.random() < 0.15:
        # marked as multiplexed, which has no influence on the code of a signal
        one = rng.choice(["M", "m0", "m3", None])
        for s in sigs:
            s.mux = one or rng.choice([None, "M", "m%d" % rng.randint(0, 400)])
    return sigs


def gen_id(rng, used):
    """a (id, ext) with a numeric id not in used."""
    while True:
        x = rng.random()
        if x < 0.45:
            v, e = rng.randint(0, 0x7FF), False
        elif x < 0.55:
            v, e = rng.choice([0, 1, 0x7FF, 0x7FE, 0x100, 0x400]), False
        elif x < 0.65:
            v, e = rng.choice([0, 1, 0x7FF, 0x800, 0x1FFFFFFF, 0x1FFFFFFE, 0x10000000, 0xFFFF, 0x18FEF100]), True
        elif x < 0.72 and used:
            v = rng.choice(sorted(used)) + rng.choice([-1, 1, 2])
            e = v > 0x7FF
            if not 0 <= v <= 0x1FFFFFFF:
                continue
        else:
            v, e = rng.randint(0, 0x1FFFFFFF), True
        if v in used:
            continue
        used.add(v)
        return v, e


CFDLC = [12, 16, 20, 24, 32, 48, 64, 64, 64, 9, 10, 33, 63]


def pick_dlc(rng, fd=0.25):
    if rng.random() < fd:
        return rng.choice(CFDLC)
    return rng.choice([8, 8, 8, 8, 1, 2, 3, 4, 5, 6, 7])


def gen_net(rng, nmsg=None, scaling="mixed", maxsig=None, fd=0.25, empty_p=0.06, signed_max=64, maxlen=64, share_names=True,
            overlap_p=0.1, nodes=None, long_p=0.06, comments=False, vals=False, cycles=True, multi_tx=0.2, names=None):
    nm = names or Names(rng, long_p)
    if nodes is None:
        nodes = [nm.new(20) for _ in range(rng.randint(1, 5))]
    if nmsg is None:
        nmsg = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 12])
    used = set()
    net = Net(version="%d.%d" % (rng.randint(0, 30), rng.randint(0, 99)), nodes=nodes)
    shared = []
    for _ in range(nmsg):
        mid, ext = gen_id(rng, used)
        dlc = pick_dlc(rng, fd)
        m = Msg(mid, nm.new(), dlc, ext=ext, tx=rng.choice(nodes))
        if rng.random() >= empty_p:
            ov = rng.random() < overlap_p
            ms = maxsig or rng.choice([1, 2, 3, 5, 8, 16, 40])
            m.sigs = gen_sigs(rng, nm, dlc, rng.randint(1, ms), scaling, nodes, signed_max, maxlen,
                              shared if share_names else None, ov, mux=ov)
            shared += [s.name for s in m.sigs if s.name not in shared]
        if multi_tx and rng.random() < multi_tx and len(nodes) > 1:
            m.txmore = [x for x in rng.sample(nodes, rng.randint(1, len(nodes))) if x != m.tx]
        if cycles and rng.random() < 0.5:
            m.cycle = rng.choice([0, 1, 10, 20, 100, 1000, 65535, rng.randint(1, 65535)])
        if comments and rng.random() < 0.5:
            m.comment = rand_comment(rng)
        for s in m.sigs:
            if comments and rng.random() < 0.5:
                s.comment = rand_comment(rng)
            if vals and rng.random() < 0.4:
                s.vals = rand_vals(rng, s)
        net.msgs.append(m)
    return net


WORDS = ["speed", "of", "the", "wheel", "0x7F", "state", "ok", "error", "(1,0)", "[0|255]", "a/b", "100%", "%s", "%d", "k=v",
         "x;y", "Größe", "°C", "日本", "value:", "µ", "#define", "@t", "it's", "{", "}", "\\n", "&", "*", "~", "if", "?"]


def rand_comment(rng, nl=None):
    nlines = nl or rng.choice([1, 1, 1, 2, 3, 6])
    return "\n".join(" ".join(rng.choice(WORDS) for _ in range(rng.randint(1, 8))) for _ in range(nlines))


def rand_vals(rng, s=None):
    n = rng.choice([1, 2, 3, 4, 8, 16, 40])
    out = []
    for k in range(n):
        v = rng.choice([k, k, k, rng.randint(-5, 300), -1, 2**31 - 1, -2**31, rng.randint(-2**31, 2**31 - 1), rng.choice([2**32 - 1, 2**63, 2**64 - 1, -2**63])])
        t = rng.choice(["On", "Off", "Error", "not available", "State one", "1st gear", "x>5", "a-b/c", "Größe", "", "100 %",
                        "_x", "SNA", "0x7", "Description for the value '0x7'", "Reserved", "Udef", "A;B", "a,b", "tab\there",
                        "V%d" % k, "v %d" % k, "L" * rng.randint(1, 60)])
        out.append((v, t))
    return out


def c_name(t):
    """the property's rule for turning an arbitrary text into an identifier part."""
    out = ""
    for ch in t.encode("utf-8"):
        c = chr(ch)
        if c == " ":
            out += "_"
        elif ("a" <= c <= "z") or ("A" <= c <= "Z") or c == "_" or (out and "0" <= c <= "9"):
            out += c
    return out


def shape_net(r, k, **kw):
    """gen_net with the k-th of a cycle of unusual shapes: many messages, crowded frames, long names, shared names, CAN FD only..."""
    sh = k % 13
    kw = dict(kw)
    if sh == 0:
        kw.update(nmsg=r.choice([60, 130, 260]), maxsig=2)
    elif sh == 1:
        kw.update(nmsg=3, fd=1.0, maxlen=min(kw.get("maxlen", 64), r.choice([1, 2, 3, 5, 9])), maxsig=220, overlap_p=0)
    elif sh == 2:
        kw.update(long_p=0.8)
    elif sh == 3:
        kw.update(nmsg=12, maxsig=3, share_names=True)
    elif sh == 4:
        kw.update(nmsg=10, fd=1.0)
    elif sh == 5:
        kw.update(nodes=[("N%d" % i) if i % 2 else chr(65 + i % 26) + "n" * (i // 26) for i in range(40)], nmsg=20, multi_tx=0.6)
    elif sh == 6:
        kw.update(nmsg=1)
    return gen_net(r, **kw)


def many_sigs_net(r, n, overlap=False, maxlen=6, signed_max=64):
    """one 64-byte message with n signals (more than 255 when n is): one bit each, or overlapping ones of several bits, between two
    ordinary messages, so that a lost signal and a shifted counter both show."""
    nm = Names(r)
    msgs = []
    for i, cnt in enumerate((3, n, 2)):
        m = Msg(0x120 + i, nm.new(), 64, tx="N1")
        if overlap:
            places = [place(r, 64, r.choice([1, 1, 1, 2, 3, maxlen]), None) + (None,) for _ in range(cnt)]
        else:
            places = [(b, r.choice("IM")) for b in r.sample(range(512), cnt)]
        for j, pl in enumerate(places):
            ln = 1 if not overlap else len(pl[2])
            m.sigs.append(Sig("%s_%d" % (nm.new(8), j), pl[0], ln, pl[1], ln <= signed_max and r.random() < 0.2, recs=["N1"]))
        msgs.append(m)
    return Net(msgs, nodes=["N1"])


# ------------------------------------------------------------------ rolling counter / checksum tags
TAG_NOISE = ["", "", "", "counter ", "a <b> c ", "x<y ", "line one\nline two ", "1 > 0 ", "tag: ", "<Note:1:2> ", "text\n",
             "Counts every sent frame. " * 20, "First line of the text\nsecond line\n\nfourth line: 0..14 are valid\n", "w" * 150 + " ", "\u00dcberlauf \u00b5 ", "a long text " * 300 + "\n",
             "<RollingCounter ", "<rollingcounter> ", "<RollingCounter2>", "<Checksum> ", "<<", "<Checksum:", "see <Checksum:x> ", "<Checksum:a:b:c> "]
METHODS = ["XOR8", "XOR4", "CRC8", "CRC_SAE_J1850", "Mx", "sum8", "Alg_9"]


def tag_roll(rng, m, length=None):
    """make one signal of m a rolling counter. True when done."""
    c = [s for s in m.sigs if not s.signed and s.kind == 0 and s.comment is None and (length is None or s.length == length)]
    if not c:
        return False
    s = rng.choice(c)
    s.comment = rng.choice(TAG_NOISE) + "<RollingCounter>" + rng.choice(["", " tail", "\nnext line", " 0..15", "<"])
    return True


def one_byte(s):
    return len({b // 8 for b in s.bits()}) == 1


def tag_csm(rng, m, method=None):
    c = [s for s in m.sigs if not s.signed and s.kind == 0 and s.comment is None and one_byte(s)]
    if not c:
        return False
    s = rng.choice(c)
    op = rng.choice([0, 1, 2, 3, 7, 10, 255, 256, 65535, 0x7fffffff, rng.randint(0, 1000), rng.randint(0, 99)])
    op = str(op).zfill(rng.choice([1, 1, 1, 3, 10]))  # (decimal, whatever zeros it begins with)
    s.comment = rng.choice(TAG_NOISE) + "<Checksum:%s:%s>" % (method or rng.choice(METHODS), op) + rng.choice(["", " tail", "\nnext <line>", " > 3", ">"])
    return True


def tagged_net(rng, k=0, roll=True, csm=True, **kw):
    """a network where most messages have a rolling counter and/or a checksum signal, at varied places and widths."""
    kw.setdefault("nmsg", rng.choice([1, 2, 4, 6]))
    kw.setdefault("maxsig", rng.choice([3, 6, 12]))
    kw.setdefault("empty_p", 0)
    net = gen_net(rng, **kw)
    nm = Names(rng)
    for m in net.msgs:
        nm.used |= {m.name.lower()} | {s.name.lower() for s in m.sigs}
    for m in net.msgs:
        occ = set()
        for s in m.sigs:
            occ |= set(s.bits())
        if roll and rng.random() < 0.85:
            ln = rng.choice([1, 2, 3, 4, 4, 5, 7, 8, 8, 9, 12, 16, 16, 17, 24, 30, 31, 32, 33, 40, 63, 64])
            got = place(rng, m.dlc, min(ln, m.dlc * 8), occ)
            if got:
                st, o, b = got
                occ |= b
                m.sigs.append(Sig(nm.new(), st, min(ln, m.dlc * 8), o, recs=m.sigs[0].recs if m.sigs else ["N"]))
                s = m.sigs[-1]
                s.comment = rng.choice(TAG_NOISE) + "<RollingCounter>" + rng.choice(["", " tail", "\nnext line", " 0..15", "<"])
            else:
                tag_roll(rng, m)
        if csm and rng.random() < 0.85:
            for _ in range(20):
                ln = rng.choice([1, 2, 4, 4, 6, 7, 8, 8, 8, 3, 5])
                got = place(rng, m.dlc, ln, occ)
                if not got:
                    continue
                st, o, b = got
                s = Sig("x", st, ln, o)
                if not one_byte(s):
                    continue
                occ |= b
                s.name = nm.new()
                s.recs = m.sigs[0].recs if m.sigs else ["N"]
                m.sigs.append(s)
                op = rng.choice([0, 1, 2, 3, 7, 10, 255, 256, 65535, 0x7fffffff, rng.randint(0, 1000), rng.randint(0, 99)])
                op = str(op).zfill(rng.choice([1, 1, 1, 3, 10]))
                s.comment = rng.choice(TAG_NOISE) + "<Checksum:%s:%s>" % (rng.choice(METHODS), op) + rng.choice(["", " tail", "\nnext <line>", " > 3", ">"])
                break
            else:
                tag_csm(rng, m)
        for s in m.sigs:
            if s.comment and s.mux is None and rng.random() < 0.25:
                s.mux = rng.choice(["M", "m1", "m12"])
        if rng.random() < 0.5:
            rng.shuffle(m.sigs)
    return net
