import os, shutil
from fractions import Fraction as Fr
from fw import dbc as D
from fw import pkg as P
from fw.core import sh, SAN_ENV

TECHNIQUE = ("runtime monitoring: programs that use the generated conversion macros like user code does (compound arguments, sub-expressions, side effects, static initialisers, casts, all numeric argument types, "
             "with and without USE_SIGFLOAT, C and C++) run under UBSan; every printed value is checked by an exact-rational oracle on the factor and offset texts of the DBC")
NOTE = ("Scalings, widths and raw values are sampled from the corner-biased pools of C04; which macro name belongs to a signal when several messages have a signal of that name is decided by the program "
        "(the message-qualified name when it exists), so a missing qualified macro shows up as a wrong value.")
REPORT = dict(
    rule="one evaluation = one printed value of a macro expression compared with exact rational arithmetic; distinct_nontrivial counts distinct (factor, offset, length, sign, expression form) combinations",
    assumptions=["fractional conversions are compared within double rounding (fromS) and one raw step (toS)", "physical values of integer scalings fit in 64 bits (domain of C04)"])

PRE = r"""
#include <stdint.h>
#include <stdio.h>
#include "%(low)s.h"
#ifdef __cplusplus
static void P(int i, const char* f, double v) { printf("%%d %%s D %%a\n", i, f, v); }
static void P(int i, const char* f, float v) { printf("%%d %%s D %%a\n", i, f, (double)v); }
static void P(int i, const char* f, long double v) { printf("%%d %%s D %%a\n", i, f, (double)v); }
template <class T> static void P(int i, const char* f, T v) { if (v < 0) printf("%%d %%s I %%lld\n", i, f, (long long)v); else printf("%%d %%s I %%llu\n", i, f, (unsigned long long)v); }
#else
static void PD(int i, const char* f, double v) { printf("%%d %%s D %%a\n", i, f, v); }
static void PI(int i, const char* f, long long v) { printf("%%d %%s I %%lld\n", i, f, v); }
static void PU(int i, const char* f, unsigned long long v) { printf("%%d %%s I %%llu\n", i, f, v); }
#define P(i, f, v) _Generic((v), double: PD, float: PD, long double: PD, uint64_t: PU, unsigned long long: PU, default: PI)(i, f, v)
#endif
static int calls;
static int64_t once_i(int64_t v) { calls++; return v; }
static uint64_t once_u(uint64_t v) { calls++; return v; }
static double once_d(double v) { calls++; return v; }
"""


def ctype(s):
    n = 8 if s.length <= 8 else 16 if s.length <= 16 else 32 if s.length <= 32 else 64
    return ("int%d_t" if s.signed else "uint%d_t") % n


def cint(v):
    if v >= 1 << 63:
        return "%dULL" % v
    if v == -(1 << 63):
        return "(-9223372036854775807LL-1)"
    if v < 0:
        return "(-%dLL)" % -v if v < -2147483647 else "(%d)" % v
    return "%dLL" % v if v > 2147483647 else "%d" % v


def cdbl(f):
    return "(%s)" % float(f).hex()


def forms(r, s, raw):
    """[(form, C expression with F/T/C macros, expected exact value, tolerance)] for one raw value."""
    f, o = Fr(s.ftxt), Fr(s.otxt)
    p = raw * f + o
    out = []
    big = raw >= 1 << 63 or p >= 1 << 63
    W = "uint64_t" if big else "int64_t"
    once = "once_u" if big else "once_i"
    k = r.randint(1, 9)
    ft = Fr(0) if s.kind == 1 else Fr(4, 10 ** 15) * (abs(raw * f) + abs(o)) + Fr(1, 10 ** 30)
    vol = lambda t, x: "(%s)%s" % (t, x)
    b = raw >> r.randint(0, 3)
    a = raw - b
    args = [("field", "fv", None), ("wide", vol(W, cint(raw)), None), ("sum", "wa + wb", None), ("diff", "wc - wk", None), ("cond", "wk ? wa + wb : wb", None), ("comma", "(wb, wv)", None), ("or", "wv | wv", None),
            ("assign", "wx = wv", None), ("once", once + "(wv)", None), ("xor", "wv ^ wz", None), ("and", "wv & wv", None), ("shift", "wv << wz", None), ("eq", None, None)]
    pre = "%s wv = %s, wa = %s, wb = %s, wc = %s, wk = %d, wx = 0, wz = 0; %s fv = %s; (void)wa;(void)wb;(void)wc;(void)wx;(void)wz;(void)wk;(void)fv;(void)wv;" % (
        W, cint(raw), cint(a), cint(b), cint(raw + k) if raw + k < 1 << 63 or (big and raw + k < 1 << 64) else cint(raw), k if raw + k < 1 << 63 or (big and raw + k < 1 << 64) else 0, ctype(s), cint(raw))
    if "wk = 0" in pre:
        args = [x for x in args if x[0] not in ("cond",)]
    for nm, e, _ in args:
        if e is None:
            continue
        # shifts of negative values are undefined in C before C++20/C23
        if nm == "shift" and raw < 0:
            continue
        if nm == "field" and s.kind == 1 and False:
            continue
        out.append(("from:" + nm, "FROM(%s)" % e, p, ft))
    # sub-expressions
    out.append(("from:cmp", "FROM(wv) == FROM(wa + wb)", Fr(1), Fr(0)))
    out.append(("from:dmul", "3.0 * FROM(wv)", 3 * p, 3 * ft + abs(3 * p) / 10 ** 15))
    out.append(("from:dmul2", "FROM(wv) * 0.5", p / 2, ft + abs(p) / 10 ** 12))
    out.append(("from:dsub", "0.5 - FROM(wv)", Fr(1, 2) - p, ft + (abs(p) + 1) / 10 ** 12))
    if p != 0 and s.kind == 1:
        out.append(("from:ddiv", "1000.0 / FROM(wv)", 1000 / p, abs(1000 / p) / 10 ** 12))
    out.append(("from:not", "!FROM(wv)" if s.kind == 1 else "!(FROM(wv) == FROM(wv))", Fr(1 if p == 0 and s.kind == 1 else 0), Fr(0)))
    if s.kind == 1 and not big and abs(p) < 1 << 62:
        out.append(("from:neg", "-FROM(wv)", -p, Fr(0)) if p.numerator >= 0 and False else ("from:isub", "(int64_t)0 + FROM(wv)", p, Fr(0)))
    out.append(("from:dcast", "(double)FROM(wv)", p, ft + abs(p) / 10 ** 12))
    # physical -> raw
    if s.kind == 1:
        pi = int(p)
        q = pi - k
        pre += " %s pv = %s, pa = %s, pk = %d; (void)pv;(void)pa;(void)pk;" % (W, cint(pi), cint(q) if q >= -(1 << 63) and not (big and q < 0) else cint(pi), k if q >= -(1 << 63) and not (big and q < 0) else 0)
        R = Fr(raw)
        plo, phi = s.phys_range()
        # the generated physical fields are unsigned only when nothing is negative
        sg = plo < 0 or s.signed
        bits = next((n for n in (8, 16, 32, 64) if (phi < 1 << n if not sg else -(1 << (n - 1)) <= plo and phi < 1 << (n - 1))), 64)
        if phi >= 1 << 63:
            sg = False
        pre += " %sint%d_t pf = (%sint%d_t)pv; (void)pf;" % ("" if sg else "u", bits, "" if sg else "u", bits)
        pa = [("field", "pf"), ("var", "pv"), ("sum", "pa + pk"), ("cond", "wv == wv ? pa + pk : pa"), ("once", once + "(pv)"), ("or", "pv | wz"), ("comma", "(pk, pv)"), ("assign", "wx = pv")]
        if abs(pi) < 1 << 52 and raw < 1 << 52:
            pa += [("double", cdbl(pi)), ("dsum", "(double)pa + (double)pk"), ("dcond", "wv == wv ? %s : 0.0" % cdbl(pi)), ("donce", "once_d(%s)" % cdbl(pi))]
        for ty, n0, n1 in (("uint8_t", 0, 1 << 8), ("int8_t", -128, 128), ("uint16_t", 0, 1 << 16), ("int16_t", -(1 << 15), 1 << 15), ("uint32_t", 0, 1 << 32), ("int32_t", -(1 << 31), 1 << 31), ("uint64_t", 0, 1 << 64)):
            # unsigned types of int's width or more, wider than the field itself, are C's own business (5u - 7 is no -2)
            if n0 <= pi < n1 and (ty[0] != "u" or n1 <= max(1 << 16, 1 << bits)) and (ty[0] == "u") == (not sg):
                pa.append((ty, "(%s)pv" % ty))
        for nm, e in pa:
            out.append(("to:" + nm, "TO(%s)" % e, R, Fr(0)))
        out.append(("to:mul", "2.0 * TO(pa + pk)", 2 * R, abs(R) / 10 ** 12))
        out.append(("to:cmp", "TO(pv) == wv", Fr(1), Fr(0)))
        out.append(("round", "TO(FROM(wv))", R, Fr(0)))
        out.append(("round:f", "TO(FROM(fv))", R, Fr(0)))
        if raw:
            out.append(("to:div", "1.0 / TO(pv)", 1 / R, abs(1 / R) / 10 ** 12))
        out.append(("cov", "COV", f, Fr(0)))
        out.append(("cov:div", "1.0 / COV", 1 / f, abs(1 / f) / 10 ** 12))
        out.append(("cov:dsub", "0.5 - COV", Fr(1, 2) - f, (abs(f) + 1) / 10 ** 12))
        out.append(("static", "ST", p, Fr(0)))
    else:
        # a step inside the range, so that truncation to either side stays inside
        if abs(raw) < 1 << 50:
            pd = float(p)
            pre += " double pv = %s, pk = %s, pa = pv - pk, px = 0; (void)pa; (void)px; (void)pk;" % (cdbl(pd), cdbl(abs(pd) / 4 + 1))
            R = Fr(raw)
            one = Fr(1) + abs(R) / 10 ** 9 + Fr(1, 10 ** 9) + abs(o / f) / 10 ** 12
            lo, hi = s.raw_range()
            # rounding must not leave the range of the raw type
            safe = one < 3 and lo + 2 <= raw <= hi - 2
            if safe:
                for nm, e in [("var", "pv"), ("sum", "pa + pk"), ("cond", "wv == wv ? pa + pk : pa"), ("once", "once_d(pv)"), ("comma", "(wk, pv)"), ("assign", "px = pv")]:
                    out.append(("to:" + nm, "TO(%s)" % e, R, one))
                out.append(("to:mul", "2.0 * TO(pa + pk)", 2 * R, 2 * one))
                out.append(("round", "TO(FROM(wv))", R, one))
                if abs(p - round(p)) == 0 and abs(p) < 1 << 40:
                    out.append(("to:int", "TO((int64_t)%d)" % int(p), R, one))
                    out.append(("to:intsum", "TO((int64_t)%d - wk)" % (int(p) + (k if "wk = %d" % k in pre else 0)), R, one))
        out.append(("cov", "COV", f, abs(f) / 10 ** 12))
        out.append(("cov:div", "1.0 / COV", 1 / f, abs(1 / f) / 10 ** 9))
        out.append(("cov:dsub", "0.5 - COV", Fr(1, 2) - f, (abs(f) + 1) / 10 ** 12))
        out.append(("static", "ST", p, ft))
    return pre, out


def program(r, net, drv, nraw):
    DU = drv.upper()
    L = [PRE % dict(low=drv.lower())]
    exp = []
    fn = []
    for m in net.msgs:
        for s in m.sigs:
            if not s.kind or not D.phys_ok(s) or Fr(s.ftxt) == 0:
                continue
            lo, hi = s.raw_range()
            if s.kind == 2:
                lo, hi = max(lo, -(1 << 52)), min(hi, 1 << 52)
            raws = {lo, hi, 0, 1 if hi > 0 else 0, max(lo, -1)} | {r.randint(lo, hi) for _ in range(nraw)} | {max(lo, min(hi, r.randint(-300, 300)))}
            j = len(fn)
            q, pl = "%s_%s_%s" % (DU, m.name, s.field), "%s_%s" % (DU, s.field)
            L.append("#undef FROM\n#undef TO\n#undef COV\n#ifdef %s_toS\n#define FROM %s_fromS\n#define TO %s_toS\n#define COV %s_CovFactor\n#else\n#define FROM %s_fromS\n#define TO %s_toS\n#define COV %s_CovFactor\n#endif" % (
                q, q, q, q, pl, pl, pl))
            for raw in sorted(raws):
                pre, fs = forms(r, s, raw)
                L.append("static void f%d(void) { %s" % (len(fn), pre))
                for nm, e, want, tol in fs:
                    i = len(exp)
                    exp.append((m.name, s, raw, nm, e, want, tol))
                    if nm == "static":
                        L.append("{ static const double st = (double)FROM(%s + %s); P(%d, \"%s\", st); }" % ("(%s)" % ("uint64_t" if raw >= 1 << 63 else "int64_t") + cint(raw - (raw >> 1)), cint(raw >> 1), i, nm))
                    elif "once" in e:
                        L.append("calls = 0; P(%d, \"%s\", %s); if (calls != 1) printf(\"%d calls X %%d\\n\", calls);" % (i, nm, e, i))
                    else:
                        L.append("P(%d, \"%s\", %s);" % (i, nm, e))
                L.append("}")
                fn.append(len(fn))
    L.append("int main(void) {")
    L += ["f%d();" % i for i in fn]
    L.append("return 0; }")
    return "\n".join(L) + "\n", exp


def check(ctx):
    ctx.gen()

    def one(k):
        r = ctx.rng("net", k)
        net = D.shape_net(r, k, scaling=r.choice(["mixed", "int", "float"]), fd=0.2, empty_p=0.05, long_p=0.05, overlap_p=0)
        if k % 5 == 4:
            # ranges which end at the limits of the C types
            net.msgs[:] = [D.Msg(100 + i, "M%d" % i, 8, [], tx="N") for i in range(14)]
            for i, m in enumerate(net.msgs):
                at = 0
                while True:
                    ln, sg = r.choice([r.randint(1, 64), r.randint(14, 33)]), r.random() < 0.4
                    if at + ln > 64:
                        break
                    f, o = D.edge_scaling(r, ln, sg)
                    s = D.Sig("S%d_%d" % (i, at), at, ln, "I", sg, f, o, recs=["N"])
                    at += ln
                    if D.phys_ok(s):
                        m.sigs.append(s)
        for m in net.msgs:
            del m.sigs[12:]
        del net.msgs[14:]
        # same names with different and with equal scalings in several messages
        if len(net.msgs) > 1 and r.random() < 0.6:
            src = [s for m in net.msgs for s in m.sigs if s.kind]
            for m in net.msgs:
                if src and r.random() < 0.5:
                    c = r.choice(src).copy()
                    if c.name not in [s.name for s in m.sigs]:
                        pl = D.place(r, m.dlc, min(c.length, m.dlc * 8), None) if m.dlc else None
                        if pl:
                            c.length = min(c.length, m.dlc * 8)
                            c.start, c.order = pl[0], pl[1]
                            x = r.random()
                            if x < 0.5:
                                c.ftxt, c.otxt = D.pick_scaling(r, r.choice(["int", "float"]))
                            elif x < 0.7:
                                c.signed = not c.signed
                            m.sigs.append(c)
        drv = r.choice(["drv", "MyDrv", "d", "T_1"])
        label = "net%d" % k
        data = net.bytes()
        out = ctx.generate_ok(data, drv, label=label)
        if out is None:
            return
        P.write_conf(os.path.join(out, "conf", "dbccodeconf.h"), 64, "double", [])
        src, exp = program(r, net, drv, ctx.n(2, 4))
        wd = os.path.dirname(out)
        cpp = k % 3 == 2
        p = os.path.join(wd, "use.cpp" if cpp else "use.c")
        with open(p, "w") as f:
            f.write(src)
        sf = k % 2 == 1
        cc = r.choice(["clang++", "g++"] if cpp else ["clang", "gcc"])
        cmd = [cc, "-std=c++17" if cpp else "-std=gnu11", r.choice(["-O0", "-O1"]), "-w", "-ffp-contract=off", "-fsanitize=undefined", "-fno-sanitize-recover=all"] + P.includes(out) + \
            (["-D%s_USE_SIGFLOAT" % drv.upper()] if sf else []) + [p, "-o", os.path.join(wd, "use")]
        rc, o, e = sh(cmd, timeout=300)
        if rc:
            ctx.violation(label + ":compile", "%s\n%s" % (" ".join(cmd[:3]), e[:2500]), {"in.dbc": data, "use.c": src})
            return
        env = dict(os.environ)
        env.update(SAN_ENV)
        rc, o, e = sh([os.path.join(wd, "use")], timeout=60, env=env)
        bad = []
        if rc:
            bad.append("program exit %s %s" % (rc, e[-1500:]))
        seen = 0
        for l in o.splitlines() if not rc else []:
            if l.count(" ") != 3:
                continue
            i, nm, ty, v = l.split()
            mn, s, raw, form, ex, want, tol = exp[int(i)]
            if ty == "X":
                bad.append("%s.%s %s evaluates its argument %s times" % (mn, s.name, ex, v))
                continue
            if v in ("inf", "-inf", "nan", "-nan"):
                got = None
            else:
                got = Fr(int(v)) if ty == "I" else Fr(float.fromhex(v))
            seen += 1
            if form.split(":")[0] in ("to", "round") and form.split(":")[-1] not in ("mul", "div", "cmp") and ty != "I":
                bad.append("%s.%s %s is not an integer" % (mn, s.name, ex))
            t = tol
            if ty == "D" and tol == 0:
                t = abs(want) / (1 << 52)
            if got is None or abs(got - want) > t:
                bad.append("%s.%s (%s,%s) %d bits %s, raw %d: %s = %s instead of %s" % (mn, s.name, s.ftxt, s.otxt, s.length, "signed" if s.signed else "unsigned", raw, ex, v if ty == "I" else float.fromhex(v), float(want) if want.denominator != 1 else want.numerator))
            else:
                ctx.ev(key=(s.ftxt, s.otxt, s.length, s.signed, form))
        if seen != len(exp) and not bad:
            bad.append("%d of %d values printed" % (seen, len(exp)))
        if bad:
            ctx.violation(label, "%s%s\n%s" % (cc, " USE_SIGFLOAT" if sf else "", "\n".join(bad[:12])), {"in.dbc": data, "use.c": src})
            return
        ctx.count("programs")
        if exp:
            x = exp[len(exp) // 2]
            ctx.sample({"case": label, "expression": x[4], "signal": "(%s,%s) %d bits" % (x[1].ftxt, x[1].otxt, x[1].length), "raw": x[2], "value": float(x[5])})
        shutil.rmtree(wd, ignore_errors=True)
    ctx.pmap(one, range(ctx.n(120, 1200)))
