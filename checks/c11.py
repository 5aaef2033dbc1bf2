import os, re, shutil
from fw import dbc as D
from fw import pkg as P
from fw.core import sh

TECHNIQUE = ("runtime monitoring: a probe program compiled against every generated main header prints the value of every macro the value tables must define; the "
             "preprocessor's complete macro set is compared with that of the same DBC without value tables, so every surplus definition is seen")
NOTE = ("Values at and around the 32- and 64-bit limits, texts of all kinds (blanks, punctuation, digits first, duplicates, empty, non-ASCII, very long), tables up to 300 entries, simple and "
        "scaled signals, same-named signals in several messages, tables for unknown signals, messages, environment variables and VAL_TABLE_ definitions.")
REPORT = dict(
    rule="one evaluation = one macro compared (value, presence or surplus); distinct_nontrivial counts distinct (text, value class, scaled) entries",
    assumptions=["macro names of different signals do not collide (SigA_B in C versus SigA in B_C)"])

TEXTS = ["On", "Off", "Error", "not available", "1st gear", "State  two", " lead", "trail ", "x>5", "a-b/c", "Größe", "", "100 %", "_x", "0x7", "Reserved", "A;B", ";", "a,b",
         "tab\there", "日本", "é", "#define X 1", "//", "/* c */", "*/", "\\", "a\\", "%d %s %n", "'q'", "Description for the value '0x7'", "12345", "12 34", "a.b", "a:b", "(1)", "{x}",
         "BO_ 5 X: 8 Y", "SG_ x", "VAL_ 1 x", "CM_ x", "VERSION 3.4", "é1", "1é2", "?", "??/", "int", "TRUE", "a" * 100, "b" * 300, "Z9", "9Z9 z", "__", "a__b", "~", "@", "`"]


def texts(r):
    x = r.random()
    if x < 0.7:
        return r.choice(TEXTS)
    return "".join(r.choice("abcXYZ 019_-.,;:/()[]{}<>+*=!?%&#äß'") for _ in range(r.choice([1, 2, 3, 5, 10, 30])))


def table(r):
    n = r.choice([1, 1, 2, 3, 5, 8, 16, 40, 40]) if r.random() < 0.97 else r.choice([256, 300])
    out = []
    for k in range(n):
        v = r.choice([k, k, -k, r.choice([0, 1, -1, 127, 128, 255, 256, -128, -129, 32767, 32768, -32768, 65535, 65536, 2 ** 31 - 1, -2 ** 31, -2 ** 31 + 1, 2 ** 31 - 2,
                                       2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, -2 ** 31 - 1, -2 ** 32, 2 ** 63 - 1, -2 ** 63 + 1, -2 ** 63, 2 ** 63, 2 ** 64 - 1, 2 ** 63 + 1025, 2 ** 53 + 1]),
                      r.randint(-2 ** 31, 2 ** 31 - 1), r.randint(-2 ** 63, 2 ** 64 - 1) >> r.randint(0, 62)])
        t = texts(r)
        if r.random() < 0.3:
            t += str(k)
        out.append((v, t))
    return out


def check(ctx):
    ctx.gen()

    def one(k):
        r = ctx.rng("net", k)
        net = D.shape_net(r, k, maxsig=r.choice([2, 5, 12]), empty_p=0.1)
        for m in net.msgs:
            for s in m.sigs:
                if r.random() < 0.5:
                    s.vals = table(r)
        ids = {m.dbcid for m in net.msgs}
        tail = ['VAL_TABLE_ tab1 1 "Tone" 0 "Ttwo" ;', 'VAL_ EnvVar 0 "Eone" 1 "Etwo" ;', 'VAL_ EnvVar2 0 "Eone" ;']
        for m in r.sample(net.msgs, min(4, len(net.msgs))):
            if (m.dbcid ^ 0x80000000) not in ids and m.sigs:
                tail.append('VAL_ %d %s 77 "WrongFlag" ;' % (m.dbcid ^ 0x80000000, m.sigs[0].name))
            tail.append('VAL_ %d %s 77 "NoSuchSignal" ;' % (m.dbcid, "Qq_none"))
            if m.sigs:
                n = m.sigs[0].name
                for x in (n[:-1], n + "x", n.swapcase()):
                    if x and x not in [s.name for s in m.sigs] and r.random() < 0.5:
                        tail.append('VAL_ %d %s 78 "NearlyTheName" ;' % (m.dbcid, x))
            # a signal that exists only in another message
            o = r.choice(net.msgs)
            for s in o.sigs:
                if s.name not in [q.name for q in m.sigs]:
                    tail.append('VAL_ %d %s 79 "OtherMessage" ;' % (m.dbcid, s.name))
                    break
        net.extra_tail = tail
        want = {}
        clash = False
        info = {}
        for m in net.msgs:
            for s in m.sigs:
                mine = {}
                for v, t in s.vals or []:
                    n = "%s_%s_%s" % (s.field, m.name, D.c_name(t))
                    mine.setdefault(n, (v, t, s.kind != 0))
                clash |= bool(set(mine) & set(want))
                want.update(mine)
        if clash:
            return
        label = "net%d" % k
        drv = r.choice(["drv", "MyDrv"])
        out = ctx.generate_ok(net.bytes(eol=r.choice(["\n", "\n", "\r\n"])), drv, label=label)
        base = net.copy()
        base.extra_tail = []
        for m in base.msgs:
            for s in m.sigs:
                s.vals = None
        outb = ctx.generate_ok(base.bytes(), drv, label=label + "b")
        if out is None or outb is None:
            return
        sets = []
        for o in (out, outb):
            P.write_conf(os.path.join(o, "conf", "dbccodeconf.h"), 64)
            rc, t, e = sh(["gcc", "-dM", "-E"] + P.includes(o) + [os.path.join(o, "lib", drv.lower() + ".h")])
            if rc:
                ctx.violation(label + ":cpp", "main header does not preprocess\n" + e[:1500], {"in.dbc": net.bytes()})
                return
            sets.append(set(re.findall(r"^#define (\w+)", t, re.M)))
        new = sets[0] - sets[1]
        bad = ["surplus macro %s" % x for x in sorted(new - set(want))][:6]
        bad += ["missing macro %s" % x for x in sorted(set(want) - sets[0])][:6]
        bad += ["macro %s is missing beside value tables" % x for x in sorted(sets[1] - sets[0])][:6]
        if not bad:
            d = ctx.tmp("p")
            with open(os.path.join(d, "p.c"), "w") as f:
                f.write('#include <stdio.h>\n#include "%s.h"\nstatic const struct { const char*n; unsigned long long v; int neg; } t[]={\n' % drv.lower())
                for w in want:
                    f.write("{\"%s\",(unsigned long long)(%s),%s<0},\n" % (w, w, w))
                f.write("{0,0}};\n int main(void){for(int i=0;t[i].n;i++)printf(t[i].neg?\"%s %lld\\n\":\"%s %llu\\n\",t[i].n,t[i].v);return 0;}\n")
            rc, o, e = sh(["gcc", "-w", "-O0"] + P.includes(out) + [os.path.join(d, "p.c"), "-o", os.path.join(d, "p")])
            if rc:
                bad = ["value macros are not usable as constants\n" + e[:1500]]
            else:
                rc, o, e = sh([os.path.join(d, "p")])
                for l in o.splitlines():
                    n, v = l.split()
                    if int(v) != want[n][0]:
                        bad.append("%s = %s, the table says %d (%r)" % (n, v, want[n][0], want[n][1]))
            shutil.rmtree(d, ignore_errors=True)
        if bad:
            ctx.violation(label, "\n".join(bad[:12]), {"in.dbc": net.bytes()})
        ctx.ev(len(set(want) | new))
        ctx.distinct_add({(t, v.bit_length() if v >= 0 else -v.bit_length(), sc) for v, t, sc in want.values()})
        ctx.sample({"case": label, "macros": len(want), "some": sorted(want)[:2]})
        for o in (out, outb):
            shutil.rmtree(os.path.dirname(o), ignore_errors=True)
    ctx.pmap(one, range(ctx.n(260, 3000)))
