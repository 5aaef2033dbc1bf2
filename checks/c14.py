import os, re, shutil
from fw import dbc as D
from fw import pkg as P
from fw.core import sh

TECHNIQUE = ("monitored build runs: source files of one generation are compiled with the headers of another generation of the same driver; the compiler's #error diagnostics "
             "are the oracle, in both directions and in several macro configurations and language modes")
NOTE = ("Version pairs include ones equal in one part, with swapped parts, equal digit strings or sums (1.23/12.3, 1.3/2.2), equal modulo 256 and 65536, missing VERSION lines and 32-bit limits; every core "
        "and binutil source of both generations is compiled; equal versions (also when the DBC texts differ otherwise) must compile.")
REPORT = dict(
    rule="one evaluation = one mixed compilation whose outcome was compared with the versions; distinct_nontrivial counts distinct (version pair, file kind, node utilities) cases",
    assumptions=["version numbers are below 2^32"])

SPECIAL = [((1, 2), (2, 1)), ((1, 23), (12, 3)), ((1, 3), (2, 2)), ((0, 0), (0, 1)), ((0, 0), (1, 0)), ((1, 0), (0, 1)), ((1, 1), (1, 2)), ((1, 1), (2, 1)), ((1, 10), (1, 1)), ((1, 0), (1, 256)), ((0, 5), (256, 5)),
           ((65536, 1), (0, 1)), ((1, 65537), (1, 1)), ((4294967295, 0), (0, 0)), ((1, 4294967295), (1, 255)), ((2147483648, 0), (0, 0)), ((10, 0), (1, 0)), ((7, 7), (7, 8)), ((16, 0), (10, 0)), ((8, 1), (1, 8)),
           (None, (0, 1)), (None, (1, 0)), ((2, 0), (0, 2)), ((3, 4), (4, 3)), ((11, 1), (1, 11)), ((99, 99), (98, 99)), ((0, 4294967295), (4294967295, 0))]
EQUAL = [((1, 2), (1, 2)), (None, (0, 0)), (None, None), ((0, 0), (0, 0)), ((4294967295, 4294967295), (4294967295, 4294967295)), ((10, 20), (10, 20))]


def vt(v):
    return None if v is None else "%d.%d" % v


def check(ctx):
    ctx.gen()
    r0 = ctx.rng("pairs")
    pairs = SPECIAL + EQUAL
    for k in range(ctx.n(60, 800)):
        a = (r0.randint(0, 40), r0.randint(0, 120))
        x = r0.random()
        b = (a[0], r0.randint(0, 120)) if x < 0.3 else (r0.randint(0, 40), a[1]) if x < 0.6 else (a[0] + r0.choice([1, 10, 256]), a[1]) if x < 0.7 else a if x < 0.85 else (r0.randint(0, 2 ** 32 - 1), r0.randint(0, 2 ** 32 - 1))
        pairs.append((a, b))

    def one(j):
        k, (va, vb) = j
        r = ctx.rng("net", k)
        net = D.gen_net(r, nmsg=r.choice([1, 2, 3]), maxsig=3, empty_p=0.05)
        drv = r.choice(["drv", "MyDrv", "D", "can_1"])
        node = k % 2 == 0
        label = "pair%d" % k
        outs, texts = [], []
        for i, v in enumerate((va, vb)):
            n = net.copy()
            n.version = vt(v)
            if i and r.random() < 0.5:
                for m in n.msgs:
                    m.comment = "other text"
            texts.append(n.bytes())
            o = ctx.generate_ok(texts[-1], drv, ("-rw", "-nodeutils") if node else ("-rw",), label=label, dbcname=r.choice(["in.dbc", "other.dbc"]))
            if o is None:
                return
            P.write_conf(os.path.join(o, "conf", "dbccodeconf.h"), 64)
            outs.append(o)
        equal = (va or (0, 0)) == (vb or (0, 0))
        utils = P.node_utils(net, drv) if node else P.plain_utils(net, drv)
        # src: generation of the source file; the core header comes from the other one
        for src, hdr in ((0, 1), (1, 0)):
            A, B = outs[src], outs[hdr]
            for kind, f in [("core", os.path.join(A, "lib", drv.lower() + ".c"))] + [("util", os.path.join(A, "butl", u[0] + "-binutil.c")) for u in utils]:
                d = ctx.tmp("mix")
                # the source sits alone so that "x.h" is found through the include path only
                p = os.path.join(d, os.path.basename(f))
                shutil.copy(f, p)
                inc = ["-I", os.path.join(A, "butl")] + P.includes(B)
                cfg = r.choice([[], [], P.FEATURES, [x for x in P.FEATURES if r.random() < 0.4]])
                cc = r.choice([["gcc", "-std=c99"], ["gcc", "-std=gnu11"], ["clang", "-std=c11"], ["g++", "-x", "c++"], ["clang++", "-x", "c++"]])
                cmd = cc + ["-w", "-fsyntax-only"] + ["-D%s_%s" % (drv.upper(), c) for c in cfg] + inc + [p]
                rc, o, e = sh(cmd)
                hit = bool(re.search(r"#\s*error", e))   # gcc names the directive, clang shows its source line
                ctx.ev(1, key=(va, vb, kind, node))
                if equal and rc:
                    ctx.violation("%s:%s" % (label, kind), "same version %s but the mix does not compile (%s)\n%s" % (vt(va), " ".join(cmd), e[:1200]), {"a.dbc": texts[0], "b.dbc": texts[1]})
                if not equal and (rc == 0 or not hit):
                    ctx.violation("%s:%s" % (label, kind), "%s source of version %s with core header of version %s: exit %d, #error %s\n%s\n%s" % (
                        kind, vt((va, vb)[src]), vt((va, vb)[hdr]), rc, hit, " ".join(cmd), e[:1200]), {"a.dbc": texts[0], "b.dbc": texts[1]})
                shutil.rmtree(d, ignore_errors=True)
        ctx.sample({"case": label, "versions": [vt(va), vt(vb)], "must compile": equal, "utilities": len(utils)})
        for o in outs:
            shutil.rmtree(os.path.dirname(o), ignore_errors=True)
    ctx.pmap(one, list(enumerate(pairs)))
