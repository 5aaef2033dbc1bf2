import os, re, shutil
from fw import dbc as D
from fw import pkg as P
from fw.core import sh

TECHNIQUE = ("monitored build runs: gcc, clang, g++ and clang++ are run with -Wall -Wextra -Wpedantic -Werror (without the unused-function and type-limits remarks) on every file of generated packages (sources, lone headers, mixed C and C++ programs) "
             "in many macro configurations, each linked into a program; compiler, linker and program exit status are the oracle")
NOTE = ("DBCs with long names (to 128 characters), crowded frames, up to 260 messages and 40 nodes, hostile units, value tables and comments, scaled counters; "
        "per DBC a sample of the 128 feature combinations x compilers x language modes x allocation macros x user configuration styles.")
REPORT = dict(
    rule="one evaluation = one compiler or linker run on a generated package that must succeed; distinct_nontrivial counts distinct (DBC, feature set, compiler, language mode, "
         "allocation macro, configuration style)",
    assumptions=["names are C-compatible (no keywords, no collision with the generator's own suffixes)", "user definitions of dbccodeconf.h as its template asks for"])

MODES = [("gcc", "c99"), ("gcc", "c11"), ("clang", "c99"), ("clang", "c11"), ("g++", "c++11"), ("g++", "c++17"), ("clang++", "c++14"), ("g++", "c++20"), ("gcc", "c17"), ("gcc", "gnu99")]


def mk(r, k):
    kw = dict(comments=True, vals=True, long_p=0.25 if k % 2 else 0.06, overlap_p=0.2)
    if k % 3 == 0:
        net = D.tagged_net(r, k, **kw)
    elif k % 7 == 1:
        # many multiplexed signals on the same bits
        nm = D.Names(r, 0.4)
        m = D.Msg(0x123, nm.new(), 8, [], tx="N")
        m.sigs = [D.Sig(nm.new(), 0, 8, mux="M", recs=["N"])]
        for i in range(r.choice([60, 200, 300])):
            m.sigs.append(D.Sig(nm.new(128), 8 * r.randint(1, 6) + r.choice([0, 0, 1, 4]), r.choice([8, 8, 4, 1]), "I", mux="m%d" % i, recs=["N"], ftxt=r.choice(["1", "0.5", "2"])))
        net = D.Net([m], nodes=["N"])
    else:
        net = D.shape_net(r, k, **kw)
        if r.random() < 0.5:
            for m in net.msgs:
                D.tag_roll(r, m)
    # scaled rolling counters still have to compile
    for m in net.msgs:
        if m.sigs and P.roll_of(m) is None and r.random() < 0.15:
            s = r.choice(m.sigs)
            if s.comment is None or "<" not in s.comment:
                s.comment = "<RollingCounter>"
        if r.random() < 0.1:
            m.comment = "ends with \\"
    net.version = r.choice(["1.0", "0.0", "255.77", None, "4294967295.1"])
    return net


def check(ctx):
    ctx.gen()
    jobs = []
    for k in range(ctx.n(60, 500)):
        jobs.append(k)

    def one(k):
        r = ctx.rng("net", k)
        net = mk(r, k)
        drv = r.choice(["drv", "MyDrv", "D", "can_1", "Long" * 15, "x9"])
        low, U = drv.lower(), drv.upper()
        node = k % 2 == 0
        label = "net%d" % k
        out = ctx.generate_ok(net.bytes(eol=r.choice(["\n", "\r\n"])), drv, ("-rw", "-nodeutils") if node else ("-rw",), label=label)
        if out is None:
            return
        utils = P.node_utils(net, drv) if node else P.plain_utils(net, drv)
        conf = os.path.join(out, "conf", "dbccodeconf.h")
        pristine = open(conf, encoding="utf-8").read()
        methods = P.methods_of([net])
        wide = max([s.length for m in net.msgs for s in m.sigs if s.signed] or [1])
        inc = P.includes(out)
        combos = [(["gcc", "c99"], [], False, "pristine"), (["g++", "c++11"], P.FEATURES, True, "full"), (["gcc", "c99"], P.FEATURES, True, "nodefs")]
        for q in range(ctx.n(4, 14)):
            cc = r.choice(MODES)
            cfg = [f for f in P.FEATURES if r.random() < 0.5]
            combos.append((cc, cfg, r.random() < 0.5, r.choice(["full", "full", "nodefs", "macro"])))
        for n, ((cc, std), cfg, alloc, style) in enumerate(combos):
            cxx = "++" in cc
            if style == "pristine":
                with open(conf, "w", encoding="utf-8") as f:
                    f.write(pristine)
            else:
                P.write_conf(conf, 64 if wide > 31 or style != "macro" else 32, r.choice(["double", "float"]), methods)
                if style == "nodefs":
                    t = open(conf).read()
                    t = re.sub(r"#define Get\w+\(.*\n", "", t)
                    with open(conf, "w") as f:
                        f.write(t)
            defs = ["-D%s_%s" % (U, c) for c in cfg]
            if alloc:
                defs += ["-D__DEF_%s__" % u[0].upper() for u in utils]
            d = ctx.tmp("b")
            base = [cc, "-std=" + std, "-Wall", "-Wextra", "-Wno-unused-function", "-Wno-type-limits", "-Wpedantic", "-Werror", "-O0"] + defs + inc
            if cc.startswith("clang") and cxx:
                base.append("-Wno-deprecated")   # clang only objects to the .c suffix in C++ mode
            pick = base + (["-x", "c++"] if cxx else [])
            srcs = [os.path.join(out, "lib", low + ".c"), os.path.join(out, "usr", low + "-fmon.c")] + [os.path.join(out, "butl", u[0] + "-binutil.c") for u in utils]
            heads = ['"%s.h"' % low, '"%s-fmon.h"' % low] + ['"%s-binutil.h"' % u[0] for u in utils] + ['"dbccodeconf.h"', '"canmonitorutil.h"', '"%s-config.h"' % low]
            lone = r.sample(heads, min(3, len(heads)))
            for i, h in enumerate(lone):
                p = os.path.join(d, "lone%d.c" % i)
                with open(p, "w") as f:
                    f.write("#include %s\n#include %s\ntypedef int lone_header_t;\n" % (h, h))
                srcs.append(p)
            r.shuffle(heads)
            mixed = r.random() < 0.3 and not cxx
            mainp = os.path.join(d, "main.cpp" if mixed else "main.c")
            with open(mainp, "w") as f:
                f.write("#include <stdint.h>\n#include <string.h>\n" + "".join("#include %s\n" % h for h in heads))
                if style != "nodefs" and style != "pristine":
                    ex = 'extern "C" ' if (cxx or mixed) else ""
                    f.write('#ifdef __cplusplus\nextern "C" {\n#endif\nuint32_t h_tick(void){return 1u;}\nuint32_t h_hash(const uint8_t*a, uint32_t b, uint32_t c, int e, uint32_t g)'
                            '{(void)a;(void)b;(void)c;(void)e;(void)g;return 0u;}\n#ifdef __cplusplus\n}\n#endif\n')
                ms = [m for m in net.msgs if m.sigs][:40]
                f.write("static uint8_t buf[64];\nint main(void){\n uint32_t x = 0u; uint8_t l, t; (void)l; (void)t; (void)buf;\n")
                for i, m in enumerate(ms):
                    f.write(" {static %s_t o; x += Unpack_%s_%s(&o, buf, %du);\n" % (m.name, m.name, drv, m.dlc))
                    f.write("#ifdef %s_USE_CANSTRUCT\n {__CoderDbcCanFrame_t__ fr; x += Pack_%s_%s(&o, &fr);}\n#else\n x += Pack_%s_%s(&o, buf, &l, &t);\n#endif\n}\n" % (
                        U, m.name, drv, m.name, drv))
                for u in utils:
                    c = u[0].replace("-", "_")
                    if u[1]:
                        if alloc:
                            f.write(" x += %s_Receive(&%s_rx, buf, 1u, 8u);\n" % (c, c))
                        else:
                            f.write(" {static %s_rx_t q; x += %s_Receive(&q, buf, 1u, 8u);}\n" % (c, c))
                    if u[2] and alloc:
                        f.write(" {static void* volatile q; q = &%s_tx; x += (q == 0);}\n" % c)
                f.write(" return x == 0xFFFFFFF0u;\n}\n")
            rc, o, e = sh(pick + ["-c"] + srcs, cwd=d, timeout=400)
            ctx.ev(len(srcs))
            what = "compile"
            if rc == 0:
                mc = pick
                if mixed:
                    mc = [{"gcc": "g++", "clang": "clang++"}[cc], "-std=c++17", "-Wall", "-Wextra", "-Wpedantic", "-Werror"] + defs + inc
                mc = mc + (["-Wno-address", "-Wno-tautological-pointer-compare"])
                rc, o, e = sh(mc + ["-c", mainp], cwd=d, timeout=400)
                ctx.ev()
                what = "main program"
            if rc == 0:
                objs = sorted(x for x in os.listdir(d) if x.endswith(".o"))
                if len(objs) != len(srcs) + 1:
                    raise RuntimeError("object name clash")
                rc, o, e = sh([cc + "++" if mixed and cc == "clang" else ("g++" if mixed else cc)] + objs + ["-o", "prog"], cwd=d)
                ctx.ev()
                what = "link"
            if rc == 0:
                rc, o, e = sh([os.path.join(d, "prog")], cwd=d)
                what = "run"
            if rc:
                ctx.violation("%s:%d" % (label, n), "%s fails: %s -std=%s %s alloc=%s style=%s\n%s" % (what, cc, std, cfg, alloc, style, (e or o)[:2000]),
                              {"in.dbc": net.bytes(), "config.txt": " ".join(base)})
            ctx.ev(0, key=(k, tuple(cfg), cc, std, alloc, style))
            shutil.rmtree(d, ignore_errors=True)
        ctx.sample({"case": label, "messages": len(net.msgs), "utilities": len(utils), "builds": len(combos), "longest name": max([len(s.name) for m in net.msgs for s in m.sigs] or [0])})
        shutil.rmtree(os.path.dirname(out), ignore_errors=True)
    ctx.pmap(one, jobs)
