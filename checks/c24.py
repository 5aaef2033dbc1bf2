import os, re, shutil
from fw import dbc as D
from fw import cli as C
from fw import pkg as P
from fw.core import HARNESS, sh, tree

TECHNIQUE = ("runtime monitoring: 2 to 4 generated packages are built into one program in which every source file includes the headers of all drivers; the reference monitors (codec, counter, checksum, frame monitor, "
             "dispatch) run over all drivers in that program; a tree monitor compares a driver's files before and after the generation of the others")
NOTE = ("Drivers share signal names (with different layouts, scaling, value tables), numeric ids and node names; each has its own feature macros in its config header; same and separate directories; C and C++; gcc and clang; "
        "allocation macros on; header order varied.")
REPORT = dict(
    rule="one evaluation = one monitored codec/monitor/dispatch step, one compiled file or one file compared before and after; distinct_nontrivial counts distinct (drivers, features of each, directory mode, compiler) programs",
    assumptions=["message names are distinct in all DBCs", "<node>_<driver> names are distinct", "one user-provided dbccodeconf.h content for the program"])

NAMESETS = [["drv", "drv2"], ["can_a", "can_b"], ["x", "xx", "xxx"], ["Front", "Rear"], ["DRV", "MyDrv", "other"], ["drv", "drv_x"], ["a", "b", "c", "d"], ["PT", "pt_can"], ["L" * 40 + "a", "L" * 40 + "b"], ["b1", "B2"]]


def clone(r, net, nm):
    """the same network with other message names and changed layouts: all signal and node names shared."""
    c = net.copy()
    for m in c.msgs:
        m.name = nm.new()
        for s in m.sigs:
            x = r.random()
            if x < 0.3:
                s.signed = not s.signed
            elif x < 0.6:
                s.ftxt, s.otxt = D.pick_scaling(r, "mixed")
            elif x < 0.7:
                s.ftxt, s.otxt = "1", "0"
            if not D.phys_ok(s):
                s.ftxt, s.otxt = "1", "0"
            if s.comment and "<" in s.comment and (s.signed or s.kind):
                s.signed, s.ftxt, s.otxt = False, "1", "0"
            if s.vals and r.random() < 0.5:
                s.vals = [(v + 1 if v < 2 ** 31 - 1 else v - 1, t) for v, t in s.vals]
        if r.random() < 0.3:
            r.shuffle(m.sigs)
    c.version = "%d.%d" % (r.randint(0, 30), r.randint(0, 99))
    return c


def check(ctx):
    ctx.gen()

    def one(k):
        r = ctx.rng("case", k)
        names = NAMESETS[k % len(NAMESETS)]
        nm = D.Names(r, 0.05)
        nodes = [nm.new(12) for _ in range(r.randint(1, 4))]
        nets = []
        for i, d in enumerate(names):
            if i and r.random() < 0.6:
                nets.append(clone(r, nets[0], nm))
                continue
            if r.random() < 0.5:
                net = D.gen_net(r, nmsg=r.choice([1, 2, 4, 8]), maxsig=r.choice([2, 5, 12]), nodes=nodes, vals=True, comments=True, names=nm, overlap_p=0)
            else:
                net = D.tagged_net(r, nodes=nodes, vals=True, fd=0.3, overlap_p=0, names=nm)
            for m in net.msgs:
                nm.used |= {m.name.lower()} | {s.name.lower() for s in m.sigs}
            if i and r.random() < 0.7:
                # the same ids as in the first driver
                ids = [(m.id, m.ext) for m in nets[0].msgs][:len(net.msgs)]
                rest = {x for x, _ in ids}
                for m, (a, e) in zip(net.msgs, ids):
                    m.id, m.ext = a, e
                seen = set()
                for m in net.msgs:
                    while m.id in seen:
                        m.id = (m.id + 1) % 0x20000000
                        m.ext = m.ext or m.id > 0x7ff
                    seen.add(m.id)
            nets.append(net)
        # names of messages and tags must not collide over the drivers
        allnames = [m.name.lower() for n in nets for m in n.msgs]
        assert len(set(allnames)) == len(allnames)
        label = "case%d" % k
        top = ctx.tmp("m")
        same = k % 2 == 0
        nodeutils = [r.random() < 0.6 for _ in names]
        files = {"%s.dbc" % d: n.bytes() for d, n in zip(names, nets)}
        outs, snaps = [], []
        for i, (d, net) in enumerate(zip(names, nets)):
            if same:
                out = os.path.join(top, "out")
            else:
                out = os.path.join(top, "out%d" % i)
            before = C.files(tree(out)) if os.path.isdir(out) else {}
            opts = ["-rw"] + (["-nodeutils"] if nodeutils[i] else []) + (["-noconfig"] if same and i and r.random() < 0.2 else [])
            if "-noconfig" in opts:
                # the config header of the driver is needed: generated first, by an ordinary run
                ctx.generate(net.bytes(), d, ["-rw"], outdir=out)
                before = C.files(tree(out))
            o = ctx.generate_ok(net.bytes(), d, tuple(opts), label=label, outdir=out)
            if o is None:
                return
            after = C.files(tree(out))
            outs.append(out)
            others = set()
            for j in range(i):
                if same:
                    others |= C.expected(nets[j], names[j], ["-nodeutils"] if nodeutils[j] else [])
            others -= {"conf/dbccodeconf.h", "inc/canmonitorutil.h"}
            for f in before:
                ctx.ev()
                if f in others and after.get(f) != before[f]:
                    ctx.violation("%s:files" % label, "generating %s changed %s of another driver" % (d, f), files)
                if f in others and f not in before:
                    ctx.violation("%s:files" % label, "%s missing" % f, files)
            if same and i:
                # the shared files are those of any driver
                for f in ("conf/dbccodeconf.h", "inc/canmonitorutil.h"):
                    if after.get(f) != before.get(f):
                        ctx.violation("%s:shared" % label, "the shared %s differs between drivers" % f, files)
        # own configuration of every driver
        cfgs = []
        for d, out in zip(names, outs):
            cfg = [f for f in P.FEATURES if r.random() < 0.5]
            if r.random() < 0.2:
                cfg = r.choice([[], list(P.FEATURES)])
            cfgs.append(cfg)
            with open(os.path.join(out, "conf", "%s-config.h" % d.lower()), "a") as f:
                f.write("".join("#define %s_%s\n" % (d.upper(), x) for x in cfg))
        methods = P.methods_of(nets)
        # the user's definitions: one header, included by the dbccodeconf.h of every directory
        wd = os.path.join(top, "b")
        os.mkdir(wd)
        P.write_conf(os.path.join(wd, "user_conf.h"), 64, r.choice(["double", "double", "long double"]), methods)
        for out in set(outs):
            with open(os.path.join(out, "conf", "dbccodeconf.h"), "w") as f:
                f.write('#pragma once\n#include "user_conf.h"\n')
        utils = [P.node_utils(n, d) if u else P.plain_utils(n, d) for n, d, u in zip(nets, names, nodeutils)]
        heads = []
        for d, us in zip(names, utils):
            heads += ["%s.h" % d.lower(), "%s-fmon.h" % d.lower()] + ["%s-binutil.h" % u[0] for u in us]
        heads = list(dict.fromkeys(heads))
        inc = ["-I", wd]
        oo = list(dict.fromkeys(outs))
        r.shuffle(oo)
        for out in oo:
            inc += P.includes(out)
        cc = r.choice(["gcc", "clang"])
        opt = r.choice(["-O0", "-O1"])

        def hdrs():
            h = heads[:]
            r.shuffle(h)
            return "".join('#include "%s"\n' % x for x in h)
        jobs = []
        strict = ["-std=" + r.choice(["c99", "c11"]), "-Wpedantic", "-Werror"]
        for d, us, out in zip(names, utils, outs):
            jobs.append((strict, os.path.join(out, "lib", d.lower() + ".c")))
            for u in us:
                jobs.append((strict, os.path.join(out, "butl", u[0] + "-binutil.c")))
        # one source file with the headers of all drivers, in several orders, C and C++, with all allocation macros
        al = "".join("#define __DEF_%s__\n" % u[0].upper() for us in utils for u in us)
        for q, (c, pre) in enumerate((("c", ""), ("c", al), ("cpp", ""), ("cpp", al))):
            p = os.path.join(wd, "all%d.%s" % (q, c))
            with open(p, "w") as f:
                f.write(pre + hdrs() + hdrs() + "void all_%d(void);\nvoid all_%d(void)\n{\n" % (q, q))
                # every header contributes its part of the interface in such a file
                for d, net, us, cfg in zip(names, nets, utils, cfgs):
                    if "USE_DIAG_MONITORS" in cfg:
                        f.write(" {FrameMonitor_t z = {0,0,0,0,0,0,0}; (void)z;\n")
                        for m in net.msgs[:12]:
                            f.write("  FMon_%s_%s(&z, %s_CANID);\n" % (m.name, d.lower(), m.name))
                        f.write(" }\n")
                    for m in net.msgs[:12]:
                        if m.sigs:
                            f.write(" {static %s_t z; static uint8_t b[64]; Unpack_%s_%s(&z, b, %s_DLC);}\n" % (m.name, m.name, d, m.name))
                    for u in us:
                        c2 = u[0].replace("-", "_")
                        if u[1]:
                            f.write(" {static %s_rx_t z; static uint8_t b[64]; %s_Receive(&z, b, 0u, 8u);}\n" % (c2, c2))
                        if u[2]:
                            f.write(" {static %s_tx_t z; (void)z;}\n" % c2)
                f.write("}\n")
            jobs.append((["-std=c++11", "-Wpedantic", "-Werror"] if c == "cpp" else strict, p))
        # every glue file includes all drivers
        for d, net, us in zip(names, nets, utils):
            p = os.path.join(wd, "glue_%s.c" % d)
            with open(p, "w") as f:
                f.write(hdrs() + P.glue(net, d, us, methods))
            jobs.append((["-std=gnu11", "-w"], p))
        p = os.path.join(wd, "main_glue.c")
        with open(p, "w") as f:
            f.write(P.main_glue(names))
        jobs.append((["-std=gnu11", "-w"], p))
        jobs.append((["-std=gnu11", "-w"], os.path.join(HARNESS, "engine.c")))
        # the allocation macros are set for the binutil sources (and off for the glue): the variables exist once
        alloc = r.random() < 0.5
        objs, bad = [], None
        for q, (fl, src) in enumerate(jobs):
            o = os.path.join(wd, "%d.o" % q)
            x = [cc if not src.endswith(".cpp") else {"gcc": "g++", "clang": "clang++"}[cc]]
            fl2 = fl + (["-D" + l.split()[1] for l in al.splitlines()] if alloc and "/butl/" in src else [])
            rc, so, e = sh(x + fl2 + [opt, "-I", HARNESS] + inc + ["-c", src, "-o", o])
            ctx.ev()
            if rc:
                bad = "%s does not compile (%s %s)\n%s" % (os.path.basename(src), cc, " ".join(fl2), e[:2500])
                break
            objs.append(o)
        desc = "drivers %s, features %s, %s, node utilities %s" % (names, cfgs, "one directory" if same else "separate directories", nodeutils)
        if not bad:
            # every macro of a driver expands in a file with all drivers to what it expands to without the others
            alone, only = [], []
            for d, us in zip(names, utils):
                hd = ["%s.h" % d.lower(), "%s-fmon.h" % d.lower()] + ["%s-binutil.h" % u[0] for u in us]
                p = os.path.join(wd, "only_%s.c" % d)
                with open(p, "w") as f:
                    f.write("".join('#include "%s"\n' % h for h in hd))
                rc, so, e = sh(["gcc", "-dM", "-E"] + inc + [p])
                alone.append(dict((x[0], x[1]) for x in re.findall(r"^#define (\w+)(\([^)]*\))?", so, re.M)))
                only.append(hd)
            p = os.path.join(wd, "none.c")
            with open(p, "w") as f:
                f.write('#include "dbccodeconf.h"\n#include "canmonitorutil.h"\n')
            rc, so, e = sh(["gcc", "-dM", "-E"] + inc + [p])
            base = set(re.findall(r"^#define (\w+)", so, re.M))
            for i, (d, hd) in enumerate(zip(names, only)):
                mine = sorted(x for x in alone[i] if x not in base and not any(x in alone[j] for j in range(len(names)) if j != i))
                exp = []
                for q, hs in (("one", hd), ("all", None)):
                    p = os.path.join(wd, "exp_%s_%s.c" % (d, q))
                    with open(p, "w") as f:
                        f.write("".join('#include "%s"\n' % h for h in hs) if hs else hdrs())
                        f.write("\nMARK_Z\n")
                        for x in mine:
                            a = alone[i][x]
                            n = len([y for y in a.strip("()").split(",") if y.strip()]) if a else 0
                            f.write("ROW_Z %s\n" % (x + ("(" + ",".join("arg_z%d" % y for y in range(n)) + ")" if a else "")))
                    rc, so, e = sh(["gcc", "-E", "-P"] + inc + [p])
                    exp.append([" ".join(y.split()) for y in so.split("MARK_Z", 1)[-1].split("ROW_Z")[1:]])
                ctx.ev(len(mine))
                ctx.count("macros_compared", len(mine))
                if len(exp[0]) != len(mine) or exp[0] != exp[1]:
                    df = [(x, a, b) for x, a, b in zip(mine, exp[0], exp[1]) if a != b][:3]
                    bad = "macros of driver %s mean something else in a file that includes all drivers: %s" % (d, df or (len(mine), len(exp[0])))
                    break
        if not bad:
            exe = os.path.join(wd, "exe")
            rc, so, e = sh([cc] + objs + ["-o", exe, "-lm"])
            ctx.ev()
            if rc:
                bad = "does not link\n" + e[:2500]
        if not bad:
            nmode = ctx.n(12, 40)
            modes = ["unpack:%d" % nmode, "pack:%d" % nmode, "phys:%d" % nmode, "roll:%d" % (nmode * 6), "csm:%d" % nmode, "mon:%d" % nmode, "recv:%d" % nmode]
            rc, so, e = sh([exe, str(ctx.seed + k)] + modes, timeout=240)
            fails = [l[5:] for l in so.splitlines() if l.startswith("FAIL ")]
            end = re.search(r"END fails=(\d+) evals=(\d+) nontrivial=(\d+)", so)
            if not end:
                fails.append("program died, exit %s %s" % (rc, e[-1500:]))
            else:
                ctx.ev(int(end.group(2)))
            if fails:
                bad = "\n".join(fails[:10])
        if bad:
            ctx.violation(label, desc + "\n" + bad, files)
        ctx.ev(0, key=(tuple(names), tuple(tuple(c) for c in cfgs), same, cc, opt, alloc))
        ctx.sample({"case": label, "drivers": names, "features": [len(c) for c in cfgs], "same directory": same, "sources": len(jobs),
                    "shared signal names": len(set.intersection(*[{s.name for m in n.msgs for s in m.sigs} for n in nets]))})
        shutil.rmtree(top, ignore_errors=True)
    ctx.pmap(one, range(ctx.n(200, 2500)))
