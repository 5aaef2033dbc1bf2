import os, re, shutil
from fw import dbc as D
from fw import pkg as P
from fw.core import sh
from fw.flow import run_net

TECHNIQUE = ("runtime monitoring: one workload run over the same generated package in many of the 128 feature-macro combinations; an online "
             "oracle checks every value and an offline checker compares the hash of all raw fields and wire bytes between the configurations; "
             "uncommented config templates are compared with -D builds")
NOTE = ("Per DBC a set of feature-macro combinations is sampled in the quick tier (all 128 for the first DBCs; all 128 for all in the thorough tier). "
        "The recorded wire hash covers every raw field and every byte without rolling counter and checksum bits.")

REPORT = dict(
    rule="one evaluation = one Pack or Unpack call checked against the reference in one macro combination; distinct_nontrivial counts distinct "
         "(DBC, macro combination) pairs whose recorded wire hash was compared with the other combinations of the same DBC",
    assumptions=["a user picks one configuration per build", "feature macros are given by the compiler or uncommented in <drv>-config.h"])


def combo(bits):
    return [f for i, f in enumerate(P.FEATURES) if bits >> i & 1]


def check(ctx):
    ctx.gen()
    nets = []
    for k in range(ctx.n(14, 60)):
        r = ctx.rng("net", k)
        nets.append((k, D.tagged_net(r, nmsg=r.choice([1, 3, 6]), maxsig=r.choice([2, 8, 16]), fd=0.3, vals=k % 2 == 0, overlap_p=0.1,
                                     signed_max=31 if k % 5 == 4 else 64),
                     r.choice(["drv", "MyDrv", "a1"])))
    jobs = []
    outs = {}
    for k, net, drv in nets:
        out = ctx.generate_ok(net.bytes(), drv, label="net%d" % k)
        if out is None:
            continue
        P.write_conf(os.path.join(out, "conf", "dbccodeconf.h"), 32 if k % 5 == 4 else 64, "double", P.methods_of([net]))
        outs[k] = out
        r = ctx.rng("combos", k)
        full = ctx.thorough or k < 2
        combos = list(range(128)) if full else sorted({0, 127} | {1 << i for i in range(7)} | {r.randrange(128) for _ in range(20)})
        jobs += [(k, net, drv, out, c) for c in combos]
    res = {}

    def one(j):
        k, net, drv, out, c = j
        st = run_net(ctx, net, "net%d-cfg%d" % (k, c), drv, combo(c), ["unpack:60", "wire:60"], ctx.seed * 1000 + k, out=out, bitext=32 if k % 5 == 4 else 64,
                     opt="-O1" if c % 7 == 0 else "-O0", cc="gcc" if c % 5 == 0 else "clang")
        if st and st["ok"]:
            with ctx.lock:
                res.setdefault(k, {})[c] = st["hash"]
            ctx.ev(0, key=(k, c))
    ctx.pmap(one, jobs)
    for k, hs in sorted(res.items()):
        vals = {}
        for c, h in sorted(hs.items()):
            vals.setdefault(h, []).append(c)
        if len(vals) > 1:
            a, b = sorted(vals.values(), key=len)[:2]
            ctx.violation("wire-differs:net%d" % k, "recorded wire behaviour differs: %s versus %s" % (combo(a[0]), combo(b[0])), {"in.dbc": nets[k][1].bytes()})
        ctx.sample({"net": k, "configurations": len(hs), "wire_hash": sorted(vals)[0]})
    ctx.cov["configurations_compared"] = sum(len(h) for h in res.values())

    # uncommented template lines
    def tmpl(j):
        k, net, drv, out = j
        cfgh = os.path.join(out, "conf", drv.lower() + "-config.h")
        src = open(cfgh, encoding="utf-8").read()
        offered = re.findall(r"(?:/\*|//)[ \t]*#[ \t]*define[ \t]+(\w+)[ \t]*(?:\*/)?", src)
        want = ["%s_%s" % (drv.upper(), f) for f in P.FEATURES]
        for w in want:
            if w not in offered:
                ctx.violation("template:net%d:%s" % (k, w), "the config template does not offer %s (offers %s)" % (w, offered), {"config.h": src})
        sub = ctx.tmp("t")
        for d in ("conf", "lib", "inc"):
            shutil.copytree(os.path.join(out, d), os.path.join(sub, d))
        r = ctx.rng("tmpl", k)
        sets = [[w] for w in offered] + [r.sample(offered, r.randint(2, len(offered))) for _ in range(3)] + [offered]
        core = os.path.join("lib", drv.lower() + ".c")
        for st in sets:
            t = src
            for w in st:
                t = re.sub(r"(?:/\*|//)([ \t]*#[ \t]*define[ \t]+%s[ \t]*)(?:\*/)?" % w, r"\1", t)
            with open(os.path.join(sub, "conf", drv.lower() + "-config.h"), "w", encoding="utf-8") as f:
                f.write(t)
            # DIAG needs canmonitorutil: always reachable
            a = sh(["gcc", "-E", "-P"] + P.includes(sub) + [os.path.join(sub, core)])
            b = sh(["gcc", "-E", "-P"] + P.includes(out) + ["-D" + w for w in st] + [os.path.join(out, core)])
            c = sh(["gcc", "-fsyntax-only"] + P.includes(sub) + [os.path.join(sub, core)])
            ctx.ev(1, key=("tmpl", k, tuple(st)))
            na, nb = a[1].split(), re.sub(r"\s+1\b", lambda m: m.group(0), b[1]).split()
            if a[0] != b[0] or na != nb or c[0]:
                ctx.violation("template:net%d:%s" % (k, "+".join(st)), "uncommenting %s in the config does not compile as with -D\n%s\n%s" % (st, a[2][-800:], c[2][-800:]),
                              {"in.dbc": net.bytes(), "config.h": t})
    ctx.pmap(tmpl, [(k, net, drv, outs[k]) for k, net, drv in nets if k in outs])
