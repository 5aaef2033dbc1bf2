from fw import dbc as D
from fw import pkg as P
from fw.flow import run_net

TECHNIQUE = ("runtime monitoring: compiled generated Receive functions are called with every id of the DBC, neighbouring, masked, bit-flipped and random ids; an online "
             "checker compares all message structs (byte-wise for untouched ones), the return value and monitors with the specification")
NOTE = ("Message counts cover every value up to 40 and selected ones up to 600 (the shape of the search tree depends on the count); id sets are dense, sparse, clustered and "
        "mixed standard/extended. Small id spaces around every member id are enumerated.")

REPORT = dict(
    rule="one evaluation = one Receive call after which all message structs and the return value were compared with the specification; "
         "distinct_nontrivial counts distinct (message count, id set shape, utility) combinations",
    assumptions=["numeric ids are pairwise different, as the property says"])


def id_set(r, n, shape):
    if shape == "dense":
        b = r.choice([0, 1, 0x100, 0x7FF - n, 0x1FFFFFFF - n + 1, 0x10000, 2 ** 28 - n // 2])
        b = max(0, min(b, 0x20000000 - n))
        return list(range(b, b + n))
    if shape == "even":
        b, st = r.randint(0, 3), r.choice([2, 3, 16, 256])
        return [b + st * i for i in range(n)]
    if shape == "cluster":
        s = set()
        while len(s) < n:
            c = r.choice([0, 0x7F0, 0x800, 0xFFFF, 0x18FEF100, 0x1FFFFFF0, r.randrange(2 ** 29)])
            s |= {x for x in range(c, c + r.randint(1, 6)) if x < 2 ** 29}
        return sorted(r.sample(sorted(s), n))
    if shape == "hi":
        s = set()
        while len(s) < n:
            s.add(r.choice([1 << r.randrange(29), r.randrange(2 ** 29), (1 << r.randrange(29)) - 1, r.randrange(0x7ff)]))
        return sorted(s)
    return sorted(r.sample(range(0x800 if n < 1000 else 2 ** 29), n))


def mk(r, n, shape):
    ids = id_set(r, n, shape)
    r.shuffle(ids)
    msgs = []
    for i, v in enumerate(ids):
        ext = v > 0x7FF or r.random() < 0.2
        dlc = r.choice([1, 2, 4, 8, 8, 8, 16, 64])
        s = [D.Sig("S", 0, min(8, dlc * 8), "I", recs=["N1"])]
        if dlc >= 4 and r.random() < 0.4:
            s.append(D.Sig("T", 23, 12, "M", True, recs=["N2"]))
        msgs.append(D.Msg(v, "M%d" % i, dlc, s, ext=ext, tx=r.choice(["N1", "N2"])))
    if r.random() < 0.4:
        # empty messages take part in the id order but not in the dispatch
        for q in range(r.randint(1, 4)):
            v = r.choice(ids) + r.choice([1, 2, -1])
            if 0 <= v < 2 ** 29 and v not in ids and v not in [m.id for m in msgs]:
                msgs.insert(r.randint(0, len(msgs)), D.Msg(v, "E%d" % q, 8, [], ext=v > 0x7FF, tx="N1"))
    return D.Net(msgs, nodes=["N1", "N2"])


def check(ctx):
    ctx.gen()
    jobs = []
    counts = list(range(1, 41)) + [47, 48, 49, 63, 64, 65, 95, 96, 97, 127, 128, 129, 130, 191, 200, 255, 256, 257, 300, 511, 512, 513, 600, 1000]
    if ctx.thorough:
        counts = list(range(1, 140)) + [191, 192, 193, 200, 255, 256, 257, 300, 383, 384, 385, 500, 511, 512, 513, 600, 777, 1000]
    shapes = ["dense", "even", "cluster", "hi", "sample"]
    for k, n in enumerate(counts):
        for sh in (shapes if ctx.thorough else [shapes[(k + ctx.seed) % 5], shapes[(k + 2 + ctx.seed) % 5]] if n < 100 else [shapes[(k + ctx.seed) % 5]]):
            r = ctx.rng("ids", n, sh)
            net = mk(r, n, sh)
            node = r.random() < 0.25
            drv = r.choice(["drv", "MyDrv"])
            jobs.append(("n%d-%s" % (n, sh), net, dict(drv=drv, gen_opts=("-rw", "-nodeutils") if node else ("-rw",),
                        utils=P.node_utils(net, drv) if node else P.plain_utils(net, drv),
                        cfg=["USE_DIAG_MONITORS"] if r.random() < 0.3 else [])))
    for k in range(ctx.n(30, 400)):
        r = ctx.rng("net", k)
        net = D.shape_net(r, k, fd=0.3, empty_p=0.15)
        drv = r.choice(["drv", "MyDrv"])
        node = k % 2 == 0
        utils = P.node_utils(net, drv) if node else P.plain_utils(net, drv)
        if not any(m.sigs for m in net.msgs):
            continue
        jobs.append(("net%d" % k, net, dict(drv=drv, gen_opts=("-rw", "-nodeutils") if node else ("-rw",), utils=utils[:8],
                     cfg=[f for f in P.FEATURES if r.random() < 0.3])))

    def one(j):
        label, net, kw = j
        st = run_net(ctx, net, label, seed=ctx.seed, modes=["recv:%d" % ctx.n(300, 2000)], **kw)
        if st:
            ctx.distinct_add({(label, u[0], len(u[1])) for u in kw["utils"] if u[1]})
            ctx.sample({"case": label, "receive sets": [len(u[1]) for u in kw["utils"]][:6], "evals": st["evals"]})
    ctx.pmap(one, jobs)
