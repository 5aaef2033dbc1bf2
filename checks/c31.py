import math, os, shutil
from fw import dbc as D
from fw import pkg as P
from fw.core import sh
from checks.c08 import mk

TECHNIQUE = ("runtime monitoring of executed comparisons: the generated Receive functions are compiled with compiler instrumentation that reports every comparison, switch and branch edge (-fsanitize-coverage=trace-cmp,trace-pc-guard); "
             "an online monitor counts them for every call with member, neighbouring and random ids against a logarithmic bound")
NOTE = ("1 to 2000 received messages (all counts up to 130 and selected larger ones), dense, sparse and clustered id sets, -nodeutils and plain utilities; every member id and its neighbours are called.")
REPORT = dict(
    rule="one evaluation = one Receive call whose comparisons and executed blocks were counted; distinct_nontrivial counts distinct (message count, id set shape) pairs",
    assumptions=["code compiled without optimisation, so that the source's comparisons are counted"])

MAIN = r"""
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "%(util)s-binutil.h"
extern unsigned long ncmp, nblk;
static %(util)s_rx_t m;
static uint8_t d[64];
static const struct { uint32_t id; int member; } T[] = { %(ids)s };
int main(void) {
  unsigned long maxc = 0, maxb = 0, sum = 0, wrong = 0; uint32_t worst = 0;
  unsigned n = sizeof T / sizeof T[0];
  for (unsigned i = 0; i < n; i++) {
    ncmp = nblk = 0;
    uint32_t r = %(util)s_Receive(&m, d, T[i].id, 64);
    if (T[i].member ? r != T[i].id : r != 0) wrong++;
    if (ncmp > maxc) { maxc = ncmp; worst = T[i].id; }
    if (nblk > maxb) maxb = nblk;
    sum += ncmp;
  }
  printf("%%u %%lu %%lu %%lu %%lu %%u\n", n, maxc, maxb, sum, wrong, worst);
  return 0;
}
"""
CNT = r"""
#include <stdint.h>
unsigned long ncmp, nblk;
#define F(n, T) void __sanitizer_cov_trace_cmp##n(T a, T b) { ncmp++; } void __sanitizer_cov_trace_const_cmp##n(T a, T b) { ncmp++; }
F(1, uint8_t) F(2, uint16_t) F(4, uint32_t) F(8, uint64_t)
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t* c) { ncmp++; }
void __sanitizer_cov_trace_pc_guard(uint32_t* g) { nblk++; }
void __sanitizer_cov_trace_pc_guard_init(uint32_t* a, uint32_t* b) { }
"""


def bound(n):
    return 4 * math.ceil(math.log2(n + 1)) + 8


def check(ctx):
    ctx.gen()
    sizes = list(range(1, 131)) + [150, 200, 255, 256, 257, 300, 400, 511, 512, 513, 600, 777] + ([1000, 1024, 1500, 2000] if ctx.thorough else [1000])
    jobs = [(n, s) for n in sizes for s in (["dense", "even", "cluster", "hi", "rand"] if ctx.thorough else [["dense", "even", "cluster", "hi", "rand"][n % 5]])]

    def one(job):
        n, shape = job
        r = ctx.rng("set", n, shape)
        net = mk(r, n, shape)
        node = r.random() < 0.5
        label = "%d-%s" % (n, shape)
        out = ctx.generate_ok(net.bytes(), "drv", ("-rw", "-nodeutils") if node else ("-rw",), label=label)
        if out is None:
            return
        P.write_conf(os.path.join(out, "conf", "dbccodeconf.h"), 64)
        utils = P.node_utils(net, "drv") if node else P.plain_utils(net, "drv")
        utils = [u for u in utils if any(m.sigs for m in net.msgs if m.name in u[1])]
        d = ctx.tmp("c")
        open(os.path.join(d, "cnt.c"), "w").write(CNT)
        inc = P.includes(out)
        for pre, rx, tx in utils:
            member = {m.id for m in net.msgs if m.name in rx and m.sigs}
            ids = set(member)
            for i in list(member)[:400]:
                ids |= {x for x in (i - 1, i + 1, i ^ 1, i ^ 0x80, i & 0x7FF) if 0 <= x < 2 ** 32}
            ids |= {0, 0x7FF, 0x1FFFFFFF, 0xFFFFFFFF} | {r.randrange(2 ** 29) for _ in range(60)}
            ids = sorted(ids)
            open(os.path.join(d, "main.c"), "w").write(MAIN % dict(util=pre, ids=", ".join("{%dU,%d}" % (i, i in member) for i in ids)))
            rc, o, e = sh(["clang", "-w", "-O0", "-fbracket-depth=100000", "-c"] + inc + ["-fsanitize-coverage=trace-cmp,trace-pc-guard", os.path.join(out, "butl", pre + "-binutil.c"), "-o", os.path.join(d, "u.o")])
            if rc == 0:
                rc, o, e = sh(["clang", "-w", "-O1"] + inc + [os.path.join(d, "main.c"), os.path.join(d, "cnt.c"), os.path.join(d, "u.o"), os.path.join(out, "lib", "drv.c"), "-o", os.path.join(d, "p")])
            if rc:
                ctx.violation(label + ":compile", e[-1500:], {"in.dbc": net.bytes()})
                return
            rc, o, e = sh([os.path.join(d, "p")], timeout=60)
            if rc:
                ctx.violation(label + ":run", "exit %s %s" % (rc, e[-500:]), {"in.dbc": net.bytes()})
                return
            calls, maxc, maxb, total, wrong, worst = map(int, o.split())
            lim = bound(len(member))
            ctx.ev(calls)
            ctx.count("comparisons_counted", total)
            if maxc > lim or maxb > 3 * lim or wrong:
                ctx.violation("%s-%s" % (label, pre), "%d received messages: Receive(0x%X) makes %d comparisons and runs up to %d blocks (bound %d comparisons); %d wrong returns" % (len(member), worst, maxc, maxb, lim, wrong), {"in.dbc": net.bytes()})
            ctx.ev(0, key=(len(member), shape))
            ctx.sample({"case": label, "utility": pre, "messages": len(member), "calls": calls, "most comparisons": maxc, "bound": lim})
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(os.path.dirname(out), ignore_errors=True)
    ctx.pmap(one, jobs)
