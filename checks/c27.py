import os, shutil, re
from fw import dbc as D
from fw import pkg as P
from fw import trace as T
from fw.core import sh, SAN_ENV

TECHNIQUE = ("runtime monitoring: the generated code runs in 2 to 8 threads on distinct objects under ThreadSanitizer and natively with injected yields, and re-entrantly from its own callbacks "
             "(GetSystemTick, GetFrameHash, FMon); an offline checker compares the digest of every message history with the one recorded when each history runs alone")
NOTE = ("Every message has its own reproducible history of Unpack, Pack and Receive; the histories are run alone, interleaved in random orders, nested inside the callbacks of other calls (also of the same function) and "
        "in several threads. Distinct objects and frames only: concurrent use of one object is the caller's business.")
REPORT = dict(
    rule="one evaluation = one message history digest compared with the one recorded alone; distinct_nontrivial counts distinct (DBC, configuration, schedule kind, seed) runs",
    assumptions=["callbacks of the harness use thread-local state only"])

MAIN = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <sched.h>
void h_puts(const char* s) { fputs(s, stdout); }
static unsigned steps; static int nthr; static int repeats;
static cx* alone(uint64_t seed, int order) { cx* c = (cx*)malloc(sizeof *c); unsigned i; int k; trace_init(c, seed);
  if (order == 0) for (k = 0; k < NM; k++) for (i = 0; i < steps; i++) trace_step(c, k);
  else { hrng r = { seed * 77 + (uint64_t)order }; unsigned left[NM + 1]; unsigned tot = steps * NM; for (k = 0; k < NM; k++) left[k] = steps;
    while (tot) { k = (int)(rnd(&r) % NM); unsigned b = 1 + (unsigned)(rnd(&r) % 4); while (b-- && left[k]) { trace_step(c, k); left[k]--; tot--; } } }
  return c; }
static int bad; static unsigned long compared;
static const char* const names[] = { %(names)s };
static void cmp(const char* what, int id, const cx* a, const cx* b) { int k; for (k = 0; k < NM; k++) { compared++; if (a->dg[k] != b->dg[k]) { if (bad++ < 8) printf("BAD %%s %%d message %%s\n", what, id, names[k]); } } }
typedef struct { int id; cx* out; pthread_barrier_t* b; int nested; } job;
static void* thr(void* p) { job* j = (job*)p; unsigned i; int k; cx* c = (cx*)malloc(sizeof *c); cx* n = (cx*)malloc(sizeof *n); hrng r = { 999u + (uint64_t)j->id };
  trace_init(c, 100 + (uint64_t)j->id); trace_init(n, 500 + (uint64_t)j->id); nest_cx = n; nest_on = j->nested; nest_n = (uint64_t)j->id;
  pthread_barrier_wait(j->b);
  unsigned left[NM + 1]; unsigned tot = steps * NM; for (k = 0; k < NM; k++) left[k] = steps;
  while (tot) { k = (int)(rnd(&r) %% NM); unsigned b = 1 + (unsigned)(rnd(&r) %% 6); while (b-- && left[k]) { trace_step(c, k); left[k]--; tot--; } if (rnd(&r) %% 16 == 0) sched_yield(); }
  nest_on = 0; j->out = c; free(n); return 0; }
int main(int ac, char** av) { int i, q, rep; (void)ac; steps = (unsigned)atoi(av[1]); nthr = atoi(av[2]); repeats = atoi(av[3]);
  cx* ref[16]; for (i = 0; i < nthr; i++) ref[i] = alone(100 + (uint64_t)i, 0);
  for (i = 0; i < 2; i++) for (q = 1; q <= 3; q++) { cx* c = alone(100 + (uint64_t)i, q); cmp("interleaved", i, ref[i], c); free(c); }
  { cx* n = (cx*)malloc(sizeof *n); unsigned s; int k; trace_init(n, 100); nest_cx = n; nest_on = 1; nest_n = 0; cx* c = alone(100, 1); nest_on = 0; cmp("re-entered", 0, ref[0], c); free(c);
    unsigned long nn = (unsigned long)nest_n; cx* e = (cx*)malloc(sizeof *e); trace_init(e, 100); for (s = 0; s < nn; s++) trace_step(e, (int)(s %% NM)); for (k = 0; k < NM; k++) if (e->st[k] != n->st[k]) bad++; cmp("nested", 0, e, n); printf("NESTED %%lu\n", nn); free(n); free(e); }
  for (rep = 0; rep < repeats; rep++) { pthread_t t[16]; job j[16]; pthread_barrier_t b; pthread_barrier_init(&b, 0, (unsigned)nthr);
    for (i = 0; i < nthr; i++) { j[i].id = i; j[i].b = &b; j[i].nested = rep & 1; pthread_create(&t[i], 0, thr, &j[i]); }
    for (i = 0; i < nthr; i++) { pthread_join(t[i], 0); cmp("thread", i, ref[i], j[i].out); free(j[i].out); } pthread_barrier_destroy(&b); }
  printf("END %%lu %%d\n", compared, bad); return 0; }
"""


def check(ctx):
    ctx.gen()

    def one(k):
        r = ctx.rng("net", k)
        if k % 3 != 2:
            net = D.tagged_net(r, fd=0.3, overlap_p=0)
        else:
            net = D.shape_net(r, k, fd=0.3, overlap_p=0, empty_p=0.05)
        for m in net.msgs:
            m.sigs = [s for s in m.sigs if D.phys_ok(s)][:20]
        del net.msgs[24:]
        if not any(m.sigs for m in net.msgs):
            return
        drv = r.choice(["drv", "MyDrv", "d"])
        cfg = [f for f in P.FEATURES if r.random() < 0.6]
        if "USE_MONO_FMON" in cfg and "USE_DIAG_MONITORS" not in cfg:
            cfg.append("USE_DIAG_MONITORS")
        low = drv.lower()
        label = "net%d" % k
        data = net.bytes()
        out = ctx.generate_ok(data, drv, label=label)
        if out is None:
            return
        wd = os.path.dirname(out)
        P.write_conf(os.path.join(out, "conf", "dbccodeconf.h"), 64, "double", P.methods_of([net]))
        msgs = [m for m in net.msgs if m.sigs]
        src = "#define TLS __thread\n" + T.program(net, drv) + MAIN.replace("% NM", "%% NM").replace("% 4)", "%% 4)").replace("%%%", "%%") % dict(names=",".join('"%s"' % m.name for m in msgs))
        p = os.path.join(wd, "t.c")
        open(p, "w").write(src)
        srcs = [p, os.path.join(out, "lib", low + ".c"), os.path.join(out, "butl", low + "-binutil.c")]
        files = {"in.dbc": data, "t.c": src, "config.txt": "drv=%s cfg=%s\n" % (drv, cfg)}
        kinds = [("tsan", "clang", ["-O1", "-g1", "-fsanitize=thread"], (4, 3, 4)), ("native", r.choice(["gcc", "clang"]), [r.choice(["-O0", "-O2"])], (40, 8, 6))]
        for kind, cc, fl, (steps, nthr, rep) in kinds:
            exe = os.path.join(wd, kind)
            cmd = [cc, "-std=gnu11", "-w", "-pthread"] + fl + P.includes(out) + ["-D%s_%s" % (drv.upper(), f) for f in cfg] + srcs + ["-o", exe]
            rc, o, e = sh(cmd, timeout=200)
            if rc:
                ctx.violation(label + ":compile", "%s config %s\n%s" % (kind, cfg, e[:2000]), files)
                return
            env = dict(os.environ)
            env.update(SAN_ENV)
            env["TSAN_OPTIONS"] = "exitcode=66 halt_on_error=0 report_thread_leaks=0"
            rc, o, e = sh([exe, str(steps * ctx.n(1, 3)), str(nthr), str(rep * ctx.n(1, 3))], timeout=300, env=env)
            end = re.search(r"END (\d+) (\d+)", o)
            bad = re.findall(r"BAD .*", o)
            if "ThreadSanitizer" in e:
                if "unexpected memory mapping" in e or "FATAL: ThreadSanitizer" in e:
                    ctx.count("tsan_unavailable")
                    continue
                m = re.search(r"WARNING: ThreadSanitizer.*?(?=\n={5,}|\Z)", e, re.S)
                bad.append((m[0] if m else e)[:1800])
            elif rc or not end:
                bad.append("exit %s %s" % (rc, e[-800:]))
            if bad:
                ctx.violation("%s:%s" % (label, kind), "config %s, %d threads\n%s" % (cfg, nthr, "\n".join(bad[:8])), files)
                return
            ctx.ev(int(end[1]), key=(k, kind))
            ctx.count("nested_calls", int(re.search(r"NESTED (\d+)", o)[1]))
            ctx.count("threads_run", nthr * rep * ctx.n(1, 3))
        ctx.sample({"case": label, "cfg": cfg, "messages": len(msgs), "compared": end[0] if end else ""})
        shutil.rmtree(wd, ignore_errors=True)
    ctx.pmap(one, range(ctx.n(60, 700)))
