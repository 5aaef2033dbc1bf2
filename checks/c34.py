import os, re, shutil
from fw import dbc as D
from fw import pkg as P
from fw import trace as T
from fw.core import sh, HarnessError

TECHNIQUE = ("runtime monitoring on bare ground: generated packages are compiled freestanding (no C library headers), linked without any library into a program with its own entry point, and executed under strace; monitors compare what every "
             "object file asks for and defines with what its enabled features name, the system calls with those of the harness, and the results with a hosted build")
NOTE = ("Random networks (tagged, crowded, FD, many nodes) x random feature sets x gcc/clang x optimisation levels; core and configuration in separate directories, the core read-only and shared by two projects with different configurations.")
REPORT = dict(
    rule="one evaluation = one symbol of an object file, or one history digest of a program without libraries, compared with the expectation; distinct_nontrivial counts distinct (DBC, feature set, compiler, option) builds",
    assumptions=["compilers may call memcpy, memmove, memset and memcmp in freestanding code", "x86-64"])

START = r"""
#define HAVE_MAIN 1
%(prog)s
static long sys3(long n, long a, long b, long c) { long r; __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory"); return r; }
static char ob[1 << 16]; static unsigned on;
static void fl(void) { if (on) sys3(1, 1, (long)ob, (long)on); on = 0; }
void h_puts(const char* s) { while (*s) { if (on == sizeof ob) fl(); ob[on++] = *s++; } }
void* memcpy(void* d, const void* s, unsigned long n) { volatile unsigned char* p = (volatile unsigned char*)d; const unsigned char* q = (const unsigned char*)s; while (n--) *p++ = *q++; return d; }
void* memmove(void* d, const void* s, unsigned long n) { volatile unsigned char* p = (volatile unsigned char*)d; const unsigned char* q = (const unsigned char*)s; if ((const unsigned char*)d < q) while (n--) *p++ = *q++; else while (n--) p[n] = q[n]; return d; }
void* memset(void* d, int c, unsigned long n) { volatile unsigned char* p = (volatile unsigned char*)d; while (n--) *p++ = (unsigned char)c; return d; }
int memcmp(const void* a, const void* b, unsigned long n) { const unsigned char* p = (const unsigned char*)a; const unsigned char* q = (const unsigned char*)b; while (n--) { if (*p != *q) return *p - *q; p++; q++; } return 0; }
__attribute__((force_align_arg_pointer)) void _start(void) { trace_main(%(seed)du, %(steps)du); fl(); sys3(231, 0, 0, 0); for (;;) {} }
"""
HOSTED = r"""
#define HAVE_MAIN 1
%(prog)s
#include <stdio.h>
void h_puts(const char* s) { fputs(s, stdout); }
int main(void) { trace_main(%(seed)du, %(steps)du); return 0; }
"""
LIBC = {"memcpy", "memmove", "memset", "memcmp"}


def symbols(ctx, obj):
    """({undefined}, {global definitions}, {writable data: global and local})"""
    rc, o, e = sh(["nm", "-f", "posix", obj])
    if rc:
        raise HarnessError("nm: " + e[-300:])
    und, glob, data = set(), set(), set()
    for l in o.splitlines():
        p = l.split()
        if len(p) < 2:
            continue
        n, t = p[0], p[1]
        if t in "Uwv":
            und.add(n)
        elif t in "BbDdCcGgSs":
            data.add(n)
        elif t.isupper() and t not in "N":
            glob.add(n)
    return und - {"_GLOBAL_OFFSET_TABLE_"}, glob, data


def check(ctx):
    ctx.gen()
    free = {}
    for cc in ("gcc", "clang"):
        rc, o, e = sh([cc, "-print-file-name=include"] if cc == "gcc" else [cc, "-print-resource-dir"])
        d = o.strip() if cc == "gcc" else os.path.join(o.strip(), "include")
        if not os.path.exists(os.path.join(d, "stdint.h")):
            raise HarnessError("no freestanding headers of " + cc)
        free[cc] = d

    def one(k):
        r = ctx.rng("net", k)
        net = D.tagged_net(r, fd=0.3, overlap_p=0) if k % 3 else D.shape_net(r, k, fd=0.2, overlap_p=0, empty_p=0.1)
        for m in net.msgs:
            m.sigs = [s for s in m.sigs if D.phys_ok(s)][:24]
        del net.msgs[30:]
        if not any(m.sigs for m in net.msgs):
            return
        drv = r.choice(["drv", "MyDrv", "d", "can_1"])
        low, U = drv.lower(), drv.upper()
        node = k % 2 == 0
        label = "net%d" % k
        data = net.bytes()
        out = ctx.generate_ok(data, drv, ("-rw", "-nodeutils") if node else ("-rw",), label=label)
        if out is None:
            return
        utils = P.node_utils(net, drv) if node else P.plain_utils(net, drv)
        wd = os.path.dirname(out)
        msgs = [m for m in net.msgs if m.sigs]
        has_csm = any(P.csm_of(m)[0] for m in msgs)
        files = {"in.dbc": data}
        # the core stays where it is, every project has its own configuration
        core = os.path.join(out, "lib", low + ".c")
        bad = []
        for q in range(ctx.n(3, 6)):
            cfg = [f for f in P.FEATURES if r.random() < (0.5 if q else 0.2)]
            if "USE_MONO_FMON" in cfg and r.random() < 0.7 and "USE_DIAG_MONITORS" not in cfg:
                cfg.append("USE_DIAG_MONITORS")
            cc, opt = r.choice(["gcc", "clang"]), r.choice(["-O0", "-O1", "-Os", "-O2"])
            alloc = r.random() < 0.5
            diag = "USE_DIAG_MONITORS" in cfg
            what = "%s %s alloc=%s %s" % (cc, opt, alloc, "+".join(cfg))
            pr = os.path.join(wd, "project%d" % q)
            os.makedirs(pr)
            shutil.copy(os.path.join(out, "conf", low + "-config.h"), pr)
            P.write_conf(os.path.join(pr, "dbccodeconf.h"), 64, r.choice(["double", "float"]) if q % 2 else "double", P.methods_of([net]))
            inc = ["-I", pr, "-I", os.path.join(out, "lib"), "-I", os.path.join(out, "butl")] + (["-I", os.path.join(out, "inc")] if diag else [])
            defs = ["-D%s_%s" % (U, f) for f in cfg] + (["-D__DEF_%s__" % u[0].upper() for u in utils] if alloc else [])
            base = [cc, "-std=" + r.choice(["c99", "c11"]), opt, "-w", "-ffreestanding", "-fno-stack-protector", "-fno-pic", "-fno-pie", "-nostdinc", "-isystem", free[cc]] + defs + inc
            objs = {}
            srcs = [("core", core), ("fmon", os.path.join(out, "usr", low + "-fmon.c"))] + [(u[0], os.path.join(out, "butl", u[0] + "-binutil.c")) for u in utils]
            for name, src in srcs:
                p = os.path.join(pr, "o-%s.o" % name)
                rc, o, e = sh(base + ["-c", src, "-o", p])
                if rc:
                    bad.append("%s: %s does not compile without the C library\n%s" % (what, os.path.basename(src), e[:1200]))
                    break
                objs[name] = p
            if bad:
                break
            fm = {"_FMon_MONO_" + low} if "USE_MONO_FMON" in cfg else {"_FMon_%s_%s" % (m.name, low) for m in net.msgs}
            fmcore = {"_FMon_MONO_" + low} if "USE_MONO_FMON" in cfg else {"_FMon_%s_%s" % (m.name, low) for m in msgs}
            codecs = {x + m.name + "_" + drv for m in msgs for x in ("Unpack_", "Pack_")}

            def judge(name, need, define, datas, exact_defs=True):
                u, g, d = symbols(ctx, objs[name])
                ctx.ev(len(u | g | d) + 1)
                x = u - need - LIBC
                if x:
                    bad.append("%s: %s needs %s" % (what, name, sorted(x)[:6]))
                if d != datas:
                    bad.append("%s: %s holds data %s, expected %s" % (what, name, sorted(d)[:6], sorted(datas)[:4]))
                if define - g:
                    bad.append("%s: %s does not define %s" % (what, name, sorted(define - g)[:6]))
                for n in sorted(g - define):
                    if low not in n.lower() and name not in n:
                        bad.append("%s: %s defines the foreign name %s" % (what, name, n))
            need = set()
            if diag:
                need |= {"h_tick"} | fmcore
            if "AUTO_CSM" in cfg and has_csm:
                need.add("h_hash")
            judge("core", need, codecs, set())
            judge("fmon", set(), fm if diag else set(), set())
            for pre, rx, tx in utils:
                c = pre.replace("-", "_")
                dd = set()
                if alloc:
                    dd = ({c + "_rx"} if rx else set()) | ({c + "_tx"} if tx else set())
                judge(pre, {"Unpack_%s_%s" % (n, drv) for n in rx}, {c + "_Receive"} if rx else set(), dd)
            if bad:
                break
            ctx.ev(0, key=(k, tuple(cfg), cc, opt, alloc))
            # execution without any library
            if node and q:
                continue
            if node:
                out2 = ctx.generate_ok(data, drv, ("-rw",), label=label)
                if out2 is None:
                    return
                inc2 = [x.replace(out, out2) for x in inc]
                base2 = base[:base.index("-I")] + inc2
                core2, butl2 = os.path.join(out2, "lib", low + ".c"), os.path.join(out2, "butl", low + "-binutil.c")
            else:
                base2, inc2, core2, butl2 = base, inc, core, os.path.join(out, "butl", low + "-binutil.c")
            T_ = dict(prog=T.program(net, drv), seed=r.randint(1, 10 ** 6), steps=ctx.n(12, 60))
            res = []
            for kind, text in (("free", START), ("hosted", HOSTED)):
                p = os.path.join(pr, kind + ".c")
                with open(p, "w") as f:
                    f.write(text.replace("%(prog)s", "\0").replace("%(seed)d", str(T_["seed"])).replace("%(steps)d", str(T_["steps"])).replace("\0", T_["prog"]))
                exe = os.path.join(pr, kind)
                if kind == "free":
                    cmd = [x for x in base2 if not x.startswith("-std")] + ["-std=gnu11", "-static", "-nostdlib", "-no-pie"]
                else:
                    cmd = [cc, "-std=gnu11", "-w", "-O0"] + defs + inc2
                rc, o, e = sh(cmd + [p, core2, butl2, "-o", exe], timeout=240)
                if rc:
                    bad.append("%s: program %s cannot be built\n%s" % (what, kind, e[:1500]))
                    break
                if kind == "free":
                    log = os.path.join(pr, "strace")
                    rc, o, e = sh(["strace", "-qq", "-o", log, exe], timeout=120)
                    calls = set(re.findall(r"^(\w+)\(", open(log, errors="replace").read(), re.M)) - {"execve", "write", "exit_group"}
                    if calls:
                        bad.append("%s: system calls %s" % (what, sorted(calls)))
                    if rc:
                        bad.append("%s: program without libraries ends with %s" % (what, rc))
                else:
                    rc, o, e = sh([exe], timeout=120)
                res.append(o)
            if not bad:
                ctx.ev(len(res[0].splitlines()))
                if res[0] != res[1] or not res[0]:
                    bad.append("%s: results without libraries differ from the hosted build\n%s\n%s" % (what, res[0][:300], res[1][:300]))
                ctx.count("programs_without_libraries")
            if bad:
                break
        if bad:
            ctx.violation(label, "\n".join(bad[:8]), files)
        ctx.sample({"case": label, "messages": len(net.msgs), "utilities": len(utils), "node utilities": node})
        shutil.rmtree(wd, ignore_errors=True)
    ctx.pmap(one, range(ctx.n(90, 900)))
