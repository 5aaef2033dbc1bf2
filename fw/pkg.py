"""A generated package: glue tables for the engine, compilation in a given configuration, execution of the monitors."""
import os, re
from .core import HARNESS, HarnessError, SAN_ENV, sh

FEATURES = ["USE_BITS_SIGNAL", "USE_CANSTRUCT", "USE_SIGFLOAT", "USE_DIAG_MONITORS", "USE_MONO_FMON", "AUTO_ROLL", "AUTO_CSM"]
BIT = {f: 1 << i for i, f in enumerate(FEATURES)}

CONF = """#pragma once
#include <stdint.h>
typedef %(sigfloat)s sigfloat_t;
#ifdef H_PTRFRAME
typedef struct { uint32_t MsgId; uint8_t DLC; uint8_t* Data; uint8_t IDE; } __CoderDbcCanFrame_t__;
#else
typedef struct { uint32_t MsgId; uint8_t DLC; uint8_t Data[64]; uint8_t IDE; } __CoderDbcCanFrame_t__;
#endif
typedef uint%(bitext)d_t ubitext_t;
typedef int%(bitext)d_t bitext_t;
%(methods)s
#ifdef __cplusplus
extern "C" {
#endif
uint32_t h_tick(void);
uint32_t h_hash(const uint8_t*, uint32_t, uint32_t, int, uint32_t);
#ifdef __cplusplus
}
#endif
#ifndef H_NODEFS
#define GetSystemTick() h_tick()
#define GetFrameHash(a,b,c,d,e) h_hash(a,b,c,d,e)
#endif
"""


def write_conf(path, bitext=64, sigfloat="double", methods=()):
    me = "enum { %s };" % ", ".join(methods) if methods else ""
    with open(path, "w") as f:
        f.write(CONF % dict(sigfloat=sigfloat, bitext=bitext, methods=me))


def roll_of(m):
    for s in m.sigs:
        if s.comment and "<RollingCounter>" in s.comment:
            return s
    return None


CSM_RE = re.compile(r"<Checksum:([A-Za-z_]\w*):(\d+)>")


def csm_of(m):
    for s in m.sigs:
        if s.comment:
            k = CSM_RE.search(s.comment)
            if k:
                return s, k.group(1), int(k.group(2))
    return None, None, 0


def lit(t):
    """a C long double literal for a DBC number text."""
    if not any(c in t for c in ".eE"):
        t += ".0"
    return "(%sL)" % t


def glue(net, drv, utils=None, methods=()):
    """C text: accessors and tables for every message that has signals. utils: [(prefix, rx message names)] of binutils."""
    D = drv.upper()
    low = drv.lower()
    L = ['#include "h.h"', '#include <string.h>', '#include "%s.h"' % low]
    for pre, rx, _ in utils or []:
        L.append('#include "%s-binutil.h"' % pre)
    L += ["static unsigned const cfg = 0"] + ["#ifdef %s_%s\n | %d\n#endif" % (D, f, BIT[f]) for f in FEATURES] + [";"]
    L.append("extern const hdrv H_%s;" % drv)
    L.append("#define SG(i,T,F) static uint64_t g##i(const void*m){return (uint64_t)((const T*)m)->F;} "
             "static void s##i(void*m,uint64_t v){((T*)m)->F=v;}")
    L.append("#ifdef %s_USE_SIGFLOAT" % D)
    L.append("#define PH(i,T,F) static long double gp##i(const void*m){return (long double)((const T*)m)->F;} "
             "static void sp##i(void*m,long double v){((T*)m)->F=v;}\n#define GP(i) gp##i, sp##i\n#else\n#define PH(i,T,F)\n#define GP(i) 0, 0\n#endif")
    L.append("#ifdef %s_USE_DIAG_MONITORS" % D)
    L.append("#define MN(i,T) static void* mn##i(void*m){return &((T*)m)->mon1;}\n#define GM(i) mn##i")
    L.append("static void mget(const void*p,hmon*o){const FrameMonitor_t*m=(const FrameMonitor_t*)p;memset(o,0,sizeof*o);o->last=m->last_cycle;o->tmo=m->timeout_cycle;"
             "o->cnt=m->frame_cnt;o->roll=m->roll_error;o->csm=m->csm_error;o->cyc=m->cycle_error;o->dlc=m->dlc_error;}")
    L.append("static void mset(void*p,const hmon*o){FrameMonitor_t*m=(FrameMonitor_t*)p;m->last_cycle=o->last;m->timeout_cycle=o->tmo;"
             "m->frame_cnt=o->cnt;m->roll_error=o->roll;m->csm_error=o->csm;m->cycle_error=o->cyc;m->dlc_error=o->dlc;}")
    L.append("#else\n#define MN(i,T)\n#define GM(i) 0\n#define mget 0\n#define mset 0\n#endif")
    L.append("#ifdef %s_AUTO_ROLL" % D)
    L.append("#define XP(i,T,F) static uint64_t xg##i(const void*m){return (uint64_t)((const T*)m)->F;} static void xs##i(void*m,uint64_t v){((T*)m)->F=v;}\n"
             "#define GX(i) xg##i, xs##i\n#else\n#define XP(i,T,F)\n#define GX(i) 0, 0\n#endif")
    L.append("#ifdef %s_USE_CANSTRUCT" % D)
    L.append("""#ifdef H_PTRFRAME
#define PK(i,T,N) static uint32_t p##i(void*m,uint8_t*d,uint8_t*len,uint8_t*ide,uint32_t*id){__CoderDbcCanFrame_t__ f; f.MsgId=0xA5A5A5A5u;f.DLC=0xA5;f.IDE=0xA5; \\
 f.Data=d; uint32_t r=N((T*)m,&f); *len=f.DLC;*ide=f.IDE;*id=f.MsgId; return r;}
#else
#define PK(i,T,N) static uint32_t p##i(void*m,uint8_t*d,uint8_t*len,uint8_t*ide,uint32_t*id){struct{uint8_t a[16];__CoderDbcCanFrame_t__ f;uint8_t b[16];}x; \\
 memset(&x,0xA5,sizeof x); memcpy(x.f.Data,d,64); uint32_t r=N((T*)m,&x.f); memcpy(d,x.f.Data,64); *len=x.f.DLC;*ide=x.f.IDE;*id=x.f.MsgId; \\
 for(int k=0;k<16;k++) if(x.a[k]!=0xA5||x.b[k]!=0xA5) r=0xDEADBEEFu; return r;}
#endif
#else
#define PK(i,T,N) static uint32_t p##i(void*m,uint8_t*d,uint8_t*len,uint8_t*ide,uint32_t*id){uint32_t r=N((T*)m,d,len,ide); *id=r; return r;}
#endif""")
    L.append("#define UP(i,T,N) static uint32_t u##i(void*m,const uint8_t*d,uint8_t l){return N((T*)m,d,l);}")
    msgs = [m for m in net.msgs if m.sigs]
    index = {m.name: k for k, m in enumerate(msgs)}
    for k, m in enumerate(msgs):
        T = m.name + "_t"
        L.append("UP(_%d,%s,Unpack_%s_%s)" % (k, T, m.name, drv))
        L.append("PK(_%d,%s,Pack_%s_%s)" % (k, T, m.name, drv))
        L.append("MN(_%d,%s)" % (k, T))
        roll = roll_of(m)
        csm, meth, op = csm_of(m)
        if roll is not None:
            L.append("XP(_%d,%s,%s_expt)" % (k, T, roll.field))
        rows = []
        for j, s in enumerate(m.sigs):
            i = "_%d_%d" % (k, j)
            L.append("SG(%s,%s,%s)" % (i, T, s.field))
            if s.kind:
                L.append("PH(%s,%s,%s_phys)" % (i, T, s.name))
            f, o = ("1", "0") if s.kind == 0 else (s.ftxt, s.otxt)
            rows.append('{"%s",%d,%d,%d,%d,%d,g%s,s%s,%s,%s,%s,%d,%d}' % (
                s.name, s.start, s.length, s.order == "M", s.signed, s.kind, i, i, "GP(%s)" % i if s.kind else "0,0",
                lit(f), lit(o), s is roll, s is csm))
        L.append("static const hsig S_%d[]={%s};" % (k, ",\n".join(rows)))
    L.append("static const hmsg M[]={")
    for k, m in enumerate(msgs):
        roll = roll_of(m)
        csm, meth, op = csm_of(m)
        L.append('{"%s",%du,%d,%d,sizeof(%s_t),%d,S_%d,u_%d,p_%d,GM(_%d),%s,%s,%du},' % (
            m.name, m.id, m.ext, m.dlc, m.name, len(m.sigs), k, k, k, k, "GX(_%d)" % k if roll is not None else "0,0",
            list(methods).index(meth) if meth else 0, op))
    L.append("};" if msgs else "{0}};")
    # FMon functions provided by "the user"
    L.append("#ifdef %s_USE_DIAG_MONITORS" % D)
    L.append('#include "%s-fmon.h"' % low)
    L.append("#ifdef %s_USE_MONO_FMON" % D)
    L.append("void _FMon_MONO_%s(FrameMonitor_t* m, uint32_t id){h_fmon(&H_%s,-1,m,id);}" % (low, drv))
    L.append("#else")
    for m in net.msgs:
        L.append("void _FMon_%s_%s(FrameMonitor_t* m, uint32_t id){h_fmon(&H_%s,%d,m,id);}" % (
            m.name, low, drv, index.get(m.name, 1000000)))
    L.append("#endif\n#endif")
    ut = []
    for q, (pre, rx, tx) in enumerate(utils or []):
        cp = re.sub(r"-", "_", pre)
        if rx:
            L.append("static %s_rx_t RX%d;" % (cp, q))
            L.append("static uint32_t rv%d(const uint8_t*d,uint32_t id,uint8_t l){return %s_Receive(&RX%d,d,id,l);}" % (q, cp, q))
            L.append("static const int RI%d[]={%s};" % (q, ",".join(str(index[x]) for x in rx)))
            L.append("static void* const RP%d[]={%s};" % (q, ",".join("&RX%d.%s" % (q, x) for x in rx)))
            ut.append('{"%s",rv%d,&RX%d,sizeof RX%d,%d,RI%d,RP%d}' % (pre, q, q, q, len(rx), q, q))
        if tx:
            L.append("static %s_tx_t TX%d;" % (cp, q))
            L.append("void* use_%s_tx%d(int k){switch(k){%s} return 0;}" % (cp, q, "".join("case %d: return &TX%d.%s;" % (z, q, x) for z, x in enumerate(tx))))
    L.append("static const hutil U[]={%s};" % (",\n".join(ut) if ut else "{0}"))
    L.append('const hdrv H_%s={"%s",0' % (drv, drv) + "".join("\n#ifdef %s_%s\n | %d\n#endif" % (D, f, BIT[f]) for f in FEATURES) +
             "\n,(uint8_t)%s_INITIAL_BYTE_VALUE,%d,M,%d,U,mget,mset};" % (D, len(msgs), len(ut)))
    return "\n".join(L) + "\n"


MAIN = '#include "h.h"\n%s\nconst hdrv* const H_all[]={%s};\nconst int H_nall=%d;\n'


def main_glue(drvs):
    return MAIN % ("\n".join("extern const hdrv H_%s;" % d for d in drvs), ",".join("&H_%s" % d for d in drvs), len(drvs))


def includes(out):
    return [x for d in ("conf", "lib", "inc", "butl", "usr") for x in ("-I", os.path.join(out, d))]


def node_utils(net, drv):
    """expected binutils with -nodeutils: [(file prefix, rx message names, tx message names)] (non-empty messages)."""
    nodes = []
    for m in net.msgs:
        for x in m.transmitters() + m.receivers():
            if x not in nodes:
                nodes.append(x)
    out = []
    for nd in nodes:
        rx = [m.name for m in net.msgs if m.sigs and nd in m.receivers()]
        tx = [m.name for m in net.msgs if m.sigs and nd in m.transmitters()]
        out.append(((nd + "_" + drv).lower(), rx, tx))
    return out


def plain_utils(net, drv):
    return [(drv.lower(), [m.name for m in net.msgs if m.sigs], [])]


class CompileError(Exception):
    pass


def compile_run(ctx, out, parts, cfg, modes, seed, cc="clang", opt="-O0", san=False, extra=(), keep_glue=None, timeout=240,
                std="gnu11"):
    """parts: [(net, drv, utils)] all living in directory `out`. cfg: list of FEATURES (applied to every driver), or {drv: list}.
    Compiles core + binutil sources + glue + engine and runs the modes. Returns (failures, stats, text). Raises CompileError."""
    wd = ctx.tmp("c")
    flags = [cc, "-std=" + std, opt, "-w", "-I", HARNESS] + includes(out) + list(extra)
    if san:
        flags += ["-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DH_PTRFRAME"]
        if cc == "clang":
            flags += ["-fsanitize=float-cast-overflow"]
    srcs = []
    methods = []
    for net, drv, utils in parts:
        for m in net.msgs:
            mt = csm_of(m)[1]
            if mt and mt not in methods:
                methods.append(mt)
    for net, drv, utils in parts:
        c = cfg[drv] if isinstance(cfg, dict) else cfg
        flags += ["-D%s_%s" % (drv.upper(), f) for f in c]
        srcs.append(os.path.join(out, "lib", drv.lower() + ".c"))
        for pre, _, _ in utils or []:
            srcs.append(os.path.join(out, "butl", pre + "-binutil.c"))
        g = os.path.join(wd, "glue_%s.c" % drv)
        with open(g, "w") as f:
            f.write(glue(net, drv, utils, methods))
        srcs.append(g)
    g = os.path.join(wd, "main_glue.c")
    with open(g, "w") as f:
        f.write(main_glue([p[1] for p in parts]))
    srcs.append(g)
    exe = os.path.join(wd, "exe")
    rc, o, e = sh(flags + srcs + [os.path.join(HARNESS, "engine.c"), "-o", exe, "-lm"], timeout=timeout)
    if rc:
        raise CompileError("%s\n%s" % (" ".join(flags[:3] + list(extra)), e[:3000]))
    env = dict(os.environ)
    env.update(SAN_ENV)
    rc, o, e = sh([exe, str(seed)] + list(modes), timeout=timeout, env=env)
    fails = [l[5:] for l in o.splitlines() if l.startswith("FAIL ")]
    end = re.search(r"END fails=(\d+) evals=(\d+) nontrivial=(\d+) hash=(\w+)", o)
    if not end:
        fails.append("engine died, exit %d: %s" % (rc, (e or o)[-2500:]))
        stats = dict(evals=0, nontrivial=0, hash="", rc=rc)
    else:
        stats = dict(evals=int(end.group(2)), nontrivial=int(end.group(3)), hash=end.group(4), rc=rc)
        if rc not in (0, 1):
            fails.append("engine exit %d: %s" % (rc, e[-2500:]))
    if not fails:
        import shutil
        shutil.rmtree(wd, ignore_errors=True)
    return fails, stats, o


def methods_of(nets):
    out = []
    for n in nets:
        for m in n.msgs:
            mt = csm_of(m)[1]
            if mt and mt not in out:
                out.append(mt)
    return out
