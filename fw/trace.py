"""A self-contained C program (no libc) that drives a generated package through reproducible histories and prints a digest per message.
The same program runs natively, in threads, as wasm32 and as emulated big-endian code."""
import re, struct
from . import pkg as P

HEAD = r"""
#include <stdint.h>
#include "%(low)s.h"
#if HAVE_UTIL
#include "%(low)s-binutil.h"
#endif
#ifndef TLS
#define TLS
#endif
typedef struct { uint64_t s; } hrng;
static uint64_t rnd(hrng* r) { uint64_t z = (r->s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
#define NM %(nm)d
typedef struct cx {
  hrng rg[NM + 1]; uint64_t dg[NM + 1]; uint32_t st[NM + 1];
%(members)s
#if HAVE_UTIL
  %(low)s_rx_t rx;
#endif
} cx;
void h_puts(const char*);
#ifndef VERBOSE
#define VERBOSE 0
#endif
static void hexout(const char* a, uint64_t v) { char b[20]; int i; for (i = 0; i < 16; i++) b[i] = "0123456789abcdef"[(v >> (60 - 4 * i)) & 15]; b[16] = '\n'; b[17] = 0; h_puts(a); h_puts(" "); h_puts(b); }
static void H(cx* c, int k, const char* what, uint64_t v) { int i; uint64_t h = c->dg[k]; for (i = 0; i < 8; i++) { h ^= (v >> (8 * i)) & 0xFF; h *= 0x100000001b3ull; } c->dg[k] = h; if (VERBOSE) hexout(what, v); }
static uint64_t dbits(double x) { union { double d; uint64_t u; } u; u.d = x; if (x != x) return 1; return u.u; }
static TLS uint32_t cur_tick;
static TLS uint64_t cur_fmon;
static TLS int nest_on;
static TLS int depth;
static TLS cx* nest_cx;
static TLS uint64_t nest_n;
void trace_step(cx* c, int k);
static void nest(void) {
  if (nest_on && !depth) { uint32_t t = cur_tick; uint64_t f = cur_fmon; depth = 1; trace_step(nest_cx, (int)(nest_n++ %% NM)); depth = 0; cur_tick = t; cur_fmon = f; }
}
#ifdef __cplusplus
extern "C" {
#endif
uint32_t h_tick(void) { nest(); return cur_tick; }
uint32_t h_hash(const uint8_t* d, uint32_t len, uint32_t id, int method, uint32_t op) {
  uint32_t h = 2166136261u ^ id ^ ((uint32_t)method << 8) ^ op; uint32_t i; nest(); for (i = 0; i < len; i++) { h ^= d[i]; h *= 16777619u; } return h ^ (h >> 15); }
#ifdef __cplusplus
}
#endif
static void fm(int k, FM_T* m, uint32_t id) { (void)m; nest(); cur_fmon = cur_fmon * 31 + id + (uint32_t)k * 7919u + 1; }
"""


def program(net, drv, methods=()):
    """C text. Entry points: trace_init(cx*, seed), trace_step(cx*, k), trace_main(seed, steps)."""
    D, low = drv.upper(), drv.lower()
    msgs = [m for m in net.msgs if m.sigs]
    util = bool(msgs)
    L = []
    L.append("#define HAVE_UTIL %d" % util)
    L.append('#ifdef __has_include\n#if __has_include("canmonitorutil.h") && defined(%s_USE_DIAG_MONITORS)\n#include "canmonitorutil.h"\n#define FM_T FrameMonitor_t\n#endif\n#endif\n#ifndef FM_T\n#define FM_T void\n#endif' % D)
    L.append(HEAD % dict(low=low, nm=max(1, len(msgs)), members="\n".join("  %s_t m%d;" % (m.name, k) for k, m in enumerate(msgs))))
    L.append("#ifdef %s_USE_DIAG_MONITORS" % D)
    L.append('#include "%s-fmon.h"' % low)
    L.append("#ifdef %s_USE_MONO_FMON" % D)
    L.append("void _FMon_MONO_%s(FrameMonitor_t* m, uint32_t id) { fm(0, m, id); }" % low)
    L.append("#else")
    for q, m in enumerate(net.msgs):
        L.append("void _FMon_%s_%s(FrameMonitor_t* m, uint32_t id) { fm(%d, m, id); }" % (m.name, low, q))
    L.append("#endif\n#endif")
    for k, m in enumerate(msgs):
        T = m.name + "_t"
        roll = P.roll_of(m)
        L.append("static void dump%d(cx* c, const %s* m) {" % (k, T))
        for s in m.sigs:
            L.append('H(c,%d,"%s.%s",(uint64_t)m->%s);' % (k, m.name, s.field, s.field))
        L.append("#ifdef %s_USE_SIGFLOAT" % D)
        for s in m.sigs:
            if s.kind == 1:
                L.append('H(c,%d,"%s.%s_phys",(uint64_t)m->%s_phys);' % (k, m.name, s.name, s.name))
            elif s.kind == 2:
                L.append('H(c,%d,"%s.%s_phys",dbits((double)m->%s_phys));' % (k, m.name, s.name, s.name))
        L.append("#endif")
        if roll is not None:
            L.append('#ifdef %s_AUTO_ROLL\nH(c,%d,"%s.%s_expt",(uint64_t)m->%s_expt);\n#endif' % (D, k, m.name, roll.field, roll.field))
        L.append('#ifdef %s_USE_DIAG_MONITORS' % D)
        for f in ("last_cycle", "timeout_cycle", "frame_cnt", "roll_error", "csm_error", "cycle_error", "dlc_error"):
            L.append('H(c,%d,"%s.mon.%s",(uint64_t)m->mon1.%s);' % (k, m.name, f, f))
        L.append("#endif\n}")
        L.append("static void step%d(cx* c) {" % k)
        L.append(r"""  %(T)s* m = &c->m%(k)d; hrng* r = &c->rg[%(k)d]; uint8_t d[64]; uint8_t len = 0, ide = 0, dlc; uint32_t ret; int i; uint64_t z = rnd(r); (void)len; (void)ide;
  for (i = 0; i < 64; i++) { uint64_t x = rnd(r); d[i] = (uint8_t)((z & 7) == 0 ? 0xFF : (z & 7) == 1 ? 0 : x); }
  dlc = (uint8_t)((z >> 8) & 3 ? %(dlc)d : (z >> 40) & 3 ? (z >> 16) %% 65 : (z >> 16) & 0xFF); cur_tick = (uint32_t)rnd(r); cur_fmon = 0;
  ret = Unpack_%(n)s_%(drv)s(m, d, dlc); H(c, %(k)d, "%(n)s unpack", ret); H(c, %(k)d, "%(n)s fmon", cur_fmon); dump%(k)d(c, m);""" % dict(T=T, k=k, n=m.name, drv=drv, dlc=m.dlc))
        # new contents
        L.append("  if (z & 0x10000) {")
        for s in m.sigs:
            mask = (1 << s.length) - 1
            if s.kind:
                L.append("#ifndef %s_USE_SIGFLOAT" % D)
            L.append("  { uint64_t v = rnd(r) & 0x%xull; %s m->%s = v; }" % (
                mask, "if (v >> %d) v |= ~0x%xull;" % (s.length - 1, mask) if s.signed and s.length < 64 else "", s.field))
            if s.kind:
                L.append("#endif")
        L.append("  }")
        L.append(r"""#ifdef %(D)s_USE_CANSTRUCT
  { __CoderDbcCanFrame_t__ f; f.MsgId = 0xA5A5A5A5u; f.DLC = 0xA5; f.IDE = 0xA5; for (i = 0; i < 64; i++) f.Data[i] = 0x5A; ret = Pack_%(n)s_%(drv)s(m, &f);
    for (i = 0; i < 64; i++) d[i] = f.Data[i]; H(c, %(k)d, "%(n)s id", f.MsgId); H(c, %(k)d, "%(n)s len", f.DLC); H(c, %(k)d, "%(n)s ide", f.IDE); }
#else
  for (i = 0; i < 64; i++) d[i] = 0x5A;
  ret = Pack_%(n)s_%(drv)s(m, d, &len, &ide); H(c, %(k)d, "%(n)s len", len); H(c, %(k)d, "%(n)s ide", ide);
#endif
  H(c, %(k)d, "%(n)s pack", ret); for (i = 0; i < 64; i++) H(c, %(k)d, "%(n)s data", d[i]); dump%(k)d(c, m);
  cur_fmon = 0; d[rnd(r) %% 64] ^= (uint8_t)rnd(r);
  ret = %(low)s_Receive(&c->rx, d, %(id)uu, dlc); H(c, %(k)d, "%(n)s receive", ret); H(c, %(k)d, "%(n)s fmon", cur_fmon); dump%(k)d(c, &c->rx.%(n)s);
  c->st[%(k)d]++;
}""" % dict(D=D, n=m.name, drv=drv, k=k, low=low, id=m.id))
    L.append("void trace_step(cx* c, int k) { switch (k) {%s default: break; } }" % "".join(" case %d: step%d(c); break;" % (k, k) for k in range(len(msgs))))
    L.append("void trace_init(cx* c, uint64_t seed) { unsigned i; for (i = 0; i < sizeof *c; i++) ((volatile uint8_t*)c)[i] = 0; for (i = 0; i < NM; i++) { c->rg[i].s = seed * 1000003u + i * 7919u; c->dg[i] = 0xcbf29ce484222325ull; } }")
    names = ",".join('"%s"' % m.name for m in msgs) or '""'
    L.append(r"""
#if HAVE_MAIN
void trace_main(uint32_t seed, uint32_t steps) { static cx c; static const char* const nm[] = {%s}; uint32_t i; int k; trace_init(&c, seed);
  for (i = 0; i < steps; i++) for (k = 0; k < %d; k++) { if (VERBOSE) hexout("STEP", i); trace_step(&c, k); }
  for (k = 0; k < %d; k++) hexout(nm[k], c.dg[k]); }
#endif""" % (names, len(msgs), len(msgs)))
    return "\n".join(L) + "\n"


# ------------------------------------------------------------------ big-endian emulation
LOAD = re.compile(r"^(\s*)(%\S+) = load (volatile )?(i\d+|float|double), ptr (.*)$")
STORE = re.compile(r"^(\s*)store (volatile )?(i\d+|float|double) ([^,]+), ptr (.*)$")
DECLS = "\n".join("declare i%d @llvm.bswap.i%d(i%d)" % (n, n, n) for n in (16, 32, 64)) + "\n"


class Unsupported(Exception):
    pass


def _swapconst(bits, v):
    v &= (1 << bits) - 1
    return int.from_bytes(v.to_bytes(bits // 8, "little"), "big")


def _dbl(t):
    if t.startswith("0x"):
        return int(t[2:], 16)
    return struct.unpack(">Q", struct.pack(">d", float(t)))[0]


def bigendian_ir(text):
    """LLVM IR compiled for a big-endian 64-bit target -> IR for the little-endian host with the same memory contents:
    every multi-byte access goes through a byte swap, initialised data is byte-swapped."""
    out, n = [], 0
    for l in text.split("\n"):
        if l.startswith("target datalayout") or l.startswith("target triple"):
            continue
        if l.startswith("attributes #"):
            l = re.sub(r' "target-[a-z-]+"="[^"]*"', "", l)
            l = re.sub(r' "tune-cpu"="[^"]*"', "", l)
            out.append(l)
            continue
        if re.match(r"^declare i\d+ @llvm\.bswap", l):
            continue
        if l.startswith("@"):
            def sw(m):
                b, v = int(m[1]), m[2]
                return "i%d %d" % (b, _swapconst(b, int(v)))
            body = re.sub(r'c"(?:[^"\\]|\\.)*"', lambda m: m[0], l)
            if re.search(r"\bfloat (?:0x|-?\d)", body) or re.search(r"\bi(24|40|48|56) -?\d", body):
                raise Unsupported(l[:200])
            parts = re.split(r'(c"[^"]*")', body)
            for i in range(0, len(parts), 2):
                head, eq, tail = parts[i].partition("=") if i == 0 else ("", "", parts[i])
                tail = re.sub(r"\bi(16|32|64) (-?\d+)\b", sw, tail)
                tail = re.sub(r"\bdouble (-?[0-9][^ ,\]}]*)", lambda m: "double 0x%016X" % _swapconst(64, _dbl(m[1])), tail)
                parts[i] = head + eq + tail
            out.append("".join(parts))
            continue
        m = LOAD.match(l)
        if m and m[4] != "i8":
            ind, res, vol, ty, rest = m[1], m[2], m[3] or "", m[4], m[5]
            n += 1
            fty = {"float": "i32", "double": "i64"}.get(ty, ty)
            b = int(fty[1:])
            out.append("%s%%be%d.a = load %s%s, ptr %s" % (ind, n, vol, fty, rest))
            if b in (16, 32, 64):
                if fty == ty:
                    out.append("%s%s = call %s @llvm.bswap.%s(%s %%be%d.a)" % (ind, res, fty, fty, fty, n))
                else:
                    out.append("%s%%be%d.b = call %s @llvm.bswap.%s(%s %%be%d.a)" % (ind, n, fty, fty, fty, n))
                    out.append("%s%s = bitcast %s %%be%d.b to %s" % (ind, res, fty, n, ty))
            elif b % 8 == 0 and b < 64:
                out.append("%s%%be%d.b = zext %s %%be%d.a to i64" % (ind, n, fty, n))
                out.append("%s%%be%d.c = call i64 @llvm.bswap.i64(i64 %%be%d.b)" % (ind, n, n))
                out.append("%s%%be%d.d = lshr i64 %%be%d.c, %d" % (ind, n, n, 64 - b))
                out.append("%s%s = trunc i64 %%be%d.d to %s" % (ind, res, n, fty))
            else:
                raise Unsupported(l)
            continue
        m = STORE.match(l)
        if m and m[3] != "i8":
            ind, vol, ty, val, rest = m[1], m[2] or "", m[3], m[4], m[5]
            n += 1
            fty = {"float": "i32", "double": "i64"}.get(ty, ty)
            b = int(fty[1:])
            src = val
            if fty != ty:
                out.append("%s%%be%d.a = bitcast %s %s to %s" % (ind, n, ty, val, fty))
                src = "%%be%d.a" % n
            if b in (16, 32, 64):
                out.append("%s%%be%d.b = call %s @llvm.bswap.%s(%s %s)" % (ind, n, fty, fty, fty, src))
            elif b % 8 == 0 and b < 64:
                out.append("%s%%be%d.x = zext %s %s to i64" % (ind, n, fty, src))
                out.append("%s%%be%d.y = shl i64 %%be%d.x, %d" % (ind, n, n, 64 - b))
                out.append("%s%%be%d.z = call i64 @llvm.bswap.i64(i64 %%be%d.y)" % (ind, n, n))
                out.append("%s%%be%d.b = trunc i64 %%be%d.z to %s" % (ind, n, n, fty))
            else:
                raise Unsupported(l)
            out.append("%sstore %s%s %%be%d.b, ptr %s" % (ind, vol, fty, n, rest))
            continue
        if re.match(r"^\s*(%\S+ = )?(load|store) ", l) and not re.search(r"(load|store) (volatile )?(i8|ptr|i1)\b", l):
            raise Unsupported(l)
        if re.search(r"\b(atomicrmw|cmpxchg|va_arg)\b", l):
            raise Unsupported(l)
        out.append(l)
    return "\n".join(out) + "\n" + DECLS
