/* Monitors over executions of generated drivers. The reference below is written from the DBC format
   (bit by bit), not from the generator.   usage: exe SEED mode:iters ... */
#include "h.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>

static uint64_t rs = 88172645463325252ull;
static uint64_t rnd(void) { rs ^= rs >> 12; rs ^= rs << 25; rs ^= rs >> 27; return rs * 2685821657736338717ull; }
/* second stream for junk whose amount depends on the configuration, so that the workload itself is the same in all of them */
static uint64_t js = 0x123456789abcdefull;
static uint64_t jrnd(void) { js ^= js >> 12; js ^= js << 25; js ^= js >> 27; return js * 2685821657736338717ull; }
static uint32_t rn(uint32_t n) { return (uint32_t)(rnd() % n); }

static uint64_t evals, fails, nontriv;
static uint64_t wirehash = 1469598103934665603ull;
static void mix(uint64_t v) { for (int k = 0; k < 8; k++) { wirehash ^= (v >> (8 * k)) & 255; wirehash *= 1099511628211ull; } }

static void hex(char* o, const uint8_t* d, int n) { for (int k = 0; k < n; k++) sprintf(o + 2 * k, "%02x", d[k]); o[2 * n] = 0; }
#define FAIL(...) do { if (fails++ < 20) { printf("FAIL " __VA_ARGS__); printf("\n"); } } while (0)

static uint64_t maskn(int n) { return n >= 64 ? ~0ull : ((1ull << n) - 1); }
static uint64_t sext(uint64_t v, int n) { if (n < 64 && (v >> (n - 1) & 1)) v |= ~maskn(n); return v; }

/* linear bit number of the k-th bit (k=0: least significant) */
static int bitpos(const hsig* s, int k) {
  if (!s->mot) return s->start + k;
  int p = s->start;
  for (int j = 0; j < s->len - 1 - k; j++) p = (p % 8 == 0) ? p + 15 : p - 1;
  return p;
}
static uint64_t ref_get(const uint8_t* d, const hsig* s) {
  uint64_t v = 0;
  if (!s->mot) for (int k = 0; k < s->len; k++) { int b = s->start + k; v |= (uint64_t)(d[b / 8] >> (b % 8) & 1) << k; }
  else { int p = s->start; for (int k = 0; k < s->len; k++) { v = v << 1 | (d[p / 8] >> (p % 8) & 1); p = p % 8 == 0 ? p + 15 : p - 1; } }
  return s->sgn ? sext(v, s->len) : v;
}
static void ref_clear(uint8_t* d, const hsig* s) { for (int k = 0; k < s->len; k++) { int b = bitpos(s, k); d[b / 8] &= (uint8_t)~(1u << (b % 8)); } }
static void ref_or(uint8_t* d, const hsig* s, uint64_t v) { for (int k = 0; k < s->len; k++) if (v >> k & 1) { int b = bitpos(s, k); d[b / 8] |= (uint8_t)(1u << (b % 8)); } }

/* ------------------------------------------------------------ user callbacks */
static uint32_t tick_now, tick_calls;
uint32_t h_tick(void) { tick_calls++; return tick_now; }
static int hash_calls; static uint8_t hash_data[64]; static uint32_t hash_dlc, hash_id, hash_op; static int hash_method;
static uint32_t hash_force = 0xffffffff;
/* H_NODEFS: the user's dbccodeconf.h defines neither GetSystemTick nor GetFrameHash, so the generated defaults (0) must be used */
#ifdef H_NODEFS
#define DEFD 0
#else
#define DEFD 1
#endif
static uint32_t ref_hash(const uint8_t* d, uint32_t dlc, uint32_t id, int method, uint32_t op) {
  if (!DEFD) return 0;
  uint32_t h = 0x9e37u * (uint32_t)(method + 1) + id * 31u + op * 0x01000193u + dlc;
  for (uint32_t k = 0; k < dlc; k++) h = (h ^ d[k]) * 0x01000193u + (h >> 15);
  return h ^ h >> 16;
}
uint32_t h_hash(const uint8_t* d, uint32_t dlc, uint32_t id, int method, uint32_t op) {
  hash_calls++; hash_dlc = dlc; hash_id = id; hash_method = method; hash_op = op;
  memcpy(hash_data, d, dlc <= 64 ? dlc : 64);
  if (hash_force != 0xffffffff) return hash_force;
  return ref_hash(d, dlc <= 64 ? dlc : 64, id, method, op);
}

static const hdrv* cur; static const hmsg* curm; static int curi; static void* curobj; static const uint8_t* curd;
static int fmon_calls; static int fmon_bad; static hmon fmon_snap;
void h_fmon(const void* drv, int idx, void* mon, uint32_t id) {
  fmon_calls++;
  if (drv != (const void*)cur || !curm) { fmon_bad |= 1; return; }
  if (idx >= 0 && idx != curi) fmon_bad |= 2;
  if ((idx < 0) != ((cur->cfg & CF_MONO) != 0)) fmon_bad |= 4;
  if (id != curm->id) fmon_bad |= 8;
  if (mon != curm->mon(curobj)) { fmon_bad |= 16; return; }
  cur->mget(mon, &fmon_snap);
  if (curd) for (int k = 0; k < curm->nsig; k++) if (curm->sig[k].get(curobj) != ref_get(curd, &curm->sig[k])) fmon_bad |= 32;
}

/* ------------------------------------------------------------ helpers */
#define MAXOBJ (1 << 20)
static void* newobj(const hmsg* m, int junk) {
  uint8_t* p = (uint8_t*)malloc(m->size);
  for (uint32_t k = 0; k < m->size; k++) p[k] = junk ? (uint8_t)jrnd() : 0;
  return p;
}
static void gendata(uint8_t* d, int n, int it) {
  int bits = n * 8;
  if (it == 0) memset(d, 0, n);
  else if (it == 1) memset(d, 0xff, n);
  else if (it == 2) for (int k = 0; k < n; k++) d[k] = (uint8_t)(0x11 * (k + 1));
  else if (it == 3) for (int k = 0; k < n; k++) d[k] = 0x80;
  else if (it == 4) for (int k = 0; k < n; k++) d[k] = 0x7f;
  else switch (rn(5)) {
    case 0: memset(d, 0, n); { int b = rn(bits); d[b / 8] |= 1u << b % 8; } break;
    case 1: memset(d, 0xff, n); { int b = rn(bits); d[b / 8] &= ~(1u << b % 8); } break;
    default: for (int k = 0; k < n; k++) d[k] = (uint8_t)rnd();
  }
}
static uint64_t genval(const hsig* s, int it) {
  uint64_t r;
  switch (it) {
    case 0: return 0;
    case 1: return ~0ull;
    case 2: return 1;
    case 3: return 1ull << (s->len - 1);
    case 4: return maskn(s->len - 1);
    case 5: return 0xAAAAAAAAAAAAAAAAull;
    default: break;
  }
  r = rnd();
  switch (rn(4)) { case 0: return r; case 1: return r & maskn(s->len); case 2: return 1ull << rn(64); default: return ~(1ull << rn(64)); }
}
/* a raw value inside the signal's own range */
static uint64_t genraw(const hsig* s, int it) { uint64_t v = genval(s, it) & maskn(s->len); return s->sgn ? sext(v, s->len) : v; }
static long double rawld(const hsig* s, uint64_t r) { return s->sgn ? (long double)(int64_t)r : (long double)r; }

static char hx1[300], hx2[300];

/* ------------------------------------------------------------ unpack: every raw field equals the DBC bit layout */
static void t_unpack(const hdrv* D, int iters) {
  for (int i = 0; i < D->nmsg; i++) {
    const hmsg* m = &D->msg[i];
    void* o = newobj(m, 1);
    uint8_t buf[96];
    for (int it = 0; it < iters; it++) {
      for (int k = 0; k < 96; k++) buf[k] = (uint8_t)rnd();
      gendata(buf, m->dlc, it);
      cur = D; curm = m; curi = i; curobj = o; curd = 0;
      uint8_t cp[96]; memcpy(cp, buf, 96);
      uint8_t dl = rn(4) ? m->dlc : (uint8_t)rnd();
      /* every other call gets a heap block of exactly DLC bytes */
      uint8_t* ex = 0; if (it & 1) { ex = (uint8_t*)malloc(m->dlc); memcpy(ex, buf, m->dlc); }
      uint32_t r = m->unpack(o, ex ? ex : buf, dl);
      if (ex) { memcpy(buf, ex, m->dlc); free(ex); }
      curm = 0;
      evals++;
      if (r != m->id) FAIL("unpack %s.%s returned %#x, CAN id is %#x", D->name, m->name, r, m->id);
      if (memcmp(cp, buf, 96)) FAIL("unpack %s.%s changed the payload", D->name, m->name);
      for (int k = 0; k < m->nsig; k++) {
        const hsig* s = &m->sig[k];
        uint64_t g = s->get(o), e = ref_get(buf, s);
        mix(g);
        if (e && e != ~0ull) nontriv++;
        if (g != e) { hex(hx1, buf, m->dlc);
          FAIL("unpack %s.%s.%s %d|%d@%d%c payload %s: got %#llx, layout says %#llx", D->name, m->name, s->name, s->start, s->len,
               !s->mot, s->sgn ? '-' : '+', hx1, (unsigned long long)g, (unsigned long long)e); }
      }
    }
    free(o);
  }
}

/* set a signal so that Pack must send raw value r (in range) */
static void setraw(const hdrv* D, const hsig* s, void* o, uint64_t r) {
  if ((D->cfg & CF_FLOAT) && s->kind) {
    if (s->kind == 1) s->setp(o, rawld(s, r) * s->fac + s->off);
    else { long double q = rawld(s, r); q = q < 0 ? q - 0.25L : q + 0.25L; s->setp(o, q * s->fac + s->off); }
    s->set(o, jrnd());
  } else s->set(o, r);
}
static uint64_t limit(const hdrv* D, const hsig* s, uint64_t r) {
  /* fractional signals go through double: keep raw below 2^40 so that a quarter step is exact enough */
  (void)D;
  if (s->kind == 2 && s->len > 40) { r &= maskn(40); if (s->sgn) r = sext(r, 40); }
  return r;
}

/* ------------------------------------------------------------ pack */
static void t_pack(const hdrv* D, int iters, int wire) {
  for (int i = 0; i < D->nmsg; i++) {
    const hmsg* m = &D->msg[i];
    void* o = newobj(m, 1);
    for (int it = 0; it < iters; it++) {
      uint8_t big[128], exp[128];
      for (int k = 0; k < 128; k++) big[k] = (uint8_t)rnd();
      uint8_t *d = big + 16;
      memcpy(exp, big, 128);
      int only = (it % 3 == 2) ? (int)rn(m->nsig) : -1;
      uint64_t stored[512], pre = 0;
      for (int k = 0; k < m->nsig; k++) {
        const hsig* s = &m->sig[k];
        uint64_t v;
        if (wire || ((D->cfg & CF_FLOAT) && s->kind)) {
          v = limit(D, s, genraw(s, it)); if (only >= 0 && k != only) v = 0;
          setraw(D, s, o, v); stored[k] = v;
        } else {
          v = genval(s, it);
          if (only >= 0 && k != only) v = 0;
          s->set(o, v); stored[k] = s->get(o);
          if ((v ^ stored[k]) & maskn(s->len)) FAIL("pack %s.%s.%s field cannot hold its %d bits", D->name, m->name, s->name, s->len);
        }
        if (s->roll) pre = s->get(o);
      }
      memset(exp + 16, D->init, m->dlc);
      for (int k = 0; k < m->nsig; k++) ref_clear(exp + 16, &m->sig[k]);
      const hsig* csm = 0; const hsig* roll = 0;
      for (int k = 0; k < m->nsig; k++) {
        const hsig* s = &m->sig[k];
        uint64_t v = stored[k];
        if (s->roll && (D->cfg & CF_ROLL)) { v = (pre + 1) & maskn(s->len); roll = s; }
        if (s->csm && (D->cfg & CF_CSM)) { csm = s; v = 0; }
        ref_or(exp + 16, s, v);
      }
      if (csm) ref_or(exp + 16, csm, ref_hash(exp + 16, m->dlc, m->id, m->method, m->op) & 0xff);
      uint8_t len = (uint8_t)rnd(), ide = (uint8_t)rnd(); uint32_t mid = rnd();
      hash_calls = 0; fmon_calls = 0;
      cur = D; curm = m; curi = i; curobj = o; curd = 0;
      uint32_t r = m->pack(o, d, &len, &ide, &mid);
      curm = 0;
      evals++;
      if (r != m->id) FAIL("pack %s.%s returned %#x, CAN id is %#x", D->name, m->name, r, m->id);
      if (mid != m->id) FAIL("pack %s.%s set MsgId %#x, CAN id is %#x", D->name, m->name, mid, m->id);
      if (len != m->dlc) FAIL("pack %s.%s set length %u, DLC is %u", D->name, m->name, len, m->dlc);
      if (ide != m->ide) FAIL("pack %s.%s set IDE %u, must be %u", D->name, m->name, ide, m->ide);
      if (memcmp(big, exp, 128)) {
        int q = 0; while (big[q] == exp[q]) q++;
        hex(hx1, d, m->dlc); hex(hx2, exp + 16, m->dlc);
        FAIL("pack %s.%s byte %d: got %s, layout says %s", D->name, m->name, q - 16, hx1, hx2);
      }
      for (int k = 0; k < m->nsig; k++) {
        const hsig* s = &m->sig[k];
        if (s->roll && roll) { if (s->get(o) != ((pre + 1) & maskn(s->len))) FAIL("pack %s.%s.%s rolling counter not kept in struct", D->name, m->name, s->name); continue; }
        if (s->csm && csm) continue;
        if (!((D->cfg & CF_FLOAT) && s->kind)) if (s->get(o) != stored[k]) FAIL("pack %s.%s.%s changed its own input", D->name, m->name, s->name);
      }
      if (fmon_calls) FAIL("pack %s.%s called FMon", D->name, m->name);
      { uint8_t c[64]; memcpy(c, d, m->dlc);
        for (int k = 0; k < m->nsig; k++) if (m->sig[k].roll || m->sig[k].csm) ref_clear(c, &m->sig[k]);
        for (int k = 0; k < m->dlc; k++) mix(c[k]); }
      for (int k = 0; k < m->dlc; k++) if (d[k] != 0 && d[k] != 0xff) { nontriv++; break; }
    }
    free(o);
  }
}

/* ------------------------------------------------------------ physical values (USE_SIGFLOAT) */
static void t_phys(const hdrv* D, int iters) {
  if (!(D->cfg & CF_FLOAT)) return;
  for (int i = 0; i < D->nmsg; i++) {
    const hmsg* m = &D->msg[i];
    void* o = newobj(m, 1);
    for (int it = 0; it < iters; it++) {
      uint8_t buf[64]; gendata(buf, 64, it);
      cur = D; curm = m; curi = i; curobj = o; curd = 0;
      m->unpack(o, buf, m->dlc);
      curm = 0;
      for (int k = 0; k < m->nsig; k++) {
        const hsig* s = &m->sig[k];
        if (!s->kind) continue;
        evals++;
        long double r = rawld(s, ref_get(buf, s)), e = r * s->fac + s->off, g = s->getp(o);
        if (s->kind == 1 ? g != e : fabsl(g - e) > 4e-15L * (fabsl(r * s->fac) + fabsl(s->off)) + 1e-300L)
          FAIL("phys %s.%s.%s (%.9Lg,%.9Lg) %d bits%s raw %.0Lf: _phys after Unpack is %.17Lg, must be %.17Lg", D->name, m->name, s->name, s->fac, s->off, s->len, s->sgn ? " signed" : "", r, g, e);
        if (r != 0) nontriv++;
      }
      /* physical -> raw */
      long double want[512];
      for (int k = 0; k < m->nsig; k++) {
        const hsig* s = &m->sig[k];
        uint64_t r = genraw(s, it);
        want[k] = rawld(s, r);
        if (s->kind == 1) s->setp(o, want[k] * s->fac + s->off);
        else if (s->kind == 2) {
          long double lo = s->sgn ? -ldexpl(1, s->len - 1) : 0, hi = s->sgn ? ldexpl(1, s->len - 1) - 1 : ldexpl(1, s->len) - 1;
          /* the double holding the physical value may round out of the range near its ends */
          long double big = fabsl(hi * s->fac + s->off), b2 = fabsl(lo * s->fac + s->off), c;
          if (b2 > big) big = b2;
          if (fabsl(s->off) > big) big = fabsl(s->off);
          c = ceill(ldexpl(big, -51) / fabsl(s->fac));
          if (s->len > 40 || c > 1) { if (hi - lo > 2 * c) { if (s->sgn || c > 1) lo += c; hi -= c; } else lo = hi = floorl((lo + hi) / 2); }
          long double q = want[k];
          if (it % 3) q += (long double)rn(1000000) / 1000000.0L - 0.5L;
          if (q < lo) q = lo; if (q > hi) q = hi;
          double p = (double)(q * s->fac + s->off);
          want[k] = ((long double)p - s->off) / s->fac;
          s->setp(o, p);
        } else s->set(o, r);
        if (s->kind) s->set(o, rnd());
      }
      uint8_t out[64], len, ide; uint32_t mid;
      memset(out, 0x5a, 64);
      cur = D; curm = m; curi = i; curobj = o; curd = 0;
      m->pack(o, out, &len, &ide, &mid);
      curm = 0;
      for (int k = 0; k < m->nsig; k++) {
        const hsig* s = &m->sig[k];
        long double g = rawld(s, ref_get(out, s));
        if (s->roll && (D->cfg & CF_ROLL)) continue;
        if (s->csm && (D->cfg & CF_CSM)) continue;
        evals++;
        int bad;
        if (s->kind == 2) {
          long double eps = 1e-6L + 2e-14L * (fabsl(want[k]) + fabsl(s->off / s->fac)) , df = fabsl(g - want[k]);
          bad = !((fabsl(g) <= fabsl(want[k]) + eps && df < 1 + eps) || df <= 0.5L + eps);
        } else bad = g != want[k];
        if (bad)
          FAIL("phys %s.%s.%s (%.9Lg,%.9Lg) %d bits%s: Pack sent raw %.17Lg, (phys-offset)/factor is %.17Lg", D->name, m->name, s->name, s->fac, s->off, s->len, s->sgn ? " signed" : "", g, want[k]);
      }
    }
    free(o);
  }
}

/* ------------------------------------------------------------ rolling counter histories */
static void t_roll(const hdrv* D, int steps) {
  for (int i = 0; i < D->nmsg; i++) {
    const hmsg* m = &D->msg[i];
    const hsig* R = 0;
    for (int k = 0; k < m->nsig; k++) if (m->sig[k].roll) R = &m->sig[k];
    if (!R) continue;
    void *tx = newobj(m, 0), *rx = newobj(m, 0);
    uint64_t M = maskn(R->len), last = 0, expt = 0;
    if (R->len > 12) { last = M - rn(40); R->set(tx, last); }
    int errs = 0, oks = 0, wraps = 0;
    for (int it = 0; it < steps; it++) {
      uint8_t buf[96], len, ide; uint32_t mid;
      memset(buf, 0xee, 96);
      for (int k = 0; k < m->nsig; k++) if (!m->sig[k].roll) setraw(D, &m->sig[k], tx, limit(D, &m->sig[k], genraw(&m->sig[k], 9)));
      if (rn(97) == 0) { last = rnd() & M; R->set(tx, last); }            /* sender restarted with another value */
      cur = D; curm = m; curi = i; curobj = tx; curd = 0;
      m->pack(tx, buf, &len, &ide, &mid);
      curm = 0; evals++;
      uint64_t want = (D->cfg & CF_ROLL) ? (last + 1) & M : last;
      uint64_t sent = ref_get(buf, R);
      if (sent != want) FAIL("roll %s.%s.%s %d bits: previous %#llx, Pack sent %#llx", D->name, m->name, R->name, R->len, (unsigned long long)last, (unsigned long long)sent);
      if ((D->cfg & CF_ROLL) && R->get(tx) != want) FAIL("roll %s.%s.%s struct holds %#llx after sending %#llx", D->name, m->name, R->name, (unsigned long long)R->get(tx), (unsigned long long)want);
      if (want < last) wraps++;
      last = want;
      /* channel: loss, repetition, corruption, receiver restart */
      int fate = (int)rn(20), rep = 1;
      if (fate == 0) rep = 0; else if (fate == 1) rep = 2;
      else if (fate == 2) { int b = bitpos(R, rn(R->len)); buf[b / 8] ^= 1u << b % 8; }
      else if (fate == 3 && rn(4) == 0) { free(rx); rx = newobj(m, 0); expt = 0; }
      for (int q = 0; q < rep; q++) {
        hmon a, b;
        if (D->cfg & CF_MON) { D->mget(m->mon(rx), &a); a.roll = rn(2); a.cyc = rn(2); a.csm = rn(2); D->mset(m->mon(rx), &a); }
        cur = D; curm = m; curi = i; curobj = rx; curd = buf; fmon_calls = fmon_bad = 0;
        m->unpack(rx, buf, rn(4) ? m->dlc : (uint8_t)rnd());  /* the received length has no part in the counter check */
        curm = 0; evals++;
        uint64_t rc = ref_get(buf, R);
        if (D->cfg & CF_MON) {
          D->mget(m->mon(rx), &b);
          if (D->cfg & CF_ROLL) {
            uint32_t e = rc != expt;
            if (b.roll != e) FAIL("roll %s.%s.%s %d bits: received %#llx, expected %#llx, roll_error=%u", D->name, m->name, R->name, R->len, (unsigned long long)rc, (unsigned long long)expt, b.roll);
            if (fmon_calls == 1 && fmon_snap.roll != e) FAIL("roll %s.%s.%s roll_error not set yet when FMon runs", D->name, m->name, R->name);
            if (e) errs++; else oks++;
            expt = (rc + 1) & M;
          } else if (b.roll != a.roll) FAIL("roll %s.%s roll_error changed without AUTO_ROLL", D->name, m->name);
          if (b.cyc != a.cyc || (!(D->cfg & CF_CSM) && b.csm != a.csm)) FAIL("roll %s.%s unrelated error bits changed", D->name, m->name);
        }
        if (R->get(rx) != rc) FAIL("roll %s.%s.%s unpacked %#llx, received %#llx", D->name, m->name, R->name, (unsigned long long)R->get(rx), (unsigned long long)rc);
      }
    }
    if (errs && oks) nontriv++;
    printf("STAT roll width=%d errors=%d ok=%d wraps=%d\n", R->len, errs, oks, wraps);
    free(tx); free(rx);
  }
}

/* ------------------------------------------------------------ checksum */
static void t_csm(const hdrv* D, int steps) {
  for (int i = 0; i < D->nmsg; i++) {
    const hmsg* m = &D->msg[i];
    const hsig *C = 0, *R = 0;
    for (int k = 0; k < m->nsig; k++) { if (m->sig[k].csm) C = &m->sig[k]; if (m->sig[k].roll) R = &m->sig[k]; }
    void *tx = newobj(m, 0), *rx = newobj(m, 0);
    int good = 0, bad = 0;
    for (int it = 0; it < steps; it++) {
      uint8_t buf[96], exp[96], len, ide; uint32_t mid; uint64_t pre = 0;
      for (int k = 0; k < 96; k++) buf[k] = exp[k] = (uint8_t)rnd();
      memset(exp, D->init, m->dlc);
      for (int k = 0; k < m->nsig; k++) ref_clear(exp, &m->sig[k]);
      for (int k = 0; k < m->nsig; k++) {
        const hsig* s = &m->sig[k];
        uint64_t v = limit(D, s, genraw(s, it < 6 ? it : 9));
        setraw(D, s, tx, v);
        if (s == R && (D->cfg & CF_ROLL)) { pre = v; v = (v + 1) & maskn(s->len); }
        if (s == C && (D->cfg & CF_CSM)) v = 0;
        ref_or(exp, s, v);
      }
      uint8_t zero[64]; memcpy(zero, exp, 64);
      hash_force = (DEFD && rn(3) == 0) ? (rnd() & 0x3ff) : 0xffffffff;
      uint32_t h = hash_force != 0xffffffff ? hash_force : ref_hash(exp, m->dlc, m->id, m->method, m->op);
      int on = C && (D->cfg & CF_CSM);
      if (on) ref_or(exp, C, h & 0xff);
      hash_calls = 0;
      cur = D; curm = m; curi = i; curobj = tx; curd = 0;
      m->pack(tx, buf, &len, &ide, &mid);
      curm = 0; evals++;
      if (hash_calls != (on && DEFD)) FAIL("csm %s.%s Pack called GetFrameHash %d times, must be %d", D->name, m->name, hash_calls, on && DEFD);
      if (on && hash_calls) {
        if (hash_dlc != m->dlc || hash_id != m->id || hash_method != m->method || hash_op != m->op)
          FAIL("csm %s.%s Pack: GetFrameHash(dlc %u id %#x method %d op %u), must be (%u %#x %d %u)", D->name, m->name, hash_dlc, hash_id, hash_method, hash_op, m->dlc, m->id, m->method, m->op);
        else if (memcmp(hash_data, zero, m->dlc)) { hex(hx1, hash_data, m->dlc); hex(hx2, zero, m->dlc);
          FAIL("csm %s.%s Pack hashed %s, payload without checksum is %s", D->name, m->name, hx1, hx2); }
      }
      if (memcmp(buf, exp, 96)) { hex(hx1, buf, m->dlc); hex(hx2, exp, m->dlc); FAIL("csm %s.%s Pack sent %s, must be %s (hash %#x)", D->name, m->name, hx1, hx2, h); }
      /* receiver */
      for (int q = 0; q < 3; q++) {
        uint8_t f[96]; memcpy(f, buf, 96);
        if (q == 1) { int b = rn(m->dlc * 8); f[b / 8] ^= 1u << b % 8; }
        if (q == 2 && C) { ref_clear(f, C); ref_or(f, C, rnd()); }
        hash_force = (DEFD && rn(2) && C) ? (uint32_t)(ref_get(f, C) ^ (rn(3) ? 0 : 1u << rn(10))) : 0xffffffff;
        hmon a, b;
        if (D->cfg & CF_MON) { D->mget(m->mon(rx), &a); a.csm = rn(2); a.cyc = rn(2); a.roll = rn(2); D->mset(m->mon(rx), &a); }
        hash_calls = 0; fmon_calls = fmon_bad = 0;
        cur = D; curm = m; curi = i; curobj = rx; curd = f;
        m->unpack(rx, f, rn(4) ? m->dlc : (uint8_t)rnd());
        curm = 0; evals++;
        int ron = C && (D->cfg & CF_CSM) && (D->cfg & CF_MON);
        if (hash_calls != (ron && DEFD)) FAIL("csm %s.%s Unpack called GetFrameHash %d times, must be %d", D->name, m->name, hash_calls, ron && DEFD);
        if (ron && (hash_calls || !DEFD)) {
          if (!DEFD) {}
          else if (hash_dlc != m->dlc || hash_id != m->id || hash_method != m->method || hash_op != m->op || memcmp(hash_data, f, m->dlc))
            FAIL("csm %s.%s Unpack: wrong GetFrameHash arguments", D->name, m->name);
          uint32_t hh = hash_force != 0xffffffff ? hash_force : ref_hash(f, m->dlc, m->id, m->method, m->op);
          uint32_t e = (hh & 0xff) != ref_get(f, C);
          D->mget(m->mon(rx), &b);
          if (b.csm != e) FAIL("csm %s.%s.%s hash %#x, received %#llx, csm_error=%u", D->name, m->name, C->name, hh & 0xff, (unsigned long long)ref_get(f, C), b.csm);
          if (fmon_calls == 1 && fmon_snap.csm != e) FAIL("csm %s.%s csm_error not set yet when FMon runs", D->name, m->name);
          if (e) bad++; else good++;
        } else if (D->cfg & CF_MON) { D->mget(m->mon(rx), &b); if (b.csm != a.csm) FAIL("csm %s.%s csm_error changed without a checksum", D->name, m->name); }
        if (D->cfg & CF_MON) { D->mget(m->mon(rx), &b); if (b.cyc != a.cyc || (b.roll != a.roll && !(R && (D->cfg & CF_ROLL)))) FAIL("csm %s.%s unrelated error bits changed", D->name, m->name); }
        for (int k = 0; k < m->nsig; k++) if (m->sig[k].get(rx) != ref_get(f, &m->sig[k])) FAIL("csm %s.%s.%s wrong value after Unpack", D->name, m->name, m->sig[k].name);
      }
      (void)pre;
    }
    hash_force = 0xffffffff;
    if (good && bad) nontriv++;
    if (C) printf("STAT csm len=%d dlc=%d match=%d mismatch=%d\n", C->len, m->dlc, good, bad);
    free(tx); free(rx);
  }
}

/* ------------------------------------------------------------ monitors: histories over all messages */
static void t_mon(const hdrv* D, int steps) {
  if (!(D->cfg & CF_MON) || !D->nmsg) return;
  int N = D->nmsg;
  void** o = (void**)malloc(N * sizeof *o); hmon* w = (hmon*)calloc(N, sizeof *w);
  for (int i = 0; i < N; i++) {
    o[i] = newobj(&D->msg[i], 1);
    w[i].last = rnd(); w[i].tmo = rnd(); w[i].cnt = rn(3) ? rn(100) : 0xffffffffu - rn(3); w[i].roll = rn(2); w[i].csm = rn(2); w[i].cyc = rn(2); w[i].dlc = rn(2);
    D->mset(D->msg[i].mon(o[i]), &w[i]);
  }
  for (int it = 0; it < steps; it++) {
    int i = (int)rn(N); const hmsg* m = &D->msg[i];
    uint8_t buf[96], len, ide; uint32_t mid;
    gendata(buf, 64, it < 3 ? it : 9);
    fmon_calls = fmon_bad = 0; tick_calls = 0;
    tick_now = !DEFD ? 0 : rn(5) ? (uint32_t)rnd() : (rn(2) ? 0 : 0xffffffffu);
    cur = D; curm = m; curi = i; curobj = o[i];
    evals++;
    if (rn(4) == 0) {
      for (int k = 0; k < m->nsig; k++) setraw(D, &m->sig[k], o[i], limit(D, &m->sig[k], genraw(&m->sig[k], 9)));
      curd = 0;
      m->pack(o[i], buf, &len, &ide, &mid);
      curm = 0;
      if (fmon_calls) FAIL("mon %s.%s Pack called FMon", D->name, m->name);
    } else {
      uint8_t dl = rn(3) ? (uint8_t)(m->dlc + (int)rn(3) - 1) : (uint8_t)rnd();
      const hsig* C = 0; const hsig* R = 0;
      for (int k = 0; k < m->nsig; k++) { if (m->sig[k].csm) C = &m->sig[k]; if (m->sig[k].roll) R = &m->sig[k]; }
      uint64_t expt = (R && (D->cfg & CF_ROLL)) ? m->getexpt(o[i]) : 0;
      curd = buf;
      m->unpack(o[i], buf, dl);
      curm = 0;
      w[i].cnt++; w[i].last = tick_now; w[i].dlc = dl < m->dlc;
      if (R && (D->cfg & CF_ROLL)) w[i].roll = ref_get(buf, R) != expt;
      if (C && (D->cfg & CF_CSM)) w[i].csm = (ref_hash(buf, m->dlc, m->id, m->method, m->op) & 0xff) != ref_get(buf, C);
      if (fmon_calls != 1) FAIL("mon %s.%s FMon called %d times", D->name, m->name, fmon_calls);
      else if (fmon_bad) FAIL("mon %s.%s FMon call wrong (flags %#x: 1 no unpack running 2 other message's function 4 mono/dedicated mixed up 8 id 16 monitor 32 signal fields not updated yet)", D->name, m->name, fmon_bad);
      else if (memcmp(&fmon_snap, &w[i], sizeof w[i]))
        FAIL("mon %s.%s monitor at FMon call: last %u cnt %u dlc %u roll %u csm %u cyc %u tmo %u, must be %u %u %u %u %u %u %u", D->name, m->name, fmon_snap.last, fmon_snap.cnt, fmon_snap.dlc, fmon_snap.roll, fmon_snap.csm, fmon_snap.cyc, fmon_snap.tmo,
             w[i].last, w[i].cnt, w[i].dlc, w[i].roll, w[i].csm, w[i].cyc, w[i].tmo);
      if (w[i].dlc) nontriv++;
    }
    for (int j = 0; j < N; j++) {
      hmon g; D->mget(D->msg[j].mon(o[j]), &g);
      if (memcmp(&g, &w[j], sizeof g)) {
        FAIL("mon %s.%s (call was on %s): monitor last %u cnt %u dlc %u roll %u csm %u cyc %u tmo %u, must be %u %u %u %u %u %u %u", D->name, D->msg[j].name, m->name, g.last, g.cnt, g.dlc, g.roll, g.csm, g.cyc, g.tmo,
             w[j].last, w[j].cnt, w[j].dlc, w[j].roll, w[j].csm, w[j].cyc, w[j].tmo);
        w[j] = g;
      }
    }
  }
  for (int i = 0; i < N; i++) free(o[i]);
  free(o); free(w);
}

/* ------------------------------------------------------------ Receive dispatch */
static int idx_of(const hdrv* D, const hutil* u, uint32_t id) { for (int k = 0; k < u->nrx; k++) if (D->msg[u->rx[k]].id == id) return k; return -1; }
static void one_recv(const hdrv* D, const hutil* u, uint32_t id) {
  uint8_t buf[96]; gendata(buf, 64, 9);
  int k = idx_of(D, u, id);
  for (uint32_t q = 0; q < u->size; q++) ((uint8_t*)u->obj)[q] = (uint8_t)jrnd();
  uint8_t* before = (uint8_t*)malloc(u->size); memcpy(before, u->obj, u->size);
  uint8_t dl = rn(2) ? 8 : (uint8_t)rnd();
  const hmsg* m = k >= 0 ? &D->msg[u->rx[k]] : 0;
  if (m && rn(2)) dl = (uint8_t)(m->dlc - (int)rn(2));
  fmon_calls = fmon_bad = 0; tick_now = DEFD ? (uint32_t)rnd() : 0;
  cur = D; curm = m; curi = m ? u->rx[k] : -1; curobj = m ? u->ptr[k] : 0; curd = buf;
  hmon wm; if (m && (D->cfg & CF_MON)) D->mget(m->mon(u->ptr[k]), &wm);
  uint32_t r = u->recv(buf, id, dl);
  curm = 0; evals++;
  if (r != (m ? id : 0)) FAIL("recv %s id %#x returned %#x (%s)", u->name, id, r, m ? m->name : "not in the receive set");
  if (!m) {
    if (memcmp(before, u->obj, u->size)) FAIL("recv %s id %#x is not in the receive set but structs changed", u->name, id);
    if (fmon_calls) FAIL("recv %s id %#x is not in the receive set but FMon was called", u->name, id);
  } else {
    nontriv++;
    for (int q = 0; q < m->nsig; q++) if (m->sig[q].get(u->ptr[k]) != ref_get(buf, &m->sig[q])) FAIL("recv %s id %#x: %s.%s not unpacked", u->name, id, m->name, m->sig[q].name);
    size_t off = (size_t)((uint8_t*)u->ptr[k] - (uint8_t*)u->obj);
    memcpy(before + off, u->ptr[k], m->size);
    if (memcmp(before, u->obj, u->size)) FAIL("recv %s id %#x: another message than %s changed", u->name, id, m->name);
    if (D->cfg & CF_MON) {
      hmon g; D->mget(m->mon(u->ptr[k]), &g);
      if (fmon_calls != 1 || fmon_bad) FAIL("recv %s id %#x: FMon calls %d flags %#x", u->name, id, fmon_calls, fmon_bad);
      if (g.dlc != (uint32_t)(dl < m->dlc) || g.last != tick_now || g.cnt != wm.cnt + 1) FAIL("recv %s id %#x dlc %u: monitor dlc_error %u cnt %u->%u", u->name, id, dl, g.dlc, wm.cnt, g.cnt);
    }
  }
  free(before);
}
static void t_recv(const hdrv* D, int iters) {
  for (int q = 0; q < D->nutil; q++) {
    const hutil* u = &D->util[q];
    if (!u->recv) continue;
    for (int k = 0; k < u->nrx; k++) {
      uint32_t id = D->msg[u->rx[k]].id;
      for (int c = 0; c < 2; c++) one_recv(D, u, id);
      one_recv(D, u, id + 1); one_recv(D, u, id - 1); one_recv(D, u, id | 0x80000000u); one_recv(D, u, id ^ (1u << rn(32)));
      one_recv(D, u, id | 0x20000000u); one_recv(D, u, id & 0x7ff); one_recv(D, u, id & 0xffff);
    }
    for (int i = 0; i < D->nmsg; i++) one_recv(D, u, D->msg[i].id);
    for (int k = 0; k < iters; k++) one_recv(D, u, rn(2) ? (uint32_t)rnd() : (uint32_t)rnd() >> rn(31));
    one_recv(D, u, 0); one_recv(D, u, 0xffffffffu); one_recv(D, u, 0x7ff); one_recv(D, u, 0x1fffffffu);
  }
}

/* ------------------------------------------------------------ hostile use under sanitizers: exact-size heap buffers, junk structs */
static void t_abuse(const hdrv* D, int iters) {
  for (int i = 0; i < D->nmsg; i++) {
    const hmsg* m = &D->msg[i];
    for (int it = 0; it < iters; it++) {
      void* o = newobj(m, it & 1);
      uint8_t* d = (uint8_t*)malloc(m->dlc); uint8_t *len = (uint8_t*)malloc(1), *ide = (uint8_t*)malloc(1); uint32_t mid;
      gendata(d, m->dlc, it);
      cur = D; curm = m; curi = i; curobj = o; curd = 0;
      m->unpack(o, d, (uint8_t)rnd());
      if (it & 2) for (int k = 0; k < m->nsig; k++) if (!((D->cfg & CF_FLOAT) && m->sig[k].kind)) m->sig[k].set(o, rnd());
      if (D->cfg & CF_FLOAT) for (int k = 0; k < m->nsig; k++) if (m->sig[k].kind && it > 2) setraw(D, &m->sig[k], o, limit(D, &m->sig[k], genraw(&m->sig[k], it)));
      for (int k = 0; k < m->nsig; k++) if ((D->cfg & CF_FLOAT) && m->sig[k].kind == 2 && it <= 2) setraw(D, &m->sig[k], o, limit(D, &m->sig[k], genraw(&m->sig[k], it)));
      for (int q = 0; q < 2; q++) m->pack(o, d, len, ide, &mid);
      curm = 0; evals++; nontriv++;
      free(o); free(d); free(len); free(ide);
    }
  }
}
static void t_abuserecv(const hdrv* D, int iters) {
  for (int q = 0; q < D->nutil; q++) {
    const hutil* u = &D->util[q];
    if (!u->recv) continue;
    for (int it = 0; it < iters; it++) {
      int k = u->nrx ? (int)rn(u->nrx) : 0;
      const hmsg* m = u->nrx ? &D->msg[u->rx[k]] : 0;
      int n = m ? m->dlc : 1;
      uint8_t* d = (uint8_t*)malloc(n); gendata(d, n, it);
      cur = D; curm = m; curi = m ? u->rx[k] : -1; curobj = m ? u->ptr[k] : 0; curd = 0;
      u->recv(d, m ? m->id : (uint32_t)rnd(), (uint8_t)rnd());
      curm = 0; evals++;
      free(d);
    }
  }
}

/* ------------------------------------------------------------ ownership: Pack and Unpack write what is theirs and nothing else,
   and their results depend on nothing but the fields and bytes they are made of */
typedef struct own { uint64_t sig[512]; long double ph[512]; uint64_t expt; hmon mon; } own;
static void take(const hdrv* D, const hmsg* m, void* o, own* w, int ph) {
  memset(w, 0, sizeof *w);
  for (int k = 0; k < m->nsig; k++) {
    const hsig* s = &m->sig[k];
    w->sig[k] = s->get(o);
    if (ph && (D->cfg & CF_FLOAT) && s->kind) w->ph[k] = s->getp(o);
  }
  if ((D->cfg & CF_ROLL) && m->getexpt) w->expt = m->getexpt(o);
  if (D->cfg & CF_MON) D->mget(m->mon(o), &w->mon);
}
/* kinds of fields which may differ */
enum { W_RAW = 1, W_PHYS = 2, W_EXPT = 4, W_MON = 8, W_ROLL = 16, W_CSM = 32, W_RO = 64, W_UMON = 128 };
static void own_cmp(const hdrv* D, const hmsg* m, const char* what, const own* a, const own* b, int may) {
  int hasroll = 0, hascsm = 0;
  for (int k = 0; k < m->nsig; k++) {
    const hsig* s = &m->sig[k];
    int fl = (D->cfg & CF_FLOAT) && s->kind;
    hasroll |= s->roll; hascsm |= s->csm;
    if (!(may & W_RAW) && !((may & W_ROLL) && s->roll && (D->cfg & CF_ROLL)) && !((may & W_CSM) && s->csm && (D->cfg & CF_CSM)) && !((may & W_RO) && fl) &&
        a->sig[k] != b->sig[k])
      FAIL("own %s.%s.%s %s: field was %#llx, is %#llx", D->name, m->name, s->name, what, (unsigned long long)a->sig[k], (unsigned long long)b->sig[k]);
    if (!(may & W_PHYS) && fl && a->ph[k] != b->ph[k])
      FAIL("own %s.%s.%s %s: _phys was %.17Lg, is %.17Lg", D->name, m->name, s->name, what, a->ph[k], b->ph[k]);
  }
  if (!(may & W_EXPT) && a->expt != b->expt) FAIL("own %s.%s %s: _expt was %#llx, is %#llx", D->name, m->name, what, (unsigned long long)a->expt, (unsigned long long)b->expt);
  if (may & W_MON) return;
  const hmon *x = &a->mon, *y = &b->mon;
  int um = may & W_UMON, r = um && hasroll && (D->cfg & CF_ROLL), c = um && hascsm && (D->cfg & CF_CSM);
  if (x->tmo != y->tmo || x->cyc != y->cyc || (!r && x->roll != y->roll) || (!c && x->csm != y->csm) ||
      (!um && (x->last != y->last || x->cnt != y->cnt || x->dlc != y->dlc)))
    FAIL("own %s.%s %s: monitor was last %u cnt %u dlc %u roll %u csm %u cyc %u tmo %u, is %u %u %u %u %u %u %u", D->name, m->name, what,
         x->last, x->cnt, x->dlc, x->roll, x->csm, x->cyc, x->tmo, y->last, y->cnt, y->dlc, y->roll, y->csm, y->cyc, y->tmo);
}
static void own_junk(const hdrv* D, const hmsg* m, void* o, int it, int what) {
  if (what & W_RAW) for (int k = 0; k < m->nsig; k++) {
    const hsig* s = &m->sig[k];
    if ((D->cfg & CF_FLOAT) && s->kind) setraw(D, s, o, limit(D, s, genraw(s, it))); else s->set(o, genval(s, it));
  }
  if ((what & W_RO) && (D->cfg & CF_FLOAT)) for (int k = 0; k < m->nsig; k++) if (m->sig[k].kind) m->sig[k].set(o, rnd());
  if ((what & W_EXPT) && (D->cfg & CF_ROLL) && m->setexpt) m->setexpt(o, rnd());
  if ((what & W_MON) && (D->cfg & CF_MON)) {
    hmon h = { (uint32_t)rnd(), (uint32_t)rnd(), (uint32_t)rnd(), rn(2), rn(2), rn(2), rn(2) };
    D->mset(m->mon(o), &h);
  }
}
static void t_own(const hdrv* D, int iters) {
  static own A, B, C;
  for (int i = 0; i < D->nmsg; i++) {
    const hmsg* m = &D->msg[i];
    const hsig* roll = 0; for (int k = 0; k < m->nsig; k++) if (m->sig[k].roll && (D->cfg & CF_ROLL)) roll = &m->sig[k];
    void *o = newobj(m, 1), *p = newobj(m, 1);
    for (int it = 0; it < iters; it++) {
      uint8_t f1[64], f2[64], l, e; uint32_t id;
      curobj = o; cur = D; curm = m; curi = i; curd = 0;
      /* Pack */
      own_junk(D, m, o, it, W_RAW | W_EXPT | W_MON);
      take(D, m, o, &A, 1);
      for (int k = 0; k < 64; k++) { f1[k] = (uint8_t)rnd(); f2[k] = (uint8_t)rnd(); }
      m->pack(o, f1, &l, &e, &id);
      take(D, m, o, &B, 1);
      own_cmp(D, m, "after Pack", &A, &B, W_ROLL | W_CSM | W_RO);
      evals++;
      /* the same signals with any other state give the same frame */
      if (roll) roll->set(o, A.sig[roll - m->sig]);
      own_junk(D, m, o, it, W_RO | W_EXPT | W_MON);
      m->pack(o, f2, &l, &e, &id);
      take(D, m, o, &C, 1);
      own_cmp(D, m, "after the second Pack", &B, &C, W_EXPT | W_MON);
      if (memcmp(f1, f2, m->dlc)) { hex(hx1, f1, m->dlc); hex(hx2, f2, m->dlc);
        FAIL("own %s.%s Pack of the same signal values gave %s and %s", D->name, m->name, hx1, hx2); }
      evals++;
      for (int k = 0; k < m->dlc; k++) if (f1[k] != 0 && f1[k] != 0xff) { nontriv++; break; }
      /* Unpack into two structs of different contents, frames equal in the DLC bytes only */
      gendata(f1, m->dlc, it);
      if (rn(3) == 0 && it > 8) m->pack(o, f1, &l, &e, &id);
      memcpy(f2, f1, m->dlc);
      for (int k = m->dlc; k < 64; k++) f2[k] = (uint8_t)~f1[k];
      uint8_t dl = rn(3) ? m->dlc : (uint8_t)rnd();
      tick_now = (uint32_t)rnd();
      own_junk(D, m, o, it, W_RAW | W_RO | W_EXPT | W_MON);
      own_junk(D, m, p, it + 7, W_RAW | W_RO | W_EXPT | W_MON);
      if ((D->cfg & CF_ROLL) && m->setexpt) { uint64_t x = rn(2) && roll ? ref_get(f1, roll) : rnd(); m->setexpt(o, x); m->setexpt(p, x); }
      take(D, m, o, &A, 1);
      uint8_t keep[64]; memcpy(keep, f1, 64);
      m->unpack(o, f1, dl);
      if (memcmp(keep, f1, 64)) FAIL("own %s.%s Unpack changed its frame", D->name, m->name);
      take(D, m, o, &B, 1);
      own_cmp(D, m, "after Unpack", &A, &B, W_RAW | W_PHYS | W_UMON | (roll && (D->cfg & CF_MON) ? W_EXPT : 0));
      curobj = p;
      m->unpack(p, f2, dl);
      take(D, m, p, &C, 1);
      own_cmp(D, m, "after Unpack of the same frame into another struct", &B, &C, W_MON);
      evals += 2;
      if (D->cfg & CF_MON) {
        if (B.mon.last != C.mon.last || B.mon.dlc != C.mon.dlc || (roll && B.mon.roll != C.mon.roll)) FAIL("own %s.%s: monitors of the same frame differ", D->name, m->name);
      }
      /* once more: nothing new in the signals */
      m->unpack(p, f2, dl);
      take(D, m, p, &A, 1);
      own_cmp(D, m, "after the second Unpack of the same frame", &C, &A, W_UMON);
      evals++;
    }
    curm = 0;
    free(o); free(p);
  }
}

int main(int argc, char** argv) {
  rs ^= strtoull(argv[1], 0, 10) * 0x9E3779B97F4A7C15ull; for (int k = 0; k < 20; k++) rnd();
  for (int a = 2; a < argc; a++) {
    char mode[32]; int n = 0;
    sscanf(argv[a], "%31[^:]:%d", mode, &n);
    uint64_t e0 = evals, n0 = nontriv;
    for (int q = 0; q < H_nall; q++) {
      const hdrv* D = H_all[q];
      if (!strcmp(mode, "unpack")) t_unpack(D, n);
      else if (!strcmp(mode, "pack")) t_pack(D, n, 0);
      else if (!strcmp(mode, "wire")) t_pack(D, n, 1);
      else if (!strcmp(mode, "phys")) t_phys(D, n);
      else if (!strcmp(mode, "roll")) t_roll(D, n);
      else if (!strcmp(mode, "csm")) t_csm(D, n);
      else if (!strcmp(mode, "mon")) t_mon(D, n);
      else if (!strcmp(mode, "recv")) t_recv(D, n);
      else if (!strcmp(mode, "own")) t_own(D, n);
      else if (!strcmp(mode, "abuse")) t_abuse(D, n);
      else if (!strcmp(mode, "abuserecv")) t_abuserecv(D, n);
      else { printf("BADMODE %s\n", mode); return 3; }
    }
    printf("DONE %s evals=%llu nontrivial=%llu\n", mode, (unsigned long long)(evals - e0), (unsigned long long)(nontriv - n0));
  }
  printf("END fails=%llu evals=%llu nontrivial=%llu hash=%016llx\n", (unsigned long long)fails, (unsigned long long)evals, (unsigned long long)nontriv, (unsigned long long)wirehash);
  return fails ? 1 : 0;
}
