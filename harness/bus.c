/* A simulated CAN bus: every node is a shared object (core + its own binutil, its own feature macros, compiler and optimisation),
   loaded with dlopen(RTLD_LOCAL). Nodes pack their messages, the bus loses, repeats, truncates and corrupts frames, every node's Receive gets
   what the bus delivers. The oracle knows only the values which the sender put into its struct. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "h.h"

#define MAXN 24
#define MAXM 400
#define MAXS 640
typedef struct { const hdrv* d; const hutil* u; const char* name; unsigned cfg; uint8_t* snap; uint8_t* tx[MAXM]; } node;
static node N[MAXN];
static int nn;
static uint64_t rs;
static uint64_t rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull; }
static unsigned rn(unsigned n) { return (unsigned)((rnd() >> 33) % n); }
static long fails, evals, nontriv;
static long st_tx, st_rx, st_lost, st_dup, st_cut, st_bad, st_rollerr, st_csmerr, st_foreign, st_late;
static uint64_t hash = 1469598103934665603ull;
#define FAIL(...) do { if (fails++ < 20) { printf("FAIL "); printf(__VA_ARGS__); printf("\n"); } } while (0)

static uint32_t tick;
static int fm_calls; static uint32_t fm_id; static void* fm_mon; static const void* fm_drv;
void h_fmon(const void* drv, int idx, void* mon, uint32_t id) { fm_calls++; fm_id = id; fm_mon = mon; fm_drv = drv; (void)idx; }
uint32_t h_tick(void) { return tick; }
static const hmsg* cur;      /* message whose hash is computed */
static const hsig* csm_of(const hmsg* m) { for (int i = 0; i < m->nsig; i++) if (m->sig[i].csm) return &m->sig[i]; return 0; }
static const hsig* roll_of(const hmsg* m) { for (int i = 0; i < m->nsig; i++) if (m->sig[i].roll) return &m->sig[i]; return 0; }
/* the user's checksum over everything but the checksum signal itself */
static uint32_t fold(uint32_t x) { return (x ^ (x >> 8) * 3u ^ (x >> 16) * 5u ^ (x >> 24) * 7u) & 0xFF; }
uint32_t h_hash(const uint8_t* d, uint32_t len, uint32_t id, int method, uint32_t op) {
  const hsig* c = cur ? csm_of(cur) : 0;
  /* only the low bits of the result get into the frame: all of what is hashed is folded into them */
  uint32_t x = 0x1234567u + fold(id) * 131u + fold((uint32_t)method) * 77u + fold(op) * 3u + len;
  uint8_t full = 0xFF;
  for (uint32_t i = 0; i < len; i++) {
    uint8_t b = d[i];
    if (c && i == c->start / 8u) {
      unsigned lo = c->mot ? (unsigned)(c->start % 8 - c->len + 1) : c->start % 8u;
      b &= (uint8_t)~(((1u << c->len) - 1u) << lo);
      full = (uint8_t)((1u << c->len) - 1u);
    }
    x = (x ^ b) * 16777619u;
  }
  return (x ^ (x >> 11) ^ (x >> 21)) & full;
}

static uint64_t mask(const hsig* s) { return s->len == 64 ? ~0ull : (1ull << s->len) - 1; }
static uint64_t pick(const hsig* s) {
  uint64_t v;
  switch (rn(8)) {
    case 0: v = 0; break;
    case 1: v = ~0ull; break;
    case 2: v = 1ull << (s->len - 1); break;
    case 3: v = (1ull << (s->len - 1)) - 1; break;
    case 4: v = 1; break;
    default: v = rnd();
  }
  v &= mask(s);
  if (s->kind == 2 && s->len > 48) v &= s->sgn ? (1ull << 46) - 1 : (1ull << 47) - 1;   /* exact in a double */
  return v;
}
static uint64_t sext(const hsig* s, uint64_t v) { v &= mask(s); if (s->sgn && (v >> (s->len - 1))) v |= ~mask(s); return v; }
static long double num(const hsig* s, uint64_t v) { v = sext(s, v); return s->sgn ? (long double)(int64_t)v : (long double)v; }
static long double phys(const hsig* s, uint64_t v) { return num(s, v) * s->fac + s->off; }

typedef struct { uint32_t id; uint8_t d[64], dlc; int msg, from, bad, fresh; uint64_t raw[MAXS]; } frame;

/* does node n receive message m: pointer of its struct or 0 */
static void* member(const node* n, int m) { if (n->u) for (int i = 0; i < n->u->nrx; i++) if (n->u->rx[i] == m) return n->u->ptr[i]; return 0; }

static int same(const hsig* s, uint64_t want, uint64_t got, int scaled) {
  if (sext(s, want) == sext(s, got)) return 1;
  if (!scaled || s->kind != 2) return 0;
  long double tol = 1 + (fabsl(num(s, want)) + fabsl(s->off / s->fac)) * 0x1p-49L;
  return fabsl(num(s, want) - num(s, got)) <= tol;
}

static void deliver(const frame* f, int lossy) {
  (void)lossy;
  const void* first[MAXN]; int fn[MAXN]; int nf = 0;
  for (int k = 0; k < nn; k++) {
    node* n = &N[k];
    if (!n->u) continue;
    if (k == f->from && rn(4)) continue;           /* a sender rarely hears itself */
    void* p = f->msg >= 0 ? member(n, f->msg) : 0;
    memcpy(n->snap, n->u->obj, n->u->size);
    hmon m0, m1; uint64_t exp0 = 0; const hmsg* m = 0;
    if (p) {
      m = &n->d->msg[f->msg];
      if (n->d->mget) n->d->mget(m->mon(p), &m0);
      if (m->getexpt) exp0 = m->getexpt(p);
    }
    cur = f->msg >= 0 ? &n->d->msg[f->msg] : 0;
    tick = (uint32_t)rnd(); fm_calls = 0;
    uint8_t d[64]; memcpy(d, f->d, 64);
    uint32_t r = n->u->recv(d, f->id, f->dlc);
    evals++;
    if (memcmp(d, f->d, 64)) FAIL("%s: Receive changed the frame data of 0x%X", n->name, f->id);
    if (!p) {
      st_foreign++;
      if (r) FAIL("%s: Receive of 0x%X, which the node does not receive, returned 0x%X", n->name, f->id, r);
      if (memcmp(n->snap, n->u->obj, n->u->size)) FAIL("%s: Receive of 0x%X, which the node does not receive, changed the struct", n->name, f->id);
      if (fm_calls) FAIL("%s: FMon called for 0x%X", n->name, f->id);
      continue;
    }
    st_rx++;
    if (r != f->id) FAIL("%s: Receive of %s (0x%X) returned 0x%X", n->name, m->name, f->id, r);
    /* nothing but this message's struct changes */
    size_t o = (size_t)((uint8_t*)p - (uint8_t*)n->u->obj);
    if (memcmp(n->snap, n->u->obj, o) || memcmp(n->snap + o + m->size, (uint8_t*)n->u->obj + o + m->size, n->u->size - o - m->size))
      FAIL("%s: Receive of %s changed another message", n->name, m->name);
    const node* tx = f->from >= 0 ? &N[f->from] : 0;
    for (int i = 0; i < m->nsig; i++) {
      const hsig* s = &m->sig[i];
      uint64_t g = s->get(p);
      hash = (hash ^ g) * 1099511628211ull;
      if (!f->bad) {
        int scaled = tx && (tx->cfg & CF_FLOAT);
        if (!same(s, f->raw[i], g, scaled))
          FAIL("%s (cfg 0x%X) got %s.%s = 0x%llX, %s (cfg 0x%X) sent 0x%llX", n->name, n->cfg, m->name, s->name, (unsigned long long)g,
               tx ? tx->name : "?", tx ? tx->cfg : 0, (unsigned long long)sext(s, f->raw[i]));
        else if (f->raw[i]) nontriv++;
        if (s->getp) {
          long double want = phys(s, f->raw[i]), got = s->getp(p);
          long double tol = s->kind == 2 ? (scaled ? 1.001L : 0) * fabsl(s->fac) + (fabsl(want) + fabsl(s->off) + fabsl(num(s, f->raw[i]) * s->fac)) * 0x1p-48L + 1e-300L : 0;
          if (!(fabsl(want - got) <= tol))
            FAIL("%s (cfg 0x%X): %s.%s_phys is %.12Lg, sent %.12Lg", n->name, n->cfg, m->name, s->name, got, want);
        }
      }
      evals++;
    }
    /* every receiver of a frame, good or bad, sees the same values */
    for (int q = 0; q < nf; q++) {
      const hmsg* mq = &N[fn[q]].d->msg[f->msg];
      for (int i = 0; i < m->nsig; i++)
        if (mq->sig[i].get(first[q]) != m->sig[i].get(p)) {
          FAIL("%s (cfg 0x%X) and %s (cfg 0x%X) decode %s.%s of the same frame differently", n->name, n->cfg, N[fn[q]].name, N[fn[q]].cfg, m->name, m->sig[i].name);
          break;
        }
      break;
    }
    if (nf < MAXN) { first[nf] = p; fn[nf++] = k; }
    if (n->d->mget) {
      n->d->mget(m->mon(p), &m1);
      const hsig* ro = roll_of(m); const hsig* cs = csm_of(m);
      if (m1.cnt != m0.cnt + 1) FAIL("%s: frame_cnt of %s went from %u to %u", n->name, m->name, m0.cnt, m1.cnt);
      if (m1.last != tick) FAIL("%s: last_cycle of %s is not the tick", n->name, m->name);
      if (m1.dlc != (f->dlc < m->dlc)) FAIL("%s: dlc_error of %s is %u for dlc %u of %u", n->name, m->name, m1.dlc, f->dlc, m->dlc);
      if (fm_calls != 1 || fm_id != f->id || fm_mon != m->mon(p) || fm_drv != n->d) FAIL("%s: %d FMon calls for %s", n->name, fm_calls, m->name);
      if ((n->cfg & CF_ROLL) && ro) {
        unsigned w = ro->get(p) != exp0;
        if (m1.roll != w) FAIL("%s: roll_error of %s is %u, counter %llu expected %llu", n->name, m->name, m1.roll, (unsigned long long)ro->get(p), (unsigned long long)exp0);
        if (m->getexpt(p) != ((ro->get(p) + 1) & mask(ro))) FAIL("%s: next expected counter of %s", n->name, m->name);
        st_rollerr += w;
      } else if (m1.roll != m0.roll) FAIL("%s: roll_error of %s changed without AUTO_ROLL", n->name, m->name);
      if ((n->cfg & CF_CSM) && cs) {
        if (!f->bad && tx && (tx->cfg & CF_CSM) && m1.csm) FAIL("%s: csm_error for an intact %s of %s", n->name, m->name, tx->name);
        uint32_t w = (h_hash(f->d, m->dlc, m->id, m->method, m->op) & 0xFF) != cs->get(p);
        if (m1.csm != w) FAIL("%s: csm_error of %s is %u", n->name, m->name, m1.csm);
        st_csmerr += w;
      } else if (m1.csm != m0.csm) FAIL("%s: csm_error of %s changed without AUTO_CSM", n->name, m->name);
    } else if (fm_calls) FAIL("%s: FMon called without monitors", n->name);
  }
}

int main(int argc, char** argv) {
  rs = strtoull(argv[1], 0, 10) * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
  long steps = atol(argv[2]);
  /* argv[3..]: library:symbol:node:utility index or -1: tx message list */
  static int txl[MAXN][MAXM], ntx[MAXN];
  for (int i = 3; i < argc && nn < MAXN; i++) {
    char* lib = strtok(argv[i], ":"); char* sym = strtok(0, ":"); char* nm = strtok(0, ":"); char* has = strtok(0, ":"); char* tl = strtok(0, ":");
    void* h = dlopen(lib, RTLD_NOW | RTLD_LOCAL);
    if (!h) { printf("FAIL dlopen: %s\n", dlerror()); return 2; }
    node* n = &N[nn];
    n->d = (const hdrv*)dlsym(h, sym);
    if (!n->d) { printf("FAIL dlsym: %s\n", dlerror()); return 2; }
    n->name = nm; n->cfg = n->d->cfg; n->u = atoi(has) ? &n->d->util[0] : 0;
    if (n->u) n->snap = malloc(n->u->size);
    for (char* t = tl ? strtok(tl, ",") : 0; t; t = strtok(0, ",")) {
      int m = atoi(t);
      if (m < 0) continue;
      txl[nn][ntx[nn]++] = m; n->tx[m] = calloc(1, n->d->msg[m].size);
    }
    nn++;
  }
  int nm = N[0].d->nmsg;
  static frame f, g, held[8];
  int nheld = 0;
  for (long step = 0; step < steps; step++) {
    int k = (int)rn((unsigned)nn);
    node* n = &N[k];
    if (nheld && rn(6) == 0) {
      /* a frame which was overtaken by others */
      int q = (int)rn((unsigned)nheld);
      st_late++;
      deliver(&held[q], 0);
      held[q] = held[--nheld];
    }
    if (rn(25) == 0) {
      /* a frame of a foreign id */
      uint32_t id = rn(3) ? (uint32_t)rnd() & 0x1FFFFFFF : N[0].d->msg[rn((unsigned)nm)].id + (rn(2) ? 1u : -1u);
      int hit = 0;
      for (int i = 0; i < nm; i++) hit |= N[0].d->msg[i].id == id;
      if (hit) continue;
      memset(&f, 0, sizeof f); f.id = id; f.msg = -1; f.from = -1; f.dlc = (uint8_t)rn(65);
      for (int i = 0; i < 64; i++) f.d[i] = (uint8_t)rnd();
      deliver(&f, 0);
      continue;
    }
    if (!ntx[k]) continue;
    int mi = txl[k][rn((unsigned)ntx[k])];
    const hmsg* m = &n->d->msg[mi];
    void* p = n->tx[mi];
    if (rn(60) == 0) memset(p, 0, m->size);       /* the node restarts */
    const hsig* ro = roll_of(m); const hsig* cs = csm_of(m);
    uint64_t prev = ro ? ro->get(p) & mask(ro) : 0;
    for (int i = 0; i < m->nsig; i++) {
      const hsig* s = &m->sig[i];
      f.raw[i] = pick(s);
      if (rn(3) == 0 && step > 4) { f.raw[i] = s->get(p) & mask(s); if (s->getp) f.raw[i] = pick(s); }
      if (s->roll && (n->cfg & CF_ROLL)) { f.raw[i] = (prev + 1) & mask(s); continue; }
      s->set(p, sext(s, f.raw[i]));
      if (s->setp) { s->set(p, rnd() & mask(s)); s->setp(p, phys(s, f.raw[i])); }
    }
    hmon m0, m1; if (n->d->mget) n->d->mget(m->mon(p), &m0);
    uint8_t len = 0xEE, ide = 0xEE; uint32_t id = 0;
    for (int i = 0; i < 64; i++) f.d[i] = (uint8_t)rnd();
    cur = m;
    uint32_t r = m->pack(p, f.d, &len, &ide, &id);
    st_tx++; evals++;
    if (r != m->id || id != m->id || len != m->dlc || ide != m->ide) FAIL("%s: Pack of %s reports id 0x%X/0x%X len %u ide %u", n->name, m->name, r, id, len, ide);
    if (n->d->mget) { n->d->mget(m->mon(p), &m1); if (memcmp(&m0, &m1, sizeof m0)) FAIL("%s: Pack of %s changed the monitor", n->name, m->name); }
    if (cs && (n->cfg & CF_CSM))
      for (int i = 0; i < m->nsig; i++) if (m->sig[i].csm) f.raw[i] = h_hash(f.d, m->dlc, m->id, m->method, m->op) & mask(cs);
    for (int i = 0; i < m->nsig; i++) {
      const hsig* s = &m->sig[i];
      int scaled = s->setp != 0;
      if (!same(s, f.raw[i], s->get(p), scaled)) FAIL("%s: after Pack of %s the sender's %s is 0x%llX instead of 0x%llX", n->name, m->name, s->name,
                                                        (unsigned long long)s->get(p), (unsigned long long)sext(s, f.raw[i]));
    }
    f.id = id; f.dlc = len; f.msg = mi; f.from = k; f.bad = 0;
    switch (rn(13)) {
      case 0: st_lost++; continue;
      case 1: st_dup++; deliver(&f, 1); deliver(&f, 1); break;
      case 2: st_cut++; g = f; g.dlc = (uint8_t)rn(65); deliver(&g, 1); break;
      case 3: st_bad++; g = f; g.bad = 1; g.d[rn(m->dlc)] ^= (uint8_t)(1u << rn(8)); deliver(&g, 1); break;
      case 4: if (nheld < 8) { held[nheld++] = f; continue; } deliver(&f, 0); break;
      default: deliver(&f, 0);
    }
  }
  for (int k = 0; k < nn; k++) for (int i = 0; i < nm; i++) free(N[k].tx[i]);
  printf("STAT bus tx=%ld rx=%ld lost=%ld dup=%ld cut=%ld bad=%ld rollerr=%ld csmerr=%ld foreign=%ld late=%ld\n", st_tx, st_rx, st_lost, st_dup, st_cut, st_bad, st_rollerr, st_csmerr, st_foreign, st_late);
  printf("END fails=%ld evals=%ld nontrivial=%ld hash=%016llx\n", fails, evals, nontriv, (unsigned long long)hash);
  return fails ? 1 : 0;
}
