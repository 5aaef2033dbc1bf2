/* Descriptor tables between the per-DBC glue (generated by fw/pkg.py from the DBC model) and engine.c (the monitors). */
#pragma once
#include <stdint.h>
#include <stddef.h>

enum { CF_BITS = 1, CF_STRUCT = 2, CF_FLOAT = 4, CF_MON = 8, CF_MONO = 16, CF_ROLL = 32, CF_CSM = 64 };

typedef struct hsig {
  const char* name;
  uint16_t start; uint8_t len, mot, sgn, kind;      /* kind: 0 simple, 1 integer scaled, 2 fractional */
  uint64_t (*get)(const void*);
  void (*set)(void*, uint64_t);
  long double (*getp)(const void*);
  void (*setp)(void*, long double);
  long double fac, off;
  uint8_t roll, csm;
} hsig;

typedef struct hmon { uint32_t last, tmo, cnt, roll, csm, cyc, dlc; } hmon;

typedef struct hmsg {
  const char* name; uint32_t id; uint8_t ide, dlc; uint32_t size; int nsig; const hsig* sig;
  uint32_t (*unpack)(void*, const uint8_t*, uint8_t);
  uint32_t (*pack)(void*, uint8_t*, uint8_t*, uint8_t*, uint32_t*);
  void* (*mon)(void*);
  uint64_t (*getexpt)(const void*);
  void (*setexpt)(void*, uint64_t);
  int method; uint32_t op;
} hmsg;

typedef struct hutil {
  const char* name;
  uint32_t (*recv)(const uint8_t*, uint32_t, uint8_t);
  void* obj; uint32_t size;
  int nrx; const int* rx; void* const* ptr;
} hutil;

typedef struct hdrv {
  const char* name; unsigned cfg; uint8_t init;
  int nmsg; const hmsg* msg;
  int nutil; const hutil* util;
  void (*mget)(const void*, hmon*);
  void (*mset)(void*, const hmon*);
} hdrv;

extern const hdrv* const H_all[];
extern const int H_nall;
#ifdef __cplusplus
extern "C" {
#endif
void h_fmon(const void* drv, int idx, void* mon, uint32_t id);   /* idx: message index of a dedicated FMon, -1 MONO */
#ifdef __cplusplus
}
#endif
