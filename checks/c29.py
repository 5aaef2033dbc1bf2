import os, shutil, re
from fw import dbc as D
from fw import pkg as P
from fw import trace as T
from fw.core import sh, HarnessError, HARNESS

TECHNIQUE = ("differential runtime monitoring: the same driver program with reproducible histories runs as native 64-bit code, as wasm32 code (32-bit long and pointers) under node, as big-endian code "
             "(PowerPC-64 LLVM IR whose every memory access is byte-swapped), and natively with other char signedness, struct packing, enum size, floating-point type sizes, compilers and optimisation levels; "
             "an offline checker compares the digests of everything observable per message")
NOTE = ("Digests cover returned ids, lengths, payload bytes, all raw and physical fields, rolling counters, monitors and callbacks after every Unpack, Pack and Receive. Big-endian execution is an emulation at the level of "
        "compiler IR (memory byte order, bit-field layout, ABI layout of ppc64). int of 16 bits is not covered.")
REPORT = dict(
    rule="one evaluation = one message history digest on one target compared with the native one; distinct_nontrivial counts distinct (DBC, target) pairs",
    assumptions=["int has at least 32 bits, IEEE double, no floating-point contraction", "the native result is right (decided by C01 to C08)"])

STUB = {"string.h": "#pragma once\n#include <stddef.h>\nvoid* memcpy(void*, const void*, size_t);\nvoid* memset(void*, int, size_t);\nvoid* memmove(void*, const void*, size_t);\nint memcmp(const void*, const void*, size_t);\nsize_t strlen(const char*);\n",
        "stdlib.h": "#pragma once\n#include <stddef.h>\n", "math.h": "#pragma once\n", "assert.h": "#pragma once\n#define assert(x) ((void)0)\n"}
WLIB = """#include <stddef.h>
void* memcpy(void* a, const void* b, size_t n) { volatile char* p = a; const char* q = b; while (n--) *p++ = *q++; return a; }
void* memset(void* a, int v, size_t n) { volatile char* p = a; while (n--) *p++ = (char)v; return a; }
void* memmove(void* a, const void* b, size_t n) { volatile char* p = a; const volatile char* q = b; if (p < q) while (n--) *p++ = *q++; else while (n--) p[n] = q[n]; return a; }
int memcmp(const void* a, const void* b, size_t n) { const unsigned char* p = a; const unsigned char* q = b; for (; n--; p++, q++) if (*p != *q) return *p - *q; return 0; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
"""
HOST = """#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
void trace_main(uint32_t, uint32_t);
void h_puts(const char* s) { fputs(s, stdout); }
int main(int c, char** v) { trace_main((uint32_t)atoi(v[1]), (uint32_t)atoi(v[2])); return 0; }
"""
NODE = """const fs=require('fs');const b=fs.readFileSync(process.argv[2]);let out=[];let mem;
WebAssembly.instantiate(b,{env:{h_puts:(p)=>{const a=new Uint8Array(mem.buffer);let e=p;while(a[e])e++;out.push(Buffer.from(a.subarray(p,e)).toString());}}}).then(r=>{mem=r.instance.exports.memory;
r.instance.exports.trace_main(+process.argv[3],+process.argv[4]);fs.writeSync(1,out.join(''));});
"""
FP = ["-ffp-contract=off"]
# (name, compiler, flags)
NATIVE = [("gcc -O2", "gcc", ["-O2"]), ("clang -O3", "clang", ["-O3"]), ("gcc -Os", "gcc", ["-Os"]), ("unsigned char", "gcc", ["-O1", "-funsigned-char"]), ("clang unsigned char", "clang", ["-O1", "-funsigned-char"]),
          ("packed structs", "gcc", ["-O1", "-fpack-struct"]), ("packed structs clang", "clang", ["-O2", "-fpack-struct"]), ("short enums", "gcc", ["-O1", "-fshort-enums"]), ("unsigned bitfields", "gcc", ["-O1", "-funsigned-bitfields"]),
          ("ms bitfields", "gcc", ["-O1", "-mms-bitfields"]), ("gcc -O3 native", "gcc", ["-O3", "-fno-strict-aliasing"]), ("c99", "gcc", ["-O2", "-std=c99"]), ("c11 clang", "clang", ["-Os", "-std=c11"]), ("x87", "gcc", ["-O1", "-fno-common", "-frounding-math"])]


class Built(Exception):
    pass


def targets(ctx, wd, out, drv, cfg, low, util, sigfloat, which, verbose=False):
    """runs the program on the target; returns its output."""
    inc = P.includes(out)
    defs = ["-D%s_%s" % (drv.upper(), f) for f in cfg] + ["-DHAVE_MAIN=1", "-w"] + (["-DVERBOSE=1"] if verbose else [])
    srcs = [os.path.join(wd, "trace.c"), os.path.join(out, "lib", low + ".c")] + ([os.path.join(out, "butl", low + "-binutil.c")] if util else [])
    name = which[0]
    tag = re.sub(r"\W", "_", name) + ("v" if verbose else "")

    def run(cmd, to=120):
        rc, o, e = sh(cmd, timeout=to)
        if rc:
            raise Built("%s: %s\n%s" % (name, " ".join(cmd[:6])[:200], (e or o)[-1800:]))
        return o
    exe = os.path.join(wd, tag)
    args = [str(ctx.seed), str(ctx.n(25, 60))]
    if which[1] == "wasm":
        objs = []
        for i, s in enumerate(srcs + [os.path.join(wd, "wlib.c")]):
            o = "%s.%d.o" % (exe, i)
            run(["clang", "--target=wasm32", "-ffreestanding", which[2]] + FP + ["-isystem", os.path.join(wd, "stub")] + inc + defs + ["-c", s, "-o", o])
            objs.append(o)
        run(["wasm-ld", "--no-entry", "--export=trace_main", "--allow-undefined", "-z", "stack-size=1048576"] + objs + ["-o", exe])
        return run(["node", os.path.join(wd, "run.js"), exe] + args)
    if which[1] == "be":
        objs = []
        for i, s in enumerate(srcs):
            ll = "%s.%d.ll" % (exe, i)
            run(["clang", "--target=powerpc64-unknown-linux-gnu", "-mlong-double-64", "-mno-altivec", "-ffreestanding", "-O0", "-Xclang", "-disable-O0-optnone"] + FP + ["-isystem", os.path.join(wd, "stub")] + inc + defs + ["-S", "-emit-llvm", s, "-o", ll])
            txt = open(ll).read()
            try:
                txt = T.bigendian_ir(txt)
            except T.Unsupported as e:
                ctx.count("be_not_emulated")
                return None
            with open(ll, "w") as f:
                f.write(txt)
            run(["clang", which[2], "-w", "-x", "ir", "-c", ll, "-o", ll + ".o"])
            objs.append(ll + ".o")
        run(["clang", "-w", os.path.join(wd, "host.c")] + objs + ["-o", exe])
        return run([exe] + args)
    run([which[1]] + which[2] + FP + inc + defs + srcs + [os.path.join(wd, "host.c"), "-o", exe])
    return run([exe] + args)


def check(ctx):
    ctx.gen()
    for t in ("node", "wasm-ld"):
        if not shutil.which(t):
            raise HarnessError(t + " is missing")

    def one(k):
        r = ctx.rng("net", k)
        if k % 3 == 0:
            net = D.tagged_net(r, fd=0.3, overlap_p=0)
        else:
            net = D.shape_net(r, k, fd=0.3, overlap_p=0, empty_p=0.05, scaling=r.choice(["mixed", "int", "float", "none"]))
        for m in net.msgs:
            del m.sigs[24:]
        del net.msgs[40:]
        for m in net.msgs:
            m.sigs = [s for s in m.sigs if D.phys_ok(s)]
        drv = r.choice(["drv", "MyDrv", "d"])
        cfg = [f for f in P.FEATURES if r.random() < 0.5]
        if "USE_MONO_FMON" in cfg and "USE_DIAG_MONITORS" not in cfg:
            cfg.append("USE_DIAG_MONITORS")
        if "USE_SIGFLOAT" in cfg:
            # raw values which a double cannot hold are converted with undefined results at the range limits
            for m in net.msgs:
                for s in m.sigs:
                    if s.kind == 2 and (s.length > 48 or abs(float(s.otxt) / float(s.ftxt)) > 1e11):
                        s.ftxt, s.otxt = "0.5", "0"
                        if s.length > 48:
                            s.ftxt = "1"
        low = drv.lower()
        label = "net%d" % k
        data = net.bytes()
        out = ctx.generate_ok(data, drv, label=label)
        if out is None:
            return
        wd = os.path.dirname(out)
        P.write_conf(os.path.join(out, "conf", "dbccodeconf.h"), 64, "double", P.methods_of([net]))
        os.makedirs(os.path.join(wd, "stub"))
        for f, c in list(STUB.items()) + []:
            open(os.path.join(wd, "stub", f), "w").write(c)
        for f, c in (("trace.c", T.program(net, drv)), ("wlib.c", WLIB), ("host.c", HOST), ("run.js", NODE)):
            open(os.path.join(wd, f), "w").write(c)
        util = any(m.sigs for m in net.msgs)
        ref = ("native", "gcc", ["-O0"])
        a = (ctx, wd, out, drv, cfg, low, util, "double")
        files = {"in.dbc": data, "config.txt": "drv=%s cfg=%s\n" % (drv, cfg)}
        try:
            want = targets(*a, ref)
        except Built as e:
            ctx.violation(label + ":build", "config %s\n%s" % (cfg, e), files)
            return
        tg = [("wasm32", "wasm", r.choice(["-O0", "-O1", "-O2"])), ("bigendian", "be", r.choice(["-O0", "-O1", "-O2"]))]
        tg += [NATIVE[(k + j * 5) % len(NATIVE)] for j in range(ctx.n(3, len(NATIVE)))] if ctx.thorough else [NATIVE[(k * 3 + j) % len(NATIVE)] for j in range(3)]
        for t in tg:
            try:
                got = targets(*a, t)
            except Built as e:
                ctx.violation(label + ":build", "config %s\n%s" % (cfg, e), files)
                return
            if got is None:
                continue
            ctx.ev(len(want.splitlines()), key=(k, t[0]))
            ctx.count("target_" + re.sub(r"\W", "_", t[0]))
            if got != want:
                v0, v1 = targets(*a, ref, verbose=True).splitlines(), targets(*a, t, verbose=True).splitlines()
                i = next((i for i, (x, y) in enumerate(zip(v0, v1)) if x != y), 0)
                ctx.violation("%s:%s" % (label, t[0]), "config %s: target %s differs from native\n%s\nfirst difference: %s instead of %s (record %d)" % (
                    cfg, t[0], [x for x, y in zip(got.splitlines(), want.splitlines()) if x != y][:5], v1[i:i + 1], v0[i:i + 1], i), files)
                return
        ctx.sample({"case": label, "cfg": cfg, "targets": [t[0] for t in tg], "digests": want.splitlines()[:2]})
        shutil.rmtree(wd, ignore_errors=True)
    ctx.pmap(one, range(ctx.n(60, 700)))
