"""Running the generator as a command-line program under the file-system monitor (harness/wlog.c)."""
import hashlib, os
from .core import VERIF, HARNESS, SAN_ENV, HarnessError, sh
from . import dbc as D

FLAGS = ["-nodeutils", "-noconfig", "-noinc", "-nofmon", "-driverdir", "-gendate", "-rw"]


def shim(ctx):
    src = os.path.join(HARNESS, "wlog.c")
    with ctx.lock:
        if getattr(ctx, "_shim", None):
            return ctx._shim
        h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
        so = os.path.join(VERIF, "build", "wlog-%s.so" % h)
        if not os.path.exists(so):
            os.makedirs(os.path.dirname(so), exist_ok=True)
            t = so + ".tmp%d" % os.getpid()
            rc, o, e = sh(["gcc", "-shared", "-fPIC", "-O1", "-w", src, "-o", t, "-ldl"])
            if rc:
                raise HarnessError("cannot build the file-system monitor\n" + e)
            os.replace(t, so)
        ctx._shim = so
        return so


def run(ctx, args, cwd, env=None, kind="plain", timeout=60, exe=None, bare_env=None):
    """returns (rc, stdout, stderr, [(op, absolute normalised path)])"""
    log = os.path.join(ctx.tmp("l"), "log")
    e = dict(os.environ) if bare_env is None else dict(bare_env)
    e.update(SAN_ENV)
    e.update(env or {})
    e["WLOG"] = log
    e["LD_PRELOAD"] = shim(ctx)
    rc, o, er = sh([exe or ctx.gen(kind)] + list(args), timeout=timeout, cwd=cwd, env=e)
    ops = []
    if os.path.exists(log):
        for l in open(log, encoding="utf-8", errors="surrogateescape"):
            op, _, p = l.rstrip("\n").partition(" ")
            ops.append((op, os.path.normpath(p)))
        os.unlink(log)
    os.rmdir(os.path.dirname(log))
    return rc, o, er, ops


def outside(ops, root):
    """file-system changing calls that do not concern root or something below it (creating root's missing parents is allowed)."""
    root = os.path.realpath(root)
    bad = []
    for op, p in ops:
        if op == "read":
            continue
        q = os.path.realpath(p)
        if q == root or q.startswith(root + "/"):
            continue
        if op == "mkdir" and root.startswith(q + "/"):
            continue
        if q.startswith("/dev/") or q.startswith("/proc/"):
            continue
        bad.append("%s %s" % (op, p))
    return bad


def butl(net, drv, node):
    if not node:
        return {"butl/%s-binutil%s" % (drv.lower(), x) for x in (".c", ".h")}
    nodes = set()
    for m in net.msgs:
        nodes |= set(m.transmitters()) | set(m.receivers())
    return {"butl/%s-binutil%s" % ((n + "_" + drv).lower(), x) for n in nodes for x in (".c", ".h")}


def expected(net, drv, flags):
    """the documented files of a run, relative to the final directory."""
    low = drv.lower()
    f = {"lib/%s.c" % low, "lib/%s.h" % low, "lib/%s-fmon.h" % low}
    if "-nofmon" not in flags:
        f.add("usr/%s-fmon.c" % low)
    if "-noconfig" not in flags:
        f |= {"conf/%s-config.h" % low, "conf/dbccodeconf.h"}
    if "-noinc" not in flags:
        f.add("inc/canmonitorutil.h")
    return f | butl(net, drv, "-nodeutils" in flags)


def files(tr):
    return {k: v for k, v in tr.items() if v is not None}


def small_net(r, **kw):
    kw.setdefault("nmsg", r.choice([1, 2, 3, 5]))
    kw.setdefault("maxsig", r.choice([1, 3, 8]))
    kw.setdefault("comments", r.random() < 0.3)
    kw.setdefault("vals", r.random() < 0.3)
    return D.gen_net(r, **kw)
