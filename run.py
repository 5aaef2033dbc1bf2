#!/usr/bin/env python3
"""run.py <property id>: runs the check of one property (tier and seed from VERIF_TIER / VERIF_SEED)."""
import sys, os, traceback, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from fw.core import Ctx, HarnessError, Timeout


def setup():
    """nothing to install: verifies the tools and prebuilds the generator binaries of the current tree."""
    import shutil
    need = ["g++", "clang++", "gcc", "clang", "valgrind", "strace", "objcopy", "nm"]
    miss = [t for t in need if not shutil.which(t)]
    if miss:
        print("setup: missing tools:", ", ".join(miss))
    ctx = Ctx("setup")
    try:
        for k in ("plain", "asan"):
            try:
                print("setup: built", os.path.basename(ctx.gen(k)))
            except HarnessError as e:
                print("setup: %s generator not built: %s" % (k, str(e)[:500]))
    finally:
        ctx.close()
    sys.stdout.flush()
    os._exit(0)


def main():
    pid = sys.argv[1]
    if pid == "setup":
        setup()
    ctx = Ctx(pid)
    try:
        mod = importlib.import_module("checks." + pid.lower())
        mod.check(ctx)
        rc = ctx.finish(**mod.REPORT)
    except (HarnessError, Timeout) as e:
        print("ERROR property=%s the check could not decide everything: %s" % (pid, e))
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    try:
        # what was observed before stays a violation
        if rc == 3 and ctx.violations:
            rc = ctx.finish(**mod.REPORT) or 3
    finally:
        ctx.close()
    sys.stdout.flush()
    os._exit(rc)


main()
