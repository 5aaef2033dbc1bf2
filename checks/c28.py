import os, re, resource, shutil, signal, subprocess, stat
from fw import dbc as D
from fw import cli as C
from fw.core import copy_exe, sh, HarnessError, SAN_ENV

TECHNIQUE = ("fault injection with runtime monitoring: the real generator runs under strace, which fails or kills it at every single open, write, mkdir, stat, close and read it makes (one, or all from that one on), and in "
             "really hostile places (read-only directories as an unprivileged user, occupied names, full device, file size and descriptor limits, closed or full standard streams, unreadable DBCs); a monitor compares exit status "
             "and every file with the fault-free run, and a second, fault-free run must repair everything")
NOTE = ("All system calls of a run after the program opened its input are failure and kill points (enumerated in the thorough tier, sampled with rotation in the quick tier) for several option sets, empty and previously used output directories.")
REPORT = dict(
    rule="one evaluation = one file of a faulted or repaired run compared with the fault-free content; distinct_nontrivial counts distinct (option set, system call number, kind of fault) points hit",
    assumptions=["strace fault injection reports failures the kernel could report", "a file whose own open or write failed may be missing, old or cut off"])

ERR = {"openat": ["EACCES", "ENOSPC", "EMFILE", "EROFS"], "write": ["ENOSPC", "EIO"], "writev": ["ENOSPC", "EIO"], "mkdir": ["EACCES", "ENOSPC"], "newfstatat": ["EACCES", "EIO"], "close": ["EIO"], "read": ["EIO"], "lseek": ["EIO"],
       "mkdirat": ["EACCES"], "open": ["EACCES"], "creat": ["EACCES"], "unlink": ["EACCES"], "rename": ["EIO"], "renameat": ["EIO"], "renameat2": ["EIO"], "unlinkat": ["EACCES"], "pwrite64": ["ENOSPC"], "fsync": ["EIO"], "ftruncate": ["EIO"], "stat": ["EACCES"], "statx": ["EACCES"], "copy_file_range": ["EIO"], "sendfile": ["EIO"]}
CALL = re.compile(r"^(?:\d+ +)?(\w+)\((.*)$")
TRACE = ",".join(sorted(set(ERR) | {"execve", "chdir"}))


def snap(d):
    """files below d, symbolic links not followed."""
    out = {}
    for root, dirs, files in os.walk(d):
        for x in files:
            p = os.path.join(root, x)
            k = os.path.relpath(p, d)
            st = os.lstat(p)
            if stat.S_ISLNK(st.st_mode):
                out[k] = b"-> " + os.fsencode(os.readlink(p))
            elif stat.S_ISREG(st.st_mode):
                with open(p, "rb") as f:
                    out[k] = f.read()
            else:
                out[k] = b"special"
    return out


def trace(ctx, exe, args, wd, extra=(), timeout=60):
    log = os.path.join(wd, "strace.log")
    env = dict(os.environ)
    env["LC_ALL"] = "C"
    rc, o, e = sh(["strace", "-y", "-qq", "-o", log, "-e", "trace=" + TRACE] + list(extra) + [exe] + list(args), timeout=timeout, cwd=wd, env=env)
    lines = open(log, errors="replace").read().splitlines() if os.path.exists(log) else []
    if lines:
        os.unlink(log)
    return rc, o, e, lines


def calls(lines, start):
    """[(syscall, number of this syscall, path text)] of the calls after the first one that mentions `start`."""
    n, out, on = {}, [], False
    for l in lines:
        m = CALL.match(l)
        if not m:
            continue
        s = m[1]
        n[s] = n.get(s, 0) + 1
        if s == "execve":
            continue
        if not on and start in l:
            on = True
        if on and s in ERR:
            p = re.search(r'"([^"]*)"', m[2]) if s in ("openat", "mkdir", "newfstatat", "open", "mkdirat", "unlink", "rename", "stat", "statx") else re.search(r"^\d+<([^>]*)>", m[2])
            out.append((s, n[s], p[1] if p else "", l))
    return out


def injected(lines):
    """paths whose calls were made to fail."""
    out = []
    for l in lines:
        if "(INJECTED)" in l:
            m = CALL.match(l)
            if m and m[1] in ("write", "writev", "close", "read", "lseek", "pwrite64", "fsync", "ftruncate"):
                p = re.search(r"^\d+<([^>]*)>", m[2])
            else:
                p = re.search(r'"([^"]*)"', l)
            out.append((m[1] if m else "?", p[1] if p else ""))
    return out


def judge(want, got, old, affected, rw=True):
    """differences that a fault in `affected` (paths; None = everything) does not explain."""
    bad = []
    if not rw:
        # a failing look at a directory may lead to another free number
        nn = lambda p: re.sub(r"/\d\d\d/", "/N/", p)
        bad = ["file %s of an earlier run is changed" % p for p in old if got.get(p) != old[p] and p in want and want[p] == old[p]]
        want, got = ({nn(p): c for p, c in x.items() if p not in old} for x in (want, got))
        affected = None if affected is None else {nn(a) for a in affected}
        old = {}
    for p in sorted(set(want) | set(got)):
        w, g = want.get(p), got.get(p)
        if g == w:
            continue
        if w is None:
            if old.get(p) == g:
                continue
            bad.append("unexpected file %s (%d bytes)" % (p, len(g)))
        elif affected is not None and not any(p == a or p.startswith(a + "/") for a in affected):
            bad.append("%s is %s although nothing failed for it" % (p, "missing" if g is None else "different (%d instead of %d bytes)" % (len(g), len(w))))
        elif g is not None and g != old.get(p) and not w.startswith(g):
            i = next((i for i, (x, y) in enumerate(zip(g, w)) if x != y), min(len(g), len(w)))
            bad.append("%s has foreign content at byte %d: %r instead of %r" % (p, i, g[i:i + 60], w[i:i + 60]))
    return bad


def check(ctx):
    exe = ctx.gen()
    if not shutil.which("strace"):
        raise HarnessError("strace is missing")
    probe = ctx.tmp("p")
    rc, o, e, l = trace(ctx, "/bin/true", [], probe)
    if rc or not l:
        raise HarnessError("strace does not work here: %s" % e[-300:])

    def setup(k, tag):
        """work directory, arguments, expected files (below the work directory)."""
        r = ctx.rng("net", k)
        net = C.small_net(r)
        if k % 4 == 0:
            net = D.shape_net(r, 3 + k % 5, vals=True, comments=True, empty_p=0)
        old = C.small_net(ctx.rng("old", k))
        used = k % 2 == 1
        rw = k % 3 != 2
        flags = [["-rw"], ["-rw", "-nodeutils"], [], ["-rw", "-driverdir"], ["-nodeutils"], ["-rw", "-noconfig"], ["-rw", "-noinc", "-nofmon"], ["-driverdir"]][k % 8]
        return net, old, used, flags

    def fresh(wd, net, old, used, flags, drv):
        for x in ("out", "canary"):
            os.makedirs(os.path.join(wd, x))
        open(os.path.join(wd, "canary", "lib"), "w").write("keep")
        open(os.path.join(wd, "in.dbc"), "wb").write(net.bytes())
        if used:
            open(os.path.join(wd, "in.dbc"), "wb").write(old.bytes())
            sh([exe, "-dbc", "in.dbc", "-out", "out", "-drvname", drv] + flags, cwd=wd)
            open(os.path.join(wd, "in.dbc"), "wb").write(net.bytes())
        return ["-dbc", "in.dbc", "-out", "out", "-drvname", drv] + flags

    def one(k):
        r = ctx.rng("run", k)
        net, old, used, flags = setup(k, "")
        drv = r.choice(["drv", "MyDrv"])
        label = "net%d" % k
        base = ctx.tmp("b")
        args = fresh(base, net, old, used, flags, drv)
        before = snap(base)
        rc, o, e, lines = trace(ctx, exe, args, base)
        want = snap(base)
        pts = calls(lines, "in.dbc")
        files = {"in.dbc": net.bytes(), "args.txt": " ".join(args) + "\n"}
        if rc or len(want) <= len(before) and not used or not pts:
            ctx.violation(label + ":clean", "fault-free run: exit %s %s" % (rc, e[-500:]), files)
            return
        new = {p for p in want if want[p] != before.get(p)}
        rw = "-rw" in flags

        def run(inject, what, key):
            wd = ctx.tmp("f")
            a = fresh(wd, net, old, used, flags, drv)
            old_s = snap(wd)
            rc, o, e, lines = trace(ctx, exe, a, wd, ["-e", "inject=" + inject])
            got = snap(wd)
            inj = injected(lines)
            kill = "signal=KILL" in inject
            bad = []
            if kill:
                died = any("killed by SIGKILL" in l for l in lines) or rc in (-9, 137)
                affected = None
                bad = judge(want, got, old_s, None, rw) if died else []
                if not died and rc:
                    bad.append("exit %s" % rc)
            else:
                if rc < 0 or rc > 125:
                    bad.append("ended with %s: %s" % (rc, e[-400:]))
                tops = set()
                whole = False
                for s, p in inj:
                    q = os.path.relpath(os.path.join(wd, p), wd) if p else ""
                    if s in ("openat", "open", "creat", "write", "writev", "close", "pwrite64", "lseek", "fsync", "ftruncate") and q in new:
                        tops.add(q)
                    elif s in ("mkdir", "mkdirat") and any(x.startswith(q + "/") for x in new) and os.path.basename(q) in ("lib", "usr", "inc", "conf", "butl"):
                        tops.add(q)
                        if os.path.basename(q) == "lib":
                            whole = True
                    elif s == "write" and not q.startswith("out") and "in.dbc" not in q:
                        pass
                    elif s == "close" and not q.startswith("out"):
                        pass
                    else:
                        whole = True
                affected = None if whole else tops
                bad += judge(want, got, old_s, affected, rw)
                if rc == 0:
                    d = judge(want, got, old_s, set(), rw)
                    if d:
                        bad.append("exit status 0 (%r) although %s is not complete" % (o.strip().split("\n")[-1], d[:3]))
                elif not inj:
                    bad.append("exit status %d without a fault" % rc)
            if got.get("in.dbc") != want["in.dbc"] or got.get("canary/lib") != b"keep":
                bad.append("a foreign file was changed")
            ctx.ev(len(want), key=(tuple(flags), used, key))
            ctx.count("kills" if kill else "faults", 1 if (kill or inj) else 0)
            # a later run repairs everything
            if not bad:
                rc2, o2, e2 = sh([exe] + a, cwd=wd)
                rep = snap(wd)
                if rw:
                    bad += ["after a fault-free run: " + x for x in judge(want, rep, old_s, set())] if rc2 == 0 else ["the next run exits %s %s" % (rc2, e2[-300:])]
                else:
                    b2 = [p for p in got if rep.get(p) != got[p]]
                    if b2:
                        bad.append("the next run (new directory) changed %s" % b2[:3])
                    mine = {re.sub(r"/\d\d\d/", "/N/", p): c for p, c in want.items() if p in new}
                    his = {re.sub(r"/\d\d\d/", "/N/", p): c for p, c in rep.items() if p not in got}
                    if mine != his:
                        bad.append("the next run does not generate the usual files: %s" % sorted(set(mine) ^ set(his))[:4])
                ctx.ev(len(want))
            if bad:
                ctx.violation("%s:%s" % (label, what), "args %s, fault %s, exit %s\n%s\n%s" % (args, inject, rc, "\n".join(bad[:6]), "\n".join(x for x in lines if "INJECTED" in x)[:600]), files)
            shutil.rmtree(wd, ignore_errors=True)
            return not bad
        plans = []
        for i, (s, n, p, l) in enumerate(pts):
            if s in ("write", "writev") and (l.startswith("write(1<") or l.startswith("write(2<")) and i % 5:
                continue
            for er in ERR[s]:
                plans.append(("%s:error=%s:when=%d" % (s, er, n), "%s%d-%s" % (s, i, er), (s, i, er)))
            if s in ("write", "writev", "openat", "mkdir"):
                plans.append(("%s:error=ENOSPC:when=%d+" % (s, n), "%s%d-all" % (s, i), (s, i, "all")))
            plans.append(("%s:signal=KILL:when=%d" % (s, n), "%s%d-kill" % (s, i), (s, i, "kill")))
            if s in ("write", "openat", "close"):
                plans.append(("%s:signal=TERM:when=%d" % (s, n), "%s%d-kill" % (s, i), (s, i, "term"))) if False else None
        if not ctx.thorough:
            step = 4
            plans = plans[k % step::step]
        for pl in plans:
            if ctx.stop or not run(*pl):
                break
        ctx.count("fault_points", len(pts))
        ctx.sample({"case": label, "args": args, "fault points": len(pts), "injections": len(plans), "first": plans[0][0] if plans else ""})
        shutil.rmtree(base, ignore_errors=True)

    # ------------------------------------------------------ really hostile places
    def hostile(k):
        r = ctx.rng("host", k)
        net = C.small_net(r, nmsg=r.choice([2, 5, 9]), maxsig=8)
        drv = "drv"
        wd = ctx.tmp("h")
        kinds = ["ro-dir", "ro-file", "dir-as-file", "file-as-dir", "full", "fsize", "nofile", "out-file", "dbc-dir", "dbc-unreadable", "stdout-closed", "stdout-full", "ro-out", "fifo", "std-closed"]
        kind = kinds[k % len(kinds)]
        flags = r.choice([["-rw"], ["-rw", "-nodeutils"]])
        ref = ctx.tmp("r")
        open(os.path.join(ref, "in.dbc"), "wb").write(net.bytes())
        os.makedirs(os.path.join(ref, "out"))
        rc, o, e = sh([exe, "-dbc", "in.dbc", "-out", "out", "-drvname", drv] + flags, cwd=ref)
        want = snap(ref)
        gen = sorted(p for p in want if p.startswith("out/"))
        label = "%s-%d" % (kind, k)
        if rc:
            ctx.violation(label + ":ref", "exit %s" % rc, {"in.dbc": net.bytes()})
            return
        os.chmod(ctx.dir, 0o755)
        os.chmod(wd, 0o777)
        copy_exe(exe, os.path.join(wd, "gen"))
        os.chmod(os.path.join(wd, "gen"), 0o755)
        open(os.path.join(wd, "in.dbc"), "wb").write(net.bytes())
        out = os.path.join(wd, "out")
        os.makedirs(out)
        dbcarg, user, pre, kw = "in.dbc", None, None, {}
        affected = set()        # files that cannot be written
        links = []
        if kind in ("ro-dir", "ro-file", "ro-out"):
            for d in ("lib", "usr", "inc", "conf", "butl"):
                os.makedirs(os.path.join(out, d))
            if kind == "ro-dir":
                d = r.choice(["lib", "usr", "inc", "conf", "butl"])
                affected = {p for p in gen if p.startswith("out/%s/" % d)}
            elif kind == "ro-file":
                affected = set(r.sample(gen, r.randint(1, min(3, len(gen)))))
                for p in affected:
                    open(os.path.join(wd, p), "w").write("old")
            else:
                shutil.rmtree(out)
                os.makedirs(out)
                affected = set(gen)
            for root, dirs, fs in os.walk(out):
                os.chmod(root, 0o777)
                for f in fs:
                    os.chmod(os.path.join(root, f), 0o444)
            if kind == "ro-dir":
                os.chmod(os.path.join(out, d), 0o555)
            if kind == "ro-out":
                os.chmod(out, 0o555)
            user = 65534
        elif kind == "dir-as-file":
            affected = set(r.sample(gen, r.randint(1, min(3, len(gen)))))
            for p in affected:
                os.makedirs(os.path.join(wd, p))
        elif kind == "file-as-dir":
            d = r.choice(["lib", "usr", "inc", "conf", "butl"])
            open(os.path.join(out, d), "w").write("mine")
            affected = {p for p in gen if d == "lib" or p.startswith("out/%s/" % d)}
        elif kind == "full":
            affected = set(r.sample(gen, r.randint(1, min(3, len(gen)))))
            for p in affected:
                os.makedirs(os.path.dirname(os.path.join(wd, p)), exist_ok=True)
                os.symlink("/dev/full", os.path.join(wd, p))
                links.append(p)
        elif kind == "fsize":
            lim = r.choice([1, 100, 512, 1000, 1500, 4096, 8191, 10000, 16384, 20000])
            affected = {p for p in gen if len(want[p]) > lim}

            def pre():
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
        elif kind == "nofile":
            def pre():
                resource.setrlimit(resource.RLIMIT_NOFILE, (3, 3))
            affected = set(gen)
            kw = dict(close_fds=True)
        elif kind == "out-file":
            shutil.rmtree(out)
            open(out, "w").write("mine")
            affected = set(gen)
        elif kind == "dbc-dir":
            dbcarg = r.choice([".", "out", "/", "out/"])
            affected = set(gen)
            sh([exe, "-dbc", "in.dbc", "-out", "out", "-drvname", drv] + flags, cwd=wd) if r.random() < 0.5 else None
        elif kind == "dbc-unreadable":
            os.chmod(os.path.join(wd, "in.dbc"), 0)
            os.chmod(out, 0o777)
            user = 65534
            affected = set(gen)
        elif kind == "fifo":
            dbcarg = "/dev/stdin"
        before = snap(wd)
        cmd = [os.path.join(wd, "gen"), "-dbc", dbcarg, "-out", "out", "-drvname", drv] + flags
        so = se = subprocess.PIPE
        if kind == "stdout-full":
            so = se = open("/dev/full", "wb")
        if kind in ("stdout-closed", "std-closed"):
            cmd = ["/bin/sh", "-c", 'exec "$@" %s' % (">&-" if kind == "stdout-closed" else ">&- 2>&- <&-"), "sh"] + cmd
        if kind == "nofile":
            # the loader needs a free descriptor itself: the limit counts what is open at the start
            cmd = ["/bin/sh", "-c", "exec \"$@\"", "sh"] + cmd
        try:
            pr = subprocess.Popen(cmd, cwd=wd, stdin=subprocess.PIPE, stdout=so, stderr=se, preexec_fn=pre, user=user, group=user, extra_groups=[] if user else None, env=dict(os.environ, LC_ALL="C"))
            o, e = pr.communicate(net.bytes() if kind == "fifo" else b"", timeout=60)
            rc = pr.returncode
        except subprocess.TimeoutExpired:
            pr.kill()
            ctx.violation(label, "no end within 60 s", {"in.dbc": net.bytes()})
            return
        except PermissionError:
            ctx.count("user_switch_unavailable")
            return
        o, e = (o or b"").decode("utf-8", "replace"), (e or b"").decode("utf-8", "replace")
        for root, dirs, fs in os.walk(wd):
            os.chmod(root, 0o777)
        if kind == "nofile" and ("shared librar" in e or rc == 127):
            shutil.rmtree(wd, ignore_errors=True)
            return
        for p in links:
            os.unlink(os.path.join(wd, p))
        if kind == "dbc-unreadable":
            os.chmod(os.path.join(wd, "in.dbc"), 0o644)
        got = snap(wd)
        w2 = {p: c for p, c in want.items()}
        if kind == "fifo":
            w2 = {p: c.replace(b"DBC filename      : in.dbc", b"DBC filename      : stdin") for p, c in want.items()}
            w2["in.dbc"] = want["in.dbc"]
        w2["gen"] = before["gen"]
        bad = judge(w2, got, before, affected)
        if rc < 0 or rc > 125:
            bad.append("ended with %s" % rc)
        if affected and rc == 0:
            bad.append("exit status 0 (%r) although %s could not be written or read" % (o.strip().split("\n")[-1][:80], sorted(affected)[:3]))
        if not affected and rc != 0:
            bad.append("exit status %s without a reason: %s" % (rc, e[-200:]))
        if not affected:
            bad += ["%s is not complete" % p for p in w2 if got.get(p) != w2[p]][:3]
        ctx.ev(len(want), key=(kind, tuple(flags), len(affected)))
        ctx.count("hostile_" + kind)
        if bad:
            ctx.violation(label, "%s: %s\n%s" % (kind, " ".join(cmd), "\n".join(bad[:6])), {"in.dbc": net.bytes()})
        shutil.rmtree(wd, ignore_errors=True)
        shutil.rmtree(ref, ignore_errors=True)
    ctx.pmap(one, range(ctx.n(32, 64)))
    ctx.pmap(hostile, range(ctx.n(150, 1500)))
