import os, re, shutil
from fw import dbc as D
from fw import cli as C
from fw.core import tree

TECHNIQUE = ("runtime monitoring: the real program runs under a file-system call monitor (LD_PRELOAD) in scratch directories; directory trees and recorded calls of permuted, padded and respelled command lines are "
             "compared with those of the canonical one and with the documented file set; for bad calls the tree must stay untouched and no creating or writing call may be recorded")
NOTE = ("Every run shuffles the options, inserts unknown options (with and without values, including near misses of the real ones) and stray words; driver names with blanks, punctuation, digits in front, "
        "non-ASCII bytes and path characters are compared with their C identifier; all subsets of {-dbc, -out, -drvname} being missing, valueless or empty, -help at every position, and DBC paths that do not exist.")
REPORT = dict(
    rule="one evaluation = one command line run and judged; distinct_nontrivial counts distinct argument lists (paths abstracted)",
    assumptions=["no option is given twice with different values", "option values do not start with '-'", "a driver name has at most 100 characters"])

UNKNOWN = [["-foo"], ["-foo", "bar"], ["--rw"], ["-rwx"], ["-norw"], ["-RW"], ["-Rw"], ["--"], ["-"], ["-nodeutil"], ["-nodeutilsx"], ["-no"], ["-dbcx", "other.dbc"], ["-db", "other.dbc"], ["-outx", "elsewhere"], ["-ou", "elsewhere"], ["-o", "elsewhere"],
           ["-output", "elsewhere"], ["-drvnamex", "other"], ["-drv", "other"], ["-drvnam", "other"], ["-driver", "dir"], ["-driverdirx"], ["-gendatex"], ["-gen"], ["-noincx"], ["-noin"], ["-noconfigx"], ["-noconf"], ["-nofmonx"], ["-nofmo"], ["-nomon"],
           ["-version"], ["-v"], ["-x", "/nonexistent/dir"], ["-GENDATE"], ["-DBC", "other.dbc"], ["-OUT", "elsewhere"], ["-DRVNAME", "other"], ["-y", ""], ["-rw=1"], ["-dbc=other.dbc"], ["-out=elsewhere"], ["-drvname=other"], ["- rw"], ["-rw "], ["-drvname "], ["-%s%n"], ["-" + "z" * 3000], ["-z", "q" * 3000],
           ["-no-rw"], ["-Help"], ["-HELP"], ["-helpx"], ["-hel"]]
NAMES = ["my driver", "1abc", "12 3", "a-b", "a.b", "a/b", "../x", "a/../../b", "/abs", "C:\\x", "  lead", "trail  ", "a  b", "9a9", "_", "__", "a_b", "Ünï", "drv é 2", "a\"b", "a'b", "a;b", "a$b", "$(x)", "`x`", "a*b?", "%s%d", "a%nb", "A&B|C", "(x)", "x!", "{y}", "#d", "@d", "a,b", "a:b", "~home",
         "mIxEdCase", "UPPER", "x" * 60, "0x1F", "1e5", "....a", "日本a", "3D model", "a1", "a 1", "+a", "a=b", "drv.c", "drv.dbc", " 1", "1 1 1", "a b c d"]
NONAMES = ["1", "123", "...", "/", "+", "é", "日本", "1.2.3", "!", "@#$%", "", "0", "=", "'"]


def bytes_name(s):
    return s


def check(ctx):
    ctx.gen()
    C.shim(ctx)

    def world(r, dbcname="in.dbc"):
        net = C.small_net(r, empty_p=0.2, multi_tx=0.4)
        top = ctx.tmp("t")
        w = os.path.join(top, "w")
        os.makedirs(w)
        with open(os.path.join(w, dbcname), "wb") as f:
            f.write(net.bytes())
        return net, top, w

    def one_good(k):
        r = ctx.rng("good", k)
        net, top, w = world(r)
        flags = [f for f in C.FLAGS if f != "-gendate" and r.random() < 0.4]
        name = NAMES[k % len(NAMES)] if k % 2 else r.choice(["drv", "MyDrv", "D"])
        cname = D.c_name(name)
        assert cname
        outs = []
        label = "good%d" % k
        argvs = []
        for v in range(5):
            out = "o%d" % v
            os.mkdir(os.path.join(w, out))
            nm = cname if v == 0 else name
            pd, po = "in.dbc", out
            if v >= 2:
                # other spellings of the same paths
                pd = r.choice(["in.dbc", "in.dbc", "./in.dbc", "../w/in.dbc", ".//in.dbc", w + "/in.dbc", out + "/../in.dbc"])
                po = r.choice([out, out, "./" + out, out + "/", "../w/" + out, w + "/" + out, w + "/" + out + "/", "./" + out + "//", out + "/."])
            grp = [["-dbc", pd], ["-out", po], ["-drvname", nm]] + [[f] for f in flags]
            if v:
                r.shuffle(grp)
            if v == 2:
                grp = grp[::-1] if r.random() < 0.5 else [["-out", po], ["-drvname", nm]] + [[f] for f in flags] + [["-dbc", pd]]
            if v >= 3:
                for _ in range(r.choice([1, 1, 2, 5])):
                    grp.insert(r.randint(0, len(grp)), r.choice(UNKNOWN))
                if r.random() < 0.3:
                    # stray words, where they are no option's value
                    p = [i for i in range(len(grp) + 1) if i and len(grp[i - 1]) == 2]
                    if p:
                        grp.insert(r.choice(p), [r.choice(["word", "in.dbc", "elsewhere", "", "rw"])])
                if r.random() < 0.3 and flags:
                    grp.insert(r.randint(0, len(grp)), [r.choice(flags)])
                if r.random() < 0.2 and flags:
                    # a value behind an option that has none
                    i = r.choice([i for i, g in enumerate(grp) if g[0] in flags and len(g) == 1])
                    grp[i] = grp[i] + [r.choice(["word", "0", "no", "elsewhere", ""])]
            argv = [x for g in grp for x in g]
            # a stray word right after a valueless option is that option's value: harmless as well
            rc, o, e, ops = C.run(ctx, argv, w)
            ctx.ev(1, key=tuple(re.sub(r"o\d(?=$|/)", "OUT", x.replace(w, "W")) for x in argv))
            ctx.count("monitored_file_system_calls", len(ops))
            t = tree(os.path.join(w, out))
            bad = C.outside(ops, os.path.join(w, out))
            outs.append((argv, rc, t, bad))
        argv0, rc0, t0, bad0 = outs[0]
        base = (cname + "/" if "-driverdir" in flags else "") + ("" if "-rw" in flags else "000/")
        want = {base + x for x in C.expected(net, cname, flags)}
        for argv, rc, t, bad in outs:
            msg = []
            if rc != 0:
                msg.append("exit %s" % rc)
            got = {x for x, v in t.items() if v is not None}
            if got != want:
                msg.append("files: missing %s, unexpected %s" % (sorted(want - got)[:5], sorted(got - want)[:5]))
            if t != t0:
                msg.append("differs from the run with %s in %s" % (argv0, sorted(x for x in set(t) | set(t0) if t.get(x) != t0.get(x))[:5]))
            if bad:
                msg.append("calls outside the output directory: %s" % bad[:4])
            if msg:
                ctx.violation(label, "arguments %r (driver name %r = %r)\n%s" % (argv, name, cname, "\n".join(msg)), {"in.dbc": net.bytes(), "args.txt": repr(argv)})
        # the name is used consistently
        h = t0.get(base + "lib/%s.h" % cname.lower())
        c = t0.get(base + "lib/%s.c" % cname.lower())
        if h is not None and c is not None:
            h, c = h.decode("utf-8", "replace"), c.decode("utf-8", "replace")
            up, low = cname.upper(), cname.lower()
            need = ["#define VER_%s_MAJ " % up, "#define VER_%s_MIN " % up]
            for m in net.msgs:
                if m.sigs:
                    need.append("Unpack_%s_%s(" % (m.name, cname))
                    need.append("Pack_%s_%s(" % (m.name, cname))
            miss = [x for x in need if x not in h]
            if '#include "%s.h"' % low not in c:
                miss.append('#include "%s.h" in the core source' % low)
            ctx.ev()
            if miss:
                ctx.violation(label + ":name", "driver name %r: header without %s" % (name, miss[:4]), {"in.dbc": net.bytes()})
        left = sorted(x for x in os.listdir(w) if not re.match(r"(o\d|in\.dbc)$", x))
        if left or os.listdir(top) != ["w"]:
            ctx.violation(label + ":left", "files beside the output directory: %s" % left, {"in.dbc": net.bytes()})
        ctx.sample({"case": label, "arguments": outs[3][0][:14], "files": len(want)}, cap=4)
        shutil.rmtree(top, ignore_errors=True)
    ctx.pmap(one_good, range(ctx.n(700, 8000)))

    def one_bad(k):
        r = ctx.rng("bad", k)
        net, top, w = world(r)
        os.mkdir(os.path.join(w, "out"))
        full = {"-dbc": ["in.dbc"], "-out": ["out"], "-drvname": ["drv"]}
        kind = k % 8
        extra = [[f] for f in C.FLAGS if r.random() < 0.4]
        grp = None
        why = ""
        if kind in (0, 1, 2):
            # some required options missing, valueless (followed by another option or last) or empty
            ks = list(full)
            hit = r.sample(ks, r.choice([1, 1, 2, 3]))
            for h in hit:
                how = r.choice(["missing", "valueless", "empty", "last"])
                why += "%s %s; " % (h, how)
                if how == "missing":
                    del full[h]
                elif how == "empty":
                    full[h] = [""]
                else:
                    full[h] = []
            grp = [[a] + b for a, b in full.items()] + extra
            r.shuffle(grp)
        elif kind == 3:
            full["-drvname"] = [r.choice([x for x in NONAMES if not x.startswith("-")])]
            why = "driver name %r" % full["-drvname"][0]
        elif kind == 4:
            grp = [[a] + b for a, b in full.items()] + extra
            r.shuffle(grp)
            grp.insert(r.randint(0, len(grp)), ["-help"])
            why = "-help"
        elif kind == 5:
            full["-dbc"] = [r.choice(["nofile.dbc", "./none/in.dbc", os.path.join(w, "x.dbc"), "in.dbc/", "in.dbc/x", "in.db", "in.dbc ", "IN.DBC", "out/in.dbc", "\n", "a" * 200, "a" * 5000, "dangling.dbc", "loop.dbc"])]
            os.symlink("nowhere", os.path.join(w, "dangling.dbc"))
            os.symlink("loop.dbc", os.path.join(w, "loop.dbc"))
            why = "DBC %r" % full["-dbc"][0][:40]
        elif kind == 6:
            grp = r.choice([[], [["-help"]], [["-help", "me"]], [["-rw"]], [["in.dbc", "out", "drv"]], [["-dbc"]], [["-out"], ["-dbc"], ["-drvname"]], [["-"]], [[""]], [["-dbc", "-out", "-drvname"]], [["-dbc", "in.dbc"], ["-out"], ["-drvname"]]])
            why = "incomplete"
        else:
            # values swallowed: an option right behind stands where the value should
            full[r.choice(list(full))] = []
            why = "valueless"
        if grp is None:
            grp = [[a] + b for a, b in full.items()] + extra
            r.shuffle(grp)
        if r.random() < 0.3:
            # words behind an unknown option are its value
            grp.append(r.choice(UNKNOWN[:9]))
        if r.random() < 0.3 and kind in (3, 4, 5):
            # the output directory need not exist
            os.rmdir(os.path.join(w, "out"))
        argv = [x for g in grp for x in g]
        before = tree(top)
        rc, o, e, ops = C.run(ctx, argv, w)
        ctx.ev(1, key=tuple(x.replace(w, "W") for x in argv))
        ctx.count("bad_calls")
        msg = []
        if rc < 0 or rc > 2:
            msg.append("ended with %s %s" % (rc, e[-300:]))
        after = tree(top)
        if after != before:
            msg.append("created or changed %s" % sorted(x for x in set(after) | set(before) if after.get(x, 0) != before.get(x, 0))[:6])
        wr = ["%s %s" % x for x in ops if x[0] not in ("read",) and not x[1].startswith("/dev/")]
        if wr:
            msg.append("calls %s" % wr[:5])
        if kind not in (3, 5):
            # incomplete call: the user is told how to call the program
            ctx.count("usage_texts")
            miss = [x for x in ("-dbc", "-out", "-drvname", "-nodeutils", "-rw", "-driverdir", "-noconfig", "-noinc", "-nofmon", "-gendate") if x not in o + e]
            if miss:
                msg.append("the usage text does not name %s" % miss)
        if msg:
            ctx.violation("bad%d" % k, "bad call (%s) %r\n%s" % (why, argv, "\n".join(msg)), {"in.dbc": net.bytes(), "args.txt": repr(argv)})
        shutil.rmtree(top, ignore_errors=True)
    ctx.pmap(one_bad, range(ctx.n(1600, 12000)))
