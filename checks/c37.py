import os, re, resource, shutil, subprocess, tempfile
from fw.core import HARNESS, HarnessError, sh, Timeout

TECHNIQUE = ("runtime monitoring of work: the real generator runs under an instruction counter (valgrind) and a peak-memory monitor on families of DBC files that grow in one "
             "respect each; an oracle compares the counts for sizes n, 2n and 4n with the bound")
NOTE = ("Some 45 ways to grow (messages, signals, nodes, receivers, transmitters, comments, comment lines, tags, value tables, attributes, unknown sections, line, name, number and blank lengths, ...), "
        "each at three sizes in the quick run and at four larger ones in the thorough run. The instruction count is the same in every run.")
REPORT = dict(
    rule="one evaluation = one generator run whose instructions and peak memory were compared with the bound; distinct_nontrivial counts distinct (family, size) pairs",
    assumptions=["instructions counted by valgrind stand for time"])

HEAD = 'VERSION "1.0"\n\n\nBU_: A B\n\n'
M1 = HEAD + 'BO_ 100 M: 8 A\n SG_ S : 0|8@1+ (1,0) [0|0] "" B\n SG_ T : 8|8@1+ (2,0) [0|0] "" B\n\n'


def msgs(n, sig=1, dlc=8, rx="B", tx="A", same=False, ft="1", cid=1):
    return "".join('BO_ %d M%d: %d %s\n' % (100 + i * cid, i, dlc, tx(i) if callable(tx) else tx) +
                   "".join(' SG_ S%s : %d|4@1+ (%s,0) [0|0] "" %s\n' % (j if same else "%d_%d" % (i, j), j * 4 % (dlc * 8), ft(i) if callable(ft) else ft,
                                                                         rx(i) if callable(rx) else rx) for j in range(sig)) + "\n" for i in range(n))


# name: (first size, text of size n, options). The first sizes make a run of some hundredths of a second.
FAM = {
    "messages": (300, lambda n: HEAD + msgs(n), ()),
    "messages-ext": (300, lambda n: HEAD + "".join('BO_ %d M%d: 8 A\n SG_ S : 0|8@1+ (1,0) [0|0] "" B\n\n' % (0x80000000 + 7919 * i, i) for i in range(n)), ()),
    "empty-messages": (600, lambda n: HEAD + "".join('BO_ %d M%d: 8 A\n\n' % (i, i) for i in range(n)), ()),
    "broken-messages": (1000, lambda n: M1 + "".join('BO_ x%d M%d: 8 A\n SG_ S : 0|8@1+ (1,0) [0|0] "" B\n\n' % (i, i) for i in range(n)), ()),
    "messages-descending": (300, lambda n: HEAD + "".join('BO_ %d M%d: 8 A\n SG_ S : 0|8@1+ (1,0) [0|0] "" B\n\n' % (n - i, i) for i in range(n)), ()),
    "signals-shared-name": (300, lambda n: HEAD + msgs(n, same=True), ()),
    "signals-shared-scaled": (300, lambda n: HEAD + msgs(n, same=True, ft="2"), ()),
    "signals-own-scaling": (200, lambda n: HEAD + msgs(n, same=True, ft=lambda i: i + 2), ()),
    "signals": (250, lambda n: HEAD + "BO_ 100 M: 64 A\n" + "".join(' SG_ S%d : %d|1@1+ (1,0) [0|0] "" B\n' % (i, i % 512) for i in range(n)), ()),
    "signals-64": (60, lambda n: HEAD + "BO_ 100 M: 64 A\n" + "".join(' SG_ S%d : %d|64@0- (0.5,0) [0|0] "" B\n' % (i, i % 440) for i in range(n)), ()),
    "broken-signals": (600, lambda n: M1 + "BO_ 101 N: 64 A\n" + "".join(' SG_ S%d : %d|0@1+ (1,0) [0|0] "" B\n' % (i, i % 512) for i in range(n)), ()),
    "signals-without-message": (800, lambda n: HEAD + "".join(' SG_ S%d : %d|4@1+ (1,0) [0|0] "" B\n' % (i, i % 512) for i in range(n)), ()),
    "nodes": (40, lambda n: HEAD + msgs(n, rx=lambda i: "R%d" % i, tx=lambda i: "T%d" % i), ("-nodeutils",)),
    "nodes-few-messages": (200, lambda n: HEAD + 'BO_ 100 M: 8 A\n SG_ S : 0|8@1+ (1,0) [0|0] "" %s\n\n' % ",".join("R%d" % i for i in range(n)), ("-nodeutils",)),
    "messages-of-two-nodes": (200, lambda n: HEAD + msgs(n), ("-nodeutils",)),
    "receivers": (2000, lambda n: M1 + 'BO_ 101 N: 8 A\n SG_ S : 0|8@1+ (1,0) [0|0] "" %s\n' % ",".join("R%d" % i for i in range(n)), ()),
    "receivers-repeated": (4000, lambda n: M1 + 'BO_ 101 N: 8 A\n SG_ S : 0|8@1+ (1,0) [0|0] "" %s\n' % ",".join(["B"] * n), ()),
    "transmitters": (1500, lambda n: M1 + "BO_TX_BU_ 100 : %s;\n" % ",".join("T%d" % i for i in range(n)), ()),
    "transmitter-lines": (800, lambda n: M1 + "".join("BO_TX_BU_ 100 : T%d;\n" % i for i in range(n)), ()),
    "bu-nodes": (4000, lambda n: 'VERSION "1.0"\nBU_: %s\n' % " ".join("N%d" % i for i in range(n)) + M1[len(HEAD):], ()),
    "comments-of-messages": (250, lambda n: HEAD + msgs(n) + "".join('CM_ BO_ %d "text %d";\n' % (100 + i, i) for i in range(n)), ()),
    "comments-of-signals": (250, lambda n: HEAD + msgs(n) + "".join('CM_ SG_ %d S%d_0 "text %d";\n' % (100 + i, i, i) for i in range(n)), ()),
    "comments-of-one-message": (200, lambda n: HEAD + "BO_ 100 M: 64 A\n" + "".join(' SG_ S%d : %d|1@1+ (1,0) [0|0] "" B\n' % (i, i % 512) for i in range(n)) +
                                "".join('CM_ SG_ 100 S%d "text %d";\n' % (i, i) for i in range(n)), ()),
    "comments-of-nothing": (1000, lambda n: M1 + "".join('CM_ BO_ 999 "text %d";\n' % i for i in range(n)), ()),
    "comments-of-nodes": (1000, lambda n: M1 + "".join('CM_ BU_ A "text %d";\n' % i for i in range(n)), ()),
    "comment-lines": (500, lambda n: M1 + 'CM_ BO_ 100 "%s";\n' % "\n".join("line %d" % i for i in range(n)), ()),
    "comment-lines-semicolon": (300, lambda n: M1 + 'CM_ BO_ 100 "%s";\n' % "\n".join("line %d;" % i for i in range(n)), ()),
    "comment-lines-of-signal": (500, lambda n: M1 + 'CM_ SG_ 100 S "%s";\n' % "\n".join("line %d" % i for i in range(n)), ()),
    "comment-blank-lines": (1000, lambda n: M1 + 'CM_ SG_ 100 S "x%sy";\n' % ("\n" * n), ()),
    "comment-length": (60000, lambda n: M1 + 'CM_ SG_ 100 S "%s";\n' % ("word " * (n // 5)), ()),
    "comment-backslashes": (20000, lambda n: M1 + 'CM_ SG_ 100 S "%s";\n' % ("\\" * n), ()),
    "comment-unfinished": (500, lambda n: M1 + 'CM_ BO_ 100 "text\n' + "\n".join("line %d;" % i for i in range(n)), ()),
    "tags": (1000, lambda n: M1 + 'CM_ SG_ 100 S "%s";\n' % ("<Checksum:" * n), ()),
    "tags-closed": (1000, lambda n: M1 + 'CM_ SG_ 100 S "%s";\n' % ("<Checksum:a>" * n), ()),
    "tags-colons": (5000, lambda n: M1 + 'CM_ SG_ 100 S "<Checksum%s>";\n' % (":" * n), ()),
    "value-table": (500, lambda n: M1 + "VAL_ 100 S %s;\n" % "".join('%d "value %d" ' % (i, i) for i in range(n)), ()),
    "value-table-same": (500, lambda n: M1 + "VAL_ 100 S %s;\n" % "".join('%d "value" ' % i for i in range(n)), ()),
    "value-table-lines": (500, lambda n: M1 + "VAL_ 100 S %s\n;\n" % "\n".join('%d "value %d"' % (i, i) for i in range(n)), ()),
    "value-tables": (250, lambda n: HEAD + msgs(n) + "".join('VAL_ %d S%d_0 1 "on" 0 "off" ;\n' % (100 + i, i) for i in range(n)), ()),
    "value-text-length": (30000, lambda n: M1 + 'VAL_ 100 S 1 "%s" ;\n' % ("a b" * (n // 3)), ()),
    "attributes": (300, lambda n: HEAD + msgs(n) + "".join('BA_ "GenMsgCycleTime" BO_ %d %d;\n' % (100 + i, i + 1) for i in range(n)), ()),
    "attributes-other": (1000, lambda n: M1 + "".join('BA_ "Other%d" SG_ 100 S "x";\n' % i for i in range(n)), ()),
    "attribute-lines": (500, lambda n: M1 + 'BA_ "X" BO_ 100\n' + "".join('%d\n' % i for i in range(n)) + ";\n", ()),
    "other-lines": (2000, lambda n: M1 + "".join('SIG_GROUP_ 100 G%d 1 : S T;\n' % i for i in range(n)), ()),
    "versions": (1500, lambda n: 'VERSION "1.0"\n' * n + M1, ()),
    "blank-lines": (4000, lambda n: M1 + "\n" * n + "BO_ 5 N: 8 A\n", ()),
    "blanks-in-line": (20000, lambda n: M1 + 'BO_ 5%sN: 8 A\n SG_ S :%s0|8@1+ (1,0) [0|0] "" B%s\n' % (" " * n, " " * n, " " * n), ()),
    "line-of-quotes": (20000, lambda n: M1 + "VAL_ 100 S " + '"' * n + ";\n", ()),
    "line-of-colons": (20000, lambda n: M1 + ' SG_ S %s\nBO_ 5 %s\n' % (":" * n, ":" * n), ()),
    "line-of-letters": (40000, lambda n: M1 + "x" * n + "\nBO_ " + "x" * n + "\n SG_ " + "x" * n + "\nVAL_ " + "x" * n + "\nBA_ " + "x" * n + ";\n", ()),
    "line-of-digits": (20000, lambda n: M1 + "VERSION " + "1" * n + "\nBO_ " + "1" * n + " M: 8 A\n SG_ X : " + "1" * n + "|8@1+ (1,0) [0|0] \"\" B\nVAL_ 100 S " + "1" * n + ' "x" ;\n', ()),
    "line-of-versions": (20000, lambda n: "VERSION " + "1.2" * n + "\n" + M1, ()),
    "number-length": (5000, lambda n: M1[:-1] + ' SG_ U : 16|8@1+ (0.%s1,%s) [0|0] "" B\n' % ("0" * n, "1" * min(300, n)), ()),
    "name-length": (300, lambda n: HEAD + 'BO_ 100 %s: 8 A\n SG_ %s : 0|8@1+ (2,0) [0|0] "" B\n SG_ T : 8|8@1+ (2,0) [0|0] "" B\n' % ("M" * n, "S" * n), ()),
    "unit-length": (20000, lambda n: M1 + 'BO_ 5 N: 8 A\n SG_ S : 0|8@1+ (2,0) [0|0] "%s" B\n' % ("u" * n), ()),
    "no-newline": (60000, lambda n: "x" * n, ()),
    "binary": (30000, lambda n: bytes((i * 7919 >> 3) & 255 for i in range(n)), ()),
    "zeros": (60000, lambda n: b"\0" * n, ()),
}
RATIO = 6.4      # doubling: four times, and a little for the longer numbers in the texts (cubic growth has eight)
BASE = 3e6       # instructions of a run that are of no interest


class TooMuch(Exception):
    pass


def limited(args, cpu):
    """run with a limit of processor seconds (not of time: the machine may be busy). Returns (rc, stdout, stderr)."""
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        p = subprocess.Popen(["/bin/sh", "-c", 'ulimit -t "$0"; exec "$@"', str(int(cpu))] + args, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL)
        _, st, ru = os.wait4(p.pid, 0)
        p.returncode = 0
        if ru.ru_utime + ru.ru_stime > 0.95 * int(cpu):
            raise TooMuch
        fo.seek(0)
        fe.seek(0)
        return os.waitstatus_to_exitcode(st), fo.read().decode("utf-8", "replace"), fe.read().decode("utf-8", "replace")


def check(ctx):
    exe = ctx.gen()
    rss = os.path.join(ctx.tmp("rss"), "rss")
    rc, o, e = sh(["gcc", "-O1", "-w", "-static", os.path.join(HARNESS, "rss.c"), "-o", rss])
    if rc:
        raise HarnessError("rss.c: " + e[:1000])
    jobs = []
    for name, (n0, f, opts) in FAM.items():
        jobs.append((name, n0 * ctx.n(1, 2), f, opts))

    def run(name, n, f, opts, cpu):
        text = f(n)
        wd = ctx.tmp("w")
        src = os.path.join(wd, "in.dbc")
        with open(src, "wb") as fh:
            fh.write(text if isinstance(text, bytes) else text.encode())
        os.mkdir(os.path.join(wd, "out"))
        args = [exe, "-dbc", src, "-out", os.path.join(wd, "out"), "-drvname", "drv", "-rw"] + list(opts)
        try:
            rc, o, e = limited(["valgrind", "--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null"] + args, cpu)
        except TooMuch:
            shutil.rmtree(wd, ignore_errors=True)
            raise
        m = re.search(r"I\s+refs:\s+([\d,]+)", e)
        if not m:
            raise HarnessError("no instruction count: " + e[-500:])
        rc2, o2, e2 = sh([rss] + args, timeout=200)
        st, mem = map(int, o2.split())
        size = sum(os.path.getsize(os.path.join(r, x)) for r, _, fs in os.walk(os.path.join(wd, "out")) for x in fs)
        shutil.rmtree(wd, ignore_errors=True)
        return int(m.group(1).replace(",", "")), mem * 1024, len(text), size, rc or st

    def one(j):
        name, n0, f, opts = j
        rows = []
        for k in range(ctx.n(3, 4)):
            n = n0 << k
            if ctx.stop:
                return
            # valgrind does some 100 millions a second: 80 millions in a first run and 0.9 thousand millions in a last one
            # on the unchanged tree (thorough: 15 thousand millions)
            cpu = ctx.n(90, 900) if rows else 60
            try:
                rows.append((n,) + run(name, n, f, opts, cpu))
            except TooMuch:
                ctx.violation(name + ":time", "%s of size %d: the generator needs more than %d seconds of processor time under the counter; before: %s" % (
                    name, n, cpu, [r[:2] for r in rows]), {"in.dbc": f(n)})
                ctx.stop = True
                return
            ctx.ev(1, key=(name, n))
        ctx.count("instructions", sum(r[1] for r in rows))
        ctx.sample({"family": name, "size, instructions, memory, input, output": [r[:5] for r in rows]})
        if os.environ.get("C37_SHOW"):
            print("%-26s %s  %s" % (name, "  ".join("%9d %7.1fM %5.1fMB" % (r[0], r[1] / 1e6, r[2] / 1e6) for r in rows),
                                    "%.2f" % (max(0, rows[-1][1] - BASE) / max(1e6, rows[-2][1] - BASE))))
        for a, b in zip(rows, rows[1:]):
            if b[5]:
                ctx.violation(name + ":exit", "%s of size %d: exit status %s" % (name, b[0], b[5]), {"in.dbc": f(b[0])})
                return
            w0, w1 = max(2e7, a[1] - BASE), b[1] - BASE
            if w1 > RATIO * w0:
                ctx.violation(name + ":work", "%s: from size %d to %d the instructions grow from %.1f to %.1f millions (all: %s)" % (
                    name, a[0], b[0], a[1] / 1e6, b[1] / 1e6, [r[:2] for r in rows]), {"in.dbc": f(b[0])})
                return
            limit = 24e6 + 60 * (b[3] + b[4])
            if b[2] > limit:
                ctx.violation(name + ":memory", "%s of size %d: %d bytes of input and %d of output take %d bytes of memory (bound %d)" % (
                    name, b[0], b[3], b[4], b[2], limit), {"in.dbc": f(b[0])})
                return
    ctx.pmap(one, jobs)
