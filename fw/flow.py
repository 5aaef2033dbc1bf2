"""Common flow: DBC -> real generator -> real compiler -> execution under monitors -> verdict."""
import os, shutil
from . import dbc as D
from . import pkg as P


def desc(net):
    return "%d messages, %d signals" % (len(net.msgs), sum(len(m.sigs) for m in net.msgs))


def run_net(ctx, net, label, drv="drv", cfg=(), modes=("unpack:30",), seed=1, gen_opts=("-rw",), utils=None, bitext=64,
            sigfloat="double", text=None, cc="clang", opt="-O0", san=False, extra=(), keys=None, timeout=240, out=None):
    """returns stats or None. Records violations. `label` names the case (stable for a seed)."""
    data = text if text is not None else net.bytes()
    if out is None:
        out = ctx.generate_ok(data, drv, gen_opts, label=label)
        if out is None:
            return None
        made = True
    else:
        made = False
    if made:
        P.write_conf(os.path.join(out, "conf", "dbccodeconf.h"), bitext, sigfloat, P.methods_of([net]))
    try:
        fails, st, txt = P.compile_run(ctx, out, [(net, drv, utils)], list(cfg), modes, seed, cc, opt, san, extra, timeout=timeout)
    except P.CompileError as e:
        ctx.violation("%s:compile" % label, "generated code for a valid DBC does not compile (%s)\nconfig %s\n%s" % (desc(net), list(cfg), e),
                      {"in.dbc": data})
        return None
    ctx.ev(st["evals"])
    ctx.count("engine_nontrivial", st["nontrivial"])
    ctx.count("programs")
    if fails:
        ctx.violation("%s:%s" % (label, "run"), "config %s %s\n%s" % (list(cfg), list(extra), "\n".join(fails[:12])),
                      {"in.dbc": data, "config.txt": "drv=%s cfg=%s modes=%s seed=%s extra=%s\n" % (drv, list(cfg), list(modes), seed, list(extra))})
    if keys is not None:
        ctx.distinct_add(keys)
    if made and not fails:
        shutil.rmtree(os.path.dirname(out), ignore_errors=True)
    st["text"] = txt
    st["ok"] = not fails
    return st


def layout_keys(net):
    return {(m.dlc, s.start, s.length, s.order, s.signed) for m in net.msgs for s in m.sigs}
