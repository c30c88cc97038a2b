"""No side effects: offline forward leaves the stream alone, inputs and emitted outputs never change."""
import torch
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F32, F64, data, identical, is_out, layout, require, same, snap

RULE = "forward ran in the middle of a stream with history and outputs were still due afterwards"
CASES = {"quick": 2500, "thorough": 25000}
ASSUMPTIONS = ["metamorphic: a twin of the module that only streams",
               "recycling positional encodings left out of the forward part (their forward advances the index by design)",
               "modules that pass their input through unchanged may return it (no copy)"]


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    s, c, sp = gens.subject(draw, case["B"], rpe_=0, net=8)
    d = nets.delay(s)
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        k = gens.wi(draw, ("feed", 5), ("forward", 3), ("peek", 1), ("pad", 1 if s["op"] not in nets.ATT else 0))
        ops.append([k, draw(st.sampled_from([0, 0, 1, 2, 3, 1 + min(d, 8)]))])
    gens.long_op(draw, ops, 1)
    ops.append(["feed", -(1 + draw(st.integers(0, 3)))])
    Tf = max(gens.min_T(s, "forward"), draw(st.integers(1, 6))) if s["op"] not in ("tel", "te", "mha") else s["S"]
    case.update(spec=s, shape=[c, *sp], ops=ops, Tf=Tf, f32=gens.flag(draw, 1, 5),
                training=s["op"] == "conv" and gens.flag(draw, 1, 4), call=gens.flag(draw),
                reuse=gens.flag(draw, 1, 3))
    return gens.tame(case)


def strategy(tier):
    return cases(tier)


def check(case):
    from .c05 import call

    s = case["spec"]
    dt = F32 if case["f32"] else F64
    c, *sp = case["shape"]
    a, b = nets.build(s, dt, case["training"]), nets.build(s, dt, case["training"])
    params = {k: v.detach().clone() for k, v in list(a.named_parameters()) + [
        (k, v) for k, v in a.named_buffers() if "state_" not in k and "_index" not in k and k in a.state_dict()]}
    kept, first_fwd, hist, fwd_mid, out_after = [], None, 0, False, False

    def keep(what, o):
        if is_out(o):
            kept.append((what, o, o.detach().clone()))
        elif isinstance(o, (list, tuple)):
            for z in o:
                keep(what, z)

    xf = layout(data((case["seed"], "f"), (case["B"], c, case["Tf"], *sp), case["vals"], dt), case["layout"])
    was = a.training
    with torch.set_grad_enabled(case["training"]):
        for j, (k, n) in enumerate(case["ops"]):
            T = max(1, abs(n))
            x = layout(data((case["seed"], j), (case["B"], c, T, *sp), case["vals"], dt), case["layout"])
            if k == "forward":
                x0 = xf.clone()
                o = a(xf) if case["call"] else a.forward(xf)
                identical(xf, x0, f"op {j}: forward changed its input")
                if first_fwd is None:
                    first_fwd = snap(o)
                same(o, first_fwd, f"op {j}: forward of the same clip gave another result")
                fwd_mid = fwd_mid or hist > 0
                keep(f"op {j}: forward", o)
                continue
            x0 = x.clone()
            if k == "peek":
                o = call(a, x, n, update_state=False)
            elif k == "pad":
                o = a.forward_steps(x, pad_end=True, update_state=False)
            else:
                o = call(a, x, n)
                w = call(b, x0, n)
                same(o, w, f"op {j}: stream after forward calls")
                hist += T
                if fwd_mid and (is_out(w) or isinstance(w, list) and any(is_out(z) for z in w)):
                    out_after = True
            identical(x, x0, f"op {j}: {k} {n} changed its input")
            if case["reuse"]:  # the caller reuses its frame buffer: this must not reach into the stream
                with torch.no_grad():
                    x.fill_(99.0)
            else:
                keep(f"op {j}: {k} {n}", o)
        for what, o, o0 in kept:
            identical(o, o0, f"output of {what} changed afterwards")
    now = dict(list(a.named_parameters()) + list(a.named_buffers()))
    for k, v in params.items():
        same(now[k], v, f"parameter or statistic {k} changed")
    require(a.training == was, "training flag changed")
    return {"nontrivial": fwd_mid and out_after, "tags": [s["op"]] + (["training"] if case["training"] else [])}
