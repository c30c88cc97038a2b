"""Networks exported to ONNX keep predicting when their states are fed back."""
import io
import warnings

import torch
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F32, F64, data, is_out, require, same
from .c24 import stochastic

RULE = "the exported network has at least one state and three frames were evaluated with fed-back states"
CASES = {"quick": 900, "thorough": 9000}
ASSUMPTIONS = ["exported with the states of a network that already produces outputs, temporal stride 1",
               "no data-dependent control flow (Conditional), operators supported by the exporter and by onnxruntime",
               "single precision"]


def plain(s):
    """Restricts a specification to what the exporter supports."""
    s = dict(s)
    op = s["op"]
    if op == "cond":
        return plain(s["t"])
    if op in ("conv", "pool"):
        s["s"] = [1, *s["s"][1:]]
    if op == "pool":
        s["div"] = 0
        if s["ceil"]:
            s["ceil"] = False
    if op == "rnn":
        s.pop("hid", None)
    if op == "adaptive":
        s["st"] = 1
        s["out"] = [1] * len(s["out"])
    for k in ("mods", "mods2"):
        if s.get(k):
            s[k] = [plain(m) for m in s[k]]
    if op == "res":
        s["mod"] = plain(s["mod"])
    return s


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    k = gens.wi(draw, ("leaf", 5), ("net", 6), ("rnn", 2), ("tel", 1), ("te", 1), ("rpe", 1), ("atts", 1))
    if k == "leaf":
        s, c, sp = gens.temporal_leaf(draw)
        s = plain(s)
    elif k == "net":
        rank = draw(st.integers(1, 3))
        sp = gens.spatial_dims(draw, rank, 1, 3)
        c = draw(st.integers(1, 3))
        mods, cc, ss = [], c, sp
        for _ in range(gens.rare(draw, 1, 3, 6)):
            j = gens.wi(draw, ("t", 4), ("pw", 2), ("br", 2), ("res", 2), ("lin", 1), ("delay", 1), ("rnn", 1 if rank == 1 else 0),
                        ("rpe", 1 if rank == 1 and cc > 1 else 0))
            if j == "t":
                m, cc = gens.t_leaf(draw, rank, cc, ss, draw(st.integers(0, 3)), 1)
            elif j == "pw":
                m = gens.pointwise(draw, rank, cc)
            elif j == "br":
                m, cc = gens.group(draw, rank, cc, ss, gens.wi(draw, (0, 3), (1, 1), (2, 1)), 1, None, 1)
                m = plain(m)
            elif j == "res":
                m, cc = gens.residual(draw, rank, cc, ss, 1)
                m = plain(m)
            elif j == "lin":
                m = gens.linear(draw, cc)
                cc = m["cout"]
            elif j == "rnn":
                m = gens.rnn(draw, cc)
                cc = m["cout"]
            elif j == "rpe":
                m = gens.rpe(draw, cc)
            else:
                m = gens.delay_(draw, 4, shrink=False)
            mods.append(m)
        s = {"op": "seq", "mods": mods, "named": gens.flag(draw, 1, 4)}
    elif k == "atts":  # many states
        c, sp = draw(st.integers(1, 4)), []
        mods = [gens.pick(draw, gens.att_in_net(draw, c), gens.att_in_net(draw, c), gens.rnn(draw, c, c), gens.pointwise(draw, 1, c))
                for _ in range(draw(st.integers(2, 6)))]
        s = {"op": "seq", "mods": mods, "named": False}
    elif k == "rnn":
        c, sp = draw(st.integers(1, 4)), []
        s = gens.rnn(draw, c)
    else:
        s = {"tel": gens.tel, "te": gens.te, "rpe": gens.rpe}[k](draw)
        c, sp = s["E"], []
        if k == "te":
            s["L"] = min(2, s["L"])
        if gens.flag(draw, 1, 3) and k != "rpe":
            s = {"op": "seq", "mods": [gens.rpe(draw, c), s] if c > 1 else [s], "named": False}
    s = plain(s)
    case.update(spec=s, shape=[c, *sp], B2=draw(st.integers(1, 3)), extra=draw(st.integers(1, 6)), n=draw(st.integers(3, 12)), opset=gens.pick(draw, 14, 14, 16),
                fold=gens.flag(draw), training=gens.flag(draw, 1, 4), f32=True, train_mode=False)
    if case["vals"] in ("offset", "int") and any(l["op"] in ("tel", "te") for l in nets.leaves(s)):
        case["vals"] = "normal"
    return case


def strategy(tier):
    return cases(tier)


def total_delay(s):
    return max(0, nets.delay(s))


def check(case):
    import continual as co
    import onnxruntime as ort
    from continual.utils import flatten

    s = case["spec"]
    c, *sp = case["shape"]
    shape = (case["B"], c, *sp)
    net = nets.build(s, F32)
    frame = lambda key: data((case["seed"], key), shape, case["vals"], F32)  # noqa: E731
    with torch.no_grad(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        # (in double precision, to know how the network amplifies rounding errors)
        state, twin, exact = None, nets.build(s, F32), nets.build(s, F64)
        for t in range(total_delay(s) + nets.receptive_field(s) + case["extra"]):
            x = frame(("w", t))
            o, state = net._forward_step(x, state)
            twin.forward_step(x), exact.forward_step(x.double())
        require(is_out(o), "no output after the warm-up")
        flat = [f.clone() for f in flatten(state)]
        if case["training"] and not stochastic(s) and not any(l["op"] in ("bn", "tel", "te", "mha") for l in nets.leaves(s)):
            net.train()  # (no part behaves differently)
        train0 = [(n, m.training) for n, m in net.named_modules()]
        f = io.BytesIO()
        co.onnx.export(net, (frame("e"), *[z.clone() for z in flat]), f, input_names=["input"], output_names=["output"],
                       opset_version=case["opset"], do_constant_folding=case["fold"])
        require([(n, m.training) for n, m in net.named_modules()] == train0, "the export changed the mode of the network")
        so = ort.SessionOptions()
        so.intra_op_num_threads = so.inter_op_num_threads = 1
        so.log_severity_level = 4
        sess = ort.InferenceSession(f.getvalue(), so, providers=["CPUExecutionProvider"])
        wrap = co.onnx.OnnxWrapper(net)
        names, nnames = wrap.state_input_names, wrap.state_output_names
        require(len(names) == len(flat), f"{len(names)} named states, the network has {len(flat)}")
        ins = {i.name for i in sess.get_inputs()}
        require([o.name for o in sess.get_outputs()] == ["output", *nnames],
                f"outputs {[o.name for o in sess.get_outputs()]}")
        if case["B2"] != case["B"]:  # another batch size than the one exported with
            shape = (case["B2"], c, *sp)
            state, twin, exact = None, nets.build(s, F32), nets.build(s, F64)
            for t in range(total_delay(s) + nets.receptive_field(s) + case["extra"]):
                x = frame(("w", t))
                o, state = net._forward_step(x, state)
                twin.forward_step(x), exact.forward_step(x.double())
            flat = [f.clone() for f in flatten(state)]
        cur = dict(zip(names, (z.numpy() for z in flat)))
        for t in range(case["n"]):
            x = frame(("r", t))
            want, w64 = twin.forward_step(x), exact.forward_step(x.double())
            noise = float((want.double() - w64).abs().nan_to_num(0.0).max())
            o, *nxt = sess.run(None, {k: v for k, v in {"input": x.numpy(), **cur}.items() if k in ins})
            same(torch.tensor(o), want, f"frame {t} after the export", 5e-3, 5e-4 + 100 * noise)
            cur = dict(zip(names, nxt))
    return {"nontrivial": len(flat) > 0 and case["n"] >= 3, "tags": sorted({l["op"] for l in nets.leaves(s)} | {s["op"]})}
