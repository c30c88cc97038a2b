"""Forward parity with torch.nn."""
import torch
from hypothesis import strategies as st
from torch.nn.utils.rnn import PackedSequence, pack_padded_sequence

from .. import gens, nets
from ..util import F32, F64, data, drive, layout, require, same

RULE = "output has at least two elements and the input at least two frames"
CASES = {"quick": 6000, "thorough": 60000}
ASSUMPTIONS = ["torch.nn layers with the same parameters are the reference"]


@st.composite
def cases(draw, tier):
    kind = gens.wi(draw, ("conv", 5), ("pool", 5), ("adaptive", 2), ("linear", 2), ("rnn", 2))
    rank = draw(st.integers(2 if kind == "adaptive" else 1, 3))
    sp = gens.spatial_dims(draw, rank, 1, 6)
    c = draw(st.integers(1, 6))
    if kind == "conv":
        s, _, _ = gens.conv(draw, rank, c, sp, big=True)
    elif kind == "pool":
        s, _, _ = gens.pool(draw, rank, c, sp)
        s["d"] = s["d"] if s["kind"] == "max" else [1] * rank
        if gens.flag(draw, 1, 3):  # forward alone supports these with temporal padding and stride as well
            s["ceil"] = True
        if gens.flag(draw, 1, 3):
            s["cip"] = False
    elif kind == "adaptive":
        s, _, _ = gens.adaptive(draw, rank, c, sp)
    elif kind == "linear":
        cd = gens.pick(draw, 1, -1)
        s = gens.linear(draw, c if cd == 1 else (sp[-1] if sp else c), cd=cd)
        if cd == -1 and not sp:
            s["cd"] = 1
    else:
        rank, sp = 1, []
        s = gens.rnn(draw, c, drop=True)
    T, _ = gens.stretch(draw, draw(st.integers(1, 14)), tier)
    if kind in ("conv", "pool"):
        e, _, p = nets.geom(s)
        T = max(T, e - 2 * p, 1, s["k"][0] if kind == "pool" else 1)
    case = gens.common(draw)
    case.update(spec=s, shape=[c, T, *sp], f32=gens.flag(draw, 1, 5), training=gens.flag(draw, 1, 4),
                warm=draw(st.integers(0, 5)), call=gens.flag(draw), hx=gens.flag(draw, 1, 2))
    if kind == "rnn" and gens.flag(draw, 1, 3):  # sequences of different lengths
        case["lens"] = [draw(st.integers(1, T)) for _ in range(case["B"])]
    return case


def strategy(tier):
    return cases(tier)


def check(case):
    s = case["spec"]
    dt = F32 if case["f32"] else F64
    c, T, *sp = case["shape"]
    x = layout(data(case["seed"], (case["B"], c, T, *sp), case["vals"], dt), case["layout"])
    m = nets.build(s, dt, case["training"])
    if case["warm"]:
        # a stream in progress must not affect the offline computation
        w = data(case["seed"] + 1, (case["B"], c, case["warm"], *sp), "normal", dt)
        drive(m, w, [("step", t, t + 1) for t in range(case["warm"])])
    fwd = m if case["call"] else m.forward
    if s["op"] == "linear":
        got = fwd(x)
        t = nets.torch_layer(s, dt)
        want = t(x) if s["cd"] == -1 else t(x.movedim(1, -1)).movedim(-1, 1)
        same(got, want, "Linear.forward")
    elif s["op"] == "rnn":
        t = nets.torch_layer(s, dt)
        hx = None
        if case["hx"]:
            hs = (s["layers"], case["B"], s["cout"])
            hx = data(case["seed"] + 2, hs, "normal", dt)
            if s["cell"] == "lstm":
                hx = (hx, data(case["seed"] + 3, (*hs[:2], s.get("hid", s["cout"])), "normal", dt))
        if "drop" in s and case["training"]:
            t.train()
        torch.manual_seed(case["seed"])
        if case.get("lens"):
            px = pack_padded_sequence(x.transpose(1, 2), case["lens"], batch_first=True, enforce_sorted=False)
            o, h = fwd(px, hx) if hx is not None else fwd(px)
            torch.manual_seed(case["seed"])
            wo, wh = t(px, hx)
            require(isinstance(o, PackedSequence), "forward of a packed sequence returned no packed sequence")
            for a, b in zip(o[1:], wo[1:]):
                require(torch.equal(a, b) if b is not None else a is None, "forward of a packed sequence changed its lengths or order")
            same(o.data, wo.data, "RNN forward output of a packed sequence")
            same(h, wh, "RNN forward hidden state")
            return {"nontrivial": o.data.numel() > 1 and T > 1, "tags": [s["op"], "packed"]}
        o, h = fwd(x, hx) if hx is not None else fwd(x)
        torch.manual_seed(case["seed"])
        wo, wh = t(x.transpose(1, 2), hx)
        same(o, wo.transpose(1, 2), "RNN forward output")
        same(h, wh, "RNN forward hidden state")
        got = o
    else:
        got = fwd(x)
        want = nets.torch_layer(s, dt)(x)
        require(isinstance(got, torch.Tensor), "forward returned no tensor")
        same(got, want, f"{type(m).__name__}.forward vs torch.nn")
    return {"nontrivial": got.numel() > 1 and T > 1, "tags": [s["op"], f"rank{s.get('rank', 0)}"]}
