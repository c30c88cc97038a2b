"""Step parity of the temporal layers."""
import contextlib

import torch
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F32, F64, check_stream, data, drive, layout

RULE = "at least two outputs are due, and the layer has memory (temporal extent > 1) or a stride > 1"
CASES = {"quick": 3500, "thorough": 40000}
ASSUMPTIONS = ["reference: torch.nn.functional on the explicitly padded sequence"]


def huge(draw, s, cin, sp):
    """Gives a layer on few channels a temporal extent of hundreds of steps."""
    n = draw(st.integers(100, 300))
    size = cin
    for v in sp:
        size *= v
    if s["op"] == "delay":
        s["n"] = n
    elif size <= 12 and s["op"] in ("conv", "pool") and max(s["k"][1:] or [1]) <= 2:
        s["k"][0], s["d"][0] = n, 1
        s["p"][0] = gens.pick(draw, 0, n // 2, min(s["p"][0], n // 2))
    elif size <= 12 and s["op"] == "adaptive":
        s["k"] = n
        s.pop("d", None)
    return s, cin, sp


@st.composite
def cases(draw, tier):
    s, cin, sp = gens.temporal_leaf(draw, big=True, avg_dil=True)
    case = gens.common(draw)
    if gens.flag(draw, 1, 40):
        s, cin, sp = huge(draw, s, cin, sp)
    d, str_ = nets.delay(s), nets.stride(s)
    outs = gens.wi(draw, (1, 1), (3, 4), (6, 3), (12, 1))
    T = d + 1 + (outs - 1) * str_ + draw(st.integers(0, str_))
    if gens.flag(draw, 1, 25):
        T += draw(st.integers(20, 150 if tier == "quick" else 700))
    case.update(spec=s, shape=[cin, T, *sp], f32=gens.flag(draw, 1, 4), training=gens.flag(draw, 1, 4),
                ctx=gens.pick(draw, "grad", "no_grad", "inference"))
    return case


def strategy(tier):
    return cases(tier)


def ctx(name):
    return {"grad": contextlib.nullcontext, "no_grad": torch.no_grad, "inference": torch.inference_mode}[name]()


def check(case):
    s = case["spec"]
    dt = F32 if case["f32"] else F64
    c, T, *sp = case["shape"]
    x = layout(data(case["seed"], (case["B"], c, T, *sp), case["vals"], dt), case["layout"])
    Y, times = nets.ref(s, x, "stream")
    with ctx(case["ctx"]):
        m = nets.build(s, dt, case["training"])
        ch = [("step", t, t + 1) for t in range(T)]
        pieces = [(a, b, o.detach().clone(), k) for a, b, o, k in drive(m, x, ch)]
    check_stream(pieces, Y, times, ch, f"{type(m).__name__} stepped frame by frame")
    e = nets.receptive_field(s)
    return {"nontrivial": len(times) >= 2 and (e > 1 or nets.stride(s) > 1),
            "tags": [s["op"], f"rank{s.get('rank', 0)}", f"stride{min(3, nets.stride(s))}"] + (["long"] if T > 40 else [])}
