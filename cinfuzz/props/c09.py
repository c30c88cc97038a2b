"""The temporal metadata of a module describe how its stream behaves."""
import torch
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F64, data, diff, is_out, require, same

RULE = "delay > 0 or stride > 1, and at least two outputs were observed"
CASES = {"quick": 3000, "thorough": 30000}
ASSUMPTIONS = [
    "recurrent layers and Skip are left out (their memory is unbounded / they depend on the stream position)",
    "multi-head attention on its own is left out: its delay attribute is the alignment delay of its query",
]


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    s, c, sp = gens.subject(draw, case["B"], leaf=5, net=7, rnn_=0, att=1, rpe_=0, skips=False, stateful=False)
    while s["op"] == "mha" or (s["op"] == "delay" and s["shrink"]):
        s, c, sp = gens.temporal_leaf(draw, big=True, avg_dil=True)
        if s["op"] == "delay":
            s["shrink"] = False
    if s["op"] == "tel":
        s["qi"] = -1
    case.update(spec=s, shape=[c, *sp], extra=draw(st.integers(0, 5)), old=draw(st.integers(0, 7)),
                skips=[[draw(st.integers(0, 4)), draw(st.integers(1, 9))] for _ in range(draw(st.integers(1, 2)))]
                if gens.flag(draw, 1, 6) else [])
    case["bad"] = gens.pick(draw, "", "", "nan", "inf", "huge")
    return gens.tame(case)


def strategy(tier):
    return cases(tier)


def first(v):
    return int(v[0]) if isinstance(v, (tuple, list, torch.Size)) else int(v)


def check(case):
    s = case["spec"]
    c, *sp = case["shape"]
    m = nets.build(s, F64)
    att = any(l["op"] in ("mha", "tel", "te") for l in nets.leaves(s))
    rf, d, sr, p = nets.receptive_field(s), nets.delay(s), nets.stride(s), nets.padding(s)
    if s["op"] in ("tel", "te"):
        rf = s["S"]
    name = type(m).__name__
    require(int(m.delay) == d, f"{name}.delay is {m.delay}, but the first output is due after {d} frames")
    require(first(m.stride) == sr, f"{name}.stride is {m.stride}, temporal stride {sr}")
    require(first(m.padding) == p, f"{name}.padding is {m.padding}, temporal padding {p}")
    require(int(m.receptive_field) == rf, f"{name}.receptive_field is {m.receptive_field}, expected {rf}")

    if case["skips"]:  # leaving out the first frames of a stream changes none of them
        mods = list(s["mods"] if s["op"] == "seq" else [s])
        for i, k in case["skips"]:
            mods.insert(i % (len(mods) + 1), {"op": "skip", "n": k})
        v = nets.build({"op": "seq", "mods": mods}, F64)
        got, want = ([int(q.delay), first(q.stride), first(q.padding), int(q.receptive_field)] for q in (v, m))
        require(got == want, f"delay, stride, padding, receptive field are {got} with Skip in the sequence, {want} without")

    T = d + 1 + sr * 2 + case["extra"]
    old = case["old"]
    if T > 90:
        T = d + 1 + sr
    if rf + T > 160:
        old = 0
    x = data(case["seed"], (case["B"], c, T, *sp), case["vals"], F64)
    seen = []
    for t in range(T):
        o = m.forward_step(x[:, :, t])
        if is_out(o):
            seen.append(t)
    require(seen == list(range(d, T, sr)), f"{name}: outputs at {seen}, promised are {list(range(d, T, sr))}")

    # an output is a function of the last receptive_field frames
    if old:
        n = rf + d + old  # long enough that frames fall out of the window
        n += (-(n - 1 - d)) % sr  # the last frame yields an output
        y = data((case["seed"], 1), (case["B"], c, n, *sp), case["vals"], F64)
        z = y.clone()
        k = n - rf
        z[:, :, :k] = data((case["seed"], 2), (case["B"], c, k, *sp), "normal" if att else "offset", F64)
        bad = case.get("bad", "")
        retro = any(l["op"] == "te" and l["L"] > 1 or l.get("type") == "retro" for l in nets.leaves(s))
        if bad and not retro:  # broken frames are forgotten as well (retroactive attention subtracts them, which cannot work)
            z[:, 0, :k] = {"nan": float("nan"), "inf": float("inf"), "huge": 1e12}[bad]
        outs = []
        for v in (y, z):
            m.clean_state()
            for t in range(n):
                o = m.forward_step(v[:, :, t])
            outs.append(None if o is None else o.clone())
        require(is_out(outs[0]), f"{name}: no output at frame {n - 1}")
        same(outs[0], outs[1], f"{name}: output changed with frames older than the receptive field {rf}",
             *((1e-4, 1e-4) if att else ()))  # retroactive attention subtracts exponentials of the old frames
        # and the oldest frame of the window really is used by layers that weigh all frames
        if s["op"] == "conv" and s["rank"] == 1 and s["g"] == 1:
            z = y.clone()
            z[:, :, k] = data((case["seed"], 3), (case["B"], c, *sp), "offset", F64)
            m.clean_state()
            for t in range(n):
                o = m.forward_step(z[:, :, t])
            require(diff(o, outs[0]) is not None, f"{name}: the oldest frame of the receptive field {rf} has no influence")
    return {"nontrivial": (d > 0 or sr > 1) and len(seen) >= 2, "tags": [s["op"], f"stride{min(sr, 4)}"]}
