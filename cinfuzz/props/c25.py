"""Streams that share a batch do not influence each other."""
import torch
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F32, F64, chunks_of, data, drive, layout, require, same, tol

RULE = "two or more streams in the batch, at least two outputs due, and the module has memory or parallel parts"
CASES = {"quick": 2500, "thorough": 25000}
ASSUMPTIONS = ["metamorphic: one module per stream, and one whose batch is a permutation or a selection of the streams",
               "evaluation mode"]


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    case["B"] = gens.rare(draw, 2, 4, 12, 4)
    s, c, sp = gens.subject(draw, case["B"], leaf=8)
    T = gens.frames(draw, s, 5)
    if gens.flag(draw, 1, 20) and s["op"] != "rpe":
        T += draw(st.integers(10, 60))
    cap = s["N"] if s["op"] == "rpe" else 9
    ch = [min(cap, k) for k in gens.chunk_list(draw, 5)]
    sel = draw(st.lists(st.integers(0, case["B"] - 1), min_size=1, max_size=4))
    case.update(spec=s, shape=[c, T, *sp], chunks=ch, sel=sel, f32=gens.flag(draw, 1, 5),
                how=gens.pick(draw, "split", "split", "select"), mode=gens.pick(draw, "steps", "steps", "steps", "forward"),
                big=gens.flag(draw, 1, 4), bad=gens.wi(draw, ("", 8), ("nan", 1), ("inf", 1)))
    return gens.single_leaf(gens.tame(case))


def strategy(tier):
    return cases(tier)


def rebatch(s, B):
    """Reshapes name the batch size."""
    if isinstance(s, list):
        return [rebatch(m, B) for m in s]
    if not isinstance(s, dict):
        return s
    r = {k: rebatch(v, B) if isinstance(v, (dict, list)) else v for k, v in s.items()}
    if s.get("op") == "reshape":
        r["shape"] = [B, *s["shape"][1:]]
    return r


def run(s, x, case, dt):
    m = nets.build(rebatch(s, x.shape[0]), dt)
    if case["mode"] == "forward":
        o = m.forward(x)
        return [(0, o, "forward")]
    ch = chunks_of(case["chunks"], x.shape[2])
    return [(a, o, k) for a, b, o, k in drive(m, x, ch)]


def check(case):
    s = case["spec"]
    dt = F32 if case["f32"] else F64
    c, T, *sp = case["shape"]
    B = case["B"]
    if case["mode"] == "forward":
        T = max(T, gens.min_T(s, "forward")) if s["op"] not in ("mha", "tel", "te") else s["S"]
        if s["op"] == "rpe":
            T = min(T, s["N"])
    x = data(case["seed"], (B, c, T, *sp), case["vals"], dt)
    if case["big"] and not any(l["op"] in ("mha", "tel", "te") for l in nets.leaves(s)):
        x[0] = x[0] * 1000  # another stream with extreme values
    bad = case.get("bad", "")
    if bad:  # another stream is broken
        x[0, :, T // 2:] = float(bad)
    x = layout(x, case["layout"])
    att = any(l["op"] in ("mha", "tel", "te") for l in nets.leaves(s))  # amplifies rounding
    full = run(s, x, case, dt)
    if case["how"] == "split":
        groups = [[i] for i in (range(B) if B < 5 else sorted({0, B - 1, *case["sel"]}))]
    else:
        groups = [case["sel"]]
    for g in groups:
        part = run(s, x[g], case, dt)
        require([(a, k) for a, _, k in part] == [(a, k) for a, _, k in full],
                f"streams {g} alone: outputs at {[a for a, _, _ in part]}, in the batch at {[a for a, _, _ in full]}")
        for (a, o, k), (_, w, _) in zip(part, full):
            if isinstance(w, torch.Tensor):
                require(isinstance(o, torch.Tensor) and o.shape[0] == len(g), f"batch dimension of {k}[{a}]")
                require(o.shape == w[g].shape, f"streams {g} of {B}: {k}[{a}]: shape {tuple(o.shape)} != {tuple(w[g].shape)}")
                for j, i in enumerate(g):
                    if bad and i == 0:
                        continue
                    # rounding errors depend on the scale of the stream
                    scale = max(1.0, float(w[i][w[i].isfinite()].abs().max()) if w[i].isfinite().any() else 1.0)
                    rtol, atol = (1e-5, 1e-5) if att else tol(dt)
                    same(o[j], w[i], f"stream {i} of {B} (evaluated: {g}): {k}[{a}]", rtol, atol * scale)
    mem = nets.delay(s) > 0 or nets.stride(s) > 1 or s["op"] == "rnn"
    return {"nontrivial": len(full) > 1 and mem, "tags": [s["op"], case["how"], case["mode"]]}
