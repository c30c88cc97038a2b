"""Chunking invariance: any split of a stream over forward_step / forward_steps."""
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F32, F64, data, diff, drive, layout, require
from ..runner import Violation

RULE = "the partition has a chunk of two or more frames, at least two chunks, and at least one output is due"
CASES = {"quick": 3000, "thorough": 30000}
ASSUMPTIONS = ["metamorphic: frame-by-frame stepping of an identical fresh module is compared with the split"]


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    s, c, sp = gens.subject(draw, case["B"], big=True)
    T = gens.frames(draw, s, 8, 60 if tier == "quick" else 300)
    if s["op"] == "rpe":
        T = draw(st.integers(1, 30))
        chunks = [min(x, s["N"]) for x in gens.chunk_list(draw)]
    else:
        T, lead = gens.stretch(draw, T, tier)
        chunks = lead + gens.chunk_list(draw, maxlen=max(2, T))
    case.update(spec=s, shape=[c, T, *sp], chunks=chunks, f32=gens.flag(draw, 1, 5), training=(
        s["op"] == "conv" and gens.flag(draw, 1, 4)), seq=gens.flag(draw, 1, 5))
    return gens.tame(case)


def strategy(tier):
    return cases(tier)


def check(case):
    from ..util import chunks_of

    s = case["spec"]
    dt = F32 if case["f32"] else F64
    c, T, *sp = case["shape"]
    x = layout(data(case["seed"], (case["B"], c, T, *sp), case["vals"], dt), case["layout"])
    if case["seq"]:
        s = {"op": "seq", "mods": [s], "named": False}
    a, b = nets.build(s, dt, case["training"]), nets.build(s, dt, case["training"])
    ch = chunks_of(case["chunks"], T)
    one = {t: o for t, _, o, _ in drive(a, x, [("step", t, t + 1) for t in range(T)])}
    got = {(p, q): o for p, q, o, _ in drive(b, x, ch)}
    n_out = 0
    for kind, p, q in ch:
        want = [one[t] for t in range(p, q) if t in one]
        n_out += len(want)
        g = got.get((p, q))
        if not want:
            require(g is None, f"{kind}[{p}:{q}] produced an output where single steps produce none")
            continue
        if g is None:
            raise Violation(f"{kind}[{p}:{q}] produced no output where single steps produce {len(want)}")
        import torch

        r = diff(g, torch.cat(want, 2))
        if r:
            raise Violation(f"{kind}[{p}:{q}] differs from single steps: {r}")
    multi = any(q - p > 1 for _, p, q in ch)
    return {"nontrivial": multi and len(ch) > 1 and n_out > 0, "tags": [case["spec"]["op"]]}
