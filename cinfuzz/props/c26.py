"""Copies of a network taken in the middle of a stream."""
import copy
import io
import pickle

import torch
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F32, F64, chunks_of, data, drive, layout, require, same

RULE = "the copy was taken with frames in the state, and outputs were due on both sides afterwards"
CASES = {"quick": 2000, "thorough": 20000}
ASSUMPTIONS = ["no gradients recorded (torch copies leaf tensors only)",
               "metamorphic: twins that were never copied"]


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    s, c, sp = gens.subject(draw, case["B"])
    d = nets.delay(s)
    cap = s["N"] if s["op"] == "rpe" else 9
    case.update(spec=s, shape=[c, *sp], T0=draw(st.integers(0, d + 3)), T1=d + 1 + gens.rare(draw, 0, 4, 40, 20),
                ch=[min(cap, k) for k in gens.chunk_list(draw, 4)], f32=gens.flag(draw, 1, 5),
                first=gens.pick(draw, "copy", "original", "alternate"), clean=gens.flag(draw, 1, 5),
                tune=gens.pick(draw, "", "", "copy", "original"),
                how=gens.pick(draw, "deepcopy", "deepcopy", "pickle", "save"))
    return gens.tame(case)


def strategy(tier):
    return cases(tier)


def replica(m, how):
    """Not every network can be pickled (functions given by the user, pooling): those are deep-copied."""
    try:
        if how == "pickle":
            return pickle.loads(pickle.dumps(m)), how
        if how == "save":
            f = io.BytesIO()
            torch.save(m, f)
            f.seek(0)
            return torch.load(f, weights_only=False), how
    except (pickle.PicklingError, AttributeError, TypeError):
        pass
    return copy.deepcopy(m), "deepcopy"


def check(case):
    with torch.no_grad():
        return _check(case)


def _check(case):
    s = case["spec"]
    dt = F32 if case["f32"] else F64
    c, *sp = case["shape"]
    T0, T1 = case["T0"], case["T1"]
    mk = lambda: nets.build(s, dt)  # noqa: E731
    a, ra, rb = mk(), mk(), mk()
    x0 = layout(data(case["seed"], (case["B"], c, max(T0, 1), *sp), case["vals"], dt), case["layout"])[:, :, :T0]
    xa = data((case["seed"], "a"), (case["B"], c, T1, *sp), case["vals"], dt)
    xb = data((case["seed"], "b"), (case["B"], c, T1, *sp), case["vals"], dt)
    if T0:
        for m in (a, ra, rb):
            drive(m, x0, chunks_of(case["ch"], T0))
    b, how = replica(a, case.get("how", "deepcopy"))
    if case["clean"]:
        # cleaning one must not clean the other
        a.clean_state()
        ra.clean_state()
    if case["tune"]:
        # other parameters in one of them
        for m in (b, rb) if case["tune"] == "copy" else (a, ra):
            for p in m.parameters():
                p.mul_(0.75).add_(0.05)
    ch = chunks_of(case["ch"], T1)
    ga, gb = [], []
    if case["first"] == "copy":
        gb, ga = drive(b, xb, ch), drive(a, xa, ch)
    elif case["first"] == "original":
        ga, gb = drive(a, xa, ch), drive(b, xb, ch)
    else:
        for part in ch:
            ga += drive(a, xa, [part])
            gb += drive(b, xb, [part])
    for got, ref, x, who in ((ga, ra, xa, "original"), (gb, rb, xb, "copy")):
        want = drive(ref, x, ch)
        require([p[:2] for p in got] == [p[:2] for p in want],
                f"{who}: outputs at {[p[:2] for p in got]} instead of {[p[:2] for p in want]}")
        for (p, q, o, _), (_, _, w, _) in zip(got, want):
            same(o, w, f"{who}: [{p}:{q}]")
    return {"nontrivial": T0 > 0 and len(gb) > 0, "tags": [s["op"], case["first"], how] + (["tuned"] if case["tune"] else [])}
