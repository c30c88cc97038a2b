"""Streams whose module moves to another data type on the way (and with it, to another device)."""
import copy

import torch
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F32, F64, chunks_of, data, drive, layout, require, same

RULE = "the module moved with frames in its state and outputs were due afterwards"
CASES = {"quick": 2000, "thorough": 20000}
ASSUMPTIONS = ["data types stand for devices: only one device is available here, and both move in the same way",
               "metamorphic: a twin kept in double precision, within the rounding errors of a twin kept in single precision",
               "no gradients recorded"]


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    s, c, sp = gens.subject(draw, case["B"])
    d = nets.delay(s)
    cap = s["N"] if s["op"] == "rpe" else 9
    parts, lead = [], 0
    for i in range(draw(st.integers(2, 4))):
        n = draw(st.integers(0 if i == 0 else 1, 5))
        if i == 0:
            n += gens.pick(draw, 0, d, d)
        how = gens.pick(draw, "method", "to", "tensor", "parts")
        parts.append([n, how, gens.flag(draw, 1, 5)])
    parts[-1][0] += gens.pick(draw, 0, d, d)
    case.update(spec=s, shape=[c, *sp], parts=parts, ch=[min(cap, k) for k in gens.chunk_list(draw, 4)],
                double=gens.flag(draw), copied=gens.flag(draw, 1, 4), clean=gens.flag(draw, 1, 4))
    if case["vals"] in ("offset", "int") and any(l["op"] in nets.ATT for l in nets.leaves(s)):
        case["vals"] = "normal"
    return case


def strategy(tier):
    return cases(tier)


def check(case):
    with torch.no_grad():
        return _check(case)


def move(m, dt, how):
    if how == "method":
        r = m.double() if dt == F64 else m.float()
    elif how == "to":
        r = m.to(dt)
    elif how == "tensor":
        r = m.to(torch.zeros(1, dtype=dt))
    else:  # part by part, then what the network itself holds
        for part in m.children():
            part.to(dt)
        r = m.to(dtype=dt)
    require(r is m, f"moving a module returned {type(r)} instead of the module")


def _check(case):
    s = case["spec"]
    c, *sp = case["shape"]
    T = sum(n for n, _, _ in case["parts"])
    m, wide, slim = nets.build(s, F32), nets.build(s, F64), nets.build(s, F32)
    wide.load_state_dict({k: v.double() if v.is_floating_point() else v for k, v in slim.state_dict().items()})
    if case["double"]:
        m.double()
    X = layout(data(case["seed"], (case["B"], c, T, *sp), case["vals"], F32), case["layout"])
    dt = F64 if case["double"] else F32
    t, moved, after = 0, 0, 0
    for i, (n, how, reset) in enumerate(case["parts"]):
        if i:
            if reset and case["clean"]:
                for z in (m, wide, slim):
                    z.clean_state()
            if case["copied"]:
                m = copy.deepcopy(m)
            dt = F32 if dt == F64 else F64
            move(m, dt, how)
            moved = max(moved, t)
        if not n:
            continue
        x = X[:, :, t:t + n]
        ch = chunks_of(case["ch"], n)
        got, want, rough = drive(m, x.to(dt), ch), drive(wide, x.double(), ch), drive(slim, x, ch)
        require([p[:2] for p in got] == [p[:2] for p in want],
                f"part {i}: outputs at {[p[:2] for p in got]} instead of {[p[:2] for p in want]}")
        for (p, q, o, _), (_, _, w, _), (_, _, r, _) in zip(got, want, rough):
            require(o.dtype == dt, f"part {i}: [{p}:{q}] of a module moved to {dt} is {o.dtype}")
            noise = float((r.double() - w).abs().max()) if w.numel() else 0.0
            if noise != noise or noise > 1e-2:
                return {"nontrivial": False, "tags": ["unstable"]}
            same(o.double(), w, f"part {i}: [{p}:{q}]", 1e-3, 1e-4 + 100 * noise)
        t += n
        after += len(got) if i and moved else 0
    return {"nontrivial": moved > 0 and after > 0, "tags": [s["op"], "copied" if case["copied"] else "moved"]}
