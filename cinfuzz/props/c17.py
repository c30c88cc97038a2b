"""Stepping with explicitly passed states: nested, flattened for export, and interleaved."""
import torch
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F32, F64, data, is_out, layout, require, same, snap

RULE = "an output was due for a frame that was stepped with an explicit state carrying at least one frame of history"
CASES = {"quick": 2500, "thorough": 25000}
ASSUMPTIONS = ["a passed state is consumed by the step (copied if it is to be used again)",
               "metamorphic: one module per stream, stepped statefully"]


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    s, c, sp = gens.subject(draw, case["B"])
    n = draw(st.integers(1, 3))
    d, sr = nets.delay(s), nets.stride(s)
    # which stream a frame belongs to: -1 is the module's own state
    order = []
    for i in range(n):
        order += [i] * (d + 1 + draw(st.integers(0, 3 + sr)))
    if gens.flag(draw):
        order += [-1] * (d + 1 + draw(st.integers(0, 3)))
    if gens.flag(draw, 2, 3):
        order = draw(st.permutations(order)) if len(order) < 40 else order
    if gens.flag(draw, 1, 10):  # one stream goes on for long
        order = [*order, *[draw(st.sampled_from(sorted(set(order))))] * draw(st.integers(20, 90))]
    case.update(spec=s, shape=[c, *sp], n=n, order=list(order), f32=gens.flag(draw, 1, 5), flat=gens.flag(draw, 2, 3))
    return gens.tame(case)


def strategy(tier):
    return cases(tier)


def check(case):
    from continual.onnx import OnnxWrapper
    from continual.utils import flatten

    s = case["spec"]
    dt = F32 if case["f32"] else F64
    c, *sp = case["shape"]
    m = nets.build(s, dt)
    twins = {i: nets.build(s, dt) for i in [*range(case["n"]), -1]}
    wrap = OnnxWrapper(m)
    names = wrap.state_input_names
    count = sum(flatten(m._state_shape))
    require(len(names) == count == len(flatten(m._dynamic_state_inds)) and len(set(names)) == count,
            f"{names} name {count} states with {m._dynamic_state_inds}")
    states = {i: None for i in range(case["n"])}
    fed = {i: 0 for i in twins}
    due, flats = False, 0
    with torch.no_grad():
        for j, i in enumerate(case["order"]):
            x = layout(data((case["seed"], j), (case["B"], c, *sp), case["vals"], dt), case["layout"])
            want = twins[i].forward_step(x)
            if i == -1:
                o = m.forward_step(x)
            else:
                flat = None if states[i] is None else list(flatten(states[i], remove_none=False))
                if s["op"] == "mha":  # takes query, key and value
                    o, states[i] = m._forward_step(x, x, x, states[i])
                elif case["flat"] and flat is not None and all(isinstance(f, torch.Tensor) for f in flat) and fed[i] > nets.delay(s):
                    require(len(flat) == count, f"{len(flat)} states, declared are {count}")
                    o, *nxt = wrap(x, *flat)
                    require(len(nxt) == count, f"{len(nxt)} next states, declared are {count}")
                    from continual.onnx import _shape_list
                    states[i], _ = _shape_list(nxt, m._state_shape)
                    flats += 1
                else:
                    o, states[i] = m._forward_step(x, states[i])
                due = due or (fed[i] > 0 and is_out(want))
            if is_out(want) or is_out(o):
                same(snap(o), want, f"frame {j} of stream {i} (after {fed[i]} frames)")
            fed[i] += 1
    return {"nontrivial": due, "tags": [s["op"]] + (["flat"] if flats else [])}
