"""update_state=False is a pure look-ahead."""
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F32, F64, data, layout, same

RULE = "a look-ahead that is due an output happens after at least one frame, and the stream goes on afterwards"
CASES = {"quick": 2500, "thorough": 25000}
ASSUMPTIONS = ["metamorphic: twins of the module that never look ahead"]


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    s, c, sp = gens.subject(draw, case["B"])
    d, sr = nets.delay(s), nets.stride(s)
    n = draw(st.integers(1, 5))
    ops = []
    lead = draw(st.integers(0, d + sr + 1))
    if lead:
        ops.append(["feed", lead if gens.flag(draw) and s["op"] != "rpe" else -lead, False])
    for _ in range(n):
        kind = gens.wi(draw, ("peek", 3), ("feed", 2))
        k = draw(st.sampled_from([0, 0, 1, 2, 3, 1 + min(d, 6)]))
        if s["op"] == "rpe":
            k = min(k, s["N"])
        ops.append([kind, k, gens.flag(draw, 1, 3)])
    gens.long_op(draw, ops, 1, s.get("N"))
    ops.append(["feed", -draw(st.integers(1, 4)), False])
    case.update(spec=s, shape=[c, *sp], ops=ops, f32=gens.flag(draw, 1, 5),
                training=s["op"] == "conv" and gens.flag(draw, 1, 4))
    return gens.tame(case)


def strategy(tier):
    return cases(tier)


def call(m, x, k, **kw):
    if k == 0:
        return m.forward_step(x[:, :, 0], **kw)
    if k > 0:
        return m.forward_steps(x, **kw)
    return [m.forward_step(x[:, :, t], **kw) for t in range(x.shape[2])]


def check(case):
    s = case["spec"]
    dt = F32 if case["f32"] else F64
    c, *sp = case["shape"]
    make = lambda: nets.build(s, dt, case["training"])  # noqa: E731
    can_pad = s["op"] not in nets.ATT
    a, b = make(), make()
    fed, due, seen = [], False, 0
    for i, (kind, k, pad) in enumerate(case["ops"]):
        T = max(1, abs(k))
        x = layout(data((case["seed"], i), (case["B"], c, T, *sp), case["vals"], dt), case["layout"])
        if kind == "feed":
            same(call(a, x, k), call(b, x, k), f"op {i}: feed {k} after look-aheads")
            fed.append((x, k))
            seen += T
        else:
            kw = {"pad_end": True} if pad and k > 0 and can_pad else {}
            w = make()
            for y, j in fed:
                call(w, y, j)
            want = call(w, x, k, **kw)
            got = call(a, x, k, update_state=False, **kw)
            same(got, want, f"op {i}: look-ahead {k} {kw}")
            same(call(a, x, k, update_state=False, **kw), want, f"op {i}: repeated look-ahead {k} {kw}")
            due = due or (seen > 0 and want is not None)
    return {"nontrivial": due, "tags": [s["op"]]}
