"""clean_state returns a module to its fresh state."""
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F32, F64, chunks_of, data, drive, layout, require, same

RULE = "at least one frame was seen before clean_state and at least one output is due after it"
CASES = {"quick": 2500, "thorough": 25000}
ASSUMPTIONS = ["metamorphic: a freshly constructed module with the same parameters"]


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    s, c, sp = gens.subject(draw, case["B"])
    d = nets.delay(s)
    fixed = any(l["op"] in ("reshape",) for l in nets.leaves(s))
    B0 = case["B"] if fixed else draw(st.integers(1, 3))
    cap = s["N"] if s["op"] == "rpe" else 60
    case.update(spec=s, shape=[c, *sp], B0=B0, T0=gens.rare(draw, 1, d + 4, d + 40, 20), ch0=gens.chunk_list(draw, 4, min(cap, 4)),
                T=d + 1 + draw(st.integers(0, 5)), ch=gens.chunk_list(draw, 4, min(cap, 4)), f32=gens.flag(draw, 1, 5),
                f32_0=gens.flag(draw, 1, 8), rounds=draw(st.integers(1, 3)), peek=gens.flag(draw, 1, 4),
                training=s["op"] == "conv" and gens.flag(draw, 1, 4), pad=gens.flag(draw, 1, 4),
                fwd=gens.flag(draw, 1, 4))
    if s["op"] == "rpe":
        case["ch"] = [min(cap, k) for k in case["ch"]]
        case["ch0"] = [min(cap, k) for k in case["ch0"]]
    return gens.tame(case)


def strategy(tier):
    return cases(tier)


def check(case):
    s = case["spec"]
    dt = F32 if case["f32"] else F64
    c, *sp = case["shape"]
    a = nets.build(s, dt, case["training"])
    for r in range(case["rounds"]):
        x0 = data((case["seed"], r), (case["B0"], c, case["T0"], *sp), case["vals"], dt)
        drive(a, x0, chunks_of(case["ch0"], case["T0"]))
        if case["pad"] and s["op"] not in nets.ATT:
            a.forward_steps(x0, pad_end=True)
        if case["fwd"] and s["op"] == "rpe":
            a.forward(x0[:, :, :s["N"]])
        a.clean_state()
    if case["peek"]:
        a.clean_state()
    fresh = nets.build(s, dt, case["training"])
    x = layout(data(case["seed"] + 1, (case["B"], c, case["T"], *sp), case["vals"], dt), case["layout"])
    ch = chunks_of(case["ch"], case["T"])
    ga, gf = drive(a, x, ch), drive(fresh, x, ch)
    require([p[:2] for p in ga] == [p[:2] for p in gf],
            f"outputs after clean_state at {[p[:2] for p in ga]}, of a fresh module at {[p[:2] for p in gf]}")
    for (p, q, o, _), (_, _, w, _) in zip(ga, gf):
        same(o, w, f"[{p}:{q}] after clean_state")
    return {"nontrivial": len(gf) > 0, "tags": [s["op"]]}
