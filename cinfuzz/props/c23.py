"""warm_up: every later step yields an output, exact as soon as the warm-up left the receptive field."""
import torch
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F32, F64, data, is_out, layout, require, same

RULE = "the delay is positive and outputs after the warm-up had left the receptive field were compared"
CASES = {"quick": 1500, "thorough": 15000}
ASSUMPTIONS = ["modules without parameters are warmed up in single precision", "metamorphic: a twin that never warmed up", "attention left out of the exactness part"]


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    s, c, sp = gens.subject(draw, case["B"], rnn_=0, rpe_=0, att=1, skips=False, stateful=False)
    if s["op"] == "mha":
        s = gens.tel(draw)
        c = s["E"]
    if s["op"] == "delay":
        s["shrink"] = False  # (a shrinking delay alone announces only the frames it holds)
    case.update(spec=s, shape=[c, *sp], extra=draw(st.integers(1, 4)),
                seq=gens.flag(draw, 1, 4), frozen=gens.flag(draw, 1, 4))
    case["f32"] = gens.flag(draw) or not nets.weighted(s)
    return gens.tame(case)


def strategy(tier):
    return cases(tier)


def check(case):
    import continual as co

    s = case["spec"]
    c, *sp = case["shape"]
    dt = F32 if case["f32"] else F64
    B, d, sr = case["B"], nets.delay(s), nets.stride(s)
    rf = nets.receptive_field(s) if s["op"] not in ("mha", "tel", "te") else 10 ** 6
    make = lambda: co.Sequential(nets.build(s, dt)) if case["seq"] else nets.build(s, dt)  # noqa: E731
    m, twin, cold = make(), make(), make()
    if case["frozen"]:
        m.requires_grad_(False)
    with torch.no_grad():
        m.warm_up((B, c, *sp))
        if d:
            twin.forward_steps(torch.zeros((B, c, d, *sp), dtype=dt))
        # exactness: the first output whose receptive field has no dummy frame
        T = min(rf + sr, 40) + case["extra"] if rf < 10 ** 6 else sr + case["extra"]
        x = layout(data(case["seed"], (B, c, T, *sp), case["vals"], dt), case["layout"])
        n_exact, n_out = 0, 0
        for t in range(T):
            o = m.forward_step(x[:, :, t])
            if not neg(s):
                w = twin.forward_step(x[:, :, t])
                same(o, w, f"frame {t} after the warm-up, against a stream that started with {d} zero frames", 1e-3, 1e-4)
            require(is_out(o) == (t % sr == 0), f"frame {t} after the warm-up: {'no ' if not is_out(o) else ''}output, stride {sr}")
            n_out += is_out(o)
            wc = cold.forward_step(x[:, :, t])
            # cold stream: same frames, shifted by the warm-up
            if is_out(o) and is_out(wc) and t >= rf - 1 and sr == 1:
                same(o, wc, f"frame {t} after the warm-up: receptive field {rf} holds real frames only", 1e-3, 1e-4)
                n_exact += 1
    return {"nontrivial": d > 0 and (n_exact > 0 or (rf >= 10 ** 6 or sr > 1) and n_out > 0), "tags": [s["op"]]}


def neg(s):
    """Modules whose filling frames are not zeros."""
    return s["op"] == "pool" and nets.default_fill(s) == "neg_inf"
