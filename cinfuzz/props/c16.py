"""Recycling positional encodings: a cyclic index advanced by the stream and by offline calls."""
import torch
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F32, F64, data, layout, require, same, snap

RULE = "the position index wrapped around at least once"
CASES = {"quick": 2500, "thorough": 25000}
ASSUMPTIONS = ["chunks no longer than the number of embeddings (documented assertion)"]


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    N = gens.rare(draw, 2, 9, 40, 8)
    learned = gens.flag(draw, 2, 3)
    if N == 5 and not learned:  # recorded finding
        N = 6
    ops = []
    for _ in range(gens.rare(draw, 1, 14, 60)):
        k = gens.wi(draw, ("step", 6), ("steps", 5), ("peek1", 1), ("peek", 1), ("forward", 3), ("forward_n", 2), ("clean", 1),
                    ("snap", 1), ("restore", 1), ("call", 1), ("explicit", 3))
        ops.append([k, draw(st.integers(1, N)), draw(st.integers(-N, 2 * N))])
    case.update(E=gens.rare(draw, 2, 6, 16), N=N, learned=learned, fu=gens.pick(draw, None, 0, 1, N, draw(st.integers(-3, 12))),
                ops=ops, ws=draw(st.integers(0, 60)), f32=gens.flag(draw, 1, 4))
    return case


def strategy(tier):
    return cases(tier)


def cyclic(P):
    """Static encodings: centred, distinct, and as smooth across the wrap-around as anywhere."""
    N = len(P)
    require(bool(P.isfinite().all()) and float(P.abs().max()) < 2, "static encodings out of range")
    require(float(P.mean(0).abs().max()) < 1e-5, "static encodings are not centred")
    gaps = torch.cdist(P, P) + 9 * torch.eye(N, dtype=P.dtype)
    require(float(gaps.min()) > 1e-3, f"static encodings of {N} positions coincide (distance {float(gaps.min()):.1e})")
    steps = (P - P.roll(1, 0)).norm(dim=1)
    require(float(steps.max()) < 1.6 * float(steps.mean()),
            f"static encodings jump at position {int(steps.argmax())}: {[round(v, 3) for v in steps.tolist()]}")


def check(case):
    import continual as co

    dt = F32 if case["f32"] else F64
    E, N, B = case["E"], case["N"], case["B"]
    kw = {} if case["fu"] is None else {"forward_update_index_steps": case["fu"]}
    fu = 1 if case["fu"] is None else case["fu"]
    m = co.RecyclingPositionalEncoding(E, N, learned=case["learned"], **kw)
    m = nets.fill(m, case["ws"], dt)
    if case["learned"]:
        P = m.pe.weight.detach().clone()
    else:
        # the table is what the first pass over all positions adds
        P = m.forward(torch.zeros(1, E, N, dtype=dt), 0)[0].t().clone()
        P2 = co.RecyclingPositionalEncoding(E, N, learned=False).to(dt).forward(torch.zeros(2, E, N, dtype=dt))
        same(P2[1].t(), P, "static encodings of another instance")
        cyclic(P)
    require(tuple(P.shape) == (N, E), f"{tuple(P.shape)} encodings")
    i, saved, wraps = 0, None, 0
    e, st_e = 0, None  # a stream whose state is passed explicitly
    for j, (k, n, u) in enumerate([*case["ops"], ["step", 1, 0]]):
        x = layout(data((case["seed"], j), (B, E, n), case["vals"], dt), case["layout"])
        idx = [(i + t) % N for t in range(n)]
        want = x + P[idx].t().unsqueeze(0)
        if k == "step":
            o, want, adv = m.forward_step(x[:, :, 0]), want[:, :, 0], 1
        elif k == "peek1":
            o, want, adv = m.forward_step(x[:, :, 0], update_state=False), want[:, :, 0], 0
        elif k == "explicit":
            for t in range(n):
                o, st_e = m._forward_step(x[:, :, t], st_e)
                same(o, x[:, :, t] + P[e], f"op {j} frame {t} with explicit state at position {e} of {N}")
                e = (e + 1) % N
                wraps += e == 0
            continue
        elif k == "steps":
            o, adv = m.forward_steps(x), n
        elif k == "peek":
            o, adv = m.forward_steps(x, update_state=False), 0
        elif k == "forward":
            o, adv = m.forward(x), fu
        elif k == "call":
            o, adv = m(x), fu
        elif k == "forward_n":
            o, adv = m.forward(x, update_index_steps=u), u
        elif k == "snap":
            saved = (i, snap(m.get_state()))
            continue
        elif k == "restore":
            if saved is not None:
                i = saved[0]
                m.set_state(saved[1])
            continue
        else:
            m.clean_state()
            i = 0
            continue
        same(o, want, f"op {j} ({k}) at position {i} of {N}")
        wraps += (i + max(adv, n if k in ("steps", "forward", "peek", "call", "forward_n") else 1)) // N
        i = (i + adv) % N
    return {"nontrivial": wraps > 0, "tags": ["learned" if case["learned"] else "static"] + sorted({k for k, _, _ in case["ops"]})}
