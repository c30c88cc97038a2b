"""Continual multi-head attention against torch.nn.MultiheadAttention on the attended window."""
import torch
from hypothesis import strategies as st
from torch import nn

from .. import gens, nets
from ..util import F64, chunks_of, data, require, same

RULE = "at least two outputs were due and sequence_len > 1"
CASES = {"quick": 2500, "thorough": 25000}
ASSUMPTIONS = ["double precision, moderate attention logits", "no masks, no zero attention; added key and value biases in forward only (unsupported in steps)"]


def wi_sharp(draw):
    return gens.wi(draw, (0, 3), (6, 1), (-6, 1), (-10, 1))


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    s = gens.mha(draw)
    S = s["S"]
    lay = gens.pick(draw, "NET", "NTE", "TNE")
    kd = gens.flag(draw, 1, 3)
    n = draw(st.integers(0, 2 * S + 3))
    if gens.flag(draw, 1, 30):
        n += draw(st.integers(20, 120 if tier == "quick" else 600))
    case.update(spec=s, lay=lay, T=S + n, cross=gens.pick(draw, "self", "self", "kv", "k=v") if not kd else "kv",
                kdim=draw(st.integers(1, 5)) if kd else None, vdim=draw(st.integers(1, 5)) if kd and gens.flag(draw, 2, 3) else None,
                how=gens.pick(draw, "direct", "build_from"), drop=gens.wi(draw, ("none", 4), ("eval", 3), ("train", 1), ("all", 1 if s["type"] == "single" else 0)),
                chunks=gens.chunk_list(draw), sof=gens.flag(draw),
                sharp=wi_sharp(draw), mask=gens.flag(draw), bkv=gens.flag(draw, 1, 40), vals=gens.pick(draw, "normal", "neg", "pos", "sparse"), scale=gens.pick(draw, 1, 1, 3) if s["type"] == "single" else 1)
    return case


def strategy(tier):
    return cases(tier)


def cancellation(ref, q, k, S):
    """Bound of the rounding error of sums of exponentials which are updated by adding the new and subtracting the oldest ones
    (relative to the values), given the logits of all pairs that meet."""
    E, H, T = ref.embed_dim, ref.num_heads, q.shape[1]
    if ref._qkv_same_embed_dim:
        wq, wk = ref.in_proj_weight[:E], ref.in_proj_weight[E:2 * E]
    else:
        wq, wk = ref.q_proj_weight, ref.k_proj_weight
    b = ref.in_proj_bias
    with torch.no_grad():
        Q = torch.nn.functional.linear(q, wq, None if b is None else b[:E])
        K = torch.nn.functional.linear(k, wk, None if b is None else b[E:2 * E])
        heads = lambda z: z.reshape(z.shape[0], T, H, E // H).transpose(1, 2)  # noqa: E731
        L = heads(Q) @ heads(K).transpose(2, 3) / (E // H) ** 0.5
        d = (torch.arange(T)[:, None] - torch.arange(T)[None]).abs()
        top = L.masked_fill(d >= S, -float("inf")).amax(-1).clamp(min=0)  # memories start with zeros
        low = torch.stack([L[:, :, max(0, t - S + 1):t + 1, max(0, t - S + 1):t + 1].logsumexp(-1).amin(-1) for t in range(T)], -1)
        return float(1e-15 * T * (top.amax() - low.amin()).exp())


def check(case):
    import continual as co

    s = case["spec"]
    E, S, B, T, lay = s["E"], s["S"], case["B"], case["T"], case["lay"]
    kd = E if case["kdim"] is None else case["kdim"]
    vd = E if case["vdim"] is None else case["vdim"]
    dims = dict(kdim=case["kdim"], vdim=case["vdim"])
    drop = case.get("drop", "none")  # a probability in evaluation mode, none while training, everything dropped while training
    p = {"none": 0.0, "eval": 0.3, "train": 0.0, "all": 1.0}[drop]
    if case.get("bkv"):
        dims["add_bias_kv"] = True
    ref = nn.MultiheadAttention(E, s["H"], p, bias=s["bias"], batch_first=True, **dims)
    nets.fill(ref, s["ws"], F64).train(drop == "all")
    if case.get("sharp") and s["bias"]:  # attention logits that all lie around the given value
        c = (abs(case["sharp"]) / (E // s["H"]) ** 0.5) ** 0.5
        with torch.no_grad():
            ref.in_proj_bias[:E] += c
            ref.in_proj_bias[E:2 * E] += c if case["sharp"] > 0 else -c
    kw = dict(embed_dim_second=lay == "NET", forward_returns_attn_mask=case["mask"])
    if s["type"] == "single":
        cls = co.SingleOutputMultiheadAttention
        kw.update(query_index=s["qi"], single_output_forward=case["sof"])
    else:
        cls = co.RetroactiveMultiheadAttention
    if case["how"] == "build_from":
        m = cls.build_from(ref, S, batch_first=lay != "TNE", **kw)
        for (n, a), (n0, b) in zip(sorted(m.named_parameters()), sorted(ref.named_parameters())):
            require(n == n0 and torch.equal(a, b) and a is not b, f"parameter {n} was not copied from {n0}")
    else:
        if p:
            dims["dropout"] = p
        m = cls(E, s["H"], bias=s["bias"], batch_first=lay != "TNE", sequence_len=S, **dims, **kw)
        m = m.to(F64)
        m.load_state_dict(ref.state_dict())
    m.train(drop in ("train", "all"))
    require(m.dropout == p, f"dropout {m.dropout} instead of {p}")
    require(int(m.receptive_field) == S, f"receptive field {m.receptive_field} of a window of {S}")
    if s["type"] == "single":
        require(int(m.delay) == S - 1 - s["qi"] % S, f"delay {m.delay} of query {s['qi']} in a window of {S}")

    q = data(case["seed"], (B, T, E), case["vals"], F64) * case["scale"]
    if case["cross"] == "self":
        k = v = q
    elif case["cross"] == "k=v":
        k = v = data((case["seed"], "k"), (B, T, E), case["vals"], F64)
    else:
        k = data((case["seed"], "k"), (B, T, kd), case["vals"], F64)
        v = data((case["seed"], "v"), (B, T, vd), case["vals"], F64)

    perm = {"NET": (0, 2, 1), "NTE": (0, 1, 2), "TNE": (1, 0, 2)}[lay]

    def to(x):  # (B, T, *) -> layout
        return x.permute(*perm)

    def args(a, b):
        xs = [to(z[:, a:b]) for z in ((q,) if case["cross"] == "self" else (q, k, v))]
        return xs

    qi = s["qi"] % S if s["type"] == "single" else None
    tol = 1e-5 if s["type"] == "single" else max(1e-5, cancellation(ref, q, k, S))
    if tol > 1e-2:
        return {"tags": ["ill-conditioned"]}
    with torch.no_grad():
        def window(t):
            """Attention of all tokens among the last S tokens, (B, S, E)."""
            sl = slice(t - S + 1, t + 1)
            return ref(q[:, sl], k[:, sl], v[:, sl])

        # forward over one window
        o = m.forward(*args(0, S))
        want, wts = window(S - 1)
        if s["type"] == "single" and case["sof"]:
            want, wts = want[:, qi:qi + 1], wts[:, qi:qi + 1]
        if case["mask"]:
            same(o[0], to(want), "forward")
            same(o[1], wts, "forward: attention weights")
        else:
            same(o, to(want), "forward")
        if case.get("bkv"):
            return {"tags": ["bias_kv", s["type"], case["how"]]}

        n_out = 0
        for kind, a, b in chunks_of(case["chunks"], T):
            due = [t for t in range(a, b) if t >= S - 1]
            n_out += len(due)
            wants = [window(t)[0] for t in due]
            if kind == "step":
                xs = [z[:, a] for z in ((q,) if case["cross"] == "self" else (q, k, v))]
                o = m.forward_step(*xs)
                if due:
                    w = wants[0][:, qi] if s["type"] == "single" else to(wants[0])
            else:
                o = m.forward_steps(*args(a, b))
                if due and s["type"] == "single":
                    w = to(torch.stack([z[:, qi] for z in wants], 1))
                elif due:
                    w = torch.stack(wants, 1)  # N T S E
                    w = {"NET": w.permute(0, 3, 1, 2), "NTE": w, "TNE": w.permute(1, 2, 0, 3)}[lay]
            if due:
                require(isinstance(o, torch.Tensor), f"{kind}[{a}:{b}]: no output although {len(due)} are due")
                same(o, w, f"{kind}[{a}:{b}] of {T} tokens, window {S}", tol, tol / 10)
            else:
                require(o is None, f"{kind}[{a}:{b}]: output before {S} tokens were seen")
    return {"nontrivial": n_out >= 2 and S > 1, "tags": [s["type"], lay, case["cross"], case["how"]] + (
        ["long"] if T > 30 else []) + [drop] * (drop != "none") + ([f"logits{case['sharp']}"] if s["bias"] else [])}
