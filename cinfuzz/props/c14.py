"""Continual transformer encoders against torch.nn.TransformerEncoder on the attended window."""
import copy

import torch
import torch.nn.functional as F
from hypothesis import strategies as st
from torch import nn

from .. import gens, nets
from ..runner import Violation
from ..util import F64, chunks_of, data, require, same

RULE = "at least two outputs were due, sequence_len > 1"
CASES = {"quick": 2000, "thorough": 20000}
ASSUMPTIONS = ["double precision, moderate attention logits", "post-norm layers (norm_first is refused, see C31), evaluation mode"]
# Activations by name, as functions and as modules. Those of a module may have parameters
ACTS = {
    "relu": lambda: F.relu, "gelu": lambda: F.gelu, "silu": lambda: F.silu, "tanh_b": lambda: torch.tanh,
    "lambda": lambda: (lambda x: x * torch.sigmoid(x)), "relu_m": nn.ReLU, "gelu_m": nn.GELU,
    "lrelu_m": lambda: nn.LeakyReLU(0.3), "elu_m": lambda: nn.ELU(0.7), "prelu_m": nn.PReLU, "soft_m": nn.Softplus,
}
NAMED = ("relu", "gelu")


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    kind = gens.wi(draw, ("enc", 5), ("single", 3), ("retro", 3))
    H = draw(st.integers(1, 3))
    S = gens.rare(draw, 1, 6, 20, 15)
    n = draw(st.integers(0, 2 * S + 2))
    if gens.flag(draw, 1, 30):
        n += draw(st.integers(20, 60 if tier == "quick" else 300))
    case.update(
        kind=kind, E=H * gens.rare(draw, 1, 3, 8), H=H, F=gens.rare(draw, 1, 7, 24), S=S, T=S + n, L=gens.rare(draw, 1, 4, 10),
        norm=gens.flag(draw), act=gens.pick(draw, *NAMED, *sorted(ACTS), "prelu_m"), qi=gens.pick(draw, -1, draw(st.integers(-S, S - 1))),
        sof=gens.flag(draw), eps=gens.pick(draw, 1e-5, 1e-2), ws=draw(st.integers(0, 60)), chunks=gens.chunk_list(draw),
        how=gens.pick(draw, "build_from", "factory"), vals=gens.pick(draw, "normal", "neg", "sparse"),
        mode=gens.flag(draw, 1, 4), drop=gens.pick(draw, 0.0, 0.3))
    return case


def strategy(tier):
    return cases(tier)


def params(layer, own):
    """Loads the parameters of a torch encoder layer into a continual one, by their common names."""
    todo = dict(layer.named_parameters())
    with torch.no_grad():
        for n, p in own.named_parameters():
            m = [k for k in todo if k.split(".")[0] in n.split(".") and n.endswith("." + k.split(".", 1)[1])]
            if len(m) != 1:
                raise Violation(f"no counterpart for {n}: {m}")
            p.copy_(todo.pop(m[0]))
    if todo:
        raise Violation(f"left over: {list(todo)}")


def check(case):
    import continual as co

    E, S, B, T = case["E"], case["S"], case["B"], case["T"]
    kind = case["kind"]
    qi = case["qi"] % S if kind == "single" else S - 1
    act = ACTS[case["act"]]
    tel = nn.TransformerEncoderLayer(E, case["H"], case["F"], case["drop"],
                                     case["act"] if case["act"] in NAMED and case["drop"] else act(), case["eps"],
                                     batch_first=True)
    norm = nn.LayerNorm(E, eps=case["eps"]) if case["norm"] else None
    kw = dict(d_model=E, nhead=case["H"], dim_feedforward=case["F"], dropout=case["drop"], layer_norm_eps=case["eps"],
              sequence_len=S)
    if kind == "enc":
        ref = nn.TransformerEncoder(tel, case["L"], norm, enable_nested_tensor=False)
        nets.fill(ref, case["ws"], F64).eval()
        if case["how"] == "build_from":
            orig, ref = ref, copy.deepcopy(ref)
            m = co.TransformerEncoder.build_from(orig, S)
            for (n, a), (_, b) in zip(orig.named_parameters(), ref.named_parameters()):
                require(torch.equal(a, b), f"the conversion changed {n} of the original")
        else:
            fac = co.TransformerEncoderLayerFactory(activation=case["act"] if case["mode"] and case["act"] in NAMED else act(), **kw)
            m = co.TransformerEncoder(fac, case["L"], nn.LayerNorm(E, eps=case["eps"]) if norm else None).to(F64)
            # parameters by position of the layer
            for i, layer in enumerate(ref.layers):
                params(layer, m[0][i])
            if norm:
                m.norm.fn.load_state_dict(ref.norm.state_dict())
    else:
        ref = nets.fill(tel, case["ws"], F64).eval()
        if kind == "single":
            m = co.SingleOutputTransformerEncoderLayer(activation=act(), single_output_forward=case["sof"],
                                                       query_index=case["qi"], **kw)
        else:
            m = co.RetroactiveTransformerEncoderLayer(activation=act(), **kw)
        m = m.to(F64)
        params(ref, m)
    nets.set_mode(m, nets.TRAIN)
    if kind == "enc":
        for a in (orig if case["how"] == "build_from" else ref).parameters():
            require(all(a is not b for b in m.parameters()) or case["how"] == "build_from" and case["norm"],
                    "parameters are shared with the original")

    x = data(case["seed"], (B, E, T), case["vals"], F64)
    with torch.no_grad():
        def window(t):  # (B, E, S)
            return ref(x[:, :, t - S + 1:t + 1].transpose(1, 2)).transpose(1, 2)

        want = window(S - 1)
        if kind == "enc" and case["L"] > 1:
            want = want[:, :, -1:]
        elif kind == "single" and case["sof"]:
            want = want[:, :, qi:qi + 1]
        tol = (1e-5, 1e-6)
        same(m.forward(x[:, :, :S]), want, "forward", *tol)

        n_out = 0
        for k, a, b in chunks_of(case["chunks"], T):
            due = [t for t in range(a, b) if t >= S - 1]
            n_out += len(due)
            ws = [window(t) if kind == "retro" else window(t)[:, :, qi] for t in due]
            mode = "forward_step" if k == "step" else "forward_steps"
            xi = x[:, :, a] if k == "step" else x[:, :, a:b]
            if case["mode"]:
                with co.call_mode(mode):
                    o = m(xi)
            else:
                o = getattr(m, mode)(xi)
            if not due:
                require(o is None, f"{k}[{a}:{b}]: output before {S} tokens were seen")
                continue
            require(isinstance(o, torch.Tensor), f"{k}[{a}:{b}]: no output although {len(due)} are due")
            same(o, ws[0] if k == "step" else torch.stack(ws, 2), f"{k}[{a}:{b}] of {T} tokens, window {S}", *tol)
            if case["seed"] % 7 == 0:  # forward in between does not matter
                m.forward(x[:, :, :S])
    if kind == "enc" and case["how"] == "build_from":
        with torch.no_grad():
            same(orig(x[:, :, :S].transpose(1, 2)), ref(x[:, :, :S].transpose(1, 2)), "the original after conversion", *tol)
    return {"nontrivial": n_out >= 2, "tags": [kind, case["how"] if kind == "enc" else "layer"] + (
        [f"layers{case['L']}"] if kind == "enc" else []) + [f"act:{case['act']}"]}
