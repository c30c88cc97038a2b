"""Layers without memory: the same function of each frame in every mode."""
import torch
from hypothesis import strategies as st
from torch import nn

from .. import gens, nets
from ..util import F32, F64, data, identical, layout, require, same
from . import c10

RULE = "two or more frames, and the layer is a closure with mode-specific functions, or acts across channels or space, or reshapes"
CASES = {"quick": 3000, "thorough": 30000}
ASSUMPTIONS = ["evaluation mode for converted layers"]


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    rank = draw(st.integers(1, 3))
    sp = gens.spatial_dims(draw, rank)
    c = draw(st.integers(1, 4))
    kind = gens.wi(draw, ("lambda", 5), ("linear", 3), ("reshape", 3), ("framewise", 4), ("arith", 2), ("conv1", 2),
                   ("stepdim", 2), ("registered", 1))
    case.update(kind=kind, T=draw(st.integers(1, 6)), f32=gens.flag(draw, 1, 5), rank=rank, shape=[c, *sp])
    if kind == "lambda":
        case.update(fns=[gens.flag(draw), gens.flag(draw), gens.flag(draw)], fn=gens.flag(draw, 3, 4), tt=gens.flag(draw),
                    build=gens.flag(draw, 1, 4))
        if not case["fn"]:
            case["fns"] = [True] * 3
    elif kind == "linear":
        cd = -1 if sp and gens.flag(draw) else 1
        s = gens.linear(draw, sp[-1] if cd == -1 else c, cd=cd)
        case.update(spec=s)
    elif kind == "reshape":
        n = c
        for v in sp:
            n *= v
        ds = [d for d in range(1, n + 1) if n % d == 0]
        a = gens.pick(draw, *ds)
        es = [d for d in range(1, n // a + 1) if (n // a) % d == 0]
        e = gens.pick(draw, *es)
        sh = gens.pick(draw, [a, n // a], [a, e, n // a // e], [n], [-1, a])
        case.update(to=[case["B"], *sh], star=gens.flag(draw), contiguous=gens.flag(draw))
    elif kind == "framewise":
        s, _ = c10.framewise(draw, rank, c, sp)
        case.update(spec=s, dim=2, how=gens.pick(draw, "continual", "stepping"), patch=gens.flag(draw, 1, 6))
    elif kind == "stepdim":  # forward_stepping of a module whose time is in another dimension
        nd = draw(st.integers(3, 5))
        shape = [draw(st.integers(1, 4)) for _ in range(nd)]
        case.update(shape=shape, dim=draw(st.integers(1, nd - 2)), neg=gens.flag(draw), ws=draw(st.integers(0, 60)),
                    mod=gens.pick(draw, "linear", "norm", "softmax", "flip"), net=gens.flag(draw, 1, 3))
    elif kind == "registered":
        case.update(v=draw(st.integers(-4, 4)) / 2, nest=draw(st.integers(0, 2)), again=gens.flag(draw, 1, 3))
    elif kind == "conv1":
        s, _, _ = gens.conv(draw, rank, c, sp, kt=1, pt=0, st_=1, fill=("zeros", "zeros"))
        case.update(spec=s)
    else:
        case.update(f=gens.pick(draw, "add", "mul", "identity", "one", "zero", "constant"), v=draw(st.integers(-5, 5)) / 2)
    return case


def strategy(tier):
    return cases(tier)


class Flip(nn.Module):
    """Of the user: reverses the last dimension."""

    def forward(self, x):
        return x.flip(-1) * 2


class Gain(nn.Module):
    """Of the user, converted by a registered class."""

    def __init__(self, v):
        super().__init__()
        self.v = nn.Parameter(torch.tensor(v))

    def forward(self, x):
        return x * self.v + 1


def check_stepdim(case, co):
    dt = F32 if case["f32"] else F64
    shape, d = case["shape"], case["dim"]
    nd, n, T = len(shape), shape[-1], shape[d]
    orig = {"linear": lambda: nn.Linear(n, 3), "norm": lambda: nn.LayerNorm(n), "flip": Flip,
            "softmax": lambda: nn.Softmax(-1)}[case["mod"]]()
    orig = nets.fill(orig, case["ws"], dt)
    x = layout(data(case["seed"], shape, case["vals"], dt), case["layout"])
    with torch.no_grad():
        Y = orig(x)
        m = co.forward_stepping(orig, dim=d - nd if case["neg"] else d)
        nets.set_mode(m, nets.TRAIN)
        require(int(m.delay) == 0 and int(m.receptive_field) == 1, "delay or receptive field of a layer without memory")
        for _ in range(2):
            same(m(x), Y, "forward")
            same(m.forward_steps(x), Y, "forward_steps")
            same(m.forward_steps(x, pad_end=True, update_state=False), Y, "forward_steps, look-ahead")
            for t in range(T):
                f, w = x.select(d, t), Y.select(d, t)
                same(m.forward_step(f), w, f"forward_step {t} along dimension {d} of {nd}")
                same(m.forward_step(f, update_state=False), w, f"look-ahead {t}")
                o, state = m._forward_step(f, None)
                same(o, w, f"step {t} with a passed state")
                require(state is None, "a layer without memory returns a state")
                with co.call_mode("forward_step"):
                    same(m(f), w, f"call in step mode {t}")
        if case["net"] and d == 2:
            net = co.Sequential(co.Identity(), m)
            same(net.forward(x), Y, "network forward")
            same(net.forward_steps(x), Y, "network forward_steps")
            same(net.forward_step(x.select(2, 0)), Y.select(2, 0), "network forward_step")
    return {"nontrivial": T >= 2 and d != 2, "tags": ["stepdim"]}


def check_registered(case, co):
    class CoGain(co.CoModule, nn.Module):
        def __init__(self, v, extra):
            nn.Module.__init__(self)
            self.v, self.extra = v, extra

        def forward(self, x):
            return x * self.v + self.extra

        def forward_steps(self, x, pad_end=False, update_state=True):
            return self.forward(x)

        def _forward_step(self, x, prev_state=None):
            return self.forward(x), prev_state

        @staticmethod
        def build_from(module):
            return CoGain(module.v, 1)

    class Old(CoGain):
        @staticmethod
        def build_from(module):
            return CoGain(module.v, 5)

    dt = F32 if case["f32"] else F64
    T = case["T"]
    x = layout(data(case["seed"], (case["B"], case["shape"][0], T, *case["shape"][1:]), case["vals"], dt), case["layout"])
    before = dict(co.convert.MODULE_MAPPING)
    try:
        if case["again"]:  # the last registration holds
            co.convert.register(Gain, Old)
        require(co.convert.register(Gain, CoGain) is CoGain, "registering does not return the class")
        g = Gain(case["v"]).to(dt)
        orig = g
        for _ in range(case["nest"]):
            orig = nn.Sequential(orig, nn.Tanh())
        with torch.no_grad():
            Y = orig(x)
            m = co.continual(orig) if case["nest"] else co.Sequential(g)
            require(any(isinstance(p, CoGain) for p in m.modules()), "the registered class is not used")
            require([p is g.v for p in m.parameters()] == [True], "the parameter handed over by build_from is lost")
            same(m.forward(x), Y, "forward")
            same(m.forward_steps(x), Y, "forward_steps")
            for t in range(T):
                same(m.forward_step(x[:, :, t]), Y[:, :, t], f"forward_step {t}")
    finally:
        co.convert.MODULE_MAPPING.clear()
        co.convert.MODULE_MAPPING.update(before)
    return {"nontrivial": T >= 2 and case["nest"] > 0, "tags": ["registered"]}


def check(case):
    import continual as co

    if case["kind"] == "stepdim":
        return check_stepdim(case, co)
    if case["kind"] == "registered":
        return check_registered(case, co)

    dt = F32 if case["f32"] else F64
    c, *sp = case["shape"]
    T, k = case["T"], case["kind"]
    x = layout(data(case["seed"], (case["B"], c, T, *sp), case["vals"], dt), case["layout"])
    frames = [x[:, :, t] for t in range(T)]
    if k == "lambda":
        fn = (lambda z: z * 2 + 1) if case["tt"] else nets._center
        each = lambda z: torch.stack([fn(z[:, :, t]) for t in range(z.shape[2])], 2)  # noqa: E731
        only = [(lambda z, j=j: z * (j + 3) - j) if u else None for j, u in enumerate(case["fns"])]
        mk = co.Lambda.build_from if case["build"] else co.Lambda
        m = mk(fn if case["fn"] else None, forward_only_fn=only[0], forward_step_only_fn=only[1],
               forward_steps_only_fn=only[2], takes_time=case["tt"])
        want_f = (only[0] or (fn if case["tt"] else each))(x)
        want_n = (only[2] or (fn if case["tt"] else each))(x)
        want_1 = [(only[1] or fn)(f) for f in frames]
    else:
        if k in ("linear", "conv1"):
            m = nets.build(case["spec"], dt)
            Y = nets.ref(case["spec"], x, "forward")[0]
        elif k == "framewise":
            orig = nets.torch_layer(case["spec"], dt)
            with torch.no_grad():
                Y = orig(x)
            if case["patch"]:  # forward was replaced on the instance
                inner = orig.forward
                orig.forward = lambda z: inner(z) * 2 - 1
                Y = Y * 2 - 1
            m = co.continual(orig) if case["how"] == "continual" else co.forward_stepping(orig)
            nets.set_mode(m, nets.TRAIN)
        elif k == "reshape":
            sh = case["to"]
            m = (co.Reshape(*sh, contiguous=case["contiguous"]) if case["star"] else
                 co.Reshape(tuple(sh), contiguous=case["contiguous"]))
            Y = torch.stack([f.reshape(sh) for f in frames], 2)
        else:
            m = {"add": lambda: co.Add(case["v"]), "mul": lambda: co.Multiply(case["v"]), "identity": lambda: co.Identity(3, a=1),
                 "one": co.One, "zero": co.Zero, "constant": lambda: co.Constant(case["v"])}[case["f"]]()
            Y = {"add": lambda: x + case["v"], "mul": lambda: x * case["v"], "identity": lambda: x.clone(),
                 "one": lambda: torch.ones_like(x), "zero": lambda: torch.zeros_like(x),
                 "constant": lambda: torch.full_like(x, case["v"])}[case["f"]]()
        want_f = want_n = Y
        want_1 = [Y[:, :, t] for t in range(T)]
    require(int(m.delay) == 0 and int(m.receptive_field) == 1, f"delay {m.delay}, receptive field {m.receptive_field}")
    x0 = x.clone()
    with torch.no_grad():
        for rnd in range(2):  # without memory the second round is like the first
            outs = [("forward", m.forward(x), want_f), ("call", m(x), want_f), ("forward_steps", m.forward_steps(x), want_n),
                    ("forward_steps, look-ahead", m.forward_steps(x, update_state=False), want_n),
                    ("forward_steps, padded", m.forward_steps(x, pad_end=True), want_n)]
            outs += [(f"forward_step {t}", m.forward_step(f), w) for t, (f, w) in enumerate(zip(frames, want_1))]
            outs += [(f"look-ahead {t}", m.forward_step(f, update_state=False), w) for t, (f, w) in enumerate(zip(frames, want_1))]
            with co.call_mode("forward_step"):
                outs.append(("call in step mode", m(frames[0]), want_1[0]))
            with co.call_mode("forward_steps"):
                outs.append(("call in steps mode", m(x), want_n))
            for what, o, w in outs:
                same(o, w, what)
                if k == "reshape" and case["contiguous"]:
                    require(o.is_contiguous(), f"{what}: not contiguous")
            require(m.get_state() is None, "a layer without memory reports a state")
            m.clean_state()
    if k != "framewise":
        identical(x, x0, "the input changed")
    nt = T >= 2 and (k in ("linear", "reshape", "conv1") or k == "lambda" and any(case["fns"]) or k == "framewise")
    return {"nontrivial": nt, "tags": [k] + ([case["spec"]["cls"]] if k == "framewise" and "cls" in case["spec"] else [])}



