"""State dicts: exchange with torch.nn, flattening, and independence of the stream."""
from collections import OrderedDict

import torch
from hypothesis import strategies as st

from .. import gens, nets
from ..runner import Violation
from ..util import F32, F64, check_stream, chunks_of, data, drive, require, same
from .c05 import call

RULE = "the module has at least two parameters or buffers and the stream had outputs"
CASES = {"quick": 2500, "thorough": 25000}
ASSUMPTIONS = ["evaluation mode"]


def flattenable(draw, rank, c, sp):
    """A nest of containers whose flattened keys do not collide."""
    i = [0]

    def go(d, c):
        k = gens.wi(draw, ("leaf", 3), ("seq", 3 if d else 0), ("br", 2 if d else 0), ("res", 2 if d else 0))
        if k == "leaf":
            return gens.t_leaf(draw, rank, c, sp, 0, 1, cout=c + 1 if draw(st.booleans()) else None)[0:2]
        if k == "seq":
            ms = [gens.pointwise(draw, rank, c)] if gens.flag(draw) else []
            ms = [m for m in ms if m["op"] != "bn"]
            m, c = go(d - 1, c)
            ms.append(m)
            return {"op": "seq", "mods": ms, "named": False}, c
        if k == "br":
            i[0] += 1
            m, c2 = go(d - 1, c)
            n, c3 = go(d - 1, c)
            return {"op": "br", "mods": [m, n], "reduce": "concat", "named": gens.pick(draw, True, "digit")}, c2 + c3
        m, c2 = go(d - 1, c)
        if nets.delay(m) % 2:
            return m, c2
        return {"op": "res", "mod": m, "reduce": "concat", "shrink": False, "fill": None}, c + c2

    s, c = go(3, c)
    return {"op": "seq", "mods": [s], "named": False}


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    k = gens.wi(draw, ("flat", 4), ("net", 4), ("any", 4))
    if k == "flat":
        rank = draw(st.integers(1, 3))
        c, sp = draw(st.integers(1, 3)), gens.spatial_dims(draw, rank, 1, 3)
        s = flattenable(draw, rank, c, sp)
        if gens.flag(draw, 1, 8):  # numbers of two digits
            n = draw(st.integers(9, 12))
            fs = [{"op": "act", "f": gens.pick(draw, "relu", "tanh")} for _ in range(n)]
            s["mods"][draw(st.integers(0, 1)):0] = fs
    else:
        s, c, sp = gens.subject(draw, case["B"], leaf=0 if k == "net" else 4, att=0 if k == "net" else 3,
                                rnn_=0 if k == "net" else 2, rpe_=0 if k == "net" else 1)
    d = nets.delay(s)
    cap = s["N"] if s["op"] == "rpe" else 12
    case.update(spec=s, shape=[c, *sp], wrap=draw(st.integers(0, 2)), f32=gens.flag(draw, 1, 5),
                lead=[-draw(st.integers(0, d + 2)), draw(st.integers(1, min(cap, 3)))],
                how=gens.pick(draw, "plain", "arg", "context", "nested", "flag", "function"),
                fail=gens.flag(draw), strict=gens.flag(draw, 2, 3), drop=gens.pick(draw, None, draw(st.integers(0, 30))))
    return gens.tame(case)


def strategy(tier):
    return cases(tier)


def reweigh(s, by):
    """The same architecture with other weights."""
    if isinstance(s, dict):
        return {k: (v + by if k == "ws" else reweigh(v, by)) for k, v in s.items()}
    if isinstance(s, list):
        return [reweigh(v, by) for v in s]
    return s


def save(m, how, co):
    if how == "plain":
        return m.state_dict()
    if how == "function":
        return co.state_dict(m, flatten=True)
    if how == "arg":
        return m.state_dict(flatten=True)
    if how == "flag":
        m.flatten_state_dict = True
        try:
            return m.state_dict()
        finally:
            m.flatten_state_dict = False
    with co.flat_state_dict:
        if how == "nested":
            with co.flat_state_dict:
                m.state_dict()
        return m.state_dict()


def restore(m, sd, how, co, strict=True):
    kw = {} if strict else {"strict": False}
    if how == "plain":
        return m.load_state_dict(sd, **kw)
    if how == "function":
        return co.load_state_dict(m, sd, flatten=True, **kw)
    if how == "arg":
        return m.load_state_dict(sd, flatten=True, **kw)
    if how == "flag":
        m.flatten_state_dict = True
        try:
            return m.load_state_dict(sd, **kw)
        finally:
            m.flatten_state_dict = False
    with co.flat_state_dict:
        if how == "nested":
            with co.flat_state_dict:
                m.state_dict()
        return m.load_state_dict(sd, **kw)


def short(k):
    return ".".join(p for p in k.split(".") if not p.isdigit())


def check(case):
    import continual as co

    s = case["spec"]
    dt = F32 if case["f32"] else F64
    c, *sp = case["shape"]
    how = case["how"]
    container = s["op"] in ("seq", "br", "bpr", "te", "tel")
    if how in ("arg", "flag", "context", "nested") and not container:
        how = "function"
    shape = lambda T: (case["B"], c, T, *sp)  # noqa: E731
    lead, k = case["lead"]
    m, twin = nets.build(s, dt), nets.build(s, dt)
    other = nets.build(reweigh(s, 61), dt)

    sd0 = OrderedDict((n, v.clone()) for n, v in m.state_dict().items())
    long_keys = list(sd0)
    ref_keys = {n for n, _ in m.named_parameters()}
    buffers = {n for n, _ in m.named_buffers()} & set(long_keys)
    require(ref_keys <= set(long_keys), f"state dict {long_keys} lacks parameters")
    tl = nets.torch_layer(s, dt)
    if tl is not None:
        require(list(tl.state_dict()) == long_keys, f"state dict {long_keys}, torch.nn has {list(tl.state_dict())}")
        tl.load_state_dict(m.state_dict())
        other.load_state_dict(tl.state_dict())
        other = nets.build(reweigh(s, 61), dt)

    # streaming leaves the state dict alone
    outs = 0
    if lead:
        x = data((case["seed"], "l"), shape(-lead), case["vals"], dt)
        same(call(m, x, lead), call(twin, x, lead), "lead")
    sd1 = m.state_dict()
    require(list(sd1) == long_keys, f"streaming changed the entries of the state dict: {long_keys} -> {list(sd1)}")
    for n in sd1:
        require(torch.equal(sd1[n], sd0[n]), f"streaming changed {n} in the state dict")

    # save (mid-stream), possibly flattened
    sd = save(m, how, co)
    flat_ok = len({short(n) for n in long_keys}) == len(long_keys)
    want_keys = long_keys if how == "plain" or not flat_ok else [short(n) for n in long_keys]
    require(list(sd) == want_keys, f"{how}: keys {list(sd)}, expected {want_keys}")
    for n, l in zip(sd, long_keys):
        require(torch.equal(sd[n], sd0[l]), f"{how}: entry {n} differs from {l}")
    if case["fail"] and container:  # an exception within the context does not leave it switched on
        try:
            with co.flat_state_dict:
                raise KeyError
        except KeyError:
            pass
    require(list(m.state_dict()) == long_keys, "state dict stays flattened outside of its context")

    # restore into another instance, possibly with more unnamed nesting
    sd = OrderedDict((n, v.clone()) for n, v in sd.items())
    tgt = other
    for _ in range(case["wrap"] if how != "plain" and flat_ok else 0):
        tgt = co.Sequential(tgt)
    res = restore(tgt, sd, how if tgt is not other or container or how in ("plain", "function") else "function", co, case["strict"])
    require(not res.missing_keys and not res.unexpected_keys, f"{how}: load_state_dict: {res}")
    for (n, v), l in zip(other.state_dict().items(), long_keys):
        require(torch.equal(v, sd0[l]), f"{how}: entry {n} was not restored")
    nets.set_mode(other, nets.TRAIN)
    x = data((case["seed"], "o"), shape(3), case["vals"], dt)
    fresh = nets.build(s, dt)
    for t in range(3):
        same(other.forward_step(x[:, :, t]), fresh.forward_step(x[:, :, t]), f"{how}: step {t} of the restored module")

    # an entry of another name: refused, or left out if not strict
    named = [j for j, n in enumerate(long_keys) if not n.endswith("num_batches_tracked")]  # torch fills that one in
    if case["drop"] is not None and named and (flat_ok or how == "plain"):
        i = named[case["drop"] % len(named)]
        odd = OrderedDict(("odd" if j == i else n, v) for j, (n, v) in enumerate(sd.items()))
        part = nets.build(reweigh(s, 61), dt)
        before = part.state_dict()[long_keys[i]].clone()
        res = restore(part, odd, how, co, False)
        require(res.missing_keys == [long_keys[i]], f"{how}: missing entries {res.missing_keys}, left out {long_keys[i]}")
        for j, (n, v) in enumerate(part.state_dict().items()):
            require(torch.equal(v, before if j == i else sd0[n]), f"{how}, not strict, without {long_keys[i]}: entry {n}")
        try:
            restore(nets.build(s, dt), odd, how, co)
        except (KeyError, RuntimeError):
            pass
        else:
            raise Violation(f"{how}: an unknown entry instead of {long_keys[i]} was accepted")

    # loading does not disturb the stream
    restore(m, sd, how, co)
    x = data((case["seed"], "r"), shape(k), case["vals"], dt)
    o = call(m, x, k)
    same(o, call(twin, x, k), f"{how}: stream after loading a state dict")
    outs += o is not None
    return {"nontrivial": len(long_keys) >= 2 and bool(outs), "tags": [s["op"], how, "flat" if flat_ok else "collide"] + (
        ["buffers"] if buffers else [])}
