"""Forward hooks on any part of a network, in every call mode."""
import torch
from hypothesis import strategies as st
from torch import nn

from .. import gens, nets
from ..util import F64, chunks_of, data, require, same
from .c24 import no_bn, stochastic

RULE = "a hook of a part inside the network ran at least twice and the network has a layer with memory"
CASES = {"quick": 3000, "thorough": 30000}
ASSUMPTIONS = ["double precision, evaluation mode", "hooks on layers and sub-networks that map a tensor to a tensor",
               "a method called directly on the outermost module does not run its own hooks (as in torch.nn)"]


def merges(s):
    """Does it take grouped streams?"""
    return s["op"] == "merge" or s["op"] == "seq" and merges(s["mods"][0])


def nodes(s, inside=False, cond=False):
    """(node, lies inside of the network, lies where inputs may be delayed: conditionals, strided branches)"""
    if not merges(s):
        yield s, inside, cond
    if s["op"] in ("br", "bpr") and nets.stride(s["mods"][0]) > 1:
        cond = True
    for m in s.get("mods", []) + (s.get("mods2") or []):
        yield from nodes(m, True, cond)
    for k in ("mod", "t", "f"):
        if isinstance(s.get(k), dict):
            yield from nodes(s[k], True, cond or k in "tf")


@st.composite
def hook(draw):
    fs = st.lists(st.sampled_from(["affine", "flip", "squash", "none"]), max_size=2)
    h = {"pre": draw(fs), "post": draw(fs), "kw": gens.flag(draw, 1, 3), "bw": gens.wi(draw, (False, 6), ("full", 1), ("pre", 1), ("legacy", 1))}
    if not h["pre"] and not h["post"]:
        h["post"] = ["none"]
    return h


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    kind = gens.wi(draw, ("net", 6), ("leaf", 3), ("rnn", 1))
    if kind == "leaf":
        s, c, sp = gens.temporal_leaf(draw)
        if s["op"] == "delay":
            s["shrink"] = False
    elif kind == "rnn":
        c, sp = draw(st.integers(1, 3)), []
        s = gens.rnn(draw, c)
    else:
        rank = draw(st.integers(1, 3))
        sp = gens.spatial_dims(draw, rank, 1, 3)
        c = draw(st.integers(1, 3))
        s, _, _ = gens.chain(draw, rank, c, sp, draw(st.integers(1, 3)), 1 + int(gens.flag(draw)), shrinks=False)
        s = gens.set_batch(s, case["B"])
        if gens.flag(draw):
            s = no_bn(s)
    all_ = [n for n, _, _ in nodes(s) if not (n["op"] == "func" and n["f"] in ("fn", "builtin"))]
    inner = all_[1:] or all_
    for i in range(draw(st.integers(1, 3))):
        n = gens.pick(draw, *(inner if gens.flag(draw, 4, 5) else all_))
        n["hook"] = draw(hook())
        if n["op"] == "rnn":
            n["hook"]["bw"] = False
    for n, _, _ in nodes(s):
        if n["op"] == "bpr" and gens.flag(draw):
            n["shook"] = {"at": gens.pick(draw, "bc", "par_pre", "par_post", "red_pre"), "f": gens.pick(draw, "affine", "flip"),
                          "tuple": gens.flag(draw)}
    T = min(nets.delay(s), 40) + 1 + draw(st.integers(0, 6)) * min(nets.stride(s), 8)
    case.update(spec=s, shape=[c, T, *sp], chunks=gens.chunk_list(draw), how=gens.pick(draw, "ctx", "attr", "direct", "enclosing"),
                us=gens.flag(draw, 1, 3), nofill=gens.wi(draw, (False, 5), (True, 1), ("kw", 1)), glob=gens.flag(draw, 1, 4), offline=gens.flag(draw) and all(l["op"] != "adaptive" for l in nets.leaves(s)))
    return case


def strategy(tier):
    return cases(tier)


def install(m, h, log):
    """Registers the hooks of a node on its module; log collects what the hooks get."""
    hs = []
    first_pre = len(h["pre"]) > 0

    def val(o):
        return o[0] if isinstance(o, tuple) else o

    for i, f in enumerate(h["pre"]):
        def pre(mod, args, kwargs=None, i=i, f=f):
            require(mod is m, "the hook gets another module")
            if i == 0:
                log.append(["in", args[0].detach().clone()])
            else:
                log.append(["pre", None])
            if f == "none":
                return None
            new = (nets.HOOKS[f](args[0]), *args[1:])
            return new if kwargs is None else (new, kwargs)

        hs.append(m.register_forward_pre_hook(pre, **({"with_kwargs": True} if h["kw"] else {})))
    for i, f in enumerate(h["post"]):
        def post(mod, args, *rest, i=i, f=f):
            require(mod is m, "the hook gets another module")
            out = rest[-1]
            if i == 0:
                if not first_pre:
                    log.append(["in", args[0].detach().clone()])
                log.append(["out", None if val(out) is None else val(out).detach().clone()])
            else:
                log.append(["post", None])
            if f == "none" or out is None:
                return None
            new = nets.HOOKS[f](val(out))
            return (new, *out[1:]) if isinstance(out, tuple) else new

        hs.append(m.register_forward_hook(post, **({"with_kwargs": True} if h["kw"] else {})))
    return hs


def install_streams(m, h):
    """A hook on a part of Broadcast -> Parallel (-> Dispatch -> Parallel) -> Reduce, that replaces the list of streams."""
    def each(xs):
        return [each(x) if isinstance(x, (list, tuple)) else None if x is None else nets.HOOKS[h["f"]](x) for x in xs]

    def pre(mod, args):
        xs = each(args[0])
        return (xs,) if h["tuple"] else xs

    at = h["at"]
    if at == "par_pre":
        return m[1].register_forward_pre_hook(pre)
    if at == "red_pre":
        return m[len(m) - 1].register_forward_pre_hook(pre)
    return m[0 if at == "bc" else 1].register_forward_hook(lambda mod, args, out: each(out))


def install_global(world):
    """Hooks for all modules: world counts calls by module."""
    from torch.nn.modules import module as tm

    def count(mod, k):
        world[id(mod), k] = world.get((id(mod), k), 0) + 1

    return [tm.register_module_forward_pre_hook(lambda mod, args: count(mod, "pre")),
            tm.register_module_forward_hook(lambda mod, args, out: count(mod, "post"))]


def call(m, kind, x, case):
    import continual as co

    mode = {"step": "forward_step", "steps": "forward_steps", "forward": "forward"}[kind]
    kw = {"update_state": True} if case["us"] and kind != "forward" else {}
    if case["how"] == "direct":
        return getattr(m, mode)(x, **kw)
    if case["how"] == "attr":
        m.call_mode = mode
        return m(x, **kw)
    if case["how"] == "enclosing":
        with co.call_mode("forward" if mode != "forward" else "forward_step"):
            with co.call_mode(mode):
                return m(x, **kw)
    with co.call_mode(mode):
        return m(x, **kw)


def run(m, X, chunks, case, fill=None):
    res = []
    for kind, a, b in chunks:
        o = call(m, kind, X[:, :, a] if kind == "step" else X[:, :, a:b], case)
        if fill is not None:
            require(o is not None, "the result of a hook was dropped where the network had no output")
            o = None if o is fill else o
        if o is not None:
            res.append(o.unsqueeze(2) if kind == "step" else o)
    return torch.cat(res, 2) if res else None


def check(case):
    nets.CAPTURE = {"mods": {}, "refs": {}}
    try:
        with torch.no_grad():
            return _check(case, nets.CAPTURE)
    finally:
        for h in nets.CAPTURE.get("global", []):
            h.remove()
        nets.CAPTURE = None


def backward(m, s, rs, X, mode, case, cap, bw, undetermined):
    """Full backward hooks see the gradients of the call's arguments and result."""
    m.clean_state()
    X = data((case["seed"], "bw"), X.shape, "normal", F64)
    x, xr = X.clone().requires_grad_(), X.clone().requires_grad_()
    cap["grads"] = ref_grads = {}
    Y, _ = nets.ref(rs, xr, "stream" if mode == "steps" else "forward")
    if Y is None:
        return 0
    got, hs = {}, []
    for n in bw:
        mod = m if n["uid"] == s["uid"] else cap["mods"][n["uid"]]

        def hook(mod_, gin, gout, uid=n["uid"]):
            got.setdefault(uid, []).append((gin[0].clone(), gout[0].clone()))

        def legacy(mod_, gin, gout, uid=n["uid"]):
            got.setdefault(uid, []).append((None, gout[0].clone()))

        def pre(mod_, gout, uid=n["uid"]):
            got.setdefault(uid, []).append((None, gout[0].clone()))

        if n["hook"]["bw"] == "legacy":
            hs.append(mod.register_backward_hook(legacy))
        elif n["hook"]["bw"] == "pre":
            hs.append(mod.register_full_backward_pre_hook(pre))
        else:
            hs.append(mod.register_full_backward_hook(hook))
    m.train(not stochastic(s))
    o = call(m, mode, x, case)
    o = o[0] if isinstance(o, tuple) else o
    m.eval()
    g = data((case["seed"], "g"), Y.shape, "normal", F64)
    (Y * g).sum().backward()
    (o * g).sum().backward()
    del cap["grads"]
    same(x.grad, xr.grad, f"{mode}: gradient with backward hooks", 1e-6, 1e-7)
    for n in bw:
        uid, name = n["uid"], f"{mode}: backward hook of {n['op']}"
        want = ref_grads.get(uid)
        k = 1 if want is not None and len(want) == 2 else 0
        legacy = n["hook"]["bw"] == "legacy"
        if legacy and uid not in got and n["op"] not in ("conv", "linear", "pool", "bn"):
            continue  # the result may be the input itself, which has no history
        if legacy and n["op"] not in ("conv", "linear", "pool", "bn"):
            require(len(got[uid]) == 1, f"{name}: ran {len(got[uid])} times")
        elif k:
            require(len(got.get(uid, [])) == 1, f"{name}: ran {len(got.get(uid, []))} times")
            if mode == "forward" or uid not in undetermined:
                if got[uid][0][0] is not None:
                    same(got[uid][0][0], want["in"], name + ": gradient of the input", 1e-6, 1e-7)
                same(got[uid][0][1], want["out"], name + ": gradient of the result", 1e-6, 1e-7)
        else:
            require(uid not in got, f"{name}: ran although nothing flows through it")
    for h in hs:
        h.remove()
    return len(got)


def bare(s):
    s = {k: v for k, v in s.items() if k not in ("hook", "shook")}
    for k in ("mods", "mods2"):
        if s.get(k):
            s[k] = [bare(m) for m in s[k]]
    for k in ("mod", "t", "f"):
        if isinstance(s.get(k), dict):
            s[k] = bare(s[k])
    return s


def _check(case, cap):
    import continual as co

    s = nets.number(case["spec"])
    c, T, *sp = case["shape"]
    m = co.continual(nets.build(s, F64))
    X = data(case["seed"], (case["B"], c, T, *sp), case["vals"], F64)
    logs, handles = {}, []
    for n, _, _ in nodes(s):
        if n.get("hook"):
            logs[n["uid"]] = []
            mod = m if n["uid"] == s["uid"] else cap["mods"][n["uid"]]
            handles += install(mod, n["hook"], logs[n["uid"]])
    for n, _, _ in nodes(s):
        if n.get("shook"):
            handles.append(install_streams(m if n["uid"] == s["uid"] else cap["mods"][n["uid"]], n["shook"]))
    rs = s
    if case["how"] == "direct":
        rs = {k: v for k, v in s.items() if k != "hook"}
    world = {}
    if case.get("glob"):
        cap["global"] = install_global(world)
        handles += cap["global"]
    inside = [n["uid"] for n, i, _ in nodes(s) if i and n.get("hook")]
    not_taken = {q["uid"] for n, _, _ in nodes(s) if n["op"] == "cond"
                 for b in [n["f"] if n["val"] else n["t"]] if b for q, _, _ in nodes(b)}
    in_cond = {n["uid"] for n, _, c_ in nodes(s) if c_}

    def audit_global(what):
        for u, log in logs.items():
            mod = m if u == s["uid"] else cap["mods"][u]
            h = next(n["hook"] for n, _, _ in nodes(s) if n["uid"] == u)
            for k, own in (("pre", h["pre"]), ("post", h["post"])):
                ran = sum(1 for kk, _ in log if kk == {"pre": "in", "post": "out"}[k])
                if own:
                    require(world.get((id(mod), k), 0) == ran, f"{what}: global {k} hook ran {world.get((id(mod), k), 0)} times for a "
                            f"{type(mod).__name__} whose own hook ran {ran} times")
        world.clear()

    def audit(chunks, what):
        """The hooks saw exactly the calls that are due."""
        for n, _, _ in nodes(rs):
            if not n.get("hook"):
                continue
            log, h = logs[n["uid"]], n["hook"]
            x, times, y, t_out = cap.get("seen", {}).get(n["uid"], (None, [], None, []))
            name = f"{what}: hooks of {n['op']}"
            ins = [v for k, v in log if k == "in"]
            outs = [v for k, v in log if k == "out"]
            if chunks is None:
                n_calls = int(n["uid"] in cap.get("seen", {}))
            else:
                n_calls = sum(1 for _, a, b in chunks if any(a <= t < b for t in times))
            if chunks is not None and n["uid"] in in_cond:  # the moment is not determined
                if n["uid"] not in cap.get("seen", {}) and n["uid"] in not_taken:
                    require(not log, f"{name}: run {len(log)} times although the branch is not taken")
                continue
            require(len(ins) == n_calls, f"{name}: ran for {len(ins)} calls instead of {n_calls}")
            require(len(log) == n_calls * (len(h["pre"]) + len(h["post"]) + (not h["pre"])), f"{name}: {len(log)} records")
            if chunks is None:
                if n_calls:
                    same(ins[0], x, name + ": input")
                    if h["post"]:
                        same(outs[0], y, name + ": output")
                continue
            due = [(k, a, b) for k, a, b in chunks if any(a <= t < b for t in times)]
            i = j = 0
            for q, (k, a, b) in enumerate(due):
                want = x[:, :, [p for p, t in enumerate(times) if a <= t < b]]
                same(ins[q], want[:, :, 0] if k == "step" else want, f"{name}: input of call {q}")
                if not h["post"]:
                    continue
                idx = [p for p, t in enumerate(t_out) if a <= t < b]
                if idx:
                    want = y[:, :, idx]
                    same(outs[q], want[:, :, 0] if k == "step" else want, f"{name}: result of call {q}")
                else:
                    require(outs[q] is None, f"{name}: result of call {q} where none is due")

    n_ran = 0
    if case["offline"] and gens.length(s, T, "forward") > 0:
        cap["seen"] = {}
        Y, _ = nets.ref(rs, X, "forward")
        o = call(m, "forward", X, case)
        if Y is not None:
            same(o[0] if isinstance(o, tuple) else o, Y, "forward")
            audit(None, "forward")
        if case.get("glob"):
            audit_global("forward")
        if Y is not None:
            n_ran = max([len(logs[u]) for u in inside], default=0)
        for l in logs.values():
            l.clear()
    chunks = chunks_of(case["chunks"], T)
    cap["seen"] = {}
    Y, times = nets.ref(rs, X, "stream")
    mark = None
    if case.get("nofill") and case["how"] != "direct":
        mark = torch.zeros(1)
        if case["nofill"] == "kw":
            hm = m.register_forward_hook(lambda mod, args, kwargs, out: mark if out is None else None, with_kwargs=True)
        else:
            hm = m.register_forward_hook(lambda mod, args, out: mark if out is None else None)
    o = run(m, X, chunks, case, mark)
    if mark is not None:
        hm.remove()
    same(o, Y, "stream with hooks")
    audit(chunks, "stream")
    if case.get("glob"):
        audit_global("stream")
    n_ran = max([n_ran] + [len(logs[u]) for u in inside])
    bw = [n for n, _, _ in nodes(rs) if n.get("hook") and n["hook"]["bw"]]
    # ties make gradients inside the network ambiguous; torch's backward of BatchNorm is wrong for some layouts
    if bw and all(n["op"] != "bn" and n.get("kind") != "max" and n.get("reduce") != "max" for n, _, _ in nodes(s)):
        modes = ["steps"] + (["forward"] if case["offline"] and gens.length(s, T, "forward") > 0 else [])
        with torch.enable_grad():
            for mode in modes:
                n_ran += backward(m, s, rs, X, mode, case, cap, bw, in_cond)
    # without the hooks
    for h in handles:
        h.remove()
    m.clean_state()
    before = {u: len(l) for u, l in logs.items()}
    same(run(m, X, chunks, case), nets.ref(bare(s), X, "stream")[0], "stream after the hooks were removed")
    require(before == {u: len(l) for u, l in logs.items()}, "a removed hook ran")
    mem = any(nets.receptive_field(l) > 1 or l["op"] == "rnn" for l in nets.leaves(s))
    return {"nontrivial": n_ran >= 2 and mem,
            "tags": sorted({n["op"] for n, _, _ in nodes(s) if n.get("hook")} | {case["how"]})}
