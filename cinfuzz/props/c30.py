"""Streams run in constant memory."""
import gc

import torch
from hypothesis import strategies as st

from .. import gens, nets
from ..util import F64, chunks_of, data, drive, layout, require

RULE = "the module has state, and it was fed at least twice as many frames as it observes"
CASES = {"quick": 2000, "thorough": 20000}
ASSUMPTIONS = ["no gradients recorded", "measured: everything reachable from the module, with the whole storage of every tensor",
               "metamorphic: a fresh module that was stepped until it produces outputs"]


@st.composite
def cases(draw, tier):
    case = gens.common(draw)
    s, c, sp = gens.subject(draw, case["B"])
    d, sr = nets.delay(s), nets.stride(s)
    cap = s["N"] if s["op"] == "rpe" else 200
    ops = [["feed", draw(st.sampled_from([1, 2, d + 1, d + 1 + sr, 2 * d + 3]))]]
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from([0, 0, -3, 1, 2, 3, d + 1, 2 * d + 2]))
        if gens.flag(draw, 1, 15):
            k = draw(st.integers(20, 90)) * (1 if gens.flag(draw, 2, 3) else -1)
        ops.append([gens.wi(draw, ("feed", 6), ("peek", 2), ("pad", 1), ("forward", 1)), k])
    case.update(spec=s, shape=[c, *sp], ops=[[k, min(n, cap)] for k, n in ops], grad=gens.pick(draw, "no_grad", "frozen"))
    return gens.tame(case)


def strategy(tier):
    return cases(tier)


def held(m):
    """(entries and elements, bytes of storage) that are reachable from the module."""
    seen, storages, items, stack = set(), {}, 0, [m]
    while stack:
        o = stack.pop()
        if id(o) in seen:
            continue
        seen.add(id(o))
        if isinstance(o, torch.Tensor):
            st_ = o.untyped_storage()
            storages[st_.data_ptr()] = st_.nbytes()
            items += o.numel()
            if o.grad_fn is not None:
                items += 10**9  # holds on to a graph
        elif isinstance(o, (torch.nn.Module)) or type(o).__module__.split(".")[0] == "continual":
            stack += list(getattr(o, "__dict__", {}).values())
        elif isinstance(o, dict):
            items += len(o)
            stack += list(o.values())
        elif isinstance(o, (list, tuple, set, frozenset)):
            items += len(o)
            stack += list(o)
    return items, sum(storages.values())


def alive():
    gc.collect()
    return sum(isinstance(o, torch.Tensor) for o in gc.get_objects())


def check(case):
    s = case["spec"]
    c, *sp = case["shape"]
    B = case["B"]
    d, sr = nets.delay(s), nets.stride(s)
    with torch.set_grad_enabled(case["grad"] == "frozen"):
        m = nets.build(s).requires_grad_(False)
        fresh = held(m)

        def feed(net, key, k, kind="feed"):
            T = max(1, abs(k))
            x = layout(data((case["seed"], key), (B, c, T, *sp), case["vals"], F64), case["layout"])
            kw = {} if kind == "feed" else {"update_state": False}
            if kind == "pad" and k > 0 and s["op"] not in nets.ATT:
                kw["pad_end"] = True
            if k > 0:
                net.forward_steps(x, **kw)
            else:
                for t in range(T):
                    net.forward_step(x[:, :, t], **kw)

        twin = nets.build(s).requires_grad_(False)
        full = d + 2 * sr + 1
        for i in range(full):
            feed(twin, ("t", i), 0)
        want = held(twin)
        parts = sum(1 for _ in m.modules())

        def close(now, what):  # room for caches, and for states that are represented differently at first
            require(now[0] <= want[0] + 32 * parts and now[1] <= want[1] + 512 * parts,
                    f"{what} the module holds {now} (entries, bytes), a fresh one after {full} frames {want}")

        n, count, sizes = 0, None, []
        for r in range(4):
            for j, (kind, k) in enumerate(case["ops"]):
                if kind == "forward":
                    T = max(abs(k), gens.min_T(s, "forward")) if s["op"] not in ("mha", "tel", "te") else s["S"]
                    T = min(T, s["N"]) if s["op"] == "rpe" else T
                    m.forward(data((case["seed"], r, j), (B, c, T, *sp), case["vals"], F64))
                else:
                    feed(m, (r, j), k, kind)
                    n += max(1, abs(k)) if kind == "feed" else 0
                close(held(m), f"op {j} of round {r}: after {n} frames")
            if n >= full:
                sizes.append(held(m))
        for q in (0, 1):  # (a single step may be a state that is represented differently at first)
            grows = len(sizes) > 2 and all(a[q] < b[q] for a, b in zip(sizes, sizes[1:]))
            require(not grows, f"doing {case['ops']} again and again, the module holds ever more (entries, bytes): {sizes}")
        if int(case["seed"]) % 25 == 0:  # tensors that are held elsewhere
            feed(m, "a", -full)
            count = alive()
            feed(m, "b", -2 * sr)
            feed(m, "c", 2)
            feed(m, "d", -2 * sr, "peek")
            more = alive()
            require(more <= count, f"{more - count} more tensors are alive after more frames")
        m.clean_state()
        now = held(m)
        require(now[0] <= fresh[0] + 32 * parts and now[1] <= fresh[1] + 512 * parts, f"the module holds {now} after clean_state, {fresh} when it was made")
    return {"nontrivial": n >= 2 * full and want != fresh, "tags": [s["op"], case["grad"]] + (["alive"] if count else [])}
