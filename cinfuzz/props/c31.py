"""What a stream cannot represent is refused, and its valid neighbours are accepted."""
import torch
from hypothesis import strategies as st
from torch import nn

from .. import gens, nets
from ..util import data, require

RULE = "an invalid configuration or input was tried, after its valid neighbour had been accepted"
CASES = {"quick": 3000, "thorough": 30000}
ASSUMPTIONS = ["any exception counts as refusal, at construction or at the first use in any call mode"]

UNREGISTERED = ["ConvTranspose1d(2,2,3)", "Upsample(scale_factor=2)", "LPPool1d(2,2)", "Flatten()", "Embedding(3,2)", "Bilinear(2,2,2)",
                "TransformerDecoderLayer(4,2)", "FractionalMaxPool2d(2,output_size=2)", "Unfold(2)", "LocalResponseNorm(2)",
                "PixelShuffle(2)", "Sub Conv1d(2,2,3)", "Sub Conv2d(2,2,3)", "Sub Linear(2,2)", "Sub ReLU()", "Sub AvgPool1d(2)", "Sub MaxPool2d(2)", "Sub GRU(2,2)",
                "Sub BatchNorm1d(2)", "Sub Softplus()", "Sub AdaptiveAvgPool2d(1)", "SubSub Conv1d(2,2,3)", "ReflectionPad1d(1)", "ConstantPad2d(1,0.)", "ModuleList()", "CosineSimilarity()"]

KINDS = ("stride", "dilation", "res", "shrink", "mode", "fill", "rank", "convert", "norm", "bidirectional", "norm_first", "qi", "heads", "rpe",
         "inputs", "dispatch", "call_mode", "delay", "skip", "reduce", "lambda", "cond", "adaptive", "state_dict", "register", "named",
         "channels", "zero_attn", "map_reduce")


@st.composite
def cases(draw, tier):
    rank = draw(st.integers(1, 3))
    k, n = draw(st.integers(2, 6)), draw(st.integers(1, 6))
    return {"kind": draw(st.sampled_from(KINDS)), "rank": rank, "c": draw(st.integers(1, 4)), "B": draw(st.integers(1, 3)), "k": k, "n": n,
            "j": draw(st.integers(0, 5)), "i": draw(st.integers(0, 40)), "sp": gens.spatial_dims(draw, rank, 2, 4), "seed": draw(gens.SEED),
            "word": gens.pick(draw, "bogus", "reflect", "circular", "", "Zeros", "same", "constant"), "v": gens.flag(draw), "w": gens.flag(draw)}


def strategy(tier):
    return cases(tier)


class Incomplete(nn.Module):
    def forward(self, x):
        return x


def sub_class(name, depth):
    """A type of the user, with a forward of its own, that nobody registered."""
    base = getattr(nn, name)

    def forward(self, x):
        return base.forward(self, x.flip(2))

    cls = type("My" + name, (base,), {"forward": forward})
    return cls if depth == 1 else type("Your" + name, (cls,), {})


def refused(f, what):
    try:
        f()
    except Exception:
        return
    require(False, f"{what} was accepted")


def check(case):
    with torch.no_grad():
        valid, invalid, what = pair(case)
        valid()
        refused(invalid, what)
    return {"nontrivial": True, "tags": [case["kind"]]}


def pair(case):  # noqa: C901
    import continual as co

    kind, r, c, B, k, n, j = (case[x] for x in ("kind", "rank", "c", "B", "k", "n", "j"))
    sp, word, v, w = case["sp"], case["word"], case["v"], case["w"]
    T = 3 * k + 2 * n + 8

    def X(T=T, sp=sp, c=c):
        return data(case["seed"], (B, c, T, *sp), "normal", torch.float32)

    def conv(rank=r, **kw):
        return getattr(co, f"Conv{rank}d")(c, c, kernel_size=(kw.pop("k", k), *[1] * (rank - 1)), **kw)

    def pool(rank=r, **kw):
        return getattr(co, f"{'Max' if v else 'Avg'}Pool{rank}d")(kernel_size=(k, *[1] * (rank - 1)), **{"stride": 1, **kw})

    def use(m, x=None, forward=True):
        """All the ways of calling; the input has the rank that the module expects."""
        x = X() if x is None else x
        if forward:
            m.forward(x)
        m.forward_steps(x)
        for t in range(x.shape[2]):
            m.forward_step(x[:, :, t])

    def both(make, good, bad, what, **kw):
        return (lambda: use(make(good), **kw)), (lambda: use(make(bad), **kw)), f"{what} {bad!r}"

    leaf = conv if w else pool
    if kind == "stride":
        o = tuple([1] * (r - 1))
        cls = (co.BroadcastReduce, lambda *ms: co.Sequential(co.Broadcast(len(ms)), co.Parallel(*ms), co.Reduce("sum")),
               lambda *ms: co.Sequential(co.Broadcast(len(ms)), co.Parallel(*ms)))[j % 3]
        at, m = case["i"] % n, max(2, n)

        def branches(s):
            return cls(*[leaf(stride=(s if i == at else 2, *o)) for i in range(m)])

        return both(branches, 2, (1, 3, 4)[j % 3], f"{m} parallel branches of strides 2 and")
    if kind == "dilation":
        mk = lambda d: conv(dilation=(d, *[1] * (r - 1)))  # noqa: E731
        if v:
            mk = lambda d: co.continual(getattr(nn, f"Conv{r}d")(c, c, (k, *[1] * (r - 1)), dilation=(d, *[1] * (r - 1))))  # noqa: E731
        return both(mk, 1, 2 + j, "temporal dilation")
    if kind == "res":
        o = tuple([1] * (r - 1))
        kk = k + 1 - k % 2
        z = tuple([0] * (r - 1))
        if v:  # strided
            return both(lambda s: co.Residual(conv(k=kk, padding=(kk // 2, *z), stride=(s, *o))), 1, 2 + j % 3, "residual over a module of stride")
        # delay that cannot be halved
        return both(lambda q: co.Residual(conv(k=q), residual_shrink=True if w else "centered"), kk, kk + 1, "centered residual over kernel size")
    if kind == "shrink":
        if v:
            return both(lambda q: co.Residual(conv(k=k + 1 - k % 2), residual_shrink=q), "centered", word or "bogus", "residual shrink")
        return both(lambda q: co.Delay(n, auto_shrink=q), "lagging", word or "bogus", "shrink of a delay")
    if kind == "mode":
        z = (n % k, *[0] * (r - 1))
        bad = word if word else "bogus"
        if v:
            cc = getattr(nn, f"Conv{r}d")
            if bad in ("reflect", "circular"):
                return both(lambda q: co.continual(cc(c, c, (k, *[1] * (r - 1)), padding=z, padding_mode=q)), "replicate", bad, "converted padding mode")
        return both(lambda q: conv(padding=z, padding_mode=q), "replicate", bad, "padding mode")
    if kind == "fill":
        mk = (conv, pool, lambda temporal_fill: co.Delay(n, temporal_fill=temporal_fill))[j % 3]
        return both(lambda q: mk(temporal_fill=q), "replicate", word or "bogus", "temporal fill")
    if kind == "rank":
        m = leaf()
        good = X()
        bad_r = (r + 1 + j % 2) if w and j % 3 == 0 else (r + 1 if r == 1 or v else r - 1)
        bad = X(sp=[2] * (bad_r - 1))

        def wrong():
            q = leaf()
            mode = ("forward_step", "forward_steps", "forward")[case["i"] % 3]
            if leaf is pool and mode == "forward":
                mode = "forward_steps"
            if leaf is conv and bad_r < r:
                mode = "forward"  # the steps of convolutions do not check for missing dimensions
            (q.forward_step(bad[:, :, 0]) if mode == "forward_step" else getattr(q, mode)(bad))

        return (lambda: use(m, good)), wrong, f"an input of {tuple(bad.shape)} (or a step of it) to {m}"
    if kind == "convert":
        name = UNREGISTERED[case["i"] % len(UNREGISTERED)]
        if name.startswith("Sub"):
            d, call_ = name.split(" ")
            mk = lambda: eval("cls(" + call_.split("(", 1)[1], {"cls": sub_class(call_.split("(")[0], len(d) // 3)})  # noqa: E731, S307
        else:
            mk = lambda: eval("nn." + name, {"nn": nn})  # noqa: E731, S307
        wrap = (lambda m: co.continual(m), lambda m: co.continual(nn.Sequential(nn.ReLU(), m)), lambda m: co.Sequential(m))[j % 3]
        return (lambda: use(wrap(nn.Tanh()))), (lambda: wrap(mk())), f"conversion of {name}"
    if kind == "norm":
        cls = getattr(nn, f"InstanceNorm{r}d")
        good, bad = {"affine": True, "track_running_stats": True}, {"affine": v, "track_running_stats": False if v else w}
        return (lambda: use(co.continual(cls(c, **good)).eval())), (lambda: co.continual(cls(c, **bad))), f"conversion of {cls.__name__} with {bad}"
    if kind == "bidirectional":
        cls = (nn.RNN, nn.LSTM, nn.GRU)[j % 3]
        mk = lambda b: co.continual(cls(c, n, 1 + v, batch_first=w, bidirectional=b))  # noqa: E731
        return both(mk, False, True, f"conversion of {cls.__name__} with bidirectional", x=X(sp=[]))
    if kind == "norm_first":
        mk = lambda q: co.TransformerEncoder.build_from(nn.TransformerEncoder(nn.TransformerEncoderLayer(  # noqa: E731
            2 * c, 2, n, batch_first=True, norm_first=q), 1 + j % 3, enable_nested_tensor=False), k)
        return both(mk, False, True, "conversion of an encoder with norm_first", x=X(sp=[], c=2 * c))
    if kind == "qi":
        mk = lambda q: co.SingleOutputMultiheadAttention(  # noqa: E731
            2 * c, 2, sequence_len=k, query_index=q, batch_first=True, embed_dim_second=True)
        if v:
            mk = lambda q: co.SingleOutputTransformerEncoderLayer(2 * c, 2, n, sequence_len=k, query_index=q)  # noqa: E731
        return both(mk, n % k, k + j, f"query index in a sequence of {k}:", x=X(sp=[], c=2 * c, T=k))
    if kind == "heads":
        cls = co.SingleOutputMultiheadAttention if v else co.RetroactiveMultiheadAttention
        h = 2 + j
        e = h * c + 1 + n % (h - 1)
        return (lambda: cls(h * c, h, sequence_len=k)), (lambda: cls(e, h, sequence_len=k)), f"embedding of {e} with {h} heads"
    if kind == "zero_attn":
        cls = co.SingleOutputMultiheadAttention if v else co.RetroactiveMultiheadAttention
        mk = lambda q: cls(2 * c, 2, sequence_len=k, batch_first=True, embed_dim_second=True, add_zero_attn=q)  # noqa: E731
        x = X(sp=[], c=2 * c)
        return (lambda: use(mk(False), x, False)), (lambda: use(mk(True), x, False)), "steps with add_zero_attn"
    if kind == "rpe":
        N = k + 1

        def go(q):
            m = co.RecyclingPositionalEncoding(2 * c, N, learned=v)
            x = X(T=q, sp=[], c=2 * c)
            m.forward_steps(x) if w else m.forward(x)

        return (lambda: go(N)), (lambda: go(N + 1 + j)), f"{N + 1 + j} positions out of {N}"
    if kind == "inputs":
        m = 2 + j % 3
        x = X()
        f = ("forward", "forward_steps", "forward_step")[case["i"] % 3]
        xx = x[:, :, 0] if f == "forward_step" else x
        if v:  # unknown number of streams
            return (lambda: getattr(co.Broadcast(m), f)(xx)), (lambda: getattr(co.Broadcast(), f)(xx)), "broadcast to an unknown number of streams"
        p = co.Parallel(*[leaf() for _ in range(m)])
        return (lambda: getattr(p, f)([xx] * m)), (lambda: getattr(p, f)([xx] * (m - 1))), f"{m - 1} inputs to {m} branches"
    if kind == "dispatch":
        x = X()
        f = ("forward", "forward_steps", "forward_step")[case["i"] % 3]
        xx = x[:, :, 0] if f == "forward_step" else x
        return (lambda: getattr(co.ParallelDispatch([0, n - 1, 0]), f)([xx] * n)), (
            lambda: getattr(co.ParallelDispatch([0, n + j, 0]), f)([xx] * n)), f"dispatch of stream {n + j} out of {n}"
    if kind == "call_mode":
        bad = (word or "bogus", 3 + j)[v]
        m = conv()

        def go(q):
            if w:
                with co.call_mode(q):
                    m(X() if q in ("forward", 0) else X()[:, :, 0])
            else:
                m.call_mode = q
                m(X() if q in ("forward", 0) else X()[:, :, 0])

        return (lambda: go(("forward", "forward_step", 0, 2)[j % 4])), (lambda: go(bad)), f"call mode {bad!r}"
    if kind == "delay":
        return both(lambda q: co.Delay(q), n, -n, "delay of")
    if kind == "skip":
        return (lambda: use(co.Skip(n))), (lambda: use(co.Skip(-n))), f"skip of {-n}"
    if kind == "reduce":
        bad = word or "bogus"
        mk = (lambda q: co.BroadcastReduce(leaf(), leaf(), reduce=q),
              lambda q: co.Sequential(co.Broadcast(2), co.Parallel(leaf(), leaf()), co.Reduce(q)),
              lambda q: co.Residual(conv(k=1), reduce=q))[j % 3]
        return both(mk, "max", bad, "reduction")
    if kind == "map_reduce":
        return (lambda: use(co.BroadcastReduce(leaf(), leaf()))), (lambda: use(co.BroadcastReduce(*[leaf()] * (n % 2)))), "reduction of less than two"
    if kind == "lambda":
        bad = (3, "relu", [torch.relu], torch.ones(2))[j % 4]
        return both(lambda q: co.Lambda(q), torch.relu, bad, "lambda of")
    if kind == "cond":
        bad = (3, "yes", True, None)[j % 4]
        if v:
            return both(lambda q: co.Conditional(lambda a, b: True, nn.ReLU(), q), nn.Tanh(), (3, "relu", nn.Flatten())[j % 3], "alternative of")
        return both(lambda q: co.Conditional(q, nn.ReLU()), lambda a, b: True, bad, "predicate of")
    if kind == "adaptive":
        r2 = max(2, r)
        s2 = sp if r > 1 else [3]
        cls = f"Adaptive{'Max' if v else 'Avg'}Pool{r2}d"
        mk = lambda q: getattr(co, cls)((q, *[1] * (r2 - 1)), kernel_size=k)  # noqa: E731
        if w:
            mk = lambda q: getattr(co, cls).build_from(getattr(nn, cls)((q, *[1] * (r2 - 1))), k)  # noqa: E731
        return both(mk, 1, 2 + j, "adaptive pooling with a temporal output size of", x=X(sp=s2))
    if kind == "state_dict":
        net = lambda: co.Sequential(conv(), co.BroadcastReduce(conv(), conv(k=k + 1)))  # noqa: E731
        a = net()
        sd = dict(a.state_dict())
        key = sorted(sd)[case["i"] % len(sd)]

        def go(change):
            z = {q: u.clone() for q, u in sd.items()}
            if change == "missing":
                del z[key]
            if change == "unexpected":
                z[key + "x"] = z[key]
            if change == "shape":
                z[key] = torch.cat([z[key], z[key]])
            net().load_state_dict(z)

        ch = ("missing", "unexpected", "shape")[j % 3]
        return (lambda: go("")), (lambda: go(ch)), f"state dict with {ch} entry"
    if kind == "register":
        class Mine(nn.Module):
            pass

        class Good(co.CoModule, nn.Module):
            @staticmethod
            def build_from(m):
                return Good()

        # an unused type, so that the registry of the process is not affected
        return (lambda: co.convert.register(Mine, Good)), (lambda: co.convert.register(Mine, Incomplete)), "registration of a class that is no continual module"
    if kind == "named":
        if v:
            return both(lambda q: conv(k=3, padding=q), "same", "bogus", "padding")
        if j % 2:
            return both(lambda q: conv(k=q, padding="same"), 3, 4, "padding='same' with kernel size")
        return both(lambda q: conv(k=3, stride=(q, *[1] * (r - 1)), padding="same"), 1, 2, "padding='same' with stride")
    if kind == "channels":
        m = (conv() if j % 3 else co.Linear(c, n, channel_dim=1) if j else co.GRU(c, n))
        x = X(sp=[]) if isinstance(m, co.GRU) else X()
        y = X(sp=[], c=c + 1) if isinstance(m, co.GRU) else X(c=c + 1)
        return (lambda: use(m, x)), (lambda: use(m, y, bool(v))), f"{c + 1} instead of {c} channels"
    raise nets.HarnessError(kind)
