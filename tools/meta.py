"""Writes properties.jsonl and MANIFEST.json from the table below (development helper; no check uses it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "continual/module.py"
CONV, POOL, CT, DL, SK = ("continual/conv.py", "continual/pooling.py", "continual/container.py", "continual/delay.py",
                          "continual/skip.py")
CL, LIN, RNN, TR, PE, SH = ("continual/closure.py", "continual/linear.py", "continual/rnn.py", "continual/transformer.py",
                            "continual/positional_encoding.py", "continual/shape.py")
CV, UT, ON, MB = "continual/convert.py", "continual/utils.py", "continual/onnx.py", "continual/multihead_attention/mha_base.py"
RM, SM = "continual/multihead_attention/retroactive_mha.py", "continual/multihead_attention/single_output_mha.py"

P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe))


prop("C01", "Offline forward equals the torch.nn layer",
     "For every layer that has a counterpart in the deep-learning framework, the offline forward pass (by method or by calling "
     "the layer) returns what the counterpart with the same hyper-parameters and weights returns, for every input, in training "
     "and evaluation mode. This holds regardless of whether, and how far, a stream has been stepped through the layer before.",
     ["inputs", "configurations"],
     "all geometries (kernel, stride, padding, dilation, groups, bias, padding mode, ceil mode, divisors, hidden states) of "
     "convolution, pooling, adaptive pooling, linear and recurrent layers of rank 1-3, in double and single precision",
     "The tests compare a handful of fixed geometries with ones/normal inputs; asymmetric kernels, dilation, groups, ceil mode, "
     "divisors, non-zero paddings in combination and layers with a stream in progress are not reached.",
     [CONV, POOL, LIN, RNN],
     [("constructors normalise the geometry", CONV), ("forward of convolution splits padding in time and space", CONV),
      ("forward inherited from the counterpart", POOL)],
     "property-based testing, differential oracle (torch.nn)",
     "Random search over geometries and inputs; trusts torch.nn as the reference.")

prop("C02", "Stepping frame by frame reproduces the offline outputs in order",
     "Feeding a sequence frame by frame to a temporal convolution, pooling, adaptive pooling or delay layer yields exactly the "
     "outputs of the offline computation on the sequence padded in front by the temporal padding, in order and each as soon as "
     "its last input frame has been seen. At every other frame nothing is returned.",
     ["inputs", "configurations", "histories"],
     "all layer geometries incl. temporal stride, dilation of pooling, padding, fill mode, spatial geometry; streams from the "
     "first output to hundreds of frames; with and without gradient recording",
     "Tests step a few fixed layers over a few frames; ring-buffer wrap-around in combination with padding, stride and dilation "
     "is a matter of all lengths and geometries.",
     [CONV, POOL, DL, M],
     [("ring buffer of partial results, state and stride index", CONV), ("ring buffer of pooled frames, stride index", POOL),
      ("ring buffer of frames", DL)],
     "property-based testing, reference model (offline computation on the padded sequence)",
     "Random search; the reference is torch.nn.functional on the explicitly padded sequence with independently derived emission "
     "times. Excludes average pooling with count_include_pad=False and temporal padding, ceil mode with temporal stride.")

prop("C03", "Results do not depend on how a stream is chunked",
     "Any split of a stream into single frames and multi-frame chunks yields the same outputs in the same order as stepping "
     "frame by frame, and leaves the module in an equivalent state. A chunk for which no output is due yields nothing.",
     ["inputs", "configurations", "histories"],
     "every layer kind and random networks of them; random partitions with chunk lengths from 1 to the whole stream",
     "Tests use one or two fixed splits per layer; the property quantifies over all partitions and states at chunk borders.",
     [M, CONV, POOL, DL, SK, RNN, PE, CT, MB],
     [("loop over frames in multi-frame processing", M), ("threading of streams without output through containers", CT)],
     "property-based testing, metamorphic relation (partition vs. single frames)",
     "Random search over modules and partitions; twin modules.")

prop("C04", "End padding completes a stream to the offline result",
     "Processing a whole sequence in one multi-frame call with end padding returns the offline result on the sequence padded at "
     "both ends. For single layers the end padding is a look-ahead only: a last chunk with end padding returns the outputs of the "
     "chunk followed by those of the padding, and the stream continues afterwards as if no padding had been requested.",
     ["inputs", "configurations", "histories"],
     "all layer geometries and random networks with padding; sequences fed in chunks before; frames fed after",
     "Tests check one length and one chunking; networks with several padded or strided layers and continued streams are "
     "unreached.",
     [M, CONV, POOL, CT, DL],
     [("end padding steps on a copy of the state", M), ("padding frames by mode", M), ("end padding handed on in sequence", CT)],
     "property-based testing, reference model and metamorphic continuation",
     "Random search; excludes attention and positional encodings (they have no padding). Recorded findings: average pooling "
     "variants, and networks continued after end padding.")

prop("C05", "Stepping without state update is a pure look-ahead",
     "A step or multi-frame step that is asked not to update the state returns what the updating call would have returned at that "
     "point of the stream, and does not influence any later output.",
     ["inputs", "configurations", "histories"],
     "every layer kind, recurrent and attention layers, and random networks of them; random interleavings of look-aheads (incl. "
     "end-padded ones) and updates, from the very first frame on",
     "Tests do a look-ahead at one or two points of a few layers; aliasing of buffers shows only for later frames at particular "
     "ring-buffer positions.",
     [M, CONV, POOL, DL, SK, CL, CT, RNN, PE, MB, RM, SM],
     [("copy of the first state component before a look-ahead", M), ("update flag handed through containers", CT)],
     "stateful property-based testing, metamorphic oracle (twins that never look ahead)",
     "Random operation sequences against twin modules.")

prop("C06", "Cleaning the state makes a module as good as new",
     "After its state has been cleaned, a module behaves on the next stream exactly like a newly constructed module with the same "
     "parameters, whatever it has seen before, also if batch size, sequence length or precision of the next stream differ.",
     ["inputs", "configurations", "histories"],
     "every layer kind and random networks (incl. nested, conditional and parallel parts); random previous histories, repeatedly",
     "Tests clean one layer after one history; a forgotten sub-state (stride index, branch, residual delay) shows only for "
     "particular networks and history lengths.",
     [CONV, POOL, DL, SK, RNN, PE, CT, RM, SM],
     [("clean_state of each layer", CONV), ("recursion over children", CT)],
     "stateful property-based testing, metamorphic oracle (fresh twin)",
     "Random histories; compared with a fresh module.")

prop("C07", "Saved states restore, transfer and multiplex streams",
     "Restoring a (copied) saved state makes a layer continue exactly as from the moment of saving, and the state may equally be "
     "restored into another layer with the same parameters. Streams of different histories multiplexed through one layer by "
     "saving and restoring states do not influence each other.",
     ["inputs", "configurations", "histories"],
     "every layer with state; up to three streams; random interleavings of chunks, rollbacks and transfers, incl. streams "
     "without state yet",
     "Tests restore a state once; incomplete states (an index left out) or aliased buffers show only under interleavings.",
     [CONV, POOL, DL, SK, RNN, PE, RM, SM],
     [("get_state / set_state of each layer", CONV)],
     "stateful property-based testing, metamorphic oracle (one module per stream)",
     "Random interleavings; snapshots are copied by the harness since live references may be returned.")

prop("C08", "Composed networks align their branches in time",
     "A network composed in sequence, in parallel with reduction, with residual connections or conditional parts, nested in any "
     "way, computes in the stream the same values as offline: every branch is delayed such that values are combined only with "
     "values of the same position in time, regardless of the delays, paddings and strides of the branches. Outputs come in order, "
     "each at the step at which its last input becomes available.",
     ["inputs", "programs", "configurations"],
     "random networks of depth up to three with convolutions, pooling, recurrent layers, delays, skips, framewise layers, strided "
     "and padded branches, all reductions, residual shrinking, dispatching of streams",
     "Tests have a dozen hand-written networks; alignment errors need particular combinations of delay, stride and nesting.",
     [CT, DL, SK, M],
     [("automatic delay of shorter branches", CT), ("input delay of strided branches", CT), ("residual delay and shrinking", CT)],
     "property-based testing (random network programs), reference model with explicit alignment",
     "Random search over network programs; the reference is computed offline from the specification, pairing branch outputs by "
     "index.")

prop("C09", "Delay, stride, padding and receptive field describe the stream",
     "The first output of a fresh stream comes after exactly as many frames as the module's delay announces, and the next ones at "
     "intervals of its stride. An output does not depend on frames older than the announced receptive field, and the four numbers "
     "satisfy delay = receptive field - 1 - padding.",
     ["configurations", "inputs"],
     "every layer kind and random networks; outputs observed at many positions; old frames perturbed, including with NaN",
     "Tests assert the numbers of few networks against hand-computed constants and never relate them to the behaviour of the "
     "stream.",
     [M, CONV, POOL, DL, CT, TR, MB],
     [("metadata of layers", M), ("composition of metadata", CT)],
     "property-based testing, metamorphic relation (perturbation of old frames) and observation of emission times",
     "Random search; also proves bounded memory by poisoning frames that left the receptive field. Recurrent layers and skips are "
     "excluded.")

prop("C10", "Conversion of existing networks preserves their function",
     "Converting a network of supported framework layers gives a continual network with the same parameters under the same names, "
     "precision and offline function, whose stream equals the offline computation of the original. The original "
     "network keeps working, and converting again changes nothing.",
     ["programs", "configurations", "inputs"],
     "all documented convertible layers with random hyper-parameters, single or in nested sequences",
     "Tests convert a few layers with default hyper-parameters; a hyper-parameter that is not carried over needs non-default "
     "values and the right layer.",
     [CV, CONV, POOL, LIN, RNN, CT],
     [("table of conversions", CV), ("build_from of each layer", CONV), ("enhancement of framewise layers", CV)],
     "property-based testing, differential oracle (the original network)",
     "Random search over layer kinds and hyper-parameters in evaluation mode.")

prop("C11", "Network weights round-trip in nested and flattened form",
     "Saving the weights of a network and loading them into another of the same structure makes it compute the same, with nested "
     "and with flattened names alike; flattened names do not depend on how deeply unnamed containers are nested, and names that "
     "would collide are kept in full. The flattening applies exactly within its context, streaming does not change what is saved, "
     "and loading does not disturb a stream.",
     ["programs", "configurations"],
     "random nested networks with named and unnamed parts and duplicate names; nested contexts; exceptions within them",
     "Tests round-trip two fixed networks.",
     [UT, CT], [("flattening of names", UT), ("state dict of containers", CT)],
     "property-based testing, round-trip oracle",
     "Random search over network structures.")

prop("C12", "Call modes select the forward mode, by context or attribute",
     "Calling a network runs the forward mode of the innermost enclosing call-mode context, or outside of contexts the mode "
     "assigned to the network (offline forward by default), for the network and all its parts. Leaving a context, normally or by an "
     "exception, restores what was in effect before; unknown modes are refused.",
     ["programs", "histories"],
     "random programs of nested contexts, assignments, calls, explicit method calls and exceptions over several networks",
     "Tests use a context once around one layer; restoration is a property of all nestings and exits.",
     [M, CV, CT, UT], [("global context and per-module mode", M), ("temporary assignment during calls", UT)],
     "stateful property-based testing (program generation), reference model (mode stack)",
     "Random programs against a stack model and twin networks.")

prop("C13", "Continual attention equals attention over the sliding window",
     "At every step after the window has been filled, the retroactive attention layer returns the outputs of ordinary multi-head "
     "attention for all positions of the window, and the single-output layer that of its query position; before, nothing is "
     "returned. The offline pass equals ordinary multi-head attention (restricted to the query position for the single-output "
     "layer).",
     ["inputs", "configurations", "histories"],
     "all embeddings, head counts, window lengths, query positions, separate key/value dimensions, layouts, cross-attention; "
     "streams long enough to replace the window several times",
     "Tests compare one configuration for a few steps; retroactive updates accumulate and depend on ring positions over all "
     "steps.",
     [MB, RM, SM], [("retroactive update of attention sums", RM), ("projection step", MB), ("query delay", SM)],
     "property-based testing, differential oracle (torch.nn.MultiheadAttention on the window)",
     "Random search in double precision with tame logits (the retroactive update exponentiates without normalisation).")

prop("C14", "Continual transformer encoders equal their windowed counterparts",
     "A continual transformer encoder or encoder layer yields at each step, once the window is filled, what the ordinary encoder "
     "with the same parameters yields on the current window (at the last or chosen position, or at all positions for retroactive "
     "layers). This holds for any number of layers whether converted from an ordinary encoder or built directly.",
     ["inputs", "configurations", "histories"],
     "one to four layers, activations, norms, windows, query positions, chunkings, long streams",
     "Tests cover one and two layers for a few steps.",
     [TR, MB, RM, SM, CL], [("composition of attention, residual and feed-forward parts", TR)],
     "property-based testing, differential oracle (torch.nn.TransformerEncoder on the window)",
     "Random search in double precision; post-norm layers in evaluation mode (a recorded finding covers pre-norm).")

prop("C15", "Recurrent layers carry their hidden state through the stream",
     "Stepping a recurrent layer gives the outputs and hidden states of the framework's layer on the whole sequence, however the "
     "sequence is split, and starting from a given hidden state when one is set.",
     ["inputs", "configurations", "histories"],
     "RNN (both nonlinearities), GRU, LSTM; several layers; biases; random splits with look-aheads, state exports and imports",
     "Tests run one configuration and one split.",
     [RNN], [("hidden state as stream state", RNN)],
     "stateful property-based testing, differential oracle (torch.nn)",
     "Random operation sequences.")

prop("C16", "Recycling positional encodings advance cyclically",
     "The encoding added to a frame is that of a position index which starts at zero, advances by one per streamed frame and by "
     "the configured amount per offline pass, and wraps around at the number of encodings. Look-aheads do not advance it. "
     "Static encodings are centred, distinct for distinct positions, and as smooth across the wrap-around as elsewhere.",
     ["histories", "configurations"],
     "all lengths, learned and fixed encodings, interleavings of steps, chunks, offline passes, snapshots and resets",
     "Tests step a short stream once.",
     [PE], [("cyclic index", PE)],
     "stateful property-based testing, reference model (modular counter)",
     "Random operation sequences against a counter model.")

prop("C17", "Stepping with explicitly passed states is stateless",
     "A step with an explicitly passed state, nested or flattened for export, returns the output and next state of that stream "
     "alone: streams interleaved in any order, with each other and with the module's own stream, do not influence each other.",
     ["histories", "configurations", "programs"],
     "every layer kind and random networks; up to three explicit streams plus the module's own, randomly interleaved",
     "Tests use the functional form only within export of fixed networks.",
     [CONV, POOL, DL, SK, RNN, CT, ON, RM, SM], [("functional step of each layer", CONV), ("flattening of states", ON)],
     "stateful property-based testing, metamorphic oracle (one module per stream)",
     "Random interleavings.")

prop("C18", "Networks exported to ONNX keep predicting with fed-back states",
     "An exported network, run repeatedly with its returned states fed back as inputs, yields the outputs of the original stream "
     "step by step, for any batch size. The states are named consistently between inputs and outputs, and exporting changes "
     "neither training state nor call behaviour of the network.",
     ["programs", "histories", "configurations"],
     "random networks of exportable layers; several steps; batch sizes other than the one of the export",
     "Tests export fixed networks and run one step.",
     [ON, CT, CONV, POOL, DL, TR], [("wrapper with flattened states", ON), ("dynamic axes of states", ON)],
     "property-based testing, differential oracle (onnxruntime vs. the stream)",
     "Random search in single precision; exported from warmed-up states with temporal stride 1.")

prop("C19", "No side effects on streams, inputs, outputs or parameters",
     "Offline passes in the middle of a stream leave the stream as it was. No mode changes its inputs, outputs that were returned "
     "before or parameters, and the caller may reuse the memory of a frame once the step has returned.",
     ["histories", "inputs", "configurations"],
     "every layer kind and random networks; random interleavings of offline passes, steps, look-aheads and padded calls",
     "Tests never check values again after later steps; aliasing shows only then.",
     [CONV, POOL, DL, SK, CL, CT, RM, SM, RNN], [("copies on update", CONV), ("ring buffers hold copies of frames", DL)],
     "stateful property-based testing, invariant over the history and metamorphic twin",
     "Random operation sequences; everything returned is compared bit for bit with a copy at the end.")

prop("C20", "Shorthand containers equal what they abbreviate",
     "A broadcast-reduce container equals broadcast, parallel and reduce in sequence; a residual shorthand equals the explicit "
     "network with a delay; nested, appended, named and flat sequences are equal, in all modes and in their metadata.",
     ["programs", "inputs"],
     "random branches with different delays, strides, reductions; random chains",
     "Tests compare two or three fixed networks.",
     [CT, DL], [("BroadcastReduce", CT), ("Residual", CT), ("Sequential append", CT)],
     "property-based testing, metamorphic relation (two constructions)",
     "Random search over network programs.")

prop("C21", "Layers without memory act on every frame alike in all modes",
     "A layer without temporal extent gives for each frame the same result whether processed offline, frame by frame, in chunks or "
     "with a state passed explicitly, keeps no state and announces no delay. A function with mode-specific variants runs the "
     "variant of the mode.",
     ["inputs", "configurations"],
     "function layers with all combinations of variants, linear layers on either dimension, reshapes, all framewise converted "
     "layers, arithmetic layers, pointwise convolutions",
     "Tests check single examples.",
     [CL, LIN, SH, CV], [("closures by mode", CL), ("frame dimension handling", LIN), ("enhanced framewise layers", CV)],
     "property-based testing, metamorphic relation between the modes",
     "Random search; converted layers in evaluation mode.")

prop("C22", "Conditional layers route each call and keep branches apart",
     "Each call is routed by the predicate evaluated on that call to one branch, in every mode; a branch that is not taken does not "
     "see the frames and keeps its state, and the branch with the shorter delay is delayed to match the other.",
     ["histories", "inputs"],
     "predicates that change over the stream or depend on data; branches with different delays; look-aheads, chunks, end padding",
     "Tests switch once between two fixed branches.",
     [CT], [("predicate evaluated per call", CT), ("delay of the shorter branch", CT)],
     "stateful property-based testing, metamorphic oracle (separate branches)",
     "Random routings.")

prop("C23", "Warming up makes every following step productive",
     "After warming up with frames of a given shape, every stride-th following step, beginning with the first, yields an output, "
     "and outputs are exact as soon as the warm-up frames have left the receptive field.",
     ["configurations", "inputs"],
     "layers and random networks of all delays and strides",
     "Tests do not warm up strided or composed networks.",
     [M, CT], [("warm_up", M)],
     "property-based testing, metamorphic oracle (twin that never warmed up)",
     "Random search, single precision.")

prop("C24", "Gradients through a stream equal offline gradients",
     "The gradients of a loss on stream outputs with respect to parameters and input frames are those of the same loss on the "
     "offline outputs, in training and evaluation mode. This holds however the stream is chunked and whichever of parameters and "
     "frames require gradients.",
     ["inputs", "configurations", "programs"],
     "every temporal layer, random networks of them (parallel parts, residuals, conditionals, recurrent layers, delays), attention and "
     "transformer layers behind convolutions and encodings; random chunkings, frozen parameters, prefixes without gradient recording",
     "Tests take one gradient of one convolution.",
     [CONV, POOL, RNN, DL, CT, RM, SM, TR, PE], [("buffers cloned in training", CONV), ("buffer cloned when gradients are recorded", POOL)],
     "property-based testing, differential oracle (autograd on the reference)",
     "Random search, double precision; batch normalisation left out.")

prop("C25", "Streams that share a batch are independent",
     "Streams processed together in a batch yield the same outputs at the same steps as each processed alone, and any selection or "
     "reordering of the streams yields the same selection of outputs, whatever the other streams contain.",
     ["inputs", "configurations"],
     "every layer kind and random networks; batches of two to four streams, one of them with extreme values",
     "Tests use batches of one or two streams and compare whole batches only.",
     [CONV, POOL, DL, CT, MB, RM, SM, RNN, CL, SH], [("states keep a batch dimension", CONV)],
     "property-based testing, metamorphic relation (split and selection of the batch)",
     "Random search, evaluation mode.")

prop("C26", "Copies of a network continue a stream independently",
     "A deep copy of a network taken in the middle of a stream continues the stream exactly as the original would, and neither of "
     "them influences the other afterwards, neither by frames nor by changes of parameters.",
     ["histories", "configurations"],
     "every layer, random networks with converted framework layers, transformers; copies at random points, continued in any order",
     "Tests never copy a network with state.",
     [CONV, POOL, DL, SK, RNN, CT, RM, SM, M, CV], [("state held in attributes of the layer", CONV), ("functions of converted layers follow the copy", CV)],
     "stateful property-based testing, metamorphic oracle (twins that were never copied)",
     "Random search.")

prop("C27", "Hooks run once per call of a module in every call mode",
     "Forward hooks and forward pre-hooks registered on a network or on any of its parts run exactly once whenever that module "
     "processes frames as part of a call, in every call mode. They receive the arguments and the result of that mode, may replace "
     "them, and are gone once removed; full backward hooks receive the gradients of argument and result.",
     ["inputs", "configurations", "histories", "programs"],
     "random networks with hooks (with and without keyword arguments, replacing values or not, several per module) on random layers and "
     "sub-networks; random chunkings; modes selected by context, nested contexts, attribute, or method",
     "Tests register no hooks on parts of networks.",
     [M, CT, CV], [("hooks by call mode", M), ("parts are called rather than their methods", CT), ("enhanced layers", CV)],
     "property-based testing, reference model (network with the hook functions in line)",
     "Random search; hooks on modules that map a tensor to a tensor.")

prop("C28", "Counted operations reflect what each call mode computes",
     "The operations that ptflops counts for a network are those of the torch.nn counterpart over the whole clip in forward mode, and "
     "those of a single frame in step mode, whatever was seen before and however the mode was selected; additions and exponentials of "
     "attention are counted on request. Parameters are counted equally, and counting leaves nothing behind but the processed frames.",
     ["inputs", "configurations", "histories"],
     "random networks of the counted layers and attention, random input sizes; modes by context, nested contexts, attribute, copies; "
     "counts in both orders, repeated, on any past",
     "Tests compare a handful of counts by inequalities.",
     ["continual/ptflops.py", M, CONV, POOL, "continual/linear.py", MB, RM, SM], [("registered counting hooks", "continual/ptflops.py"), ("attention counts itself", MB)],
     "property-based testing, reference model (per-layer counting rules of torch.nn), metamorphic relations for attention",
     "Random search; Linear along dimension 1 is a recorded finding.")

prop("C29", "A running stream moves along with its module",
     "A network that is moved in the middle of a stream to another data type (as to another device) continues the stream: its state, "
     "its indices and its converted parts move along with its parameters. The outputs are those of a network that was never moved, "
     "within rounding errors, in the new type and at the same times.",
     ["histories", "configurations"],
     "every layer, random networks with converted framework layers, transformers; moves at random points by every means torch offers, "
     "of the network or its parts, of copies, before or after cleaning the state",
     "Tests never move a module with state.",
     [CONV, POOL, DL, RNN, PE, CT, MB, RM, SM, M], [("state in buffers", CONV), ("state of recurrent modules", RNN)],
     "stateful property-based testing, metamorphic oracle (twins that were never moved)",
     "Random search; data types stand for devices.")

prop("C30", "Streams run in constant memory",
     "What a streaming network holds on to is bounded by its configuration: the tensors and containers reachable from it have the same "
     "total size however many frames were fed, in steps or in long chunks, with look-aheads and offline passes in between. "
     "Nothing else is kept alive, and cleaning the state releases it.",
     ["histories", "configurations"],
     "every module kind, random networks; random sequences of feeds, long chunks, look-aheads, offline passes, repeated three times",
     "Tests do not measure what is held.",
     [CONV, POOL, DL, CT, RNN, PE, MB, RM, SM, M], [("ring buffers", CONV), ("delay line", DL)],
     "stateful property-based testing, invariant over the history (size of everything reachable), metamorphic (a stepped twin)",
     "Random search; without recorded gradients.")


prop("C31", "What a stream cannot represent is refused",
     "Configurations and inputs that the streaming computation cannot represent, and modules that have no registered conversion, are "
     "refused with an exception, at construction, at conversion or at the first use, instead of yielding wrong results silently. Their "
     "valid neighbours (the closest configuration or input within the documented domain) are accepted.",
     ["inputs", "configurations"],
     "thirty kinds of invalid configurations and inputs (unequal strides of branches, temporal dilation, residuals that cannot be "
     "aligned, unknown fills, modes, reductions and call modes, unregistered or unsupported modules at conversion, windows, positions "
     "and streams out of range, damaged state dicts), each with random geometry and paired with its valid neighbour",
     "Tests check two or three refusals.",
     [CONV, POOL, CT, DL, SK, CL, LIN, RNN, TR, PE, CV, RM, SM, MB, UT],
     [("checks of strides, delays and reductions", CT), ("checks of dilation and padding mode", CONV), ("conversion registry", CV),
      ("call mode", "continual/module.py")],
     "property-based testing, explicit oracle (pairs of a valid and an invalid case)",
     "Random search; any exception counts as refusal. The set of invalid configurations is the one the library or its documentation "
     "excludes; step inputs of convolutions that lack dimensions are not included (the library does not check them).")


prop("C32", "Sequences can be edited",
     "A Sequential that is edited in any of the ways of torch.nn.Sequential (appending, extending, `+=`, adding by name, inserting, "
     "replacing, deleting, popping, slicing), before or in the middle of a stream, is one built anew from the resulting modules: same "
     "outputs in steps and passes, delay, stride, padding, receptive field and state dict. The parts that stay keep the memory of the "
     "stream they had.",
     ["histories", "configurations"],
     "random sequences of parts, random histories of edits interleaved with streams, offline passes, cleaning and views of a part",
     "Tests append to one sequence before any stream.",
     [CT, M], [("Sequential", CT), ("Sequential.append", CT)],
     "stateful property-based testing, reference model (list of parts stepped by hand), differential (freshly built sequence)",
     "Random search; modules inserted by index or assigned are continual ones, since torch.nn.Sequential stores them directly.")

prop("C33", "Streams of frames of any data type",
     "A layer or network that computes in half precision, in bfloat16 or under autocast, or on complex numbers, steps at the same times "
     "as in double precision and produces the outputs of its offline computation, in the type of its frames and within the precision "
     "of that type. Layers without weights pass integers and truth values exactly, and keep their type.",
     ["inputs", "configurations", "histories"],
     "all layers, recurrent and attention layers in reduced precision; networks of convolutions, linear layers, delays and reductions on "
     "complex frames; networks of delays and reductions on integers and booleans; random chunkings, earlier streams, all memory layouts",
     "Tests step single-precision frames only; states and padding are allocated apart from the frames and could take any other type.",
     [CONV, POOL, DL, LIN, RNN, CT, MB, RM, SM, TR, PE, M],
     [("state allocated like the frames", CONV), ("ring buffer of frames", DL), ("ring buffer of pooled frames", POOL),
      ("sums and concatenations", CT)],
     "property-based testing, differential oracle (double-precision twin, reference on real and imaginary parts)",
     "Random search; where torch has the operation for the type on a CPU. Reduced precision is compared coarsely.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"] or ["return values of the public methods"], "hook_needed": None},
            }) + "\n")
    py = "/opt/venv/bin/python"
    man = {
        "version": 1,
        "setup_cmd": f"{py} check.py selftest",
        "checks": [{
            "property": p["id"],
            "quick_cmd": f"{py} check.py {p['id']} quick",
            "thorough_cmd": f"{py} check.py {p['id']} thorough",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": p["technique"],
            "level": "exploration",
            "level_note": p["note"],
        } for p in P],
        "not_applicable": [],
        "notes": "Pure Python; nothing to build. Every check imports the package from /repo's working tree. No hooks in /repo. "
                 "Replay a failure with: check.py <ID> replay <file>.",
    }
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


if __name__ == "__main__":
    main()
