"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
C = "continual/"
P = []
def p(id, title, statement, over, text, tests, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(files=[C + f for f in files],
            state=[dict(name=n, meaning=m, where=C + w) for n, m, w in state],
            mechanism=[dict(name=n, where=C + w) for n, w in mech],
            observe_at=list(observe) or ["return values of forward, forward_step and forward_steps"],
            hook_needed=None)))

p("C01", "Continual convolutions reproduce the regular convolution step by step",
  "Feeding a sequence frame by frame to a continual Conv1d/2d/3d yields, in order and without gaps or repeats, exactly the outputs which the torch.nn convolution with the same weights computes for the whole sequence and which need no end padding: output j appears at the step that completes its window and every other step gives None. forward equals the torch.nn convolution on the same input. This holds for every kernel size, stride, spatial dilation, groups, bias, padding (temporal padding smaller than the temporal kernel), zero or replicate padding, batch size and sequence length; a temporal_fill of its own fills the borders in time with that fill, as pad_end steps do.",
  ["inputs", "configurations", "histories"],
  "all layer configurations (kernel, stride, padding, spatial dilation, groups, bias, padding mode, temporal fill, channels), batch sizes, spatial sizes and arbitrarily long input sequences",
  "Tests compare a few fixed configurations on short seeded inputs; strided, grouped, non-zero-padded and long-stream combinations are not crossed.",
  ["conv.py", "module.py"],
  [("ring buffer of partial outputs", "conv.py:_ConvCoNd._forward_step_py"), ("stride counter gates output", "conv.py:_ConvCoNd.init_state")],
  [("state_buffer/state_index/stride_index", "partial sums, ring position, output phase", "conv.py")])
p("C02", "Continual pooling reproduces regular pooling step by step",
  "Feeding a sequence frame by frame to a continual average, max or adaptive pooling module yields, in order and without gaps or repeats, exactly the outputs which the corresponding torch.nn pooling computes for the whole sequence and which need no end padding, each at the step that completes its window and None otherwise; max pooling treats padding as minus infinity as torch.nn does. forward equals the torch.nn pooling. This holds for every kernel size, stride, padding, temporal dilation (max pooling), spatial ceil mode, temporal_fill, batch size and sequence length.",
  ["inputs", "configurations", "histories"],
  "all pooling classes and their configurations, inputs of any sign and magnitude, and arbitrarily long sequences",
  "Tests use positive or random inputs with a handful of kernels; negative inputs at padded borders, dilation with streams longer than the buffer and stride/dilation/padding crosses are not sampled.",
  ["pooling.py", "module.py", "utils.py"],
  [("ring buffer of spatially pooled frames", "pooling.py:_PoolNd._forward_step"), ("padding value per pool type", "pooling.py:_PoolNd.__init__")],
  [("state_buffer/state_index/stride_index", "pooled frames, ring position, output phase", "pooling.py")])
p("C03", "Continual RNN, GRU and LSTM equal the regular network over the whole history",
  "For every sequence and every split of it into forward_step and forward_steps calls, a continual RNN, GRU or LSTM yields at each time the output the torch.nn module with the same weights gives for the entire sequence seen so far, and its retrievable state equals that module's final hidden (and cell) state. An initial state given with set_state acts as the initial hidden state given to torch.nn, and forward equals the torch.nn module up to the documented (batch, channel, time) layout.",
  ["inputs", "histories", "configurations"],
  "all layer counts, sizes, nonlinearities, bias settings, initial states, batch sizes and schedules of step and multi-step calls",
  "Tests use one or two sizes with one split of one sequence.",
  ["rnn.py"],
  [("hidden state carried between calls", "rnn.py:RNN.forward_step"), ("layout swap", "rnn.py:RNN.forward")],
  [("_hidden_state/_cell_state", "recurrent state", "rnn.py")],
  ["return values", "get_state"])
p("C04", "Continual attention and transformers equal attention over the last N tokens",
  "After any number of tokens n >= sequence_len, the step output of a continual retroactive or single-output multi-head attention, encoder layer or transformer encoder equals the regular torch.nn computation with the same weights on exactly the last sequence_len tokens (all positions for retroactive, the queried position for single-output); before that the output is None. This stays true for arbitrarily long streams, for every head count, width, sequence length, query index, batch layout and activation.",
  ["inputs", "configurations", "histories"],
  "all head counts, embedding sizes, sequence lengths >= 2, query indices, batch layouts, activations, masks given to forward, one and two encoder layers, and streams many times longer than the window (retroactive attention keeps running sums of exponentials: logits within about 12 of zero, beyond which these lose digits)",
  "Tests step barely past one window (the first valid output and one or two more), so ring wrap-around and eviction of old tokens is hardly observed.",
  ["multihead_attention/retroactive_mha.py", "multihead_attention/single_output_mha.py", "multihead_attention/mha_base.py", "transformer.py"],
  [("retroactive update of attention sums", "multihead_attention/retroactive_mha.py:_scaled_dot_product_attention_step"), ("K/V/Q memories", "multihead_attention/single_output_mha.py"), ("residual ring buffer", "transformer.py:RetroactiveUnity")],
  [("d_mem, AV_mem, Q_mem, K_T_mem, V_mem", "attention memories", "multihead_attention/retroactive_mha.py")])
p("C05", "Any composition of continual modules streams like its regular forward",
  "For every network composed of continual and time-local torch.nn modules with Sequential, BroadcastReduce, Residual and Broadcast/Parallel/ParallelDispatch/Reduce containers, stepping through a sequence yields, in order and without gaps or repeats, the outputs that forward on the whole sequence gives wherever those do not depend on end padding; at every other step the network returns None. Branches of different delay are aligned automatically so that a reduction only ever combines values that belong to the same time, also behind strides.",
  ["programs", "inputs", "configurations", "histories"],
  "all nestings of containers and modules (with batch-norm in eval mode), all admissible strides and delays, all inputs and sequence lengths",
  "Tests check a dozen hand-written compositions; the space of nestings, stride/delay mixes and container combinations is unbounded.",
  ["container.py", "delay.py", "skip.py", "convert.py", "closure.py", "linear.py", "shape.py", "module.py"],
  [("automatic delay of parallel branches", "container.py:BroadcastReduce.__init__"), ("None propagation", "container.py:Sequential.forward_step"), ("delay/stride/padding algebra", "container.py:Sequential.receptive_field")])
p("C06", "Outputs do not depend on how a stream is cut into calls",
  "For every continual module or network, the concatenated outputs over a stream are the same for every way of cutting the stream into forward_step calls and forward_steps calls of any lengths, and the state afterwards is equivalent: all continuations give equal outputs. A forward_steps call that completes no window returns None and still consumes its input. Nor do the outputs depend on what is done between the calls that is no part of the stream: printing the module, reading its state or state dict, loading its own parameters, selecting a call_mode while the methods are called by name, or switching between training and evaluation where no module distinguishes them.",
  ["histories", "inputs", "programs"],
  "all partitions of all streams into single-step and multi-step calls, for all modules and compositions",
  "Tests split a stream at one or two fixed places; the number of schedules is exponential.",
  ["module.py", "container.py", "rnn.py", "delay.py", "pooling.py", "conv.py"],
  [("forward_steps loops the step function over a carried state", "module.py:CoModule._forward_steps_impl"), ("container dispatch", "container.py:Sequential.forward_steps")])
p("C07", "pad_end=True reproduces forward and keeps the padding out of the stream",
  "On a module with clean state, forward_steps(x, pad_end=True) returns exactly forward(x), for every convolution, pooling, delay, recurrent and time-local module and every composition of them whose temporal fill matches its padding (retroactive attention and adaptive pooling, whose forward has no stream counterpart for the end, excluded). The end padding is not part of the stream: a later call continues as if pad_end had not been requested, and with update_state=False the padded result is computed from the given input after the preceding stream.",
  ["inputs", "histories", "programs", "configurations"],
  "all modules and compositions, all inputs, and all positions in a stream at which padding is requested",
  "Tests call pad_end on fresh modules and never continue the stream afterwards.",
  ["module.py", "delay.py", "container.py", "conv.py", "pooling.py"],
  [("end padding on a copied state", "module.py:CoModule._forward_steps_impl"), ("delay flush", "delay.py:Delay.forward_steps")])
p("C08", "update_state=False is a pure peek",
  "A forward_step or forward_steps call with update_state=False returns exactly what the same call with update_state=True would return at that point of the stream, and has no effect on any later output, whether the module is fresh, warming up or running. This holds for every module and every composition.",
  ["histories", "inputs", "programs"],
  "all interleavings of peeks and updates at all stream positions including before the first update, for all modules and compositions",
  "Tests peek once at one position of a few modules.",
  ["module.py", "container.py", "rnn.py", "multihead_attention/mha_base.py", "positional_encoding.py", "conv.py"],
  [("state cloned before a peek", "module.py:CoModule.forward_step"), ("backup and restore", "multihead_attention/mha_base.py:forward_step")])
p("C09", "clean_state makes a module indistinguishable from a fresh one",
  "After clean_state, in whatever condition the module was, every sequence of later calls gives the outputs a newly built module with the same parameters gives, including None during warm-up and streams of a different batch size, spatial size or dtype. This holds for every module and for every container, whose clean_state reaches all nested modules.",
  ["histories", "programs", "configurations"],
  "all call histories before cleaning, all continuations, all modules and containers, changes of batch and spatial size across the reset",
  "Tests clean one conv or container after one sequence.",
  ["module.py", "conv.py", "pooling.py", "delay.py", "skip.py", "rnn.py", "container.py", "multihead_attention/retroactive_mha.py", "multihead_attention/single_output_mha.py", "positional_encoding.py"],
  [("state reset per module", "conv.py:_ConvCoNd.clean_state"), ("recursive reset", "container.py:Sequential.clean_state")])
p("C10", "delay, stride and receptive_field tell the truth about the output schedule",
  "For every module and composition, a fresh stream gives its first output after exactly delay preceding steps and then one every stride steps, and each output depends on no input outside the receptive_field most recent steps, in particular on nothing yet to come. (The delay of single-output attention is an offset inside its window and says nothing of the schedule; recurrent modules have no finite receptive field.) After warm_up the module has consumed exactly delay dummy steps.",
  ["programs", "configurations", "inputs"],
  "all modules and compositions of modules, all streams and all single-frame perturbations of them",
  "Tests compare the attributes with hard-coded numbers for a few networks, not with observed output schedules and dependencies.",
  ["module.py", "container.py", "conv.py", "pooling.py", "delay.py", "skip.py"],
  [("delay from receptive field and padding", "module.py:CoModule.delay"), ("composition algebra", "container.py:Sequential.receptive_field"), ("warm_up", "module.py:CoModule.warm_up")],
  (), ["output schedule of forward_step", "attributes delay, stride, receptive_field"])
p("C11", "A saved state restores the stream exactly",
  "If copies of the states returned by get_state are taken from every stateful module of a network at some point, then setting them again at any later time, or on another instance with the same parameters, makes all subsequent outputs equal to those that followed the save point. Setting a state never depends on what the receiving module processed before.",
  ["histories", "programs", "inputs"],
  "all save points (uninitialised modules are saved as clean), all intermediate activity, all continuations and all modules",
  "Tests set or read a state of one module at one point.",
  ["module.py", "conv.py", "pooling.py", "delay.py", "rnn.py", "multihead_attention/mha_base.py", "skip.py"],
  [("get_state/set_state pairs", "conv.py:_ConvCoNd.set_state")],
  (), ["get_state, set_state, later outputs"])
p("C12", "forward never disturbs a running stream and never depends on it",
  "forward gives the same result whether or not the module has consumed a stream, and calling forward (on sequences of any length or batch size) between steps leaves all later step outputs unchanged. Documented exception: RecyclingPositionalEncoding advances its position by forward_update_index_steps.",
  ["histories", "programs", "inputs"],
  "all interleavings of forward calls with step calls for all modules and compositions in evaluation mode",
  "Tests call forward before the stream only.",
  ["module.py", "container.py", "conv.py", "pooling.py", "rnn.py", "multihead_attention/mha_base.py", "convert.py"],
  [("stateless forward", "conv.py:_ConvCoNd.forward"), ("call mode restored after forward", "utils.py:temporary_parameter")])
p("C13", "Calling a module runs exactly the mode selected for it",
  "module(x) equals module.forward, module.forward_steps or module.forward_step according to the innermost active co.call_mode context or else the module's call_mode attribute (accepting names and indices in any case, propagated into containers), for continual modules and converted torch.nn modules alike. Contexts nest, and leaving one by any path restores what was selected before; explicitly named method calls mean what they say in every context.",
  ["histories", "programs"],
  "all nestings of contexts (also exited by exceptions), attribute settings, explicit calls and module kinds",
  "Tests use one flat context and one attribute setting.",
  ["module.py", "container.py", "convert.py", "utils.py"],
  [("dispatch by call mode", "module.py:CoModule._call_impl"), ("context manager", "module.py:_CallModeContext"), ("temporary call mode in containers", "container.py:Sequential.forward")])
p("C14", "Conversion preserves the network function or refuses",
  "co.continual on a torch.nn module (recursively on nn.Sequential), co.forward_stepping on a time-local module and build_from give a module whose forward equals the original's output on every input and whose step outputs agree with it, including shared submodules; parameters carry equal values, dtype, device and names as documented, and keyword arguments given to the conversion override the original's. A module or option whose continual version would compute something else is rejected with an exception instead of silently converted.",
  ["programs", "inputs", "configurations"],
  "all convertible module types with all their constructor options, nested and shared, all inputs",
  "Tests convert a few default-configured modules and compare forward once.",
  ["convert.py", "conv.py", "pooling.py", "rnn.py", "linear.py", "container.py", "transformer.py", "multihead_attention/mha_base.py"],
  [("registry of conversions", "convert.py:continual"), ("time-local wrapping", "convert.py:forward_stepping"), ("build_from per class", "conv.py:Conv1d.build_from")])
p("C15", "State dicts stay compatible with torch.nn and survive flattening",
  "Stream state never appears in a state_dict: a continual module has the same state_dict keys and shapes as the torch.nn module it mirrors, loads that module's weights and reproduces its outputs, before and after streaming. For every container, state_dict with flatten (argument or co.flat_state_dict context, also nested or left by an exception) followed by load_state_dict with flatten restores every parameter and buffer into its own place, and names given in an OrderedDict are kept; keep_vars and prefix mean with flattening what they mean in torch.nn; loading strictly a dict in which a key is renamed raises, and with strict=False the other keys are loaded.",
  ["programs", "configurations", "histories"],
  "all containers, naming schemes and nesting depths, any streaming before or after saving",
  "Tests flatten one hand-written network.",
  ["utils.py", "container.py", "conv.py", "pooling.py"],
  [("flatten and unflatten keys", "utils.py:load_state_dict"), ("non-persistent state buffers", "conv.py:_ConvCoNd.__init__")],
  (), ["state_dict, load_state_dict, later outputs"])
p("C16", "No call changes data it was not given to change",
  "Calls never modify their input tensors, and an output tensor, once returned, never changes through later calls. Overwriting an input after the call or an output by the caller does not alter later results; batch elements are processed independently; distinct instances, also with equal parameters, deep-copied, or used from different threads, never influence each other's streams.",
  ["inputs", "histories", "schedules", "programs"],
  "all modules and compositions, all call sequences, mutations of passed and returned tensors by the caller, all interleavings of independent instances",
  "Tests use each tensor once and never check that inputs and earlier outputs are unchanged, nor run several instances together.",
  ["conv.py", "pooling.py", "delay.py", "skip.py", "container.py", "closure.py", "rnn.py", "multihead_attention/mha_base.py", "transformer.py"],
  [("buffers hold copies", "delay.py:Delay._forward_step"), ("out-of-place accumulation", "conv.py:_ConvCoNd._forward_step_py")],
  (), ["input tensors, output tensors, state of other instances"])
p("C17", "A failing call leaves the module configured as it was",
  "When a call raises (wrong shape or dtype, an exception in a nested module, user function or hook), the exception reaches the caller and the module keeps its configuration: its call mode, padding, delay and the active context are what they were before, and module(x) still runs the selected mode. If the failing input is rejected before any nested module consumed it, the stream continues as though the call had not happened; after clean_state the module always behaves like a fresh one.",
  ["fault_sequences", "histories", "programs"],
  "all points at which a nested module, predicate, reduction or hook can raise, in all call modes, and all continuations",
  "No test makes a call fail and then keeps using the module.",
  ["utils.py", "container.py", "delay.py", "module.py"],
  [("temporary attributes restored", "utils.py:temporary_parameter"), ("state set only after the step", "module.py:CoModule.forward_step")],
  (), ["attributes and outputs after an exception"])
p("C18", "Explicit-state stepping and ONNX export equal stateful stepping",
  "Threading the returned state through the functional step interface gives the same outputs as forward_step for every module and composition, without touching the module's own stream, so several streams can share one module. A model without Conditional and temporal stride above one, exported with co.onnx.export in its steady state and run in an ONNX runtime with its state inputs and outputs connected gives the outputs of forward_step at every step for any number of steps.",
  ["histories", "inputs", "programs"],
  "all modules and compositions in the supported export set, all streams, any interleaving of several streams over one module",
  "Tests export a few nets and compare a single step or two.",
  ["onnx.py", "module.py", "container.py", "conv.py", "pooling.py", "delay.py"],
  [("functional step", "module.py:CoModule.forward_step"), ("state flattening", "onnx.py:OnnxWrapper")],
  (), ["outputs of the functional interface and of the exported graph"])
p("C19", "State stays bounded and exact on endless streams",
  "However long a stream runs, the total size of a module's state does not grow after its receptive field has been filled, no history of the computation is retained in evaluation mode without gradients, and outputs of finite-window modules do not drift: at any time they equal, up to rounding that does not accumulate, the outputs for only the most recent receptive field.",
  ["histories", "inputs"],
  "arbitrarily long streams including large dynamic range, for all modules",
  "Tests run at most a few dozen steps.",
  ["conv.py", "pooling.py", "delay.py", "module.py", "multihead_attention/retroactive_mha.py", "multihead_attention/single_output_mha.py", "rnn.py"],
  [("fixed-size ring buffers", "conv.py:_ConvCoNd.init_state"), ("index wrap-around", "delay.py:Delay._forward_step")],
  (), ["size of state, outputs late in the stream"])
p("C20", "Training through forward_steps gives the gradients of forward",
  "In training mode the gradients of any loss on the outputs of forward_steps (or of a run of forward_step calls) with respect to parameters and inputs equal those of the same loss on the corresponding outputs of forward, for every module and composition that supports training through steps. Backpropagation never fails because of an in-place change to the state. In evaluation mode, where the state may be kept in place, backpropagation gives the same gradients or fails with an error, never silently wrong ones.",
  ["inputs", "programs", "configurations"],
  "all trainable modules and compositions, strides, chunkings and losses",
  "Tests never compare gradients of the two modes.",
  ["conv.py", "delay.py", "pooling.py", "rnn.py", "module.py", "container.py"],
  [("buffer cloned in training", "conv.py:_ConvCoNd._forward_step_py")],
  (), ["gradients of parameters and inputs"])
p("C21", "Parallel routing delivers each stream exactly where it was sent",
  "Broadcast gives every branch the same input, Parallel applies module i to stream i only, ParallelDispatch delivers stream k exactly to the positions its mapping names (reordered, copied, grouped) and Reduce combines all streams with the chosen operation, identically in forward, forward_steps and forward_step. No stream is lost, duplicated or swapped, also in chains of parallel stages and while branches are still warming up.",
  ["programs", "inputs", "histories"],
  "all dispatch mappings including nested groups, all chains of parallel stages, all reductions and call modes",
  "Tests check three documented mappings in forward and a step.",
  ["container.py"],
  [("dispatch mapping", "container.py:ParallelDispatch.forward"), ("index-wise application", "container.py:Parallel.forward_step"), ("reduction functions", "container.py:Reduce")])
p("C22", "Conditional runs exactly the branch its predicate selects",
  "In every call mode Conditional evaluates its predicate on the current input and returns the result of precisely the selected branch with the same arguments (update_state and pad_end included), or the input itself if there is no false branch; only the selected branch's stream advances. Branches have equal delay, and clean_state resets both.",
  ["histories", "inputs", "programs"],
  "all predicate sequences (also switching every step), branch modules of different delays, call modes and arguments",
  "Tests use a constant or once-switched predicate with single calls.",
  ["container.py"],
  [("predicate dispatch", "container.py:Conditional.forward_step"), ("delay matching", "container.py:Conditional.__init__")])
p("C23", "Hooks and FLOP counters see each executed module exactly once per call",
  "When a module or container is called in any mode, the forward (pre-)hooks of every nested module that is executed run exactly once per execution with the values actually passed and returned, a value returned by a hook replaces the input or output, and hooks of modules not executed do not run. Consequently ptflops counts are per-step costs in forward_step mode and agree with the sum over executed modules, and the flops() of an attention module is the multiply-accumulates it really executes.",
  ["programs", "histories", "configurations"],
  "all compositions, call modes and hook placements (global, pre-, forward and backward hooks)",
  "Tests check ptflops output for a few nets and never count hook calls.",
  ["module.py", "convert.py", "container.py", "ptflops.py"],
  [("hook handling in the call path", "module.py:CoModule._call_impl"), ("converted modules", "convert.py:forward_stepping"), ("ptflops registration", "ptflops.py")],
  (), ["hook invocations and their arguments"])
p("C24", "Positional encodings recycle positions without skips or repeats",
  "Over any mix of forward_step and forward_steps calls, RecyclingPositionalEncoding adds to the n-th consumed step the embedding of position n modulo the number of embeddings; forward on T steps adds consecutive positions from the current one and then advances by exactly forward_update_index_steps. Calls with update_state=False do not advance, clean_state returns to position zero, and learned and static encodings obey the same rule; the static table is the cyclic encoding of Ma et al. for the given number of positions.",
  ["histories", "inputs", "configurations"],
  "all schedules of calls, wrap-arounds, embedding counts and advance settings",
  "Tests make a few calls from position zero and hardly wrap around.",
  ["positional_encoding.py"],
  [("position index", "positional_encoding.py:RecyclingPositionalEncoding.forward")])
p("C25", "Delay and Skip are lossless first-in first-out lines",
  "A Delay of d emits, in order, each frame exactly once and unchanged exactly d steps after it was fed (None before), for every d, batch and frame shape and schedule; a Skip drops exactly the first frames it was told to and passes every other one immediately. Their forward is the identity or the documented temporal shrink (centered, lagging or leading), and the frames emitted by steps are exactly the frames of forward in order.",
  ["histories", "inputs", "configurations"],
  "all delays, shrink modes, shapes, dtypes and schedules of step and multi-step calls with and without flush",
  "Tests push one short sequence through delays of two or so.",
  ["delay.py", "skip.py", "container.py"],
  [("ring buffer", "delay.py:Delay._forward_step"), ("countdown", "skip.py:Skip._forward_step"), ("residual shrink", "container.py:Residual")],
  [("state_buffer/state_index", "frames in flight and ring position", "delay.py")])
p("C26", "A step costs one step",
  "The arithmetic executed by forward_step does not grow with the length of the stream, and is that of the new time step alone: a convolution meets the new frame once with its kernel, a linear or recurrent layer applies its weights once, attention projects the new token once (not the window) and adds work linear in the window, and a network executes the layers it is made of once each. A forward_steps call on T frames executes no more arithmetic than T forward_step calls. This is the redundancy which continual inference exists to remove.",
  ["inputs", "configurations", "histories"],
  "all layers and compositions, kernel, window and receptive-field sizes, positions in arbitrarily long streams, and chunk sizes",
  "Tests compare values, which are the same when the whole window is computed again; at most they read the counters of ptflops, which are formulas.",
  ["conv.py", "linear.py", "rnn.py", "pooling.py", "container.py", "multihead_attention/retroactive_mha.py", "multihead_attention/single_output_mha.py", "multihead_attention/mha_base.py", "transformer.py"],
  [("partial outputs kept in a ring buffer", "conv.py:_ConvCoNd._forward_step_py"), ("projection of the new token only", "multihead_attention/mha_base.py"), ("one call of each module", "container.py:Sequential.forward_step")],
  (), ["multiply-accumulates and elements dispatched to torch during a call"])
p("C27", "Modules compute with the parameters they have now",
  "Whatever was computed before, forward and every stream begun after a change of parameters or buffers (state dict loaded, in-place copy, replaced .data, newly assigned Parameter, optimizer step, parametrization, conversion to another dtype and back) give exactly the result of a new instance which had the present values from the beginning; so does a stream which was running during the change, from the step at which no frame or state of before the change can reach the output. All of the parameters matter, none is remembered from an earlier call.",
  ["histories", "configurations", "programs"],
  "all modules and compositions with parameters, ways to change all or some of them, and positions of the change in a stream",
  "Tests set parameters once, before the first call, so anything derived from them and kept is never stale.",
  ["conv.py", "linear.py", "rnn.py", "multihead_attention/mha_base.py", "multihead_attention/retroactive_mha.py", "multihead_attention/single_output_mha.py", "positional_encoding.py", "transformer.py", "container.py", "module.py"],
  [("weights read at every step", "conv.py:_ConvCoNd._forward_step_py"), ("projection weights", "multihead_attention/mha_base.py"), ("embedding table", "positional_encoding.py:RecyclingPositionalEncoding.forward")])

p("C28", "What cannot be streamed is refused, what can be is accepted",
  "A configuration which could not be streamed correctly raises an exception when it is built or at the latest when first used, before it gives any output: parallel branches (BroadcastReduce, Parallel) of different temporal strides at any depth, Residual around a strided module or centered shrink of an odd delay, temporal dilation of convolutions, adaptive pooling to other than one temporal output, spatial dilation of average pooling, pooling windows of no frames, negative delays, Skip of no steps, unknown paddings, fills, shrink modes, reductions, activations and call modes, query indices outside of the sequence, malformed dispatch mappings, closures and predicates which are not callable, Broadcast without a number of streams, reduction of a single branch, layers without registered conversion wherever they are nested, user classes and registrations lacking a part of the CoModule interface, more positions than a positional encoding has, frames with the wrong number of dimensions. The modules, modes and registrations it was made from are left as they were. The valid configuration next to it is accepted and streams as its regular counterpart.",
  ["configurations", "programs"],
  "all combinations of options, strides, nestings and children on both sides of each limit",
  "Tests check a few refusals each with one configuration, and never that nothing is left behind or that the neighbouring valid configuration works.",
  ["container.py", "conv.py", "pooling.py", "delay.py", "skip.py", "closure.py", "convert.py", "module.py", "transformer.py", "positional_encoding.py", "multihead_attention/single_output_mha.py"],
  [("equal strides of branches", "container.py:BroadcastReduce.__init__"), ("residual limits", "container.py:Residual"), ("interface of continual modules", "module.py:CoModule._validate_class"), ("registered conversions", "convert.py:continual")],
  (), ["exceptions of constructors, conversions, registrations and first calls; outputs"])
p("C29", "Modules written by users take part like the library's own",
  "A CoModule subclass which provides forward and _forward_step with get_state, set_state and clean_state, or methods of its own for all modes, and which gives receptive_field, stride and padding as class attributes, instance attributes or properties, works everywhere a module of the library does: called directly in any mode, converted through a registered conversion, and anywhere inside Sequential, BroadcastReduce, Parallel, Residual and Conditional at any depth. All guarantees of the library hold for it and for networks containing it: streams equal forward, cuts do not matter, peeking is pure, clean_state and saved states, end padding, alignment of delays, schedules, hooks, gradients, call modes, flattened state dicts and explicit-state stepping.",
  ["programs", "configurations", "histories", "inputs"],
  "all ways to write a temporal module against the CoModule interface, all networks around it and all programs of calls",
  "Tests use user-made modules only as trivial identities in single calls.",
  ["module.py", "container.py", "convert.py", "delay.py", "closure.py"],
  [("default stepping on _forward_step", "module.py:CoModule.forward_step"), ("default chunks and end padding", "module.py:CoModule._forward_steps_impl"), ("containers call children by mode", "container.py:Sequential.forward_step"), ("registration", "convert.py:register")])

p("C30", "A Sequential can be edited like a list of its modules",
  "A Sequential behaves like the list of its modules under any sequence of append, extend, +=, add_module (of a new or an old name), insert, replacement and deletion by positive or negative index or slice, pop, slicing and moves from one Sequential to another, in slices and slices of slices too, with names of any kind (+= and insert: numbered ones), empty at first or in between, whether it has run or not: it holds exactly the modules a list would hold in that order (torch.nn modules given to append, extend, += and add_module being converted), none is lost or silently replaced, delay, stride, padding, receptive field and parameters are those of a Sequential built from these modules at once, and in every mode it computes what these modules compute one after the other, each going on from its own past.",
  ["programs", "configurations", "histories", "inputs"],
  "all edit programs on all Sequentials, with streams in between",
  "Tests append to one fresh Sequential once.",
  ["container.py"],
  [("append and conversion", "container.py:Sequential.append"), ("converting additions", "container.py:Sequential.add_module"), ("attributes derived from the current modules", "container.py:Sequential.receptive_field")])

p("C31", "Looking at a module never fails and changes nothing",
  "At any point of any stream, for every module and network and every module in it: printing it, reading its attributes, states, state dicts (flattened too), parameters and structure, deep and shallow copies, slices, entering and leaving contexts without a call, registering and removing hooks, converting a continual module again and setting what is set already all succeed, say the same as before if nothing was edited, and change no later output, state, state dict or forward. What is done to a deep copy is no matter of the original. The text of a module contains its children, the names of the functions and modules given to Lambda and Conditional and the source text of a lambda (if it is available and alone on its line), whatever kind of callable they are.",
  ["histories", "programs", "configurations"],
  "all modules and networks around all kinds of callables, all looks at all points of their streams",
  "Tests print a few fresh modules and never look at one in the middle of a stream.",
  ["utils.py", "closure.py", "container.py", "delay.py", "module.py", "convert.py"],
  [("text of functions", "utils.py:function_repr"), ("state dicts", "utils.py:state_dict"), ("states given out", "module.py:CoModule.get_state"), ("conversion of continual modules", "convert.py:continual")],
  (), ["texts, attributes, states and state dicts read during streams; outputs"])

p("C32", "A module works on the device and in the type it was put",
  "Put on another device or in another floating-point type with .to, before the first call or at any point of a stream, or built in a torch.device context, a module or network goes on there: its parameters, buffers and running state are all moved, no operation ever mixes tensors of two devices or types, no value is lost, and every later output of forward, forward_step, forward_steps (padded or peeking), warm_up and clean_state, also with states carried to another module, comes at the same step with the same shape and the same values (up to rounding) as from a module which stayed, on the device and in the type of the input. This includes moves there and back again.",
  ["histories", "programs", "configurations", "inputs"],
  "all modules and networks, all sequences of moves between two devices and four types, at all points of all streams",
  "Tests run on one device in float32 only; nothing is ever moved.",
  ["conv.py", "pooling.py", "delay.py", "rnn.py", "skip.py", "positional_encoding.py", "transformer.py", "multihead_attention/mha_base.py", "module.py"],
  [("states are buffers", "conv.py:_ConvCoNd.__init__"), ("state of recurrent modules", "rnn.py:RNN.set_state"), ("frames selected in the state", "pooling.py:_PoolNd._forward_step"), ("index of the encoding", "positional_encoding.py:RecyclingPositionalEncoding.clean_state"), ("warm_up in the type of the module", "module.py:CoModule.warm_up")],
  (), ["device, type and values of outputs, parameters and buffers; devices of the operands of every operation"])

p("C33", "A module can be copied and stored whole at any point of a stream",
  "At any point of a stream (fresh, warming up, running, after clean_state) a module or network, converted modules, pools, reductions and named functions included, can be copied with copy.deepcopy, pickled with any protocol, or saved whole with torch.save, and the copy or the reloaded module, in the same or in another process, continues the stream exactly as the original would have: same outputs at the same steps, same forward, same call and training mode, attributes and state-dict keys; copies of copies do, too. Copy and original share nothing: neither frames given to one nor overwriting the parameters of one has any effect on the other.",
  ["histories", "crash points", "configurations", "programs"],
  "all modules and networks built from named functions, all points of all streams, all chains of copies",
  "No test copies or stores a module which runs.",
  ["conv.py", "pooling.py", "delay.py", "rnn.py", "container.py", "convert.py", "closure.py", "transformer.py", "multihead_attention/mha_base.py"],
  [("functions bound to converted modules", "convert.py:forward_stepping"), ("reductions", "container.py:nonempty"), ("pooling functions", "pooling.py:_PoolNd.__init__"), ("encoders of one layer and more", "transformer.py:TransformerEncoder.__init__"), ("states are buffers", "conv.py:_ConvCoNd.__init__")],
  (), ["outputs of copies, originals and never-copied twins, here and in another process"])

p("C34", "Streams in different threads do not disturb each other",
  "Threads which each drive a module or network of their own (built alike, copied from a running one, or sharing parameters), or which share one module for forward and for stepping with states of their own, observe what each would observe alone, however their executions interleave: the same outputs at the same steps, the same state-dict keys, the same results of construction and conversion. A call mode or flattening of state dicts selected in one thread, nested or left by an exception, applies in that thread only and only while it is selected; after all threads have ended, nothing is selected.",
  ["schedules", "programs", "configurations"],
  "all interleavings of threads, all programs of calls, contexts, state dicts, conversions and constructions",
  "No test runs a second thread.",
  ["module.py", "utils.py", "container.py", "delay.py", "convert.py", "conv.py", "pooling.py", "multihead_attention/mha_base.py"],
  [("call modes of a thread", "module.py:_CallModeContext"), ("modes suspended in containers", "container.py:temporary_call_mode"), ("flattening of state dicts", "utils.py:_FlatStateDict"), ("attributes set for a call", "utils.py:temporary_parameter"), ("explicit states", "module.py:CoModule._forward_step")],
  (), ["records of programs run in threads under chosen interleavings and alone", "selected modes afterwards"])

for q in P:
    assert len(q["title"]) <= 80, (q["id"], len(q["title"]), q["title"])
    for m in q["anchors"]["files"]:
        assert os.path.exists("/repo/" + m), m
with open("/verif/properties.jsonl", "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
