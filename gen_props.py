#!/usr/bin/env python3
"""Generates properties.jsonl (kept as code so long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

p('C01', 'Sample rate reaches every nested component unchanged',
  'Setting the sample rate of any component, operator combination, graph, sequencer, slot or wrapper delivers exactly that rate to every component nested inside it, on every call; a component running inside an oversampler receives exactly twice the rate. A unit that is later added to or replaced in a graph or sequencer receives the current rate of its host. (A unit put into a live slot keeps the rate it was given by the caller.)',
  ['programs', 'inputs', 'histories'], 'every composite component, every nesting of components, every rate, every moment of the call',
  'Tests render a few graphs at one or two rates; a child left behind only shows up in the particular nesting at a non-default rate.',
  ['src/audionode.rs', 'src/audiounit.rs', 'src/net.rs', 'src/sequencer.rs', 'src/feedback.rs', 'src/oversample.rs', 'src/resample.rs', 'src/combinator.rs', 'src/setting.rs', 'src/slot.rs', 'src/reverb.rs', 'src/vertex.rs', 'src/granular.rs', 'src/resynth.rs', 'src/realnet.rs', 'src/realseq.rs'],
  [('set_sample_rate of every AudioNode / AudioUnit implementation', 'src/*.rs')], ['output of nested components after a rate change'])

p('C02', 'Rate-dependent state follows the sample rate',
  'When the sample rate of a component is set, everything the component stores that was computed from a sample rate (durations in samples, increments, filter coefficients, smoothing factors, stored rates) is recomputed from the new rate before the next sample is produced. No call path keeps a value derived from the earlier rate.',
  ['inputs', 'histories'], 'every component, every sequence of rate changes',
  'Most unit tests run at a single rate, so a stale coefficient equals the fresh one.',
  ['src/svf.rs', 'src/biquad.rs', 'src/biquad_bank.rs', 'src/filter.rs', 'src/oscillator.rs', 'src/dynamics.rs', 'src/follow.rs', 'src/envelope.rs', 'src/delay.rs', 'src/moog.rs', 'src/rez.rs', 'src/noise.rs', 'src/wavetable.rs', 'src/reverb.rs', 'src/resynth.rs', 'src/granular.rs', 'src/sequencer.rs'],
  [('assignments to rate-derived fields in set_sample_rate', 'src/*.rs')])

p('C03', 'Reset reaches every nested component',
  'Resetting any component, operator combination, graph, sequencer or wrapper resets every component nested inside it, each time, regardless of its current state. No child that takes part in processing is skipped.',
  ['programs', 'histories'], 'every composite component, every nesting, every prior processing history',
  'Tests reset a handful of graphs; a skipped child is visible only if that child carries state at the moment of the reset.',
  ['src/audionode.rs', 'src/audiounit.rs', 'src/net.rs', 'src/sequencer.rs', 'src/feedback.rs', 'src/oversample.rs', 'src/resample.rs', 'src/combinator.rs', 'src/setting.rs', 'src/slot.rs', 'src/reverb.rs', 'src/vertex.rs', 'src/adsr.rs', 'src/shape.rs'],
  [('reset of every AudioNode / AudioUnit implementation', 'src/*.rs')])

p('C04', 'Reset clears all state that processing accumulates',
  'After a reset, a component behaves as it did when it was first built with its current settings: every piece of internal state that processing modifies (phases, delay lines, filter memories, counters, envelopes, generator states) is put back to a fixed initial value, the same value a newly constructed component starts with. Nothing processed before the reset influences what is produced after it. (State inside closures supplied by the user and the progress of a running crossfade are outside.)',
  ['histories', 'inputs'], 'every component, every processing history before the reset',
  'Tests compare a run before and after reset for selected components and short histories; leftover state that matters only after particular inputs or durations is not reached.',
  ['src/audionode.rs', 'src/delay.rs', 'src/svf.rs', 'src/biquad.rs', 'src/oscillator.rs', 'src/noise.rs', 'src/dynamics.rs', 'src/follow.rs', 'src/envelope.rs', 'src/adsr.rs', 'src/feedback.rs', 'src/fir.rs', 'src/filter.rs', 'src/moog.rs', 'src/rez.rs', 'src/resynth.rs', 'src/oversample.rs', 'src/resample.rs', 'src/wavetable.rs', 'src/sequencer.rs', 'src/granular.rs', 'src/shape.rs'],
  [('reset overrides and the fields they write', 'src/*.rs')])

p('C05', 'Preallocation reaches every nested component',
  'A request to preallocate made to any component, operator combination, graph, sequencer or wrapper reaches every component nested inside it. Every buffer that a component grows lazily while processing is also brought to its final size by that request.',
  ['programs'], 'every composite component and nesting',
  'Allocation during processing is invisible to value-based tests.',
  ['src/audionode.rs', 'src/audiounit.rs', 'src/net.rs', 'src/sequencer.rs', 'src/feedback.rs', 'src/combinator.rs', 'src/dynamics.rs', 'src/resynth.rs', 'src/wavetable.rs', 'src/reverb.rs', 'src/setting.rs', 'src/shape.rs', 'src/granular.rs'],
  [('allocate of every AudioNode / AudioUnit implementation', 'src/*.rs')])

p('C06', 'The audio path does not allocate, block or do I/O',
  'Once preallocated, producing audio sample by sample or block by block never allocates or frees heap memory, takes a lock, blocks, or performs input/output, for every component of the library. Containers filled by an explicit user action, closures supplied by the user, and live edits that find the return queue to the controlling side full or absent are outside.',
  ['programs', 'inputs', 'schedules'], 'every component, every call of the sample and block entry points',
  'Tests check values, not allocations or locks; the offending branch may be rare.',
  ['src/audionode.rs', 'src/audiounit.rs', 'src/net.rs', 'src/sequencer.rs', 'src/realnet.rs', 'src/realseq.rs', 'src/slot.rs', 'src/snoop.rs', 'src/ring.rs', 'src/resynth.rs', 'src/dynamics.rs'],
  [('call graph reachable from tick and process', 'src/*.rs')])

p('C07', 'Real-time back ends hand retired units back, never drop them',
  'When the audio-side half of a live graph, sequencer or slot replaces or finishes a unit, the unit it retires is handed back to the controlling side for disposal instead of being destroyed on the audio thread. Every update message sent by the controlling side is consumed and applied in full, in order, before the next sample is rendered.',
  ['schedules', 'histories'], 'every sequence of edits and every interleaving of controlling and audio side',
  'Tests use a few edits and never look at which thread destroys what.',
  ['src/realnet.rs', 'src/realseq.rs', 'src/slot.rs', 'src/net.rs', 'src/sequencer.rs', 'src/vertex.rs'],
  [('NetBackend / SequencerBackend / SlotBackend message handling', 'src/realnet.rs, src/realseq.rs, src/slot.rs')])

p('C08', 'Structural hash visits every nested component and seeds each one',
  'Determining the pseudorandom identity of a composite threads one running hash through every nested component, in a fixed order that does not depend on audio state, so that components in different positions receive different seeds and identical structures receive identical ones. A probing visit computes the hash without changing any seed, a non-probing visit stores the seed in every component that uses pseudorandom phase or noise. (The events of a sequencer and the units waiting in a slot or in a crossfade are content, not structure.)',
  ['programs'], 'every composite component and structure',
  'Tests cover a few structures; a missed child keeps a default seed which is still valid-looking noise.',
  ['src/audionode.rs', 'src/audiounit.rs', 'src/net.rs', 'src/sequencer.rs', 'src/combinator.rs', 'src/feedback.rs', 'src/oscillator.rs', 'src/noise.rs', 'src/wavetable.rs', 'src/envelope.rs', 'src/granular.rs', 'src/slot.rs'],
  [('ping / set_hash of every component, unique ID constants', 'src/*.rs')])

p('C09', 'Rendering is deterministic',
  'The audio a component produces is a function of its construction, settings, hash and inputs only: no clock, operating-system randomness, environment, thread identity, memory address or process-wide mutable state influences construction or processing. Two identical programs render identical audio in every run.',
  ['programs', 'histories', 'schedules'], 'every component, every run',
  'A test run compares against itself in one process.',
  ['src/audionode.rs', 'src/noise.rs', 'src/math.rs', 'src/net.rs', 'src/sequencer.rs', 'src/wavetable.rs', 'src/granular.rs'],
  [('absence of nondeterministic sources in the call graph', 'src/*.rs'), ('hash based pseudorandomness', 'src/math.rs, src/audionode.rs')])

p('C10', 'A setting reaches exactly the component and parameter it is addressed to',
  'A setting sent to an operator combination, multi-component combinator or graph is delivered to the nested component its first address step names - left, right, the indexed one, or the graph node - with that step removed and the parameter unchanged, and to no other; a wrapper around a single component passes it on as it is, and a setting listener applies every waiting setting before it produces audio. In a component with parameters, a setting of a given kind, a setter method, or a changed parameter input updates exactly the parameter it stands for and everything derived from it, whatever the other parameters are.',
  ['inputs', 'programs'], 'every composite, every address and parameter',
  'Tests send a few settings to a few components.',
  ['src/setting.rs', 'src/audionode.rs', 'src/net.rs', 'src/svf.rs', 'src/biquad.rs', 'src/pan.rs', 'src/noise.rs', 'src/filter.rs', 'src/combinator.rs', 'src/oscillator.rs', 'src/feedback.rs', 'src/biquad_bank.rs', 'src/delay.rs', 'src/rez.rs', 'src/moog.rs', 'src/follow.rs'],
  [('set of every component; Setting::peel/left/right/index/node', 'src/setting.rs'), ('cached parameter inputs', 'src/svf.rs, src/biquad.rs, src/rez.rs, src/filter.rs')])

p('C11', 'Signal analysis (response, latency) agrees with the audio',
  'The frequency-response and latency analysis of a composite is assembled from its parts exactly the way audio is: serial composition feeds the result of the first part to the second, parallel composition splits and joins channels in order, a shared-input composition gives every part the same input, and wrappers analyse what they play. The result has exactly one entry per output channel. Latencies add up in series and combine by minimum in parallel; a response passes through linear components only, is scaled and summed with the weights of the audio (panner, mixer, join, operators with constants), and becomes a latency in nonlinear ones. The response reported by a linear filter (biquads, one-pole filters, pinking and DC-blocking filters, followers, one-sample delay, all modes of the state variable filter) is the transfer function of the sample update that produces its audio, for every frequency, sample rate and parameter value, up to rounding.',
  ['programs', 'inputs'], 'every composite and every component, every frequency and parameter value',
  'Tests sample responses of some filters and composites at a few frequencies with fixed parameters.',
  ['src/signal.rs', 'src/audionode.rs', 'src/audiounit.rs', 'src/delay.rs', 'src/filter.rs', 'src/svf.rs', 'src/biquad.rs', 'src/follow.rs', 'src/pan.rs', 'src/dynamics.rs', 'src/resynth.rs'],
  [('route of every component, Routing::route, Signal::combine_linear, SvfMode::response, tick of the filters', 'src/signal.rs, src/svf.rs, src/*.rs')])

p('C12', 'Every graph edit takes effect in rendering',
  'Each operation that adds, removes or reconnects nodes of a dynamic graph discards the evaluation order and the source shortcuts derived from the connections before rendering or analysis uses them again. Sample rendering, block rendering and analysis read every node input and every graph output from exactly the source currently stored for it: the named node output, the named graph input, or zero when unconnected.',
  ['histories'], 'every sequence of graph edits interleaved with rendering',
  'Tests use short edit sequences; a stale order shows only for particular edit/render interleavings.',
  ['src/net.rs', 'src/vertex.rs'],
  [('Net::invalidate_order, determine_order and the mutating methods', 'src/net.rs')])

p('C13', 'Graph node identities stay consistent across edits',
  'In a dynamic graph an operation that names a node by identity acts on the node that identity was returned for, whatever was added, removed, replaced or merged in the meantime, and changes exactly the connections it names to exactly the source it names. Adding, removing, merging and committing keep the identity table in step with the node list. After a removal every connection to the removed node is zero or is linked through it, and every connection to a node that changed place follows that node.',
  ['histories'], 'every sequence of graph edits',
  'Tests use short edit sequences with few nodes.',
  ['src/net.rs', 'src/vertex.rs', 'src/realnet.rs'],
  [('node_index map, vertex ids and source ports', 'src/net.rs')])

p('C14', 'Block processing fills every requested sample of every output',
  'Processing a block of any size up to the maximum block size writes every sample of every output channel up to the requested size: no output channel, trailing partial group of samples, or branch is left with the old contents of the output buffer, and a component that mixes into its output has first overwritten all of it. (Whether the values are the right ones is the subject of other properties; a component that buffers its source at its own pace is outside.)',
  ['inputs', 'programs'], 'every component and every block size 0..=64',
  'Tests use whole blocks or a few sizes; buffers are usually zeroed beforehand.',
  ['src/audionode.rs', 'src/audiounit.rs', 'src/net.rs', 'src/sequencer.rs', 'src/oscillator.rs', 'src/noise.rs', 'src/buffer.rs', 'src/combinator.rs', 'src/resynth.rs', 'src/pan.rs', 'src/wavetable.rs', 'src/slot.rs'],
  [('process of every component', 'src/*.rs')])

p('C15', 'Block processing advances the same state as sample processing',
  'Processing a block advances every piece of internal state that processing the same samples one by one would advance, by the amount of as many samples as the block has, whatever its size, so the two ways of rendering can be mixed freely: phases, clocks, buffer positions and generators are where sample-by-sample rendering would have left them, and a remembered input is the last one of the block. Every nested component and waveshaper is run for exactly the samples of the block. (Rounding differences, the position within a crossfade and updates that are made once per block by design are outside; so is a component that renders its source ahead.)',
  ['inputs', 'histories', 'programs'], 'every component, every partition of a signal into blocks and single samples',
  'Tests compare the two paths for some components, whole blocks, from a fresh state.',
  ['src/audionode.rs', 'src/audiounit.rs', 'src/oscillator.rs', 'src/noise.rs', 'src/wavetable.rs', 'src/combinator.rs', 'src/feedback.rs', 'src/net.rs', 'src/sequencer.rs'],
  [('tick and process of every component', 'src/*.rs')])

p('C16', 'Combinators wire channels as documented',
  'In each combinator, sample and block processing connect channels as documented: a pipe feeds the outputs of the left part to the right part, a stack gives each part its own consecutive input and output channels in order, a branch gives every part the full input and concatenates outputs, a bus gives every part the full input and adds the outputs channel by channel, a thru passes the inputs that lack a matching output through unchanged, and arithmetic operators combine corresponding channels with the operation they are written with.',
  ['programs', 'inputs'], 'every combinator, any operand components with any channel counts',
  'Tests instantiate a handful of channel counts; generic code must be right for all of them.',
  ['src/audionode.rs', 'src/combinator.rs', 'src/feedback.rs', 'src/net.rs'],
  [('tick and process of Pipe, Stack, Branch, Bus, Thru, Binop, Unop, Multi*, Chain, Reduce', 'src/audionode.rs')])

p('C17', 'Safe interfaces cannot cause memory unsafety',
  'No call of a safe public function makes the crate view memory beyond the buffer a pointer was taken from, write through a shared borrow, index without a check or a mask, apply an unchecked float conversion to a value that was not limited, alias the buffer of a graph node while it runs (no node can be connected to itself, whichever editing function is used), or read a scratch buffer that nothing wrote.',
  ['inputs', 'programs', 'histories'], 'every safe call sequence and argument',
  'Out-of-range access is silent in tests.',
  ['src/buffer.rs', 'src/wavetable.rs', 'src/wave.rs', 'src/audionode.rs', 'src/delay.rs', 'src/shared.rs', 'src/net.rs', 'src/math.rs', 'src/fft.rs', 'src/denormal.rs'],
  [('unsafe blocks and their guards', 'src/*.rs')])

p('C18', 'Channel-count mismatches and unsound use are rejected at compile time',
  'A statically typed expression that connects components with different channel counts, in any operator or combinator, does not compile, while the matching expression does (the length of a chain is checked when it is built). Every component can be sent to another thread and shared, and references to buffer contents cannot outlive or alias the buffer.',
  ['programs'], 'every program using the public interface',
  'Runtime tests only contain programs that compile.',
  ['src/audionode.rs', 'src/combinator.rs', 'src/buffer.rs', 'src/audiounit.rs', 'src/prelude.rs'],
  [('trait bounds on operators and combinators', 'src/combinator.rs, src/audionode.rs')])

p('C19', 'Operators and prelude environments agree',
  'Each operator builds the combinator it documents, with operands in written order, for statically typed components and for dynamic graphs alike. Every operation of the generic prelude environment exists in the two concrete ones, and a given operation builds the same component from the same arguments in each, differing only in internal precision.',
  ['programs'], 'every operator and every prelude function',
  'There are hundreds of constructor functions in triplicate; tests call a few, mostly from one environment.',
  ['src/combinator.rs', 'src/prelude.rs', 'src/hacker.rs', 'src/hacker32.rs', 'src/net.rs'],
  [('operator impls and prelude functions', 'src/combinator.rs, src/prelude.rs, src/hacker.rs, src/hacker32.rs')])

p('C20', 'A clone is complete and independent',
  'Cloning a component, graph or sequencer copies every field of its state, so the clone continues exactly like the original, and shares no mutable processing state with it except variables that are shared by design. Processing one never changes the other. (Ends of communication channels, uncommitted live edits and scratch buffers are not part of the state.)',
  ['programs', 'histories'], 'every component, every history before the clone',
  'Tests clone a few graphs.',
  ['src/audionode.rs', 'src/net.rs', 'src/sequencer.rs', 'src/shared.rs', 'src/wavetable.rs', 'src/oscillator.rs', 'src/slot.rs', 'src/vertex.rs'],
  [('Clone impls', 'src/*.rs')])

p('C21', 'Units and connections that do not fit are refused when introduced',
  'Units and connections whose channel counts do not fit are refused by the call that introduces them: a graph, sequencer, slot, wave renderer, feedback, boxed-unit wrapper or chain stops before it stores a unit whose channel counts do not match, and a graph never stores a caller-given port that does not exist. This holds in release builds as well.',
  ['inputs', 'programs', 'histories'], 'every public operation that stores a unit or a connection, every combination of channel counts and ports',
  'Tests connect units that fit, in debug builds; a missing check shows only later, as a panic or wrong channel while rendering.',
  ['src/net.rs', 'src/sequencer.rs', 'src/slot.rs', 'src/wave.rs', 'src/feedback.rs', 'src/audionode.rs', 'src/audiounit.rs', 'src/prelude.rs'],
  [('assertions on channel counts', 'src/net.rs, src/sequencer.rs, src/slot.rs, src/wave.rs')])

p('C22', 'Graph evaluation order respects dependencies',
  'In a graph without cycles, the evaluation order places every node after all nodes it reads from, contains each node exactly once, and a graph with a cycle is reported as an error.',
  ['inputs', 'histories'], 'every graph',
  'Tests build small random graphs.',
  ['src/net.rs'], [('determine_order_in', 'src/net.rs')])

p('C23', 'Sample and block rendering produce the same audio',
  'For every component and input, block rendering gives the same sample values as sample rendering, up to rounding.',
  ['inputs', 'histories'], 'every component, input and partition into blocks',
  'Tests compare selected components on short signals.',
  ['src/audionode.rs', 'src/oscillator.rs', 'src/noise.rs', 'src/wavetable.rs'], [('tick and process of every component', 'src/*.rs')])

p('C24', 'Filters have the response they document',
  'With the coefficients computed for a cutoff or centre frequency in Hz, a Q and an amplitude gain at a sample rate, each linear filter realises the filter it is named after: '
  'the state variable filters and the biquad lowpass, highpass and bell are the bilinear transforms of the standard second-order prototypes in s = (1 - z1) / (1 + z1) / tan(pi cutoff / rate) '
  '(lowpass 1/D, highpass s^2/D, bandpass s/D, notch (s^2+1)/D, peak (s^2-1)/D, allpass (s^2-s/Q+1)/D with D = s^2+s/Q+1; bell and shelves with gain reached at the centre, at zero, or at half the sample rate), '
  'the Butterworth lowpass has Q = 1/sqrt(2), the resonator has its poles at the centre frequency and a noise gain that does not depend on bandwidth, the one-pole filters have the documented pole and unit gain in the passband, '
  'the first-order allpass has the documented delay at DC, and followers settle at a constant input. Nonlinear biquads with an identity shape are the linear biquad; for small signals the Moog filter is four equal one-pole sections in a negative feedback loop, and a resonant lowpass (bandpass) passes (removes) a constant signal.',
  ['inputs'], 'every filter, parameter value, sample rate and frequency',
  'Tests measure a few parameter values, and compare the audio only with the response function, which shares the formulas; the coefficients of nonlinear biquads are not measured at all.',
  ['src/svf.rs', 'src/biquad.rs', 'src/filter.rs', 'src/follow.rs'], [('coefficient constructors and sample updates', 'src/svf.rs, src/biquad.rs, src/filter.rs')])

p('C25', 'Oscillators stay band-limited and in range',
  'Wavetable and phase-synchronous oscillators keep aliasing below the documented level and their output in the documented range, for every frequency up to the Nyquist limit.',
  ['inputs'], 'every oscillator and frequency',
  'Tests listen to a few notes.',
  ['src/wavetable.rs', 'src/oscillator.rs'], [('table selection by frequency', 'src/wavetable.rs')])

p('C26', 'Sequenced events start, fade and end on the exact sample',
  'A sequencer event is audible exactly between the samples of its start and end time, its fades have exactly the given durations and shapes, and the result does not depend on how rendering is divided into blocks.',
  ['inputs', 'histories', 'schedules'], 'every set of events, sample rate and partition into blocks',
  'Tests use few events with round times.',
  ['src/sequencer.rs'], [('process, fade_in and fade_out', 'src/sequencer.rs')])

p('C27', 'Envelopes and dynamics keep their documented bounds',
  'A limiter never lets a peak above its ceiling through, an envelope is continuous and stays within its levels, and followers reach their documented fraction of a step in the documented time.',
  ['inputs', 'histories'], 'every input signal and parameter value',
  'Tests run a few signals.',
  ['src/dynamics.rs', 'src/envelope.rs', 'src/adsr.rs', 'src/follow.rs'], [('Limiter, Envelope, AdsrLive, Follow', 'src/dynamics.rs, src/envelope.rs')])

p('C28', 'Waves survive a round trip through a file',
  'A wave that is saved as 32-bit float and loaded again has the same sample rate, channels and samples; a 16-bit file differs by at most the quantisation step.',
  ['inputs'], 'every wave',
  'Tests would write a handful of files.',
  ['src/write.rs', 'src/read.rs', 'src/wave.rs'], [('Wave::save_wav16, save_wav32, load', 'src/write.rs, src/read.rs')])

json_lines = '\n'.join(json.dumps(x) for x in P) + '\n'
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w').write(json_lines)
print(len(P))
