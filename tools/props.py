"""Single source for properties.jsonl (run: python3 tools/props.py)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, sym=(), level=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in MECH.get(id, [])]},
    })


MECH = {
 "C01": [("hand-written Clone impls copy settings, reset position", "src/generators/*.rs, src/utils/mono_resampler.rs: impl Clone")],
 "C02": [("hand-written Clone impls copy settings, reset history", "src/modifiers/*.rs: impl Clone")],
 "C03": [("FreqMod::new/set_frequency/get_frequency", "src/generators/*.rs: impl FreqMod")],
 "C04": [("wrap/reflect of the phase accumulator", "src/generators/*.rs: Generator::process")],
 "C05": [("phase accumulator and wavetable lookup", "src/generators/*.rs: Generator::process, WAVETABLE")],
 "C06": [("paired getters and setters", "src/modifiers/{lowpass,highpass,bandpass,delay}.rs, src/sounds/simple_sound.rs, src/utils/mono_resampler.rs")],
 "C07": [("min/max clamps in constructors and setters", "src/modifiers/{lowpass,highpass,adsr}.rs")],
 "C08": [("setters recompute all coefficients via reset", "src/modifiers/{lowpass,highpass,bandpass}.rs: reset")],
 "C09": [("coefficient formulas", "src/modifiers/{lowpass,highpass,bandpass}.rs: reset; envelope.rs: new")],
 "C10": [("difference equations", "src/modifiers/*.rs: Modifier::process")],
 "C11": [("coefficient formulas and shift registers", "src/modifiers/{lowpass,highpass,bandpass}.rs: reset, process")],
 "C12": [("VecDeque used as a FIFO of constant length", "src/modifiers/delay.rs")],
 "C13": [("VecDeque used as a FIFO of outputs", "src/modifiers/echo.rs")],
 "C14": [("history queues sized from the taps", "src/modifiers/generic.rs")],
 "C15": [("state enum and ramp clamps", "src/modifiers/adsr.rs: process, new, release")],
 "C45": [("one draw from rand's thread source per sample", "src/generators/noise.rs: process")],
 "C49": [("one multiplication", "src/modifiers/gain.rs: process"), ("identity", "src/modifiers/passthrough.rs: process")],
 "C51": [("derived Clone over shared handles", "src/sounds/{simple_sound,complex_sound}.rs, src/channels/standard_channel.rs")],
 "C52": [("queues kept at their length", "src/modifiers/{delay,echo,generic}.rs: process"), ("output buffer refilled in place", "src/channels/standard_channel.rs: process")],
 "C53": [("interleaving and de-interleaving", "src/utils/mod.rs: write_wav, read_wav"), ("sample conversions", "src/sample_format/mod.rs")],
 "C50": [("one comparison", "src/debug.rs: float_equal")],
 "C16": [("one-pole follower with two coefficient pairs", "src/modifiers/envelope.rs")],
 "C17": [("fractional index and end-of-data guard", "src/utils/mono_resampler.rs: process")],
 "C18": [("loop wrap", "src/utils/mono_resampler.rs: new, process")],
 "C19": [("early return when paused", "src/sounds/{simple_sound,complex_sound}.rs: Sound::process")],
 "C20": [("mute applied to the result only", "src/sounds/{simple_sound,complex_sound}.rs: Sound::process")],
 "C21": [("id field", "src/sounds/{simple_sound,complex_sound}.rs: register, unregister, get_id")],
 "C22": [("series loop over the modifier list", "src/sounds/simple_sound.rs: process")],
 "C23": [("pending input accumulator", "src/sounds/standard_block.rs: Block impl")],
 "C24": [("process_order recomputed on every edit", "src/sounds/complex_sound.rs: process_order, process")],
 "C25": [("output buffer, id counter, sound map", "src/channels/standard_channel.rs")],
 "C26": [("scale constants and saturating casts", "src/sample_format/mod.rs: sample_from_*, sample_to_*")],
 "C27": [("to_le_bytes/from_le_bytes and sign extension", "src/sample_format/mod.rs: *_bytes")],
 "C28": [("operator impls", "src/sample_format/{mono,stereo}.rs")],
 "C29": [("operator-assign impls", "src/sample_format/{mono,stereo}.rs")],
 "C30": [("from_sample/into_sample", "src/sample_format/{mono,stereo}.rs")],
 "C31": [("TryFrom/Into Vec impls", "src/sample_format/{mono,stereo}.rs")],
 "C32": [("Panner impls", "src/sample_format/{mono,stereo}.rs")],
 "C33": [("interleaving loops and header construction", "src/utils/mod.rs: write_wav")],
 "C34": [("checks before the encoder call, ? on every result", "src/utils/mod.rs: write_wav")],
 "C35": [("clip loop", "src/utils/mod.rs: write_wav")],
 "C36": [("de-interleaving loops", "src/utils/mod.rs: read_wav")],
 "C37": [("conversion formulas", "src/utils/mod.rs")],
 "C38": [("mean, peak and gain loops", "src/utils/mod.rs: normalize")],
 "C39": [("lerp, clamp, clerp", "src/utils/mod.rs")],
 "C40": [("absence of ambient effects in process call graphs", "src/**: process")],
 "C41": [("index wrap, queue pairing, sized histories", "src/generators/sine.rs, src/modifiers/{delay,echo,generic}.rs, src/utils/mono_resampler.rs")],
 "C42": [("Read impl", "src/debug.rs: VecReader")],
 "C43": [("convert_file, byte2char, main", "utility/bin2str/src/main.rs")],
 "C47": [("from_source, from_track", "src/generators/mono_wav.rs")],
 "C48": [("feedback histories and coefficients", "src/modifiers/{lowpass,highpass,bandpass,envelope}.rs")],
 "C44": [("coefficient formulas", "src/modifiers/{lowpass,highpass,bandpass}.rs")],
 "C45": [("thread_rng", "src/generators/noise.rs")],
 "C46": [("wav crate decoder", "src/utils/mod.rs: read_wav")],
}

G = "src/generators/"; M = "src/modifiers/"; S = "src/sounds/"; F = "src/sample_format/"; U = "src/utils/"

prop("C01", "A cloned generator restarts with the original's settings",
 "Cloning a sawtooth, sine, square or triangle generator, a WAV player or a resampler, at any point of its life, gives a generator with exactly the original's settings (frequency; audio data, source rate, playback speed, loop points) whose playback position is that of a newly constructed one. The original is not changed by being cloned.",
 ["histories", "inputs"], "every sequence of constructor, setter and sample calls before the clone",
 "No test clones a generator; a clone taken at one moment says nothing about the others (a triangle cloned on its falling slope differs from one cloned on its rising slope).",
 [G+"sawtooth.rs", G+"sine.rs", G+"square.rs", G+"triangle.rs", G+"mono_wav.rs", U+"mono_resampler.rs"])

prop("C02", "A cloned modifier keeps its settings and forgets the signal",
 "Cloning any modifier (ADSR, band-, high- and low-pass, delay, echo, envelope, gain, generic, passthrough) at any point of its life gives a modifier with exactly the original's settings (coefficients, cut-offs, delay length, gains, taps) and with a blank signal history, as if newly constructed with those settings. The original is not changed.",
 ["histories", "inputs"], "every sequence of calls before the clone",
 "No test clones a modifier; the property quantifies over every signal history and every parameter value.",
 [M+"adsr.rs", M+"bandpass.rs", M+"delay.rs", M+"echo.rs", M+"envelope.rs", M+"generic.rs", M+"highpass.rs", M+"lowpass.rs", M+"gain.rs", M+"passthrough.rs"])

prop("C03", "An oscillator's frequency reads back and changing it is seamless",
 "Each oscillator (sawtooth, sine, square, triangle) reports the frequency last given to its constructor or setter, however many samples it has produced since. Setting the frequency of a sawtooth, sine or triangle does not alter the sample produced next, only how fast the waveform advances afterwards.",
 ["histories", "inputs"], "all frequencies and all interleavings of setting, reading and producing samples",
 "The tests read the frequency once, right after construction, at 440 Hz.",
 [G+"sawtooth.rs", G+"sine.rs", G+"square.rs", G+"triangle.rs", G+"mod.rs"])

prop("C04", "Generators stay within full scale",
 "For every frequency from 0 to half the sampling rate, changed at any time, every sample produced by a sawtooth, sine, square or triangle oscillator lies in [-1,1]; the square wave only ever produces -1 or 1. Noise samples lie in [-1,1] and the zero generator produces 0.",
 ["histories", "inputs"], "all frequencies in [0, 24000] Hz, all run lengths, all frequency-change sequences",
 "The tests sample one period at 440 Hz; an out-of-range sample appears only when a particular phase meets a particular frequency.",
 [G+"sawtooth.rs", G+"sine.rs", G+"square.rs", G+"triangle.rs", G+"noise.rs", G+"zero.rs"])

prop("C05", "Oscillators trace their waveform at exactly the requested rate",
 "Every sample call advances an oscillator by frequency/48000 of a cycle, wrapping at the end of the cycle. The sample returned is the waveform at the position before the advance: the sawtooth rises from 0 to 1 then from -1 to 0, the triangle goes 0, 1, 0, -1, 0 in straight lines, the square is 1 in the first half-cycle and -1 in the second, and the sine is the linear interpolation of a 4800-point table of one sine cycle.",
 ["histories", "inputs"], "all frequencies in [0, 24000] Hz and all run lengths",
 "The tests compare one period of one frequency; drift, wrap-around and table-edge errors need other phases.",
 [G+"sawtooth.rs", G+"sine.rs", G+"square.rs", G+"triangle.rs"])

prop("C06", "Getters return what was set",
 "The resampler's playback speed, a simple sound's input and output gains, the central frequency and resonance of the low- and high-pass filters (after clamping), the band-pass filter's central frequency, quality and corner frequencies, and the delay time of a delay (a whole number of samples) all read back as last set or constructed. Processing samples does not change them.",
 ["histories", "inputs"], "all parameter values (for corner frequencies: 0 < low < high) and all interleavings of calls",
 "No test reads any of these values back.",
 [U+"mono_resampler.rs", S+"simple_sound.rs", M+"lowpass.rs", M+"highpass.rs", M+"bandpass.rs", M+"delay.rs"])

prop("C07", "Filter parameters are clamped to their legal range on every route",
 "A low- or high-pass filter's cut-off frequency never exceeds half the sampling rate and its resonance always lies in [0,1], whether the value came through the constructor or a setter; an in-range value is used unchanged. The sustain level of an ADSR is clamped to at most 0 dB.",
 ["inputs", "histories"], "all real parameter values through every constructor and setter",
 "The tests only pass in-range values.",
 [M+"lowpass.rs", M+"highpass.rs", M+"adsr.rs"])

prop("C08", "Setting a filter parameter equals constructing with it",
 "After a parameter of a low-, high- or band-pass filter is set, the filter responds exactly as one constructed with the resulting parameters would from the same signal history. The setter leaves that history untouched, so retuning a running filter does not reset it.",
 ["histories", "inputs"], "all parameter values and all points in the filter's life",
 "One test sweeps the low-pass resonance but asserts nothing about the output.",
 [M+"lowpass.rs", M+"highpass.rs", M+"bandpass.rs"])

prop("C09", "Filters pass or block constant signals as their kind requires",
 "A constant input held for ever comes out unchanged from a low-pass filter in steady state, for every cut-off and resonance, and comes out as exactly silence from a high-pass filter. A band-pass filter's steady state is silence both for a constant input and for one alternating in sign every sample; an envelope follower settles at the magnitude of a constant input.",
 ["inputs"], "all cut-offs, resonances, corner frequencies and constant levels",
 "The tests write filtered noise to a file and check nothing.",
 [M+"lowpass.rs", M+"highpass.rs", M+"bandpass.rs", M+"envelope.rs"])

prop("C10", "Linear modifiers are linear and time-invariant",
 "For the gain, passthrough, delay, echo, generic, low-, high- and band-pass modifiers, the output and the next internal state depend on the input and the signal history only through sums with fixed coefficients. So the response to a sum of signals is the sum of the responses, scaling the input scales the output, silence from rest gives silence, and processing never changes the settings.",
 ["inputs", "histories"], "all inputs, all histories, all parameter values",
 "Tests run noise through the filters without checking the output.",
 [M+"gain.rs", M+"passthrough.rs", M+"delay.rs", M+"echo.rs", M+"generic.rs", M+"lowpass.rs", M+"highpass.rs", M+"bandpass.rs"])

prop("C11", "Low-, high- and band-pass filters run their stated recursion",
 "With t = 2*pi*fc/48000 and k = 1-2cos(pi(4-r)/6), a low-pass filter computes t^3/D(z) and a high-pass filter (1-1/z)^3/D(z), where D(z) = (1-1/z)^3 + k t (1-1/z)^2 + k t^2 (1-1/z) + t^3. A band-pass filter cascades one first-order bilinear low-pass at the upper corner with one first-order high-pass at the lower corner. Every term uses the true input or output that many samples ago.",
 ["inputs", "histories"], "all parameters and all input signals",
 "The tests check no filter output; a mis-ordered history or a wrong coefficient changes the sound without any failure.",
 [M+"lowpass.rs", M+"highpass.rs", M+"bandpass.rs"])

prop("C12", "A delay outputs its input exactly N samples later",
 "A delay built for a duration holds N = that duration in samples, rounded to the nearest, of silence and returns, on every call, exactly the sample given N calls earlier (the same sample when N is 0). N never changes, and every input sample comes out exactly once, unmodified and in order.",
 ["inputs", "histories"], "all durations, all signals, all run lengths",
 "The test writes a delayed noise file and compares nothing.",
 [M+"delay.rs"])

prop("C13", "An echo feeds its output back exactly once per delay",
 "An echo's output is the input plus the feedback gain times its own output of D samples earlier, where D is its delay in whole samples (duration times 48000, truncated, without rounding errors) and at least 1, and where output before the start counts as silence. D never changes while it runs.",
 ["inputs", "histories"], "all delay durations including zero, all gains, all signals",
 "One duration and gain is run, with no assertion.",
 [M+"echo.rs"])

prop("C14", "A generic filter honours every tap, in any order",
 "The output of a generic filter is the sum, over all given zeros (k,c), of c times the input k samples ago, plus the sum, over all given poles (k,c), of c times the output k+1 samples ago. This holds for any list of taps in any order, including empty and unsorted lists, without ever failing.",
 ["inputs", "histories"], "all tap lists, all signals",
 "One sorted tap list is run, with no assertion on the output.",
 [M+"generic.rs"])

prop("C15", "An ADSR's gain follows attack, decay, sustain, release and stop",
 "An ADSR multiplies each sample by a gain that always lies in [0,1]: it rises from 0 to 1 at the attack rate, falls to the sustain level at the decay rate, holds that level until release, then falls to 0 at the release rate, and from then on only silence comes out until release is called again. Stages are only ever entered in that order, except that a release may come at any time, and a stage ends exactly when its target is reached, the gain then being exactly the target. This holds for stages of any length: rounding never stalls a stage.",
 ["histories", "inputs"], "all durations including zero, all sustain levels including 0 dB, all release times",
 "One parameter set is run to a file with no assertion.",
 [M+"adsr.rs"])

prop("C16", "An envelope follower reacts to magnitude only, with two speeds",
 "An envelope follower's output depends on its input only through the input's absolute value. It moves with the coefficients of the upper frequency when that magnitude exceeds the previous output and with those of the lower frequency otherwise.",
 ["inputs", "histories"], "all signals, all corner frequencies",
 "One signal is run with no assertion.",
 [M+"envelope.rs"])

prop("C17", "A resampler steps through its data at the right rate and ends in silence",
 "Without a loop, a resampler at non-negative position p returns the linear interpolation between the data samples either side of p (the last sample standing in for its missing successor), then advances p by playback speed times source rate divided by 48000. Once p is past the last sample it returns silence for ever, it never reads outside its data, and empty data is silent. The position is kept and split in double precision, so playback stays exact far into long data.",
 ["inputs", "histories"], "all data, source rates, playback speeds and run lengths",
 "The test covers four samples at three rates and stops before the end of the data.",
 [U+"mono_resampler.rs", G+"mono_wav.rs"])

prop("C18", "Looped playback stays inside the loop",
 "A resampler given a non-empty loop, with the two points in either order, plays to the loop end and then repeats the region from loop start to loop end for ever, keeping the fractional position and interpolating across the seam into the loop start. Loop points beyond the data are limited to it; a loop is never left and never fails, whatever the step size.",
 ["inputs", "histories"], "all data, all loop points, all speeds",
 "No test uses a loop.",
 [U+"mono_resampler.rs"])

prop("C19", "A paused sound does nothing and stays silent",
 "While a sound (simple or complex) is paused, processing it returns silence and leaves it and everything inside it exactly as it was, whatever the input. Pausing toggles: toggling twice restores the state, and the reported state is the toggled one.",
 ["histories", "inputs"], "all sounds, all block graphs, all call histories, all inputs",
 "No test pauses a sound.",
 [S+"simple_sound.rs", S+"complex_sound.rs", S+"mod.rs"])

prop("C20", "A muted sound keeps running silently",
 "While a sound (simple or complex) is muted and not paused, processing it returns silence but advances everything inside it exactly as if it were not muted. Mute and pause are independent toggles and processing changes neither.",
 ["histories", "inputs"], "all sounds, all block graphs, all call histories, all inputs",
 "No test mutes a sound.",
 [S+"simple_sound.rs", S+"complex_sound.rs", S+"mod.rs"])

prop("C21", "A sound's registration id is exactly what it was last told",
 "A new sound has no id; registering sets exactly the given id, unregistering clears it, and processing, muting, pausing, gain changes and editing leave it alone. Registration changes nothing else about the sound.",
 ["histories", "inputs"], "all ids and all call orders, for both kinds of sound",
 "No test registers a sound.",
 [S+"simple_sound.rs", S+"complex_sound.rs"])

prop("C22", "A simple sound runs its chain in order, each block once",
 "Processing a running simple sound feeds the input times the input gain to its generator block, passes that block's output through every modifier block in the order they were added, each primed with the previous output and processed exactly once, and returns the last output times the output gain. Adding modifiers appends them in the given order.",
 ["inputs", "histories"], "all block lists, gains and inputs",
 "The test runs one chain to a file with no assertion.",
 [S+"simple_sound.rs"])

prop("C23", "A block combines one generator and one modifier sample per call",
 "Priming a block adds to its pending input. Processing it runs its generator once and its modifier once on the pending input, returns the interactor applied to (generator sample, modifier sample), and clears the pending input; generator-only and modifier-only blocks return exactly that part's sample.",
 ["inputs", "histories"], "all generators, modifiers, interactors and priming sequences",
 "The test checks a generator-only block for one period.",
 [S+"standard_block.rs"])

prop("C24", "A complex sound processes every block after the blocks that feed it",
 "After any sequence of adding blocks and adding or removing connections, the processing order contains every block exactly once, starts with the input gain, ends with the output gain, and, as long as the connections are acyclic and none enters the input gain or leaves the output gain, has every block after all blocks feeding it. Processing runs the blocks in that order, hands each block's output to exactly its direct successors, primes the input gain with the input, and returns the last output.",
 ["histories", "inputs", "programs"], "all graphs and all edit sequences",
 "The test builds one straight chain; ordering mistakes need joins, diamonds or edits.",
 [S+"complex_sound.rs"])

prop("C25", "A channel's output is the gain times the sum of its sounds",
 "Each processing pass of a channel produces exactly the set number of samples (duration times 48000, truncated, without rounding errors; 10 ms by default), each being the channel gain times the sum of one new sample from every sound it holds, independent of the previous pass. Adding a sound gives it a fresh id never used before on that channel and registers it; removing an id drops exactly that sound and unregisters it.",
 ["histories", "inputs"], "all durations, gains, sets of sounds and add/remove/process sequences",
 "No test uses a channel.",
 ["src/channels/standard_channel.rs", "src/channels/mod.rs"])

prop("C26", "Integer and floating samples convert back and forth without loss",
 "8-bit samples map linearly with 128 as zero and full scale 128; 16- and 24-bit samples map linearly with 0 as zero and full scale 32767 and 8388607. Converting any 8-, 16- or (sign-extended) 24-bit sample to floating point and back gives the same sample, conversion to integer rounds to nearest, and values beyond the integer range become its nearest end instead of wrapping.",
 ["inputs"], "all integer samples and all real sample values",
 "No test converts back and forth; sign and end-of-range errors need particular values.",
 [F+"mod.rs"])

prop("C27", "Byte forms of samples agree with the integer forms, little-endian",
 "Converting a sample to bytes gives the little-endian bytes of its integer conversion at that width, and converting bytes to a sample gives the conversion of the integer those bytes encode (24-bit values being two's complement). So byte round trips are lossless too.",
 ["inputs"], "all byte patterns and all sample values",
 "No test touches the byte conversions.",
 [F+"mod.rs"])

prop("C28", "Sample-format arithmetic is channel-wise arithmetic",
 "For mono and stereo samples, negation, addition, subtraction and multiplication, by another sample or by a single- or double-precision scalar, act on each channel separately as the ordinary operation. Channels are never mixed or swapped.",
 ["inputs"], "all sample values and scalars, both formats, every operator",
 "No test uses the sample operators.",
 [F+"mono.rs", F+"stereo.rs"])

prop("C29", "Compound assignment equals the plain operator",
 "For mono and stereo samples, a += b, a -= b and a *= b leave in a exactly the value of a + b, a - b and a * b, to the last bit, for sample, single-precision and double-precision right-hand sides alike.",
 ["inputs"], "all sample values and scalars, both formats",
 "No test uses the operators; precision differences show only for particular operands.",
 [F+"mono.rs", F+"stereo.rs"])

prop("C30", "A mono sample survives the trip through any sample format",
 "Spreading a mono sample to the mono or stereo format and collapsing it again gives the same sample; stereo spreads it equally to both channels at equal power, and collapsing is linear and treats both channels alike. The From and Into conversions agree with the named ones, and the default sample is silence.",
 ["inputs"], "all sample values",
 "No test collapses a stereo sample.",
 [F+"mono.rs", F+"stereo.rs", F+"mod.rs"])

prop("C31", "Sample formats convert to and from integer vectors channel by channel",
 "Converting a mono or stereo sample to a vector of 8-, 16- or 24-bit integers gives exactly as many elements as the format says it holds, in channel order (left first), each by that width's sample conversion. Converting from a vector uses its leading elements in the same order with the matching conversion, and returns an error, never failing otherwise, for any vector that is too short.",
 ["inputs"], "all vectors of all lengths, all sample values",
 "No test uses these conversions.",
 [F+"mono.rs", F+"stereo.rs"])

prop("C32", "Panning moves the signal to the named side",
 "Panning to stereo puts the signal at 0 dB on the named side and -120 dB on the other at the extremes -1 (left) and 1 (right), and at -3 dB on both sides in the centre, linear in dB in between; positions beyond the extremes act as the extremes. Mirroring the position swaps the channels, the single- and double-precision versions agree, and panning to mono returns the sample unchanged.",
 ["inputs"], "all samples and all pan positions",
 "No test pans a sample.",
 [F+"stereo.rs", F+"mono.rs"])

prop("C33", "WAV writing stores every sample once, interleaved, at the right depth",
 "For 8, 16 and 24 bits, writing tracks to WAV stores, frame by frame, the matching integer conversion of each track's sample in track order, as uncompressed PCM whose header states the number of tracks, 48000 Hz and that bit depth.",
 ["inputs"], "all track sets and lengths",
 "The tests write files and never read them back.",
 [U+"mod.rs"])

prop("C34", "WAV writing rejects bad input before writing and never hides an error",
 "Writing an empty track list, tracks of differing lengths, too many tracks for the header or a bit depth other than 8, 16 or 24 returns an error, and nothing has then been sent to the destination. Any error from the encoder or destination is returned to the caller; success is returned only after the data was written.",
 ["inputs", "fault_sequences"], "all track sets, depths and destination failures",
 "The tests only write valid data to working files.",
 [U+"mod.rs"])

prop("C35", "Clipping limits exactly the out-of-range samples",
 "With clipping on, every sample in every track above 1 is written as 1, every one below -1 as -1, and all others unchanged; with clipping off no sample is altered before conversion.",
 ["inputs"], "all track contents, every position in every track",
 "No test enables clipping.",
 [U+"mod.rs"])

prop("C36", "WAV reading returns each channel's samples in order, or an error",
 "Reading returns one track per channel of the header, track c holding, in order, the conversion of every frame's c-th value by the converter of the file's bit depth, and returns the decoder's header unchanged. Decoder errors are returned, and a header without channels is an error rather than a failure.",
 ["inputs", "fault_sequences"], "all decoded contents, all channel counts, all decoder errors",
 "No test reads a WAV file.",
 [U+"mod.rs", G+"mono_wav.rs"])

prop("C37", "Unit conversions are exact and mutually inverse",
 "A sample count converts to count/48000 seconds and a duration to its length times 48000 rounded to nearest, so counts survive the round trip; decibels are 20 log10 of linear gain and convert back to the same gain. Both hold to double precision, far beyond what single precision could carry.",
 ["inputs"], "all counts, durations, gains and levels",
 "The tests use one direction of each conversion at a few points.",
 [U+"mod.rs"])

prop("C38", "Normalising centres the track and scales its peak, even when silent",
 "Normalising subtracts the track's mean from every sample and multiplies all by one common factor that brings the largest magnitude to the requested level. A silent or constant track becomes silence rather than not-a-number, and the track's length never changes.",
 ["inputs"], "all tracks, including empty and silent ones, and all levels",
 "Tests normalise noise and check nothing.",
 [U+"mod.rs"])

prop("C39", "Interpolation hits its end points and its clamped form never leaves them",
 "Linear interpolation is the straight line through the two given points. The clamped form equals it inside the interval and holds the nearer end's value outside, whichever order the interval ends are given in.",
 ["inputs"], "all points with distinct abscissae",
 "No test calls these functions.",
 [U+"mod.rs"])

prop("C40", "Processing is deterministic and self-contained",
 "Apart from the noise generator, building, configuring, copying or processing any generator, modifier, block, sound or channel, and every conversion and utility, depends only on the object and the arguments: it reads no clock, random source (or randomly ordered table), environment, file, memory address, mutable global or thread-local, performs no input or output, and starts or waits for no thread. Only the noise generator draws random numbers; reading and writing WAV touches only the stream it is given.",
 ["programs", "schedules"], "every call reachable from any public entry point",
 "Determinism over every path cannot be sampled; the tests do not compare two runs.",
 [G+"mod.rs", M+"mod.rs", S+"mod.rs", U+"mono_resampler.rs"])

prop("C41", "Generators and modifiers never fail while processing",
 "Producing a sample from any generator, or filtering one through any modifier, never panics, whatever the parameters it was built with or set to (any finite or non-finite frequency, gain, rate, speed, duration or loop, any tap list) and whatever the input and history.",
 ["inputs", "histories"], "all parameters, inputs and histories, every index and unwrap reachable from processing",
 "The tests run ordinary parameters; failures need extreme frequencies, zero delays, unsorted taps or long runs.",
 [G+"mod.rs", M+"mod.rs", U+"mono_resampler.rs"])

prop("C42", "The in-memory reader delivers its bytes once, in order",
 "Each read from the in-memory byte source copies the next unread bytes, as many as fit the buffer and remain, returns exactly that count, and advances by it; at the end it returns 0. It never fails and never touches the buffer beyond the returned count.",
 ["inputs", "histories"], "all contents, all buffer sizes, all read sequences",
 "No test uses the reader.",
 ["src/debug.rs"])

prop("C43", "The binary-to-table tool loses no byte and hides no write error",
 "The conversion tool formats every byte of its input exactly once, in order, as a decimal number, and writes the complete text: a short or failed write, or a failed read, makes it report an error instead of leaving a truncated table.",
 ["inputs", "fault_sequences"], "all inputs and all destination behaviours",
 "The tool has no tests.",
 ["utility/bin2str/src/main.rs"])

prop("C47", "A WAV player plays its file's first channel at the file's rate",
 "A WAV player built from a byte source decodes it exactly once and is the player of the first channel's samples, in order, converted at the file's bit depth, at the sampling rate its header states, whatever the number of channels. A player of a track plays exactly that track, once, from its start, at normal speed and without a loop, at the given source rate. The resampler a player hands out is the one that plays: the speed set through it is read back and heard.",
 ["inputs", "configurations"], "every decodable file: all depths, channel counts, rates and lengths; all speeds",
 "No test builds a player from a byte source.",
 [G+"mono_wav.rs"])

prop("C48", "Filters never run away",
 "For every cut-off above zero and every resonance value the low- and high-pass filters, for every pair of corner frequencies above zero and below half the sampling rate the band-pass filter, and for every pair of frequencies the envelope follower are stable: with the settings held, a bounded input gives a bounded output and what an input leaves behind dies away. Rounding does not build up either: coefficients and feedback histories are double precision throughout, so that (for cut-offs from 1 Hz, band-pass centres from 0.5 Hz) each output stays within half a percent of the largest output so far of what exact arithmetic gives, however long the filter runs.",
 ["inputs", "histories"], "all cut-offs, resonances, qualities and frequencies in their ranges; input signals of any length",
 "The tests check no filter output, and never a cut-off below 100 Hz.",
 [M+"lowpass.rs", M+"highpass.rs", M+"bandpass.rs", M+"envelope.rs"])

prop("C44", "Recursive filters meet their frequency response",
 "The low-, high- and band-pass filters have the documented slope (18 or 12 dB per octave) on the far side of their corner frequencies, and their corner frequencies lie where they are set.",
 ["inputs"], "all parameters, all frequencies", "The tests check no filter output.",
 [M+"lowpass.rs", M+"highpass.rs", M+"bandpass.rs"])

prop("C45", "Each noise sample is one fresh, even draw of the random source",
 "Every sample of the noise generator comes from a draw of its own from the process's random source, spread evenly over [-1,1), whatever was drawn before: no sample reuses, averages, shapes or remembers an earlier draw, the source is not reset to a fixed state, and no part of [-1,1) is favoured.",
 ["histories"], "every number of samples, every output of the random source", "The noise test is empty.",
 [G+"noise.rs"])

prop("C46", "Malformed WAV bytes never crash the reader",
 "Reading any byte stream as WAV terminates and either returns samples or an error, whatever the bytes.",
 ["inputs"], "all byte streams", "No test reads a WAV file.",
 [U+"mod.rs"])

prop("C49", "Gain multiplies exactly once and passthrough changes nothing",
 "For every gain and every sample, the gain modifier's output is the sample times the gain as it was given, rounded once, and the modifier keeps nothing of the samples it saw; the passthrough modifier returns every sample unchanged, bit for bit.",
 ["inputs", "histories"], "all gains, all samples, all histories", "The tests use one gain.",
 [M+"gain.rs", M+"passthrough.rs"])

prop("C50", "float_equal holds exactly when the two values lie within the tolerance",
 "For all values and tolerances, of either width, float_equal(a, b, e, abs) is true if and only if |a - b| < e: symmetric in a and b, false for a zero or negative tolerance, true for equal values with any positive one.",
 ["inputs"], "all values and tolerances", "Tests only rely on it.",
 ["src/debug.rs"])

prop("C51", "A cloned sound or channel carries on exactly where the original stands",
 "Cloning a simple sound, a complex sound or a channel, at any point of its life, gives one with the original's gains, pause and mute state, registration id, output and next id, holding the same blocks (or sounds) in the same order with the same connections. Given the same calls, clone and original return the same values as long as their shared parts do. The clone's own settings are separate from then on, cloning never fails, and the original is left as it was.",
 ["histories", "inputs"], "every sequence of edits, toggles, registrations and samples before and after the clone",
 "No test clones a sound or a channel.",
 [S+"simple_sound.rs", S+"complex_sound.rs", "src/channels/standard_channel.rs"])

prop("C52", "Producing samples for ever needs no more memory",
 "However many samples are produced, every generator, modifier, block, sound and channel holds as many values as before: queues, tables, lists, graphs and maps do not grow with time. The same holds for changing a frequency, filter parameter, gain, pause, mute or registration.",
 ["histories"], "any number of samples and setting changes, all configurations",
 "The tests run for at most a few thousand samples and do not look at what is held.",
 [G+"*.rs", M+"*.rs", S+"*.rs", "src/channels/standard_channel.rs"])

prop("C53", "Tracks written to a WAV stream read back within one quantisation step",
 "For any tracks of equal length with samples in [-1,1], at every supported bit depth and with or without clipping: reading back what was written gives as many tracks, in the same order, each with as many samples, in the same order, none more than one quantisation step (1/128, 1/32767, 1/8388607) from the one written, and a header stating 48000 Hz.",
 ["inputs", "configurations"], "any number of tracks and samples, all sample values in [-1,1], all depths",
 "The tests write one file and read another; nothing is written and read back.",
 [U+"mod.rs", F+"mod.rs"])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
