#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept readable here; run to regenerate)."""
import json, pathlib
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","A reused transform object answers like a brand-new one",
 "Whatever sequence of transforms a single FFT object or plan has already served (any lengths, forward or inverse, interleaved, split, strided or out-of-place, any strategy, on behalf of any number of interleaved users), the next transform returns the discrete Fourier transform of its own input to within rounding. It does not depend on what the object computed before, and every supported length works in every calling form.",
 ["histories","schedules","inputs"],
 "all sequences of calls, by several users taking turns on one object, over lengths 1..~1200 (powers of two, primes, composites), both precisions, all calling forms and strategies; both the all-features and the serial build",
 "Tests call one object once or twice with one length; caches, scratch buffers and chirp tables left over from a larger or different earlier transform are only consulted on later calls of another length, so the history quantifier is untouched.",
 ["src/fft.rs","src/fft_kernels.rs"],
 [("planner caches and take-and-return scratch buffers","src/fft.rs FftPlanner, ScalarFftImpl::stockham_fft_with_threshold, fft_split_simd"),("chirp-z path with shared scratch","src/fft.rs ScalarFftImpl::fft, FftPlanner::get_bluestein"),("plan objects","src/fft.rs FftPlan")],
 [("planner","twiddle and chirp tables by length, scratch vectors reused across calls","src/fft.rs FftPlanner")],
 ["result buffer of every call, compared with an independent double-precision DFT"])

prop("C02","A refused or abandoned transform leaves object and data usable",
 "A transform call that is refused with an error leaves the caller's buffers exactly as they were, and a call that is abandoned half way (the arithmetic type unwinds at any point) leaves the FFT object fully usable. Every later call on the same object still returns the right transform, and a refused request is refused with the documented reason every time it is repeated.",
 ["fault_sequences","histories","crash_points"],
 "every interleaving of good calls, invalid calls (empty input, mismatched lengths, zero or non-dividing strides, too short scratch) and unwinds injected at any arithmetic operation of any call",
 "Tests check that single invalid calls return an error; none looks at the buffers or at the object afterwards, and none interrupts a transform.",
 ["src/fft.rs"],
 [("validation before mutation","src/fft.rs FftImpl methods of ScalarFftImpl, FftPlan"),("scratch is taken out of the planner during a call and put back at the end","src/fft.rs ScalarFftImpl")],
 [("planner scratch","moved out while a call runs","src/fft.rs FftPlanner")],
 ["buffers after every refused call; results after every abandoned call"])

prop("C03","Real-input transforms stay right on a shared planner and a failing engine",
 "A real-input forward transform returns the non-redundant half of the spectrum and the inverse returns the original samples, for every even length and for whatever the shared planner and engine were used for before. If the complex engine underneath fails, the failure is reported unchanged, the input samples are untouched, and repeating the call with a working engine gives the right answer.",
 ["histories","fault_sequences","inputs"],
 "all sequences of forward/inverse calls of any even length (direct, packed, planner-owned or caller scratch, both precisions) from interleaved users on one planner, with the engine failing, or scribbling and failing, at any call",
 "Tests use a fresh planner, a handful of power-of-two lengths and an engine that never fails.",
 ["src/rfft.rs"],
 [("twiddle cache by length and taken-and-returned scratch","src/rfft.rs RfftPlanner"),("error propagation from the inner engine","src/rfft.rs rfft_direct, irfft_direct, rfft_packed, irfft_packed, AVX variants")],
 [("planner caches","post-processing twiddles by half length","src/rfft.rs RfftPlanner")],
 ["output spectrum/samples against a double-precision real DFT"])

prop("C04","Reused cosine and sine transform planners never leak between requests",
 "A planned DCT of any length returns the DCT of its input no matter which lengths the planner served before, in which order plans of different users are created and run, or which of those runs were refused. Sine tables handed out by a planner are always those of the requested kind and length.",
 ["histories","fault_sequences"],
 "all sequences of plan creation, plan runs with right and wrong buffer lengths, table and scratch requests of any length by interleaved users",
 "The one planner test makes one plan of length 4 and runs it once; stale work buffers and mixed-up tables need a second, different request.",
 ["src/dct.rs","src/dst.rs"],
 [("cosine tables by length, shared work buffers","src/dct.rs DctPlanner"),("three sine table caches and a scratch buffer","src/dst.rs DstPlanner")],
 [("planner buffers","oversized after a longer request","src/dct.rs DctPlanner::buf, spectrum")],
 ["plan output against a double-precision DCT; table contents"])

prop("C05","Streaming STFT delivers each frame exactly once, equal to the batch STFT",
 "Pulling frames from a forward stream yields, in order, exactly the frames the one-shot STFT of the same signal yields, then reports the end, and keeps reporting it. A pull that fails (engine error or wrong buffer size) consumes nothing: the next successful pull delivers the very frame that failed, whatever other streams did with the shared engine in between.",
 ["schedules","fault_sequences","inputs"],
 "all interleavings of several streams and batch calls sharing one engine, any signal length, window length and hop (including hop larger than the window), engine failures before or after scribbling over the buffer, and abandoned pulls, at any pull",
 "Tests run one stream to the end over an engine that cannot fail; nothing retries a failed pull or interleaves two streams.",
 ["src/stft.rs"],
 [("position advanced only after the transform succeeded","src/stft.rs StftStream::next_frame"),("batch framing and zero padding","src/stft.rs stft, frame")],
 [("stream position","next frame start","src/stft.rs StftStream::pos")],
 ["every delivered frame against a double-precision windowed DFT"])

prop("C06","Streaming inverse STFT loses, repeats and corrupts no sample",
 "The chunks returned by successive pushes followed by the final flush are exactly the samples the one-shot inverse STFT produces for the same frames: one hop per accepted frame, then the tail, each sample once, normalised by the overlapped window energy. A push that fails changes nothing and can be retried, and flushing twice yields nothing the second time.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of several inverse streams sharing one engine with pushes, wrong-size pushes, engine failures (also after scribbling), abandoned pushes and flushes at any point, any window length, window shape and hop up to the window length",
 "Tests push a few frames through one stream and compare the start; no test fails a push, interleaves streams, runs long enough for the internal buffer to be recycled, or checks the sample count.",
 ["src/stft.rs"],
 [("overlap-add ring with separate norm buffer, output position and flush","src/stft.rs IstftStream::push_frame, flush"),("one-shot reference in the library","src/stft.rs istft, inverse_parallel")],
 [("overlap buffers and positions","partial sums not yet emitted","src/stft.rs IstftStream")],
 ["concatenated chunks against an independent double-precision overlap-add"])

prop("C07","Analysis then synthesis reproduces the signal through any faulty pipeline",
 "A signal sent through the forward stream, queued, and pushed into the inverse stream comes back as the original signal at every sample where the overlapped window energy is not negligible, no matter how the two sides are interleaved, how deep the queue gets, or which steps failed and were retried. The same holds for the one-shot pair and for the frame-at-a-time pair.",
 ["schedules","fault_sequences","inputs"],
 "all producer/consumer interleavings and queue depths, several pipelines on one engine, transient engine failures on either side, any signal, window and hop not larger than the window",
 "Tests reconstruct one 8-sample signal with one window on a strictly alternating pipeline without failures.",
 ["src/stft.rs","src/window.rs","src/window_more.rs"],
 [("matching framing, window and normalisation in both directions","src/stft.rs stft, istft, StftStream, IstftStream, frame, inverse_frame")],
 None,["reconstructed samples against the original signal"])

prop("C08","Parallel STFT, inverse STFT and spectrogram equal the sequential ones",
 "For every way the worker threads can be scheduled and for every pool size, the parallel STFT, parallel inverse STFT and magnitude spectrogram return what the sequential algorithms return for the same input, and the same request gives bit-identical answers on every schedule. They always finish once their workers can run, also when several callers share the pool, and an invalid request (zero hop, bad frame length, too few output frames) is refused the same way on every schedule.",
 ["schedules","configurations","inputs"],
 "all thread interleavings (preemption at any basic block), pool sizes 1..8, steal orders, one to four concurrent callers, worker stalls, any signal/window/hop/frame count",
 "Two parity tests run whatever single schedule the host happens to produce; they neither choose nor repeat an interleaving, and a race that needs a particular preemption is invisible to them.",
 ["src/stft.rs","src/visual/spectrogram.rs"],
 [("one private transform object per work item, disjoint output slots","src/stft.rs parallel"),("per-frame partial results merged in frame order","src/stft.rs inverse_parallel"),("magnitudes and maximum computed after the parallel part","src/visual/spectrogram.rs stft_magnitudes")],
 [("shared output","frames and samples written by workers","src/stft.rs")],
 ["results of every caller against a double-precision reference and against the same request on other schedules"])

prop("C09","Tuning, thread count and clock never change a transform's result",
 "Forward and inverse transforms return the same spectrum whatever the parallel threshold, cache size, work size, block size or thread settings are, whoever changes them while transforms run, whatever the matching environment variables contain (also huge or malformed values), however many CPUs there are and however the clock behaves during self-calibration. No setting makes a transform panic, hang or fail.",
 ["configurations","schedules","fault_sequences"],
 "all settings values 0..usize::MAX through setters and environment, concurrent setters, CPU counts 1..64, clocks that stand still or jump by hours, all interleavings of one to four transforming threads and the pool",
 "Settings are process-global, environment values are latched on first use and calibration reads the real clock: one test process sees one configuration and one clock.",
 ["src/fft.rs"],
 [("threshold decision and parallel conjugate/scale passes","src/fft.rs should_parallelize_fft, ScalarFftImpl::ifft, fft_parallel, ifft_parallel"),("latched environment values and clock calibration","src/fft.rs env_parallel_fft_*, calibrated_per_core_work, parallel_fft_threshold")],
 [("global overrides","atomics set by the setters","src/fft.rs PARALLEL_FFT_*_OVERRIDE")],
 ["transform results against a double-precision DFT; panics; step budget"])

prop("C10","Parallel tuning settings take effect exactly as last set, and zero reverts",
 "A large single-precision inverse transform is spread over the worker pool exactly when its length reaches the threshold in force: the explicit threshold if one is set, otherwise the one from the environment, otherwise the heuristic computed from the cache, work, block-size and thread settings currently in force. Setting zero reverts that setting to its default, and under concurrent changes every decision agrees with settings that were in force at some moment during the call.",
 ["histories","schedules","configurations"],
 "all sequences and interleavings of setter calls and transforms by several threads, for all environment values and simulated clocks",
 "The only related test starts one process with one environment variable; setters are never observed to have an effect, and the settings are global so tests cannot explore their combinations.",
 ["src/fft.rs"],
 [("override, environment and heuristic precedence","src/fft.rs should_parallelize_fft, parallel_fft_threshold, set_parallel_fft_*")],
 [("global overrides and latched defaults","see C09","src/fft.rs")],
 ["whether the pool received work during the call (observed at the simulated scheduler)"])

prop("C11","Concurrent callers are isolated: each gets the answer it would get alone",
 "Any number of threads may call any public transform, planner, window, wavelet, filter, colour or spectrogram function at the same time, each with its own objects and buffers, including objects created on one thread and moved to another. Each caller gets the mathematically right result for its own input, first uses of shared tables included, and all of them finish.",
 ["schedules","histories","inputs"],
 "all interleavings (preemption at any basic block and at every lock or once-cell operation) of two to six threads running mixed operation sequences from process start",
 "Unit tests run in one thread at a time (the suite is run with one test thread because it is not isolated); first-use races on lazily built global tables cannot be scheduled by a test.",
 ["src/fft.rs","src/rfft.rs","src/dct.rs","src/dst.rs","src/hartley.rs","src/wavelet.rs","src/window.rs","src/window_more.rs","src/czt.rs","src/goertzel.rs","src/hilbert.rs","src/cepstrum.rs","src/ndfft.rs","src/visual/spectrogram.rs","build.rs"],
 [("no shared mutable state except once-cells and atomics","build.rs generated twiddle tables; src/fft.rs statics"),("objects are Send but not Sync","src/fft.rs ScalarFftImpl")],
 None,["each caller's result against an independent double-precision model of the operation"])

prop("C12","The song index stays truthful under any I/O fault",
 "Identification by content never depends on how the operating system slices or interrupts reads: two files with equal bytes get the same identity and files with different bytes and different names never do. An operation that fails with an I/O error leaves the index exactly as it was, reports the error, and succeeds when repeated after the fault clears; a name that is already known is answered without touching the file.",
 ["fault_sequences","histories","inputs"],
 "all histories of add, identify, file create/overwrite/truncate/delete over a few names and contents, with short reads, interrupted reads, read errors, open failures and files vanishing or changing at any system call",
 "Three tests use small real temporary files that the kernel always delivers in one read; no read ever fails or is interrupted.",
 ["src/media/index.rs"],
 [("hash first, mutate afterwards","src/media/index.rs SongIndex::index_song, identify"),("read loop","src/media/index.rs SongIndex::hash_file")],
 [("name and hash maps","known songs","src/media/index.rs SongIndex")],
 ["returned identities against a small model of the index over file contents"])

prop("C13","Audio loading returns the stored samples or an error, never altered audio",
 "Loading an audio file that the storage layer delivers in arbitrary pieces, with interruptions, gives exactly the same mono samples and rate as an undisturbed load. If the storage fails, the file is cut short or one of its checksummed packets is damaged, the result is an error or an exact prefix of the true samples; it is never altered, padded or misaligned audio, a crash or a hang.",
 ["fault_sequences","inputs"],
 "WAV and FLAC files of any length, sample rate and channel count (as supported), with short reads, interruptions, read/seek/open errors, truncation at any byte, and damage inside checksummed (FLAC) frames",
 "Tests load intact files from a healthy disk.",
 ["sanity-check/src/lib.rs"],
 [("packet loop, end-of-stream handling, channel mixing and final truncation","sanity-check/src/lib.rs read_audio, read_wav")],
 None,["returned samples against the samples the file was made from"])

prop("C14","A saved spectrogram image is complete, or saving reports failure",
 "When saving an image as PNG (8 or 16 bit) or SVG reports success, the file contains the complete image and reads back pixel for pixel at the chosen depth, however the storage layer splits or interrupts the writes and whatever the file held before. When the storage refuses any part of it (no space, I/O error, create refused), saving reports an error instead of success and never crashes or hangs.",
 ["fault_sequences","inputs"],
 "all image sizes and contents, pre-existing longer or shorter files, short writes, interrupted writes, disk full after any byte, write/create errors at any call",
 "Tests save one 2x2 image to a healthy disk.",
 ["sanity-check/src/lib.rs"],
 [("encoder writes straight to the created file and errors propagate","sanity-check/src/lib.rs save_png, save_svg")],
 None,["file bytes in the simulated file system decoded and compared with the image"])

prop("C15","Multi-dimensional transforms stay right on a shared, much-used engine",
 "A two- or three-dimensional transform of any shape equals the multi-dimensional DFT of its input for whatever the shared one-dimensional engine was used for before and however other users' transforms interleave with it. Requests whose sizes do not fit together are refused without touching the data.",
 ["histories","schedules","fault_sequences"],
 "all shapes up to a few hundred elements including length-one and non-power-of-two axes, both precisions, histories of mixed one-, two- and three-dimensional calls, refused calls and calls abandoned half way on one engine",
 "Tests transform a few small power-of-two shapes on a fresh engine, where stale buffers cannot show.",
 ["src/ndfft.rs","src/fft.rs"],
 [("row/column/depth passes through the strided API of one engine","src/ndfft.rs fft2d_inplace, fft3d_inplace, flatten_2d, flatten_3d")],
 None,["result against a double-precision multi-dimensional DFT"])

prop("C16","A batch fails at the failing item: earlier items done, later ones untouched",
 "Batch and multi-channel transforms treat each item exactly as a transform of its own. If item k fails, the call reports that failure, items before k hold their transforms, items after k are untouched, and resuming the batch from item k completes it as if nothing had happened.",
 ["fault_sequences","histories"],
 "all batch sizes and item lengths (mixed lengths, empty items), engine failure or scribble-and-failure at any item, resumed any number of times",
 "Batch tests use equal-length items and engines that do not fail.",
 ["src/fft.rs","src/stft.rs"],
 [("in-order loop that stops at the first error","src/fft.rs batch, batch_inverse, multi_channel, multi_channel_inverse"),("in-order frame loop","src/stft.rs stft")],
 None,["every item after every call against a double-precision DFT or its original contents"])

prop("C17","Task-runner detection and exit status survive missing or failing tools",
 "The task runner derives its build features only from the architecture (explicit override first), the reported CPU flags, the CPU count and the user's extra features, and keeps working with safe defaults when any probing tool is missing, fails, or prints garbage. It reports success only if every command it was asked to run succeeded, passes on the failing command's status, and never runs a later step after a failed one.",
 ["fault_sequences","configurations"],
 "all combinations of probing tools missing, failing, killed or printing truncated or non-text output, overrides set or blank, any CPU count, and any exit status or signal of the started commands",
 "Tests run on one host where every tool exists and works, and never execute the dispatcher.",
 ["xtask/src/lib.rs","xtask/src/main.rs"],
 [("probing with fallbacks","xtask/src/lib.rs detect_arch, detect_cpu_flags, detect_nproc, compute_config"),("status propagation","xtask/src/main.rs main")],
 None,["command lines and environments of started children, recorded by stand-in tools; exit status"])

prop("C18","Live spectrogram rows depend only on the sample stream, not on its chunking",
 "Feeding audio to the live spectrogram in chunks of any sizes produces the same sequence of rows: row k shows exactly the window that starts k hops into the stream, coloured relative to the loudest bin so far. Resetting starts a new stream that remembers nothing of the previous one, and changing the palette affects only later rows; streams on different threads do not affect each other. The other functions exported to the page (transforms, whole-file magnitudes, decibels, colours) return their defined result at any point of a stream and leave the stream alone.",
 ["histories","schedules","inputs"],
 "all chunkings (including empty and oversized chunks), resets and palette changes at any point, several threads interleaved",
 "Tests feed two or three fixed chunk sizes once.",
 ["web-spectrogram/src/lib.rs","src/visual/spectrogram.rs"],
 [("sample buffer drained one hop per row, running maximum, per-thread state","web-spectrogram/src/lib.rs State::compute_frame, reset_state, set_colormap")],
 [("stream state","buffer, running maximum, palette","web-spectrogram/src/lib.rs State")],
 ["returned pixel rows against a model over the whole stream"])

prop("C19","The web viewer always ends up showing the file chosen last",
 "However long reading and decoding each chosen file takes, in whatever order they finish, and whichever of them fail, once everything has settled the canvas shows the spectrogram of the most recently chosen file that could be decoded, and a failed file never prevents a later one from being shown. An older file never overwrites a newer one, and what is shown is the same picture (time to the right, rainbow palette) with 2D canvas, WebGL 1 and WebGL 2.",
 ["schedules","fault_sequences"],
 "all sequences of file selections (including cancelled ones) and all completion orders, delays and failures of reading and decoding, with WebGL 1, WebGL 2 or 2D canvas, in browsers that do or do not limit the number of open audio contexts",
 "The one test awaits a single selection; overlapping selections with reordered completions never occur.",
 ["web-spectrogram/app.mjs"],
 [("asynchronous change handler","web-spectrogram/app.mjs initApp"),("drawing","web-spectrogram/app.mjs drawSpectrogram")],
 None,["pixels of the simulated canvas after every event"])

prop("C20","The offline shell is installed completely or not at all, and then served",
 "Installation of the service worker succeeds only if every listed asset was stored, and fails if any download or store operation fails. After a successful installation each listed asset is served from the store even when the network is down; any other request goes to the network and gets the network's answer or its failure.",
 ["fault_sequences","schedules"],
 "all network outcomes (answers, failures, delays, reordering) and store failures during installation and for any later mix of requests",
 "No test loads the service worker at all.",
 ["web-spectrogram/sw.js"],
 [("waitUntil on the complete store operation","web-spectrogram/sw.js install handler"),("store first, network second","web-spectrogram/sw.js fetch handler")],
 None,["settlement of the install promise; responses"])

prop("C21","The viewer's server serves every file right whatever clients and disk do",
 "Every file below the served directory is answered with exactly the contents it has at that moment, its media type and open cross-origin headers; unknown or escaping paths are answered with the start page, a directory with its index, and the health route with success. Slow, silent, broken or vanished clients, any number at once, failing storage and refused connections affect only their own answers: a failure is reported as one or visibly cuts the answer off and never looks like complete contents, and everything is served again once the faults stop.",
 ["fault_sequences","schedules","histories","inputs"],
 "all request paths and methods from any number of clients at once (pipelined, cut into pieces, abandoned, malformed, silent), files replaced or removed between requests, all schedules of the server's threads, and all interrupted, short, late or failing reads, opens, accepts, receives and sends",
 "The tests ask the router in memory for a few fixed files, one after the other; no socket, second client, large file, failing disk or changed file ever occurs.",
 ["web-spectrogram/src/main.rs"],
 [("router assembly","web-spectrogram/src/main.rs app"),("listening and serving","web-spectrogram/src/main.rs main")],
 [("served directory","files as they are on the disk at the time of the request","web-spectrogram/src/main.rs app")],["bytes on every client's connection"])

NA=[]
def na(id,title,statement,over,qtext,why,files,mech,reason):
    prop(id,title,statement,over,qtext,why,files,mech)
    NA.append({"property":id,"reason":reason})

na("N01","Wavelet decompositions reconstruct their input exactly",
 "For every supported wavelet, length and depth, decomposing a signal and reconstructing it returns the signal to within rounding.",
 ["inputs"],"all signals, lengths, wavelets and depths","Tests use a few short signals.",["src/wavelet.rs"],[("analysis/synthesis filter pairs","src/wavelet.rs")],
 "Pure function of its input: no schedule, clock, I/O, fault or shared state for a simulator to control. (Isolation of concurrent callers of the same code is claimed as C11.)")
na("N02","Cosine, sine and Hartley transforms are inverted by their inverses",
 "Each of the cosine and sine transforms is inverted, up to its documented factor, by its counterpart and the Hartley transform by itself, for every length.",
 ["inputs"],"all inputs and lengths","Tests use length-4 vectors.",["src/dct.rs","src/dst.rs","src/hartley.rs"],[("direct summation kernels","src/dct.rs, src/dst.rs, src/hartley.rs")],
 "Pure function of its input; nothing for fault or schedule injection to act on. (Planner reuse is C04, concurrent use C11.)")
na("N03","Window functions have their defining shape for every length",
 "Every window is symmetric, bounded by one in magnitude and matches its defining formula at every index, for every length including one.",
 ["inputs"],"all lengths and parameters","Tests check a few lengths.",["src/window.rs","src/window_more.rs"],[("closed formulas","src/window.rs, src/window_more.rs")],
 "Pure function of a length and a parameter; no nondeterminism or fault surface.")
na("N04","Single-bin, chirp and analytic-signal transforms agree with the DFT",
 "The single-frequency detector, the chirp-z transform, the analytic signal and the cepstrum agree with their definitions through the DFT for every input.",
 ["inputs"],"all inputs, frequencies and chirp parameters","Tests use single tones.",["src/goertzel.rs","src/czt.rs","src/hilbert.rs","src/cepstrum.rs"],[("direct recurrences and sums","same files")],
 "Pure functions of their input; no schedule, fault or history. (Concurrent use is covered by C11.)")
na("N05","Stack-only embedded variants agree with the heap variants",
 "For every supported compile-time size the stack-only transforms return the same result as the general ones and refuse unsupported sizes.",
 ["inputs"],"all inputs of each supported size","Tests use two or three sizes.",["src/fft.rs","src/rfft.rs","src/dct.rs","src/dst.rs","src/hartley.rs"],[("const-generic kernels","same files")],
 "Pure functions on caller-owned arrays, without allocation, state, I/O or concurrency: nothing to simulate.")
na("N06","Every CPU backend computes the same transform",
 "The vectorised code paths for each supported processor family give the portable path's result to within rounding.",
 ["configurations","inputs"],"all processor families and feature flags","CI runs x86-64 only.",["src/fft.rs","src/rfft.rs"],[("feature-gated kernels","src/fft.rs, src/rfft.rs")],
 "The choice is made at compile time or by CPU identification, not by anything a simulator schedules, and the non-x86 back ends cannot be executed in this sandbox; the x86 paths are exercised as real code in C01, C03 and C09.")
na("N07","Colour and decibel mappings are monotone and in range",
 "Every palette maps increasing magnitude to its documented gradient, saturates at both ends and never leaves the byte range; decibel conversion is monotone and floored.",
 ["inputs"],"all magnitudes, maxima and floors","Tests check a few stops.",["src/visual/spectrogram.rs"],[("gradient interpolation","src/visual/spectrogram.rs")],
 "Pure function; no fault, clock or schedule. (C18 and C19 compare the pixels these functions produce in their stateful settings.)")

root=pathlib.Path(__file__).resolve().parent.parent
(root/"properties.jsonl").write_text("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in P))
(root/"tools"/"not_applicable.json").write_text(json.dumps(NA,indent=1)+"\n")
