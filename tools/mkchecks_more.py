add("C08", [("par", 16000, 1), ("fine", 16000, 1)], "thread schedules, pool sizes and concurrent callers of the parallel STFT functions",
    "more than one worker ran frames, or several callers shared the pool.",
    "Every answer is compared bit for bit with the sequential functions and, within tolerance, with the definition; refusals must agree; deadlock, hang and panic are violations; " + FLOAT)
add("C09", [("par", 8000, 1), ("fine", 8000, 1)], "settings, environment, processor counts, clocks and thread schedules",
    "transforms ran while settings, environment or clock were disturbed.",
    "Results against a double-precision DFT written from the definition; panic, failure, deadlock and lack of progress are violations; " + FLOAT)
add("C10", [("par", 4000, 1), ("fine", 16000, 1)], "histories and races of tuning settings",
    "a decision was checked after a change, or while the settings were being changed.",
    "A transform counts as spread over the pool when pool threads execute blocks of the library during the call (pool quiescent before it). The reference model keeps the settings in force over the call's interval; racing calls must agree with one combination in force at some moment; the clock is stepped so that the measured work per core is the documented minimum")
add("C15", [("par", 16000, 1), ("ser", 12000, 1), ("bare", 6000, 0.5), ("avx", 4000, 0.5), ("fine", 4000, 0.3)], "multi-dimensional transforms on shared, much-used engines",
    "an engine served several shapes or other transforms before or between the checked ones, or was handed between threads.",
    "Definition oracle for two and three dimensions; refusals must leave the data bit for bit unchanged; " + FLOAT)
add("C16", [("par", 12000, 1), ("ser", 12000, 1), ("bare", 6000, 0.5)], "batches with failing items and resumption",
    "an item failed after at least one earlier item or the batch was resumed.",
    "Failures come from invalid items and from engine wrappers failing at drawn calls; earlier items against the definition, later items bit for bit untouched; " + FLOAT,
    stub=STUB_SYS + ["engine wrapper that fails at drawn calls"])
add("C11", [("par", 24000, 1), ("ser", 12000, 0.6), ("bare", 6000, 0.3), ("avx", 5000, 0.3), ("fine", 28000, 1.2)], "schedules of concurrent callers of the public functions, and of objects passed between threads",
    "every run has at least two callers at work at the same time.",
    "Answers are compared with their definitions where one is conventional (transforms, tables, most windows, magnitudes, colours, detectors) and in all cases bit for bit with what the same request returns afterwards from a single thread; panic, deadlock and lack of progress are violations; " + FLOAT)
add("C12", [("par", 60000, 1), ("ser", 60000, 1)], "song-index histories on a simulated file system with short, interrupted and failing reads",
    "an operation failed and was repeated, or a read was sliced or interrupted before an answer.",
    "Reference model: which identities stand for which bytes and names after every operation; failed operations must leave no trace, report the injected error and succeed when repeated; no file may stay open",
    real=["kofft::media::index (unmodified, instrumented)", "blake3, std::fs::File, std::io (real)"],
    stub=["file system behind libc open, read, pread, readv, lseek, stat, close, unlink, rename (in memory, with EINTR, short reads, EIO, bad sectors, EACCES, EMFILE, EAGAIN, ENOENT)"])
add("C13", [("media", 40000, 1)], "audio files loaded from a simulated disk with short, interrupted and failing reads, bad sectors and files cut short",
    "a load was interrupted, sliced, failed or cut short.",
    "Files are generated here (WAV of several sample formats, FLAC with all stereo modes and several subframe kinds) or recorded; intact loads are compared with the samples the file was made from, disturbed loads bit for bit with an intact one: equal under interruptions, error or exact prefix under failures",
    real=["sanity_check::read_audio (unmodified, instrumented)", "hound, symphonia, std::fs (real)"],
    stub=["file system behind libc open, read, lseek, stat, close (in memory)"])
add("C14", [("media", 20000, 1)], "pictures saved to a simulated disk with short, interrupted and refused writes, full disks and old contents; the whole sanity-check program",
    "a write was interrupted, split or refused before the file was read back.",
    "Saved PNG files are walked chunk by chunk, decoded and compared pixel by pixel; SVG rectangles are painted and compared; success with an incomplete file is a violation. The program's picture is compared with one computed in double precision within a colour tolerance",
    real=["sanity_check::{save_png, save_svg, read_audio} and the program's main (unmodified, instrumented)", "image, png, svg, hound, symphonia, clap (real)"],
    stub=["file system behind libc calls (in memory)", "command line"])
add("C17", [("media", 20000, 1)], "environments, processor counts, and probing tools and commands that are missing, fail, are killed or print rubbish",
    "every run has its own machine, overrides and tool or command outcomes.",
    "Reference model of the detection (all readings that a failing or babbling tool justifies are accepted); recorded command lines, environments and the exit status of the program's real main are checked against the task's steps",
    real=["xtask::detect_config and the program's main (unmodified, instrumented)", "std::process::Command, clap (real)"],
    stub=["posix_spawnp, waitpid, execvp, exit (answered by the simulator)", "the shell (small interpreter for lists of simple commands)", "processor count"])
add("C18", [("media", 10000, 1)], "chunkings, resets, palette changes and interleaved threads of the live spectrogram",
    "the stream was cut into other than whole hops, reset, or shared the process with other streams.",
    "Every returned row against a double-precision model of the whole stream with colour tolerance; rows must come exactly when their window is complete; the same stream in other chunks must give bit-identical rows; " + FLOAT,
    real=["web_spectrogram::{compute_frame, set_colormap, reset_state, stft_magnitudes} and kofft (unmodified, instrumented)"])
add("C19", [("node", 20000, 1)], "page histories: files chosen at any moment, reading, decoding and loading finishing in any order or failing",
    "an operation finished before one that was started earlier, or a file was chosen while earlier ones were pending.",
    "After every event the simulated canvas must show nothing or exactly the spectrogram of one chosen file, never an older one than before; when everything has settled, the newest file that could be decoded. Latencies are drawn over seven orders of magnitude on a virtual clock",
    real=["web-spectrogram/app.mjs (unmodified, evaluated as a module in a context of its own per run)"],
    stub=["document, file input, File, FileReader, AudioContext, canvas with 2D and WebGL 1 and 2 contexts (software renderer with interpreted shaders), timers", "the compiled transform pkg/web_spectrogram.js (a function that tells inputs apart; the real one is checked by C18)"])
add("C20", [("node", 20000, 1)], "service worker histories: installations, updates, requests, network and store failures, worker processes killed at any moment",
    "requests overlapped an installation or each other, the network was down, or the worker was killed.",
    "Model: which downloads of which installation are in the store; success requires all listed assets downloaded and stored by that installation; listed assets must be answered from a complete installation; every other answer must be the network's own to an unaltered request; when faults stop an installation must succeed",
    real=["web-spectrogram/sw.js (unmodified, evaluated afresh in every worker process)"],
    stub=["network and server, cache store (atomic batches), Request, Response, Headers, worker lifecycle"])
add("C21", [("media", 8000, 1)], "requests, connections and file changes against the running server under thread schedules, network and disk faults",
    "files changed, or the disk, the network or a client misbehaved while requests were answered.",
    "Model: the files on the simulated disk. Every answer that is complete by its own account must be exactly what the address stands for; without storage faults nothing else is accepted; under them an error status or a visibly cut-off beginning. Clients wait 30 simulated seconds at most; at the end no file may stay open",
    real=["web-spectrogram's server program (main and app, unmodified, instrumented)", "axum, hyper, tower-http, tokio with its multi-thread runtime, I/O and time drivers and blocking pool, mio (real)"],
    stub=["sockets, epoll, eventfd (in memory)", "file system behind libc calls (in memory)", "clients", "processor count, clock"])
