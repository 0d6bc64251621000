"""Which modes decide which property, on which library flavours, at which size."""


def R(mode, libs, quick, thorough=None, **kw):
    d = dict(mode=mode, libs=libs.split(), quick=quick, thorough=thorough or quick)
    d.update(kw)
    return d


CHECKS = {}


def C(pid, level, rule, runs, technique, note, **kw):
    CHECKS[pid] = dict(level=level, rule=rule, runs=runs, technique=technique, note=note, **kw)


C("P03", "exploration",
  "every 23-bit word (2^23, permuted order) through both decoders, packed variant with arbitrary upper bits; "
  "distinct = (syndrome, count) classes seen", [R("golay", "ref asan", 256, exe="asan", hang=120), R("golay", "simd dbg", 256, 2048)],
  "online oracle over an exhaustive word sweep, under ASan/UBSan",
  "every possible received word is executed and judged by an independent nearest-codeword decoder", exhaustive=True)
C("P04", "exploration",
  "every 15-bit word under both mappings; distinct = (mapping, syndrome, count) classes seen",
  [R("hamming", "ref simd dbg", 256, 8192), R("hamming", "asan", 32, exe="asan")],
  "online oracle over an exhaustive word sweep, under ASan/UBSan",
  "every possible received word is executed and judged by an independent nearest-codeword decoder", exhaustive=True)
for pid, m in (("P05", "fec72"), ("P06", "fec71"), ("P07", "fecamb")):
    C(pid, "exploration",
      "random parameter vectors encoded by an independent encoder, then clean / correctable / arbitrary damage, plus every "
      "correctable pattern of one word per case; distinct = (counts, first-word content) classes",
      [R(m, "ref simd dbg", 1600, 24000, need=["clean frames", "correctable frames", "arbitrary frames"]),
       R(m, "asan", 300, 2400, exe="asan")],
      "online oracle (independent encoder/decoder) on stage and process calls, under ASan/UBSan",
      "each call is judged bit by bit; capacity patterns per word are enumerated, combinations are sampled")
C("P08", "exploration",
  "every seed of every frame type with several contents; distinct = (codec, seed)",
  [R("descr", "ref simd dbg", 960, 60000, need=["related frames in a row"]), R("descr", "asan", 64, exe="asan")],
  "online oracle over all seeds", "all 4096+128+2*4096 seeds are executed; contents are sampled but the operation is cell-wise")
C("P09", "exploration",
  "all 256 pitch values: every input bit traced to its output position, then random vectors; distinct = (pitch, vector)",
  [R("conv7100", "ref simd dbg", 1536, need=["neighbouring pitches in a row"]), R("conv7100", "asan", 256, exe="asan")],
  "bit-tracing monitor over all pitch values", "all pitch values and all positions are traced; vectors are sampled")
for pid, m, need in (("P10", "decimbe", ["voice models", "reserved pitch"]),
                     ("P11", "dec2450", ["voice models", "silence models", "erasures", "tone-class frames"]),
                     ("P12", "dec2400", ["voice models", "tone-class frames"])):
    C(pid, "exploration",
      "random and structured parameter vectors decoded from arbitrary previous states (any harmonic count, amplitudes, "
      "gain, or the library's own previous output); every field of both states judged; distinct = (vector, previous L)",
      [R(m, "ref simd fast", 1400, 12000, need=need), R(m, "dbg", 24, 400), R(m, "asan", 200, 1000, exe="asan")],
      "online oracle: independent double-precision parameter decoder, per call",
      "tolerance about 1e-4 in log2 amplitude; voicing is not judged where a harmonic falls on a band edge to 2e-5",
      assumptions=["quantiser tables were frozen from the tree when the checks were written"])
C("P02", "exploration",
  "histories of frames and parameter calls with error counts 0-300, text buffers of exactly errs2+3 bytes (guard bytes or "
  "ASan redzones), predicted text compared; distinct = (markers, error count, codec, entry point)",
  [R("text", "ref simd notones", 23000, 60000, need=["status texts", "R", "RM", "T", "E", "(no marker)"]),
   R("text", "asan", 2400, 8000, exe="asan")],
  "online oracle: state-machine monitor predicting the exact text; exact-size buffers under ASan",
  "every call's text is predicted; histories are sampled")
for pid, m, need in (("P13", "smimbe", ["speech frames", "muted frames", "repeated frames", "headroom resets",
                                        "frames exactly at the mute threshold", "frames exactly at the repeat threshold"]),
                     ("P14", "sm2450", ["speech frames", "comfort-noise resets", "erasures", "tones", "replays", "repeated frames"]),
                     ("P15", "sm2400", ["speech frames", "comfort-noise resets", "tones", "repeated frames"])):
    C(pid, "exploration",
      "histories of 120 calls (frames and parameter calls, clean/correctable/uncorrectable/threshold-aimed errors, bursts, "
      "foreign-codec segments); text, audio and all three states judged after every call; distinct = decision contexts "
      "(outcome, codec, entry, previous repeat count, counts, error-rate bin) and whole decision trails",
      [R(m, "ref simd", 12000, 200000, need=need + ["extreme reported counts"]), R(m, "fast dbg notones", 480, 9000)],
      "online monitor: independent decision state machine, numerical stages taken from the public stage calls",
      "decisions whose float comparison is within rounding of a threshold are skipped and counted")
C("P16", "exploration",
  "streams of 150 calls in four styles (random, greedy search for extreme amplitudes, extreme error counts, codec mixing); "
  "every sample and every number of the three states judged after every call; and arbitrary model pairs (loud/quiet/lonely harmonics, "
  "extreme energies) given straight to the synthesizer; distinct = (peak, amplitude range, L, style) bins and output blocks",
  [R("bounds", "ref simd fast", 20000, 120000, need=["greedy steps", "extreme error counts", "streams that reached the clip level"]),
   R("clip", "ref simd fast dbg", 8000, 60000, need=["pairs that reached the clip level", "loud-to-quiet pairs"]),
   R("bounds", "asan", 1300, 4000, exe="asan", hang=200)],
  "online invariant monitor on audio and state, adversarial (hill-climbing) workload, UBSan",
  "invariants are checked on every sample and state word; histories are sampled and steered towards extremes")
C("P17", "exploration",
  "the same call made through both entry points from the same state and seed; everything compared bit for bit; "
  "distinct = distinct 16-bit output buffers",
  [R("shorts", "ref simd notones", 25000, 80000, need=["marked frames", "plain frames"])],
  "differential monitor, bit-exact", "every pair of calls is compared completely; histories are sampled")
C("P18", "exploration",
  "every one of the 2^32 float patterns (NaNs replaced) through the scalar and the SIMD build at every buffer position and "
  "alignment in permuted order; distinct = (output value, position) pairs seen at the end of the blocks",
  [R("f2s", "ref simd", 2048, need=["float patterns"]), R("f2smix", "ref simd fast", 960, 20000), R("f2smix", "asan asansimd", 260, 2000, exe="asan")],
  "online oracle over an exhaustive value sweep", "all 2^32 patterns are executed in both builds", exhaustive=True)

C("P23", "exploration",
  "all 256 indices x 128 amplitudes from random phases through the tone stages, all D-STAR indices in -400..400 sampled; streams "
  "of 60 tone frames predicted from zero phase; distinct = (index, amplitude) and stream positions",
  [R("tones", "ref simd fast notones", 4096, need=["audible tones", "silent indices", "D-STAR tones", "D-STAR silent indices"]),
   R("tonestream", "ref simd notones", 9600, 30000, need=["tone frames", "invalid tones between tones", "codec changes between tones"]),
   R("tones", "asan", 256, exe="asan")],
  "online oracle: independent double-precision tone generator, per sample",
  "every index and amplitude is executed; phases and streams are sampled")
C("P24", "exploration",
  "fresh threads with set or default seed running 80 random calls each, half of them producing comfort noise through every "
  "public route; every sample compared; distinct = (seed, blocks)",
  [R("comfort", "ref simd fast dbg", 40000, 60000, need=["comfort-noise blocks", "seeded threads", "unseeded threads"])],
  "online oracle: independent 48-bit generator shadowing the call order",
  "each sample is compared with the generator; call orders are sampled")
C("P25", "exploration",
  "frames synthesised from random model pairs, random chains and decoded streams; the stored unvoiced segment is analysed by an "
  "independent DFT (band powers, empty bins, exact segment) and the noise state against the generator; distinct = output buffers",
  [R("uvband", "ref simd fast", 12000, 48000, need=["unvoiced bands", "cold starts", "noise continuations", "muted frames"]),
   R("uvstream", "ref simd", 26000, 80000, need=["noise continuations", "noise state kept", "cold starts", "long streams"])],
  "online oracle: spectral analysis of hooked state after each call",
  "every frame is analysed; models are sampled; frames with a band edge within 1e-4 of a bin boundary are skipped")
C("P26", "exploration",
  "frames synthesised from random model pairs, random chains and decoded streams; all 160 samples and all phases compared with an "
  "independent double-precision synthesiser; distinct = output buffers",
  [R("synth", "ref simd fast", 10000, 48000, need=["voiced harmonics", "interpolated harmonics", "harmonics appear", "harmonics disappear"])],
  "online oracle: independent double-precision synthesiser, per sample",
  "tolerance follows the float error of each harmonic's phase; frames whose phase wrap is undecidable by rounding are skipped")
C("P27", "exploration",
  "random, structured, decoded and degenerate models of every size and level; energy, weights, shape, level independence and "
  "footprint judged; distinct = resulting spectra",
  [R("enhance", "ref simd fast", 7700, 24000, need=["shaped models", "models without shape", "scaled models"]),
   R("enhance", "asan", 960, 1500, exe="asan")],
  "online oracle and invariant monitor per call, UBSan",
  "ill-conditioned spectra (nearly a single line) are judged by the invariants only")
C("P28", "exploration",
  "random models x error rates x counts x limits x local energies, aimed at both thresholds, with and without the enhancement "
  "hand-over; runs of 700000 consecutive frames for the limit; process-call histories of all codecs whose stored enhanced model is "
  "compared with the rules applied to the stored decoded model; distinct = resulting (amplitudes, limit)",
  [R("smooth", "ref simd fast", 7700, 24000, need=["bands forced voiced", "scaled models", "energy handed over", "stale energy ignored",
                                                   "no adaptive threshold", "threshold formula 1", "threshold formula 2"]),
   R("smoothlong", "ref simd", 16, 32, need=["runs that reached saturation"]), R("smooth", "asan", 960, 1500, exe="asan"),
   R("smpath", "ref simd fast", 12000, 100000, need=["frames smoothed in the process calls", "frames with bands forced voiced",
                                                     "frames scaled to the limit", "forced, second formula", "repeated frames smoothed"]),
   R("smoothlong", "asan", 8, exe="asan")],
  "online oracle: independent smoothing rules per call and inside the process calls, UBSan",
  "comparisons within rounding of a threshold are skipped")

C("P01", "exploration",
  "60-call histories per case in four styles (one codec, mixed codecs, stage calls, states taken from different streams) with every "
  "buffer and state an exact heap block, plus every (previous, current) pitch pair of every codec; distinct = (status text, model "
  "size, repeat count, audio)",
  [R("mem", "asan asansimd", 40000, 300000, exe="asan", need=["process calls", "stage sequences", "parameter decodes", "dumps",
                                                              "direct synthesis calls", "calls on states taken from different streams"]),
   R("mem", "msan msansimd", 9100, 80000, exe="msan", need=["process calls", "stage sequences"]),
   R("mempairs", "asan asansimd", 662, 6620, exe="asan", need=["pitch pairs"]),
   R("mempairs", "msan msansimd", 62, 662, exe="msan", need=["pitch pairs"]),
   R("mem", "ref simd fast dbg notones", 12000, 80000, need=["process calls"])],
  "AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer, guard bytes and a hang watchdog over exact-size buffers",
  "pitch pairs are exhausted; other histories are sampled")

C("P19", "exploration",
  "scripts of 25-60 mixed calls run in fresh threads, threads with other history, a long-lived thread, forked and independently "
  "started processes, at varying addresses; every audio block, text, count and state compared bit for bit; distinct = traces",
  [R("det", "ref simd dbg", 7100, 40000, need=["fresh threads", "used threads", "long-lived threads", "forked processes",
                                               "independent processes", "seed pairs",
                                               "runs with other clocks, environment and process identity"]),
   R("det", "asan", 960, 1500, exe="asan", need=["fresh threads"])],
  "relational monitor: recorded traces of repeated executions compared", "scripts and settings are sampled")
C("P20", "exploration",
  "2-5 scripted streams (whole calls and single stages) decoded alone and in random, round-robin and bursty interleavings; all "
  "states, text, counts and non-comfort audio compared bit for bit; and a thread seeded while a stream is running, where a later new "
  "stream must take the seed; distinct = interleavings, streams",
  [R("inter", "ref simd", 13000, 80000, need=["own audio blocks", "comfort-noise blocks", "streams with foreign enhancement in between",
                                                   "streams compared with an unseeded thread", "thread reseeded between streams' calls"]),
   R("oneshot", "ref simd", 16000, 100000, need=["running stream's own blocks between seeding and the start",
                                                 "comfort-noise blocks between seeding and the start"]),
   R("inter", "asan", 1300, 2000, exe="asan")],
  "relational monitor: interleaved versus solo traces",
  "interleavings are sampled; where another stream's enhancement falls between a stream's enhancement and synthesis only the "
  "discrete results are compared, because the energy hand-over is per thread and may round differently")
C("P29", "exploration",
  "scripts run on states initialised over garbage bytes, other streams' remains and half-finished frames, and half-rate scripts run "
  "after full-rate histories, against brand-new streams, bit for bit; distinct = traces",
  [R("initpast", "ref simd", 23000, 80000, need=["initialised after activity", "initialised from garbage", "codec changes to half rate"]),
   R("initpast", "msan", 960, 1500, exe="msan")],
  "relational monitor: traces after initialisation versus brand-new, MemorySanitizer", "pasts and scripts are sampled")

C("P36", "exploration",
  "states of any past (fresh, arbitrary bytes, decoded histories) are initialised and compared field by field with the documented "
  "default model, then the first one to three calls of a stream are compared with the same calls on that model; distinct = (codec, "
  "past, frame) classes",
  [R("defaults", "ref simd fast dbg", 3000, 60000, need=["initialised states", "first frames on the full-rate defaults",
                                                        "first frames on the half-rate defaults"])],
  "state monitor: initialised states and first frames versus the documented default models",
  "first frames are sampled")

C("P37", "exploration",
  "vectors and frames (all clear, all set, one cell set, random) are handed to every public dump call while its standard error is "
  "recorded, and the recorded digits are compared with the cells in transmission order; distinct = dumped contents",
  [R("dumps", "ref simd fast dbg", 2400, 40000, need=["dumped vectors", "dumped frames"]),
   R("dumps", "asan", 160, 1000, exe="asan", need=["dumped frames"])],
  "output monitor: recorded standard error versus the cells of the argument, AddressSanitizer", "contents are sampled")

C("P21", "exploration",
  "fresh-process trials of 2-8 threads started at a barrier (or created while others run), each decoding 1-3 scripted streams with "
  "and without seeding; every call compared bit for bit with the thread's solo run; distinct = observed global call orders",
  [R("threads", "tsan tsansimd", 1600, 8000, exe="tsan", need=["concurrent calls", "thread switches"]),
   R("threads", "ref simd", 10000, 60000, need=["concurrent calls", "thread switches"])],
  "ThreadSanitizer and relational monitor: concurrent versus solo traces",
  "schedules are those the operating system produced, with injected yields; TSan judges the happens-before relation of each")

C("P22", "exploration",
  "80-frame streams; before each frame every build is put into the reference build's state, then all results are compared: counts, "
  "text, bits, decisions exactly, numbers and audio within tolerance; distinct = (text, spectrum)",
  [R("parity", "ref simd fast dbg dbgsimd strict notones", 2200, 80000, need=["frames compared", "silenced tones", "tones", "states with unwrapped phases"])],
  "differential monitor over seven builds, state resynchronised every frame",
  "frames whose branch is decided by float rounding are skipped and counted")
C("P30", "exploration",
  "every call repeated with different previous output contents and ignored arguments; inputs, floating-point control modes, standard streams "
  "and the C library's generator compared before and after; distinct = states",
  [R("pure", "ref simd", 16000, 80000, need=["frame calls", "data calls", "frames decoded from another state", "rounds of calls with the process environment compared"]),
   R("pure", "msan", 960, 1500, exe="msan", need=["frame calls"])],
  "relational monitor with guarded buffers, MemorySanitizer", "calls and states are sampled")
C("P33", "exploration",
  "burst histories of six kinds, then 60-400 clean frames to the disturbed and an undisturbed decoder; the contraction is judged at "
  "every clean frame; distinct = (remaining difference, spectrum)",
  [R("recover", "ref simd fast", 11000, 150000, need=["bursts", "contraction steps", "long recoveries"])],
  "online relational monitor of two decoders", "bursts and clean streams are sampled; spectral contraction is judged from the second clean frame, when both predict from equal harmonic counts")
C("P34", "exploration",
  "each frame decoded by the whole-frame call and by the documented stages plus the parameter-level call from the same state, bit for "
  "bit; distinct = states",
  [R("stages", "ref simd", 26000, 80000, need=["frames compared with the stages", "frames compared with the parameter-level call",
                                                    "marked frames compared", "plain frames compared"])],
  "relational monitor, bit-exact",
  "the parameter-level call is compared where the frame call's extra information (first-word and fourth-word counts) changes no decision")
C("P35", "exploration",
  "copies of decoder states and of arbitrary bytes in both directions and onto themselves, decoding continued from the copies; version, "
  "dump and null calls bracketed by state and generator comparison; distinct = states",
  [R("copies", "ref simd", 19000, 60000, need=["copies", "copies of arbitrary bytes", "dump and version rounds"]),
   R("copies", "asan", 960, 1500, exe="asan", need=["copies"])],
  "relational monitor with guarded buffers, AddressSanitizer", "states are sampled")

C("P31", "exploration",
  "streams decoded in fresh threads with and without failing allocations (all, prefixes, every k-th, bursts, single, random, until "
  "a given call); every call compared; distinct = (pattern, failures, audio)",
  [R("oom", "alloc allocsimd", 51000, 300000, need=["runs with failing allocations", "degraded frames equal to their voiced part",
                                                    "frames exact after recovery", "calls decoded without memory"])],
  "allocation-fault injection by link-time wrapping, relational monitor against the never-failing run",
  "patterns and streams are sampled; audio is exact from the second, state from the third plain frame after recovery")
C("P32", "exploration",
  "scripts of 560 mixed calls on 4 streams plus 300 short streams per thread after its first frame, one to four threads: every "
  "allocator call, open file, thread and address-space page counted; threads then end; distinct = runs",
  [R("growth", "alloc allocsimd", 1700, 15000, need=["calls after the first frame"]),
   R("threadexit", "alloc", 8, 32, need=["finished threads"])],
  "resource-conservation monitor on wrapped allocator calls and /proc", "call sequences are sampled")
