#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that ids/anchors stay consistent).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe:a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
LIB="src/core/mbelib.c";UV="src/core/mbe_unvoiced_fft.c";AD="src/core/mbe_adaptive.c"
I72="src/imbe/imbe7200x4400.c";I71="src/imbe/imbe7100x4400.c";A50="src/ambe/ambe3600x2450.c";A00="src/ambe/ambe3600x2400.c";AC="src/ambe/ambe_common.c"
ECC="src/ecc/ecc.c";ECT="src/ecc/ecc_const.c";PF="src/external/pffft/pffft.c";H="include/mbelib-neo/mbelib.h"
ALL=[I72,I71,A50,A00,AC,LIB,AD,UV,ECC,PF]
STM=("mbe_parms (cur, prev, prev_enhanced)","caller-owned decoder state of one stream",H+":84")

p("P01","No bit pattern or history makes a decoder touch memory it does not own",
 "For every sequence of calls made with buffers of the documented sizes - any received bits, any error counts, any order of codecs, any state the library itself produced - no call reads or writes outside the caller's buffers and the library's own objects, reads an uninitialised value, or executes undefined behaviour. Every such call also returns.",
 ["inputs","histories","configurations"],"all frame bit patterns x all decoder states reachable from initialisation by any mix of the four frame formats and the parameter-level calls, in scalar and SIMD builds",
 "The unit tests run a few dozen fixed frames under ASan; table indices and predictor indices depend on the pair (previous harmonics, current harmonics), on every parameter field and on accumulated state, which no fixed frame list reaches.",
 ALL,[("harmonic-count bounds and predictor clamps",I72+":320-520"),("table lookups by decoded field",A50+":250-560"),("band-edge clamps",UV+":620-650"),("err_str sizing contract",H+":20")],[STM],
 ["buffers of exact size under ASan/UBSan/MSan"])
p("P02","Status text stays inside its documented bound and says what was done",
 "Every process call leaves a NUL-terminated status text: one '=' per counted error, then only the markers for what that call did - E for an erasure, T for a tone-class frame, R for a repeated frame, M for a muted frame - in the order they were decided. It never writes past error-count+3 bytes, whatever the frame, the error count and the history.",
 ["inputs","histories"],"all frames and parameter vectors, all error counts, all decoder histories, all four codecs and both sample formats",
 "Tests compare a handful of fixed strings; the marker combination depends on repeat history, error rate and frame class, and the bound matters exactly for combinations nobody wrote down.",
 [I72,I71,A50,A00,H],[("err_str writers",I72+":560-640"),("err_str writers",A50+":590-700"),("err_str writers",A00+":560-660")],[STM],["err_str buffer of exactly errs2+3 bytes with guard bytes"])
p("P03","Golay (23,12) decoding returns the data of the nearest codeword",
 "For every 23-bit word the decoder returns the data bits of the unique codeword within three bit errors and reports exactly how many of the received data bits it changed, passing the received parity bits through unchanged. The packed-word variant gives the same data bits and ignores all bits above the 23-bit word.",
 ["inputs"],"all 2^23 received words (the whole space), all upper-bit contents of the packed word",
 "Tests check some codewords and some single/double errors; the guarantee is about all 8,388,608 words and any upper bits.",
 [ECC,ECT],[("generator / syndrome table",ECT+":15-131"),("decode",ECC+":40-120")])
p("P04","Hamming (15,11) decoding corrects to the unique neighbouring codeword",
 "For both bit mappings and every 15-bit word, the decoder outputs the unique codeword at distance at most one from the received word, and reports 0 when the word was a codeword and 1 otherwise.",
 ["inputs"],"all 2^15 words for each of the two mappings (the whole space)",
 "Tests check a few error positions per mapping.",
 [ECC,ECT],[("parity checks and correction tables",ECT+":100-131"),("decode",ECC+":120-187")])
p("P05","IMBE 7200x4400 frame FEC: round trip and exact error accounting",
 "For every 88-bit parameter vector, encoding it as a frame and decoding it returns the same bits, with any pattern of up to three errors per 23-bit word and one per 15-bit word corrected. For every received frame, correctable or not, the recovered bits are those of the nearest codewords under the descrambling keyed by the corrected first word, and the reported counts equal the corrections made in the first word and in all words.",
 ["inputs"],"all parameter vectors, all error patterns, all received 8x23 frames",
 "Tests use one or two frames with hand-placed errors; the guarantee is over 2^88 vectors times every error pattern including the beyond-capacity ones.",
 [I72,ECC,ECT],[("C0 decode",I72+":170-195"),("data decode and packing",I72+":196-262"),("descrambler",I72+":520-560")])
p("P06","IMBE 7100x4400 frame FEC: round trip and exact error accounting",
 "For every 88-bit parameter vector in the 7100 layout, encoding it as a frame and decoding it returns the same bits with any pattern of up to three errors per Golay word (the shortened first word included) and one per Hamming word corrected. For every received frame the recovered bits are those of the nearest codewords under the descrambling keyed by the corrected first word, and the reported counts equal the corrections made.",
 ["inputs"],"all parameter vectors, all error patterns, all received 7x24 frames",
 "Tests exercise this format with a few frames; its bit placement (1-bit offsets, shortened word, own Hamming mapping) differs from the 7200 format in ways only a full mapping check settles.",
 [I71,ECC,ECT],[("C0 decode",I71+":96-118"),("data decode and packing",I71+":128-200"),("descrambler",I71+":203-250")])
p("P07","AMBE 3600 frame FEC: round trip and exact error accounting",
 "For both half-rate formats and every 49-bit parameter vector, encoding it as a frame and decoding it returns the same bits with up to three errors per protected word corrected; a lone error in the first word's extra parity bit is corrected and counted as one. For every received frame the recovered bits are those of the nearest codewords under the descrambling keyed by the corrected first word, unprotected bits pass through, and the reported counts equal the corrections made.",
 ["inputs"],"all 49-bit vectors, all error patterns, all received 4x24 frames, both formats",
 "Tests use isolated frames; nothing checks the parity-bit rule, word boundaries and counts across all error patterns.",
 [AC,A50,A00,ECC],[("C0 decode with parity bit",AC+":18-46"),("data decode and packing",AC+":75-105"),("descrambler",AC+":48-73")])
p("P08","Descrambling is keyed by the first word, self-inverse and confined to its words",
 "For every frame of the three frame families, descrambling flips exactly the bits selected by the pseudo-random sequence seeded from the first word's data bits, so applying it twice restores the frame. It never changes the first word, the unscrambled trailing words or the padding cells.",
 ["inputs"],"all seeds (4096 / 128 / 4096) x all frame contents",
 "Tests compare a single seed; a wrong constant, length or start index shows only for some seeds and cells.",
 [I72,I71,AC],[("sequence generator and xor",I72+":520-560"),("sequence generator and xor",I71+":203-250"),("sequence generator and xor",AC+":48-73")])
p("P09","7100-to-7200 parameter conversion is a lossless bit permutation",
 "For every 88-bit vector the conversion moves each input bit to exactly one output position and loses none, with positions depending only on the pitch field. The frequency, voicing, gain and remaining fields land where the 7200 layout has them, so decoding the converted vector yields the transmitted parameters.",
 ["inputs"],"all 256 pitch values x all 88-bit vectors",
 "Tests convert one vector; the mapping has a different cut point for each voicing-band count.",
 [I71],[("field reordering",I71+":255-325")])
p("P10","IMBE parameter decoding reproduces the specified model for every vector",
 "For every 88-bit vector and every previous state, decoding yields the fundamental, harmonic and band counts, voicing decisions and spectral amplitudes that the specification's bit allocation, quantiser tables and inter-frame prediction define, within floating-point tolerance. Reserved pitch values are rejected without disturbing the model, and nothing outside the documented fields changes.",
 ["inputs","histories"],"all parameter vectors x all previous harmonic counts and amplitude histories",
 "Tests check value ranges or a few golden vectors; each of 48 harmonic counts has its own bit ordering, allocation and block sizes, and prediction depends on every pair of counts.",
 [I72,"src/internal/imbe7200x4400_const.h"],[("parameter decode",I72+":275-520")],[STM])
p("P11","AMBE 2450 decoding reproduces the specified model for every vector",
 "For every 49-bit vector and every previous state, decoding classifies the frame as voice, silence, erasure or tone as specified, and for voice and silence frames yields the fundamental, harmonic count, voicing, gain and spectral amplitudes that the codebooks and inter-frame prediction define, within floating-point tolerance. Nothing outside the documented fields changes.",
 ["inputs","histories"],"all 2^49 vectors x all previous harmonic counts, gains and amplitude histories",
 "Tests sample a few vectors; every codebook entry, block layout and pair of harmonic counts matters.",
 [A50,"src/internal/ambe3600x2450_const.h"],[("parameter decode",A50+":190-560")],[STM])
p("P12","AMBE 2400 (D-STAR) decoding reproduces the specified model for every vector",
 "For every 49-bit vector and every previous state, decoding recognises tone frames and their tone index, and for voice frames yields the fundamental, harmonic count, voicing, gain and spectral amplitudes that the codebooks and inter-frame prediction define, within floating-point tolerance. Nothing outside the documented fields changes.",
 ["inputs","histories"],"all 2^49 vectors x all previous harmonic counts, gains and amplitude histories",
 "Tests sample a few vectors; every codebook entry, tone bit scrambling pattern and pair of harmonic counts matters.",
 [A00,"src/internal/ambe3600x2400_const.h"],[("parameter decode",A00+":130-520")],[STM])
p("P13","IMBE repeat, headroom-reset and mute decisions follow the documented rules",
 "For every error history: a frame is repeated exactly when its pitch is invalid or its error counts meet the documented threshold, a repeated frame reuses the previous model, and after four consecutive repeats the next one resets the model to defaults. Audio is replaced by comfort noise exactly while four repeats have accumulated or the smoothed error rate exceeds 8.75%, and a good frame ends repetition at once; the stored previous and enhanced states always match the frame that was output.",
 ["histories","inputs"],"all sequences of frames and error counts, at frame and parameter level, both IMBE formats, including histories that start in another codec",
 "Tests drive a few scripted sequences; thresholds interact with the smoothed error rate and the repeat counter over arbitrary histories.",
 [I72,I71,AD],[("repeat/mute decision",I72+":560-640"),("headroom reset",I72+":40-70"),("mute predicate",AD+":95-120")],[STM])
p("P14","AMBE 2450 repeat, erasure, tone and mute decisions follow the documented rules",
 "For every history: a voice frame is repeated exactly when its error counts meet the documented threshold and the fourth consecutive repeat mutes to comfort noise and resets the model; an erasure outputs comfort noise and leaves the erasure model as history; a valid tone plays without disturbing the stored voice model and an invalid tone replays the previous voice frame. Tone classification requires fewer than six errors, and a good frame ends repetition at once.",
 ["histories","inputs"],"all sequences of voice, silence, erasure, valid and invalid tone frames with all error counts, at frame and parameter level",
 "Tests drive a few scripted sequences of two to five frames.",
 [A50,AC,LIB],[("frame state machine",A50+":575-700"),("defaults and erasure model",AC+":108-193")],[STM])
p("P15","AMBE 2400 repeat, tone and mute decisions follow the documented rules",
 "For every history: a voice frame with more than three errors repeats the previous model and the fourth consecutive repeat mutes to comfort noise and resets; a single tone with index 5-122 plays when the first word has fewer than two errors and the total is below three; any other tone-class frame outputs comfort noise and resets the model. A good frame ends repetition at once.",
 ["histories","inputs"],"all sequences of voice and tone frames with all error counts, at frame and parameter level",
 "Tests drive a few scripted sequences.",
 [A00,AC,LIB],[("frame state machine",A00+":545-660"),("defaults",AC+":108-193")],[STM])
p("P16","Audio stays within the clip limit and the model stays finite forever",
 "After any history of any frames, every float sample is finite and within the documented soft-clip level, every 16-bit sample lies within +/-31128, and every number in the decoder state stays finite. Harmonic counts stay within 9-56, voicing flags are 0 or 1, repeat counters stay within bounds and the noise state stays a valid generator state, so no sequence can poison later frames.",
 ["histories","inputs"],"arbitrarily long frame sequences, including sequences chosen to drive amplitudes, gains and error rates to their extremes, all codecs",
 "Tests check a few frames for clipping; prediction feeds amplitudes back, so overflow or NaN needs a particular long history.",
 [LIB,AD,I72,A50,A00],[("soft clip",LIB+":520-545"),("amplitude enhancement guards",LIB+":290-470"),("predictor",I72+":440-515")],[STM])
p("P17","16-bit and float entry points are the same decoder",
 "For every call and every state, each 16-bit entry point produces exactly the documented conversion of what the float entry point produces from the same state, with the same error counts, status text, parameter bits and resulting state.",
 ["inputs","histories"],"all frame and parameter vectors, all states, all 16-bit/float pairs of the interface",
 "Tests compare the pair for one or two calls.",
 [I72,I71,A50,A00,LIB,AD],[("16-bit wrappers",I72+":655-670"),("conversion",LIB+":1060-1268")])
p("P18","Float-to-16-bit conversion is exact for every sample value",
 "For every float sample that is not a NaN, at every position of the 160-sample buffer, the conversion multiplies by 7, limits to +/-0.95 of full scale and truncates toward zero, independent of the neighbouring samples. It writes exactly 160 samples, never wraps around, is odd-symmetric and monotonic, and is identical in scalar and SIMD builds.",
 ["inputs","configurations"],"all 2^32 float bit patterns except NaNs (infinities included), all buffer positions and alignments, scalar and SIMD builds",
 "Tests convert a handful of values.",
 [LIB],[("scalar and SSE2 conversion with dispatch",LIB+":1060-1268")])
p("P19","Same seed and same input give the same output, always",
 "Decoding is a deterministic function of the seed, the initial state and the input: seeding a thread and decoding a stream yields bit-identical audio and state whenever, in whichever thread or process, and at whichever addresses it runs, whatever that thread decoded before. A seed of zero is accepted, seeds actually select the noise sequences, and without seeding a fresh thread always starts from the same default sequence.",
 ["inputs","histories","schedules"],"all seeds, all streams, all prior activity of the thread",
 "Tests replay one stream with one seed in a fresh process.",
 [LIB,AD,UV],[("seeding",LIB+":78-92"),("comfort-noise generator",AD+":40-85"),("noise generator cold start",UV+":310-370")],[("thread-local generator state","noise sequences of a thread",AD+":24-30")])
p("P20","Streams sharing a thread do not influence each other",
 "When several streams, each with its own state, are decoded on one thread in any interleaving, every stream yields bit-for-bit the state and non-muted audio it yields when decoded alone. The only thing streams of one thread share is the sequence of comfort-noise samples.",
 ["histories","schedules"],"all interleavings at call granularity (including between the stages of a frame) of any number of streams of any codecs",
 "Tests decode one stream at a time.",
 [LIB,AD,UV],[("per-owner hand-off of enhancement energy",AD+":46-66"),("scratch buffers in the per-thread plan",UV+":85-130")],[STM])
p("P21","Threads decode concurrently without races and without influencing each other",
 "With one state per stream, any number of threads may call into the library concurrently - including their first calls, reseeding and thread creation and exit - without data races, and each thread's audio and state are bit-identical to a solo run of that thread.",
 ["schedules","histories"],"all interleavings of concurrent decoding threads, including simultaneous first use",
 "The thread test runs one schedule without a race detector; races on lazily built tables or shared generators show only under particular interleavings.",
 [LIB,AD,UV,I72,A50,A00,PF],[("thread-local caches, plan, dispatch and generator state",LIB+":56-76"),("thread-local DCT caches",I72+":78-118")])
p("P22","All build configurations decode the same speech",
 "From the same state and input, the scalar, SIMD, optimised fast-math and debug-logging builds agree on every discrete result - recovered bits, error counts, status text, harmonic counts, voicing, repeat and mute decisions - and on audio and amplitudes within a small floating-point tolerance. The tones-disabled build differs only in that tones are silent.",
 ["configurations","inputs","histories"],"all supported build options x all inputs and states",
 "Each test binary is compared with fixed expectations in its own configuration; configurations are compared with each other on almost nothing.",
 [LIB,UV,PF,I72,A50,A00],[("SIMD paths",LIB+":150-190"),("SIMD paths",UV+":430-560"),("SIMD paths",PF+":1")])
p("P23","Tone frames produce exactly the specified tones with continuous phase",
 "For every tone index and amplitude, valid tones produce the specified single or dual frequencies at the level given by the amplitude field (D-STAR tones at the nominal level), with phase continuing seamlessly across consecutive tone frames of any kind. Invalid indices produce 160 samples of silence and leave the phase untouched.",
 ["inputs","histories"],"all 256 tone indices x all amplitude values x all phases, arbitrary sequences of tone frames",
 "Tests check one or two tones for energy.",
 [LIB],[("tone table and renderer",LIB+":560-880")],[("phase accumulators","32-bit oscillator phase carried between frames",H+":104-110")])
p("P24","Comfort noise is the specified bounded generator sequence",
 "Comfort noise consists of exactly the 24-bit outputs of the documented 48-bit generator scaled to 0.003 of full scale, consumed 160 per muted frame in call order, for every seed and from the documented default state when unseeded. Nothing but comfort noise advances this sequence.",
 ["inputs","histories"],"all 32-bit seeds, all numbers of frames, all other activity in between",
 "Tests check the noise is non-zero and small.",
 [AD,LIB],[("generator",AD+":68-85"),("synthesis",AD+":140-180")])
p("P25","Unvoiced bands carry exactly the transmitted energy, voiced bands none",
 "In every synthesised frame the unvoiced component has, in each unvoiced band, a mean spectral power fixed by that band's amplitude, and nothing in voiced bands or outside the harmonics' range. The underlying noise is one continuous generator sequence overlapping by the documented amount from frame to frame, starting from the documented cold-start state.",
 ["inputs","histories"],"all fundamentals, harmonic counts, voicing patterns, amplitudes and noise states",
 "Tests check non-silence or one band; band edges depend on the exact fundamental and harmonic number.",
 [UV,PF],[("band edges and scaling",UV+":600-680"),("noise generator",UV+":310-370")],[("previous unvoiced segment","inverse transform output kept for overlap-add",H+":143"),("noise generator state","seed and 96-sample overlap",H+":145")])
p("P26","Synthesised speech follows the specified voiced/unvoiced model",
 "For every pair of consecutive models, the 160 output samples equal, within floating-point tolerance, the specified sum: voiced harmonics that continue the previous frame's phase and fade or interpolate between the two amplitudes, plus the overlap-added unvoiced segments, limited to the clip level. The stored phases advance by the average of the two fundamentals, so voiced speech has no break at frame boundaries.",
 ["inputs","histories"],"all pairs of models (fundamental, harmonic count, voicing, amplitude) and all phase and noise states",
 "Tests check energy or absence of clicks on one or two transitions.",
 [LIB,UV],[("voiced synthesis",LIB+":900-1030"),("overlap-add",UV+":395-430")],[STM])
p("P27","Spectral enhancement preserves energy and bounded shape",
 "For every model, enhancement keeps total energy unchanged and multiplies each amplitude - up to the common energy-restoring factor - by the specified weight limited to 0.5-1.2, leaving the lowest eighth of the harmonics unweighted and zero amplitudes at zero. Only amplitudes change, the result does not depend on absolute level except through the weights' definition, and models without spectral shape stay as they are.",
 ["inputs"],"all fundamentals, harmonic counts and amplitude vectors, from silent to the loudest reachable, scalar and SIMD",
 "Tests check one vector; weights depend on every amplitude and have clamps on both sides.",
 [LIB],[("enhancement",LIB+":285-500")])
p("P28","Error-driven smoothing follows the documented adaptive rules",
 "For every model, error rate, error counts and history, smoothing tracks local energy, forces a band voiced exactly when its amplitude exceeds the adaptive threshold in force, scales amplitudes exactly when their sum exceeds the amplitude limit, and carries the limit forward without overflow over any number of frames. Error-free frames pass unchanged apart from the fixed amplitude limit, and nothing but voicing, amplitudes, energy and limit changes.",
 ["inputs","histories"],"all amplitude vectors, error rates, error counts and carried-over energies and limits, including arbitrarily long errored runs",
 "Tests check a few points of a piecewise rule with five thresholds and carried state.",
 [AD,I72,A50],[("adaptive smoothing",AD+":185-277"),("predicates",AD+":87-130")],[("local energy, amplitude limit","carried from the previous model",H+":118-122")])
p("P29","Initialisation and codec changes erase the past",
 "Initialising a stream's three states, whatever they held and whatever was decoded or left half-done before, makes all further decoding bit-identical to a brand-new stream; the same holds for the automatic re-initialisation when a half-rate frame arrives on state that was not half-rate. No earlier audio, error history, phase or noise leaks across.",
 ["histories"],"all prior contents of the states (including arbitrary garbage before initialisation) and all prior activity of the thread",
 "Tests initialise fresh zeroed structures.",
 [LIB,AC,AD],[("initialisation",LIB+":228-285"),("half-rate defaults",AC+":108-193")],[STM])
p("P30","Calls change only their outputs, write all of them, and ignore legacy arguments",
 "Every call leaves its read-only inputs unmodified, fully overwrites its audio, count and text outputs whatever they held before, and the result never depends on the arguments documented as ignored (quality knob, reserved error argument, previous contents of outputs). Bits recovered from a frame depend only on that frame.",
 ["inputs","histories"],"all calls, inputs and states, all values of ignored arguments, all prior contents of output buffers",
 "Tests pass fixed values for the ignored arguments and never look at inputs afterwards.",
 [I72,I71,A50,A00,LIB],[("process entry points",I72+":560-700"),("process entry points",A50+":575-760")])
p("P31","Running out of memory degrades the sound, never the program",
 "Whichever allocation fails, and however often, decoding keeps returning 160 finite, in-range samples with the correct parameters, counts and text; only the noise-like part of speech may be missing and nothing is leaked. Once memory is available again, decoding returns to exactly the output of a decoder that never failed.",
 ["fault_sequences","histories"],"every subset pattern of failing allocations (each k-th allocation, prefixes, bursts) over multi-frame decoding",
 "No test injects allocation failures.",
 [UV,PF,LIB],[("plan allocation and cleanup",UV+":133-235"),("setup allocation",PF+":1250-1330"),("degraded path",LIB+":1020-1030")])
p("P32","Resource use is bounded: no growth with frames, streams or threads",
 "After a thread's first synthesised frame, decoding any further frames of any kind allocates nothing and opens nothing, however many streams and resets follow. A thread that exits returns everything the library allocated for it.",
 ["histories","schedules"],"arbitrarily many frames, streams, resets and threads",
 "No test observes allocation; leaks on rare paths or per thread are invisible to pass/fail assertions.",
 [LIB,UV],[("per-thread plan",LIB+":56-76"),("plan allocation and release",UV+":133-235")])
p("P33","Error effects die out after the burst ends",
 "After any error burst, from the first clean voice frame the repeat counters are zero, and with each further clean frame the remaining difference to a decoder that never saw the burst shrinks at least by the specified factor: error rate by 0.95, gain by 0.5, spectral prediction by the prediction coefficient. Hence every decoder converges to the undisturbed one whatever happened.",
 ["histories"],"all burst histories followed by all clean frame sequences, each codec",
 "Tests never decode long enough after an error to see recovery.",
 [I72,A50,A00,AD],[("prediction",I72+":440-515"),("error-rate filter",I72+":575"),("gain prediction",A50+":330-340")],[STM])
p("P34","Whole-frame calls equal the documented stages called one by one",
 "For every frame and state, a whole-frame call equals first-word correction, descrambling, data correction (and layout conversion) followed by parameter processing: same recovered bits, same counts, and - where the parameter-level call has the same information - bit-identical audio, text and state.",
 ["inputs","histories"],"all frames and states of all four formats",
 "Tests compare the two paths for at most one frame per codec.",
 [I72,I71,A50,A00],[("frame entry points",I72+":655-732"),("frame entry points",I71+":325-365"),("frame entry points",A50+":720-804"),("frame entry points",A00+":680-737")])
p("P35","State copies are complete and version text is consistent and bounded",
 "Copying a state in either direction makes source and destination indistinguishable to all later decoding and leaves the source unchanged, including self-copies. The version calls report the version the package was built as, never writing more than 32 bytes, and the diagnostic dump calls and null-tolerant calls change nothing.",
 ["inputs","histories"],"all states, all buffer contents",
 "Tests check one copy of a few fields and one version string.",
 [LIB,H,"include/mbelib-neo/version.h.in"],[("copy helpers",LIB+":195-226"),("version",LIB+":172-194")])
if __name__=="__main__":
    with open(os.path.join(os.path.dirname(__file__),"../properties.jsonl"),"w") as f:
        for x in P:
            assert len(x["title"])<=80,(x["id"],len(x["title"]))
            f.write(json.dumps(x)+"\n")
    print(len(P))
