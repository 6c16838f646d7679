#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per property)."""
import json, os

A = "src/codec/adhoc.rs"
F = "src/codec/adhoc/frame.rs"
S = "src/codec/adhoc/audio_stream.rs"
W = "src/codec/wav.rs"
C = "src/codec.rs"
B = "src/collections/bitstream.rs"
V = "src/collections/bitvec.rs"
N = "src/collections/nibble_list.rs"
K = "src/collections/stack.rs"
P = "src/math/parabola.rs"
R = "src/math/noise.rs"
M = "src/main.rs"

props = []

def add(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    props.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
            "mechanism": [dict(name=a, where=b) for a, b in mech],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

add("C01", "Compression level 0 is lossless at 16-bit precision",
    "At compression level 0, encoding any interleaved PCM (any channel count, any sample rate, any f32 samples, those outside [-1,1] counting as clipped) and decoding it from the start returns every complete block, in order, on the right channel. Each decoded sample equals what the crate's 16-bit WAV codec gives back for the same input sample, so it is within one 16-bit step of the (clipped) input, and an input that is a 16-bit value already (k/32767, as decoding a 16-bit WAV gives) comes back as exactly that value. No sample, chunk or channel disturbs another: there is no error that accumulates or depends on the neighbouring samples, however loud or abrupt the signal.",
    ["inputs", "configurations"],
    "all sample sequences (silence, tones, noise, full-scale square waves and alternations, out-of-range and non-finite values), channel counts, sample rates and stream lengths",
    "Three tests encode 13-14 quiet hand-picked samples, or a file whose output is never compared; loud or abrupt signals, many channels, long streams and every residual size are outside them.",
    [A, F, B, C, P, K],
    [("FrameCodec::encode_frame / decode_frame (predict + residual, must be exact inverses)", F),
     ("BitStream::write_compressed / read_compressed (Rice code of residuals)", B),
     ("de-interleave / interleave in AdhocCodec::encode / decode", A),
     ("truncate_sample / quantize_sample / normalize_sample", C)],
    [("sample_history", "last samples per channel that both sides predict from", F)],
    ["AdhocCodec::encode", "AdhocCodec::decode", "WavCodec::encode/decode"])

add("C02", "Lossy levels keep every sample within the quantisation step plus dither",
    "At compression level L (1 to 10), decoding returns one sample for every sample of every complete block encoded, and each differs from its input (in [-1,1]) by at most one quantisation step of 2^L 16-bit units plus the dither amplitude of 0.001. The bound holds at every position of the stream, for every channel, however loud or abrupt the signal. A level above 10 behaves exactly like level 10.",
    ["inputs", "configurations"],
    "all sample sequences in [-1,1], all levels as u32, all channel counts and stream lengths",
    "Level 4 and 7 are run once on one 8-bit file and the output is not compared with the input.",
    [A, F, B, C, R],
    [("with_compression_level (scale, inv_scale, clamp)", A),
     ("dither + scaling in AdhocCodec::encode, scale-up in decode", A),
     ("PseudoRandom::triangle", R)],
    [("scale / inv_scale", "2^level and its inverse", A)],
    ["AdhocCodec::with_compression_level", "AdhocCodec::encode", "AdhocCodec::decode"])

add("C03", "How PCM is cut into encode calls does not matter",
    "Any sequence of encode calls is accepted: empty slices, fewer samples than one block, one or two blocks, or hundreds of thousands of samples in one call. Each call reports as encoded exactly the samples of the complete blocks it was given (a trailing partial block is ignored), and the decoded stream is the concatenation of those blocks: at level 0 it is identical whatever the partition, at other levels it keeps the same length and distortion bound. Empty calls anywhere leave no trace in the decoded audio.",
    ["inputs", "histories"],
    "all partitions of all PCM inputs into encode calls, including empty, sub-block, tiny, block-misaligned and over-65535-samples-per-channel slices",
    "Tests make one or two encode calls of 4 to 1024 samples; first calls under three blocks, empty calls, misaligned calls and calls over 65535 samples per channel never occur.",
    [A, F],
    [("AdhocCodec::encode (whole blocks, frame size limits)", A),
     ("Init frame of encode_frame stores the first samples raw", F),
     ("FrameHeaders::push (u16 frame size)", F)],
    [("frame size", "samples per channel in a frame", F)],
    ["Streamable::encode return value", "AdhocCodec::decode"])

add("C04", "Saving and loading preserves the stream exactly",
    "Saving a codec and loading the bytes yields a codec with the same stream info and sample count that decodes from the start to bit-identical audio, at every level and channel count. This holds whenever the save happens (while encoding, after rewinding, in the middle of decoding, after a seek), saving changes nothing in the codec saved, and saving a loaded codec again gives a file that loads to the same audio.",
    ["inputs", "histories", "configurations"],
    "all encoded streams, levels, channel counts, and points in an encode/decode/seek history at which save is called",
    "The one save test writes a file and never loads it; the doc-tests load one file and do not compare.",
    [A, F, S, B, V, N],
    [("AdhocCodec::save_to / load (bincode of level, frame headers, bit stream)", A),
     ("serde derive order of FrameHeaders, BitStream, AudioStream", F)],
    [("compression_level", "must travel with the file, decode scales by it", A)],
    ["AdhocCodec::save_to", "AdhocCodec::load", "decode after load"])

add("C05", "Playback is independent of read sizes and can be rewound at will",
    "For both codecs, decoding with any sequence of buffer sizes yields the same sample sequence; every call returns a whole number of blocks, as many as fit in the buffer unless the stream ends first, and returns None only if nothing is left or not even one block fits. Samples of the caller's buffer beyond the reported count are left untouched. Rewinding (init or seek to start) at any moment restarts the identical sequence.",
    ["histories", "inputs"],
    "all interleavings of decode calls with buffer lengths from 0 to beyond the stream and rewinds, over all streams and channel counts",
    "Tests read once from start to end with one buffer size and ignore the contents.",
    [A, F, W],
    [("AdhocCodec::decode block/cursor loop and frame buffering", A),
     ("AdhocCodec::init / FrameCodec::init", A),
     ("WavCodec::decode", W)],
    [("buffered_channel", "decoded samples not yet handed out", F)],
    ["Streamable::decode", "AdhocCodec::init", "Streamable::seek"])

add("C06", "Seeking a compressed stream lands on the requested time",
    "After seeking a finished or loaded AdhocCodec to t milliseconds from the start, decoding yields exactly the samples that sequential decoding yields from block floor(t*sample_rate/1000) on, on the right channels (exactly that block when the rate is a whole number of kHz, otherwise up to one block off through rounding), to the end of the stream. This holds whatever was decoded or sought before. Seeking at or beyond the end, or in an empty stream, is not an error: nothing is left to decode.",
    ["inputs", "histories"],
    "all streams (chunkings, channel counts, rates, levels), all targets in u64 milliseconds, all prior decode/seek/rewind histories",
    "No test seeks anywhere but to 0, where the code returns early.",
    [A, F, B],
    [("Streamable::seek for AdhocCodec (frame search, state restore, prune)", A),
     ("FrameHeader stack_history / bit_cursor / is_init captured at encode time", F)],
    [("frame headers", "per-frame decoder state snapshots", F)],
    ["Streamable::seek(SeekFrom::Start)", "AdhocCodec::decode"])

add("C07", "Re-encoding over an old stream leaves nothing of it",
    "After init or seek(Start(0)), a codec that already holds a stream (encoded or loaded) can encode new audio, and then decodes, counts and seeks exactly as a fresh codec given only the new audio would (apart from the dither noise of lossy levels), and saves a file that loads to the same audio. In particular a shorter re-encode leaves no tail of the old stream, neither in playback nor in the size of the file. This also holds when the stream info or the level is set anew for the new audio.",
    ["histories", "inputs"],
    "all pairs and chains of streams (shorter, longer, other chunking) with rewinds, decodes, seeks, saves and loads between them",
    "No test encodes into a codec a second time.",
    [A, F, B, N, V],
    [("FrameHeaders::push overwrite path", F), ("BitStream overwrite (clears bits ahead of the cursor)", B),
     ("FrameCodec::init", F), ("NibbleList::set / BitVec::set", N)],
    [("header_cursor", "where the next header goes", F)],
    ["AdhocCodec::init", "encode after rewind", "decode", "calculate_sample_count_per_channel"])

add("C08", "The reported sample count is what decoding yields",
    "The number of samples per channel that an AdhocCodec reports equals the number of complete blocks encoded so far and the number of blocks that decoding from the start returns. It is the same before and after saving and loading, and reading or seeking the stream does not change it.",
    ["inputs", "histories"],
    "all encode histories, chunkings, channel counts, and points of a decode/seek/save history at which the count is taken",
    "The function is never called by a test.",
    [A, F],
    [("calculate_sample_count_per_channel", A), ("FrameHeaders::push size", F)],
    [], ["AdhocCodec::calculate_sample_count_per_channel", "Streamable::decode"])

add("C09", "The file size upper bound bounds, and is tight",
    "At any time the number of bits reported by filesize_upperbound is at least 8 times the number of bytes that saving the codec at that time writes, for AdhocCodec and WavCodec. The bound is tight: it exceeds the real size by no more than 5% plus 128 bytes for AdhocCodec, and for WavCodec it is exact.",
    ["inputs", "histories"],
    "all streams (empty, one frame, thousands of tiny frames, huge frames), codec states, levels and channel counts",
    "The function is never called by a test, and the size of container overheads depends on the number of frames.",
    [A, F, B, N, V, W],
    [("AdhocCodec::filesize_upperbound, FrameHeaders::calculate_weight_upperbound", A),
     ("BitStream::capacity_upperbound, NibbleList::capacity, BitVec::capacity", B),
     ("WavCodec::filesize_upperbound", W)],
    [], ["Streamable::filesize_upperbound", "save_to"])

add("C10", "Loading hostile .adhoc bytes never crashes",
    "For any byte sequence, AdhocCodec::load returns None or a codec; it never panics, aborts or allocates memory out of proportion to the input. Decoding, seeking, counting and re-saving whatever codec was loaded never panics, and decoding ends after a number of samples bounded by the frames the file declares.",
    ["inputs"],
    "all byte sequences, in particular valid files with fields, lengths, counts and payload bits altered",
    "Tests load only one file that the crate itself wrote.",
    [A, F, B, N, V, S],
    [("AdhocCodec::load validation", A), ("FrameHeaders iterator (parallel lists)", F),
     ("BitStream::read_compressed / peek_bits on arbitrary bits", B)],
    [], ["AdhocCodec::load", "decode / seek / save_to of the result"])

add("C11", "Torn files and failing I/O are reported, never silently wrong",
    "An .adhoc file cut at any byte (a crash or full disk during save) is rejected by load; a WAV file cut at any byte is rejected or loads as a prefix of its samples that ends with a whole block. If the writer fails at any point, save_to reports failure; if it accepts only part of each write or interrupts, the bytes written are still exactly the file. If the reader fails, load reports failure; if it returns short reads or interrupts, the result is the same as for the whole file.",
    ["crash_points", "fault_sequences", "inputs"],
    "all cut points of all saved files; all fault positions and short-transfer patterns of readers and writers; both codecs",
    "Tests use real files and memory, which never fail or transfer less than asked.",
    [A, W],
    [("AdhocCodec::save_to / load through bincode", A), ("WavCodec::save_to / load", W)],
    [], ["save_to result and bytes written", "load result"])

add("C12", "The .adhoc layout is stable: files stay decodable",
    "Files in the established .adhoc layout (level, frame headers, Rice-coded residuals of quadratic prediction, little-endian) written by an independent encoder decode to exactly the audio that layout defines, and files the crate writes are decoded by an independent decoder of that layout to the same audio the crate decodes. This covers every level, channel count, per-frame parameter (1 to 15) and frame size from 0 to 65535 samples per channel (in a stream that starts with one or two samples, the first stands in for the missing history).",
    ["inputs", "configurations"],
    "all streams in the format: all levels, channel counts, frame partitions, per-frame Rice parameters, and residuals",
    "Tests only ever decode what the same build encoded, so a change made on both sides alike passes while every stored file becomes unreadable.",
    [A, F, B, S, V, N, P, K, C],
    [("serialised field order and widths", A), ("write_compressed / read_compressed bit order", B),
     ("prediction arithmetic (FixedParabola, truncate/normalize)", P)],
    [], ["AdhocCodec::load + decode of reference files", "bytes of save_to"])

add("C13", "Compression is effective and its worst case is bounded",
    "Each frame costs no more bits than its residuals would with the best Rice parameter from 1 to 15, plus a fixed overhead per encode call and channel. Hence a frame whose 16-bit samples all lie within E of their quadratic extrapolation (modulo 16 bits) costs at most max(1, ceil(log2(E+1))) + 2 bits per sample, and no signal more than 18, plus that overhead. So silence, slow signals and higher compression levels take a fraction of 16-bit PCM, and nothing blows up.",
    ["inputs", "configurations"],
    "all signals (silence, ramps, tones, noise of any amplitude, worst-case alternations), levels, channel counts and chunk sizes",
    "Tests print a ratio and assert nothing about size.",
    [F, A, B],
    [("compute_optimal_divisor_exponent", F), ("write_compressed", B), ("scaling by level", A)],
    [], ["length of save_to output"])

add("C14", "Encoding is deterministic and instances are independent",
    "Two codecs given the same configuration and the same calls produce identical files and identical decoded audio. The result does not depend on other codec instances used before, in between or concurrently on other threads, nor on whether configuration was given through the builder methods or setters and in which order.",
    ["schedules", "inputs", "histories", "configurations"],
    "all call sequences, configuration orders, interleavings with other instances on the same thread, and concurrent use of separate instances on several threads",
    "Tests run one instance at a time and compare no bytes.",
    [A, R, M],
    [("all state lives in the instance (PseudoRandom seeded per instance)", A)],
    [("seq", "dither generator state", A)],
    ["save_to bytes", "decode output"])

add("C15", "WAV save and load round-trips samples bit for bit",
    "Saving a WavCodec always produces a well-formed 16-bit PCM RIFF/WAVE file whose header fields (sizes, channels, rate, byte rate, block align, bits) agree with each other and with the stream info and whose data are exactly the encoded samples. Loading it gives back the same info and bit-identical samples, and saving that again gives identical bytes, for every length including empty and very short streams and up to 32767 channels. Every encoded sample lands within one 16-bit step of its (clipped) input; a sample that is a 16-bit value already (k/32767) is stored as exactly that value, so decoding a file and encoding the result again gives the same file.",
    ["inputs", "configurations"],
    "all sample sequences and lengths (including 0), channel counts and sample rates, and f32 values including out-of-range and non-finite ones",
    "Tests save one large file and never parse or reload the result.",
    [W, C],
    [("RawWavHeader and save_to", W), ("WavCodec::load", W), ("write_sample / truncate_sample / quantize_sample / normalize_sample", W)],
    [], ["WavCodec::save_to bytes", "WavCodec::load", "decode"])

add("C16", "WAV import reads exactly the audio of foreign files",
    "A PCM WAV file with a leading fmt chunk, 8 or 16 bits, any channel count and rate, with other chunks before and after the data chunk, loads with its channel count and rate and exactly the samples of its data chunk: 16-bit samples bit for bit, 8-bit samples mapped linearly from 0..255 onto -1..1 (within three 16-bit steps). Bytes of other chunks, or of a block that is cut short, never show up as audio. Files that are not RIFF WAVE, not PCM, or not 8 or 16 bits, are rejected.",
    ["inputs"],
    "all canonical WAV files: fmt sizes 16/18, extra chunks before/after the data chunk, odd sizes and padding, 8/16 bit, all lengths including tiny ones",
    "Tests load one 8-bit mono file without extra chunks and compare nothing.",
    [W],
    [("header and data chunk search in WavCodec::load", W), ("8-bit to 16-bit conversion", W)],
    [], ["WavCodec::load", "WavCodec::decode"])

add("C17", "Loading hostile WAV bytes never crashes",
    "For any byte sequence, WavCodec::load returns Err or a codec; it never panics, aborts or allocates memory out of proportion to the input. Whatever it loads can be decoded, sought, encoded to and saved without a panic, and decoding yields whole blocks and ends after at most as many samples as the input has bytes.",
    ["inputs"],
    "all byte sequences, in particular WAV files with altered header fields, chunk tags, sizes and cut points",
    "Tests load one valid file.",
    [W],
    [("bounds and field validation in WavCodec::load", W), ("raw PCM view in decode", W)],
    [], ["WavCodec::load", "decode / seek / encode / save_to of the result"])

add("C18", "A WAV stream behaves like a random-access tape",
    "Over any sequence of encode, decode and seek calls a WavCodec behaves like a sample array with one position: encode overwrites from the position and extends the array at its end, decode reads from the position, both advance it by what they report. Seeking (from start, from the current position, or back from the end) moves to the block at that many milliseconds, clamped to the stream and aligned to a block (exactly that block when the rate is a whole number of kHz, otherwise up to one block of rounding). Seeking an empty stream or beyond either end is not an error.",
    ["histories", "inputs"],
    "all operation sequences over all stream contents, channel counts and rates, with i64/u64 seek distances",
    "Tests read or append sequentially; no test seeks or overwrites.",
    [W],
    [("short_cursor handling in write_sample, decode, seek", W)],
    [("short_cursor", "position in samples", W)],
    ["Streamable::encode/decode/seek of WavCodec", "save_to bytes"])

add("C19", "The command line converts every file as the library would",
    "Given any list of .wav and .adhoc files with distinct base names, an output directory and a level, the tool writes for each input a file of the same base name with the other extension, whose audio is what the library gives for that file and level, independent of the other files converted in the same run. Compressing and then decompressing a WAV keeps channel count, rate and number of samples, each sample within the level's distortion bound (plus one 16-bit step for writing the WAV); at level 0 a 16-bit WAV comes back with identical samples (-32768, which lies outside [-1,1], as -32767). An input that cannot be converted does not stop or damage the others.",
    ["inputs", "configurations", "schedules"],
    "all sets of input files (names with dots and spaces, empty/short/long streams, channel counts, unreadable or invalid files), levels and output directories; files are converted in parallel",
    "No test runs the command line tool.",
    [M, A, W],
    [("convert_file, convert_wav_to_adhoc, convert_adhoc_to_wav", M), ("par_iter over inputs", M)],
    [], ["files in the output directory", "exit status"])

add("C20", "The bit-level stream reads back what was written",
    "Whatever sequence of fixed-width values, single bits and Rice-coded signed values is appended to a bit stream, at any bit offset and with any parameter, reading with the same sequence of types from the start returns the same values and ends at the same position. Writing after moving back replaces the old contents from there on, peeking does not move the position, and the allocated and written sizes reported agree with what was written.",
    ["inputs", "histories"],
    "all sequences of writes (widths 1 to 128, Rice parameters 0 to 15, all i16 values, capped variant), rewinds and overwrites, at every alignment to the 128-bit chunks",
    "Tests write one value at a time at offset 0 (one at offset 126); mixed sequences crossing chunk boundaries sit behind a feature that is never built.",
    [B],
    [("write_bits / peek_bits chunk crossing", B), ("write_compressed / read_compressed", B),
     ("write_compressed_capped / read_compressed_capped", B)],
    [("bit_cursor, capacity", "position and high-water mark in bits", B)],
    ["bit stream API (through the hook)"], "re-export of the private collections module under cfg(adhoc_verif)")

add("C21", "The container types agree with their textbook models",
    "Under any sequence of operations the bit vector and the nibble list behave like arrays of bits and of 4-bit values, the ring buffer like a bounded double-ended queue, the history stack like the last four pushed values, the linked list like a double-ended sequence with stable node handles, and the LRU cache like a map that evicts the least recently used key when full. The space of removed elements is used again, so a container takes no more than in proportion to the most elements it ever held. Serialising and deserialising any of them changes nothing observable.",
    ["histories", "inputs"],
    "all operation sequences (push, pop, insert, remove, set, clear, iterate, serialise) over all capacities and values in the documented ranges",
    "One short hand-written sequence per container; the LRU cache has no test.",
    [V, N, K, "src/collections/queue.rs", "src/collections/linked_list.rs", "src/collections/lru_cache.rs", "src/collections.rs"],
    [("index arithmetic and free-list / raise-key handling of each container", "src/collections/")],
    [], ["container APIs (through the hook)"], "re-export of the private collections module under cfg(adhoc_verif)")

add("C22", "The signal maths helpers compute what they define",
    "The quadratic predictor passes through its three points and extrapolates them; dither noise stays strictly inside (-1,1), is centred and triangular, and is reproducible from its seed; the two convolution routines agree with each other and with the definition; resampling keeps end points and interpolates linearly; the mean squared error is zero exactly for equal signals and symmetric; the Gaussian kernel samples the normal density.",
    ["inputs"],
    "all samples, seeds, kernels and lengths within the functions' preconditions (lengths of at least two for resampling, finite values; seeds below 2^43 other than the generator's one fixed point)",
    "One parabola is checked to 0.001 and a histogram is printed; the other functions have no test.",
    [P, R, "src/math/signal.rs", "src/math.rs"],
    [("FixedParabola", P), ("PseudoRandom", R), ("convolve_1d, convolve_1d_branchless, scale_signal", "src/math/signal.rs")],
    [], ["math helpers (through the hook)"], "re-export of the private math module under cfg(adhoc_verif)")

add("C23", "Time and memory grow in proportion to the audio",
    "Encoding, decoding, seeking, counting, saving and loading take processor time at most proportional to the number of samples, frames and channels involved, however the audio is cut into encode calls and read buffers; no call gets slower the longer the stream already is, apart from seeking and counting, which are linear in the number of frames. Memory stays in proportion too: encoding, re-encoding, saving and loading need a small multiple of the size of the stream, and decoding, seeking and counting need no more on top of the stream than the audio of one frame per channel.",
    ["inputs", "configurations", "histories"],
    "all signals, levels, channel counts, numbers and sizes of encode calls, read buffer sizes, fresh and re-encoded streams, both codecs",
    "The README promises O(N) coding with O(log N) allocations and the docs an O(n) count, but no test measures any cost, and the inputs of the tests are too short for a quadratic step to be noticed.",
    [A, F, B, W, N, V],
    [("encode_frames / decode / seek / calculate_sample_count_per_channel", A),
     ("FrameHeaders::push / next / get", F),
     ("BitStream::allocate / write / read", B),
     ("WavCodec::write_sample / decode / load", W)],
    [("deinterleaved_channel", "scratch space of one encode call", A),
     ("buffered_channel", "decoded audio of one frame", F)],
    ["AdhocCodec and WavCodec: encode, decode, seek, calculate_sample_count_per_channel, filesize_upperbound, save_to, load"])

add("C24", "The exported frame table and frame codec keep what they are given",
    "The building blocks that the crate exports hold up on their own. A frame table is a list of headers with a cursor: get and iteration return every header as it was pushed, pushing at an earlier position forgets the headers from there on, its length counts them, serialising changes nothing and never takes more bits than the reported bound. Any number of frame codecs may write frames of up to 65535 samples into one audio stream in any order: decoding in that order returns each codec's samples exactly (to 16 bits) and ends with None, a clone goes on independently, and any single frame decodes from its header alone (unless that codec's very first frame was empty). A stream info keeps the rate and channel count it was made of, in copies, streams, bytes and files.",
    ["inputs", "histories"],
    "all operation sequences on a table (headers with exponents 0-15), all numbers of codecs, orders and sizes of frames, all 16-bit samples, all stream infos",
    "No test uses the frame table or the frame codec directly; through AdhocCodec the frames only ever come round-robin, all of one size.",
    [F, S, N, V],
    [("FrameHeaders::push / get / next / set_cursor / calculate_weight_upperbound", F),
     ("FrameCodec::encode_frame / decode_frame", F), ("AudioStream", S), ("StreamInfo", "src/codec.rs")],
    [("header_cursor", "position in the frame table", F), ("sample_history", "last samples of a codec", F)],
    ["FrameHeaders, FrameHeader, FrameCodec, CodecState, AudioStream, StreamInfo"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props), "properties")
