"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, outputs are committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

KERN_DEC = ["src/decoder.cc", "src/decoder_common.h", "src/decoder_sse_base.h", "src/decoder_avx2_base.h", "src/decoder_sse2.cc", "src/decoder_ssse3.cc", "src/decoder_avx.cc", "src/decoder_avx2.cc", "src/decoder_vbmi2.cc"]
KERN_ENC = ["src/encoder.cc", "src/encoder_common.h", "src/encoder_sse_base.h", "src/encoder_avx_base.h", "src/encoder_sse2.cc", "src/encoder_ssse3.cc", "src/encoder_avx.cc", "src/encoder_avx2.cc", "src/encoder_vbmi2.cc"]
KERN_CRC = ["src/crc.cc", "src/crc.h", "src/crc_common.h", "src/crc_folding.cc", "src/crc_folding_256.cc", "crcutil-1.0/code"]

SPEC_TESTS = "The tests compare a few hundred fixed strings with a JavaScript decoder/encoder, and only on the instruction set of the machine that runs them; "
TECH_N = "explicit-state exploration of the implementation in lockstep with a reference automaton"
TECH_J = "bounded exhaustive exploration of API call sequences against a reference model, on the real addon"


def P(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return dict(p={"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                   "why_tests_cant": why, "anchors": a}, technique=technique, note=note)


BOUND_NOTE = "Exhaustive within the bounds in DESIGN.md and the evidence file; every execution is of the project's own object code, at every dispatch level this CPU can run. Trusts the reference model."

ALL = [
    P("D01", "Raw decoding yields exactly what the yEnc specification says",
      "Decoding any byte sequence without dot-unstuffing returns the input with CR and LF dropped, an escape character '=' dropped and the byte after it reduced by 64+42 (also when that byte is itself CR, LF or '='), and every other byte reduced by 42, all modulo 256. "
      "The result is the same for every length, content, buffer alignment and every SIMD instruction-set level the library may select; an escape character with nothing after it contributes nothing.",
      ["inputs", "configurations"], "every byte sequence of every length, every alignment of source and destination, every x86 instruction-set level",
      SPEC_TESTS + "vector kernels treat rare combinations of escapes at block boundaries specially, so an error shows up only for certain bytes at certain offsets.",
      ["index.js", "src/yencode.cc"] + KERN_DEC,
      [("scalar decoder", "src/decoder.cc do_decode_noend_scalar"), ("vector kernels and escape-chain fixing", "src/decoder_sse_base.h, src/decoder_avx2_base.h"), ("alignment / tail handling", "src/decoder_common.h do_decode_simd")],
      TECH_N, BOUND_NOTE, ["return values of decode and decodeTo"]),
    P("D02", "Decoding with dot-unstuffing is exact on every input",
      "Decoding with dot-unstuffing removes exactly one '.' at the start of each line (directly after CR LF, or as the first byte of the data) and otherwise yields what decoding without it would, for every input, including lines made only of dots, dots after escaped line ends, and sequences that look like control lines or article ends. "
      "The whole input is decoded, i.e. nothing in the data ends decoding early.",
      ["inputs", "configurations"], "every byte sequence of every length, every alignment, every x86 instruction-set level",
      SPEC_TESTS + "CR LF '.' sequences that straddle vector, block and alignment boundaries in each of their positions are not enumerated.",
      ["index.js", "src/yencode.cc"] + KERN_DEC,
      [("dot detection by comparing shifted vectors", "src/decoder_sse_base.h, src/decoder_avx2_base.h"), ("state machine", "src/decoder.cc"), ("carry of the state into and out of the vector loop", "src/decoder_common.h do_decode_simd")],
      TECH_N, BOUND_NOTE, ["decode(data, true)", "decodeTo(data, out, true)"]),
    P("D03", "Streaming decode stops exactly at the end of the yEnc data",
      "The incremental decoder stops at the first CR LF '=y' (control line, also in its dot-stuffed form CR LF '.=y') or CR LF '.' CR LF (article end), wherever it lies and whatever surrounds it, and reports which one it was, how many input bytes were consumed (just past the marker) and exactly the data decoded up to it. "
      "It never stops anywhere else, and without a marker it consumes everything.",
      ["inputs", "configurations"], "every byte sequence, every starting state, every offset of the marker relative to the kernels' blocks, every x86 instruction-set level",
      SPEC_TESTS + "end markers are recognised by several look-ahead paths depending on where in a block and how close to the end of the buffer they are.",
      ["index.js", "src/yencode.cc"] + KERN_DEC,
      [("end search in the vector loop", "src/decoder_sse_base.h, src/decoder_avx2_base.h (searchEnd)"), ("scalar end search", "src/decoder.cc do_decode_end_scalar"), ("mapping to read/written/ended/state", "src/yencode.cc DecodeIncr, index.js decodeChunk")],
      TECH_N, BOUND_NOTE, ["decodeChunk: read, written, output, ended, state"]),
    P("D04", "Splitting the input into chunks never changes the decoded result",
      "For every input and every way of cutting it into consecutive chunks, decoding chunk by chunk while passing on the returned state gives the same concatenated data, the same end position and kind of end, and the same final state as decoding the input in one piece. "
      "This includes empty chunks, one-byte chunks, and cuts inside escapes, line breaks, stuffed dots and end markers.",
      ["inputs", "histories"], "every input x every sequence of cuts x every starting state",
      "The tests cut a few strings at fixed places; the claim quantifies over all cut sequences and over the exact block path each chunk length selects.",
      ["index.js", "src/yencode.cc", "src/decoder_common.h", "src/decoder.cc", "src/decoder.h"],
      [("state carried between calls", "src/decoder.h YencDecoderState, index.js decodePrev"), ("reconstruction of the state after the vector loop", "src/decoder_common.h do_decode_simd")],
      "explicit-state exploration of the streaming decoder: all words x all compositions into chunks, compared with the reference automaton's state after every chunk", BOUND_NOTE,
      ["decodeChunk over a session"], [("state", "what the last up to 4 bytes mean for the next chunk", "index.js decodePrev")]),
    P("D05", "Decoding touches only its buffers and depends only on its input",
      "Decoding never reads the contents of, or writes to, memory outside the given input and output buffers, whatever their lengths and alignments, and never writes past the space the decoded data may need (the input length). "
      "The result depends only on the bytes of the input: surrounding memory and previous contents of the output have no influence.",
      ["inputs", "configurations"], "every length and alignment, content at every position incl. the last bytes, every instruction-set level, every content of the surrounding memory",
      "Tests run on ordinary heap buffers where a stray read or write of a few bytes goes unnoticed.",
      KERN_DEC + ["src/yencode.cc"],
      [("vector loop stops short of the buffer end, rest is scalar", "src/decoder_common.h do_decode_simd"), ("look-ahead near the end", "src/decoder_sse_base.h, src/decoder_avx2_base.h"), ("output buffer sizing", "src/yencode.cc Decode, DecodeIncr")],
      "exhaustive enumeration of buffer placements against inaccessible pages, canaries and adversarial surroundings, in lockstep with the reference automaton", BOUND_NOTE, ["memory faults, canaries, results"]),
    P("D06", "In-situ decoding gives the same result as decoding to another buffer",
      "When output and input are the same buffer, every decoding function (with or without dot-unstuffing, incremental or not) produces exactly the data and return values it produces for separate buffers, and leaves everything past the decoded data and outside the buffer intact apart from the buffer's own input bytes.",
      ["inputs", "configurations"], "every input and length, every alignment, every decoding function, every instruction-set level",
      "The tests decode in place for one code path only; correctness relies on no kernel reading input after it has been overwritten, which depends on the amount of data removed so far.",
      ["src/yencode.cc"] + KERN_DEC,
      [("reads precede writes, output never overtakes input", "src/decoder_sse_base.h, src/decoder_avx2_base.h, src/decoder.cc")],
      TECH_N, BOUND_NOTE, ["decodeTo(b, b), decodeChunk(b, state, b)"]),
    P("E01", "Encoding yields exactly the yEnc encoding of the data",
      "For every data, line size and starting column, the output consists of every byte increased by 42 modulo 256, escaped as '=' and the byte increased by another 64 exactly when it would be NUL, CR, LF or '=', when it would be a TAB or space as the first or last character of a line (including the last of the output), or a '.' as the first character of a line; and CR LF is inserted exactly when a line has reached the line size and more data follows. "
      "An escape sequence is never split, so a line exceeds the line size by at most one character, and all instruction-set levels produce identical output.",
      ["inputs", "configurations"], "every data and length, every line size >= 1, every column, every x86 instruction-set level",
      SPEC_TESTS + "the special treatment of the first and last character of each line happens in different code paths depending on how line ends fall relative to vector blocks, on escapes near them, and on the line size.",
      ["index.js", "src/yencode.cc"] + KERN_ENC,
      [("scalar encoder", "src/encoder.cc do_encode_generic"), ("vector kernels: escape masks, expansion, line end handling", "src/encoder_sse_base.h, src/encoder_avx_base.h"), ("first/last character handling", "src/encoder_common.h")],
      TECH_N, BOUND_NOTE, ["encode, encodeTo"]),
    P("E02", "Decoding the encoding of any data returns that data",
      "For every data, line size and starting column, the encoded output decodes back to exactly the original data with every decoding function (with and without dot-unstuffing, and incrementally, without an end being reported inside it), at every combination of instruction-set levels.",
      ["inputs", "configurations"], "every data, line size and column; every pair of encoder and decoder levels",
      "Tests sample some random buffers; an encoder and a decoder error of the same kind can also cancel out in tests built from one another.",
      ["index.js"] + KERN_ENC + KERN_DEC,
      [("escaping of critical characters", "src/encoder*.cc/h"), ("unescaping", "src/decoder*.cc/h")],
      TECH_N, BOUND_NOTE, ["decode(encode(x)) == x"]),
    P("E03", "Encoding never writes outside the buffer it was given",
      "The encoded length never exceeds the documented maximum size for that data length and line size (computed for escape ratio 1), and encoding into a buffer of exactly that size never writes outside it nor reads outside the input, for any data, line size and column. "
      "A buffer that is too small is refused with an error and left untouched; memory allocated internally for a result always suffices.",
      ["inputs", "configurations"], "every data (from nothing to everything needing escapes), length, line size, column, output size, instruction-set level",
      "Tests use ordinary heap buffers with slack and mostly unescaped data; kernels deliberately write whole vectors beyond the current position, so the margin is consumed only for specific combinations of escapes, line size and length.",
      ["index.js", "src/yencode.cc", "src/common.h"] + KERN_ENC,
      [("maximum size computation", "index.js maxSize, src/common.h YENC_MAX_SIZE, src/encoder.h"), ("size check", "src/yencode.cc EncodeTo"), ("unaligned over-long stores", "src/encoder_sse_base.h, src/encoder_avx_base.h")],
      "exhaustive enumeration of lengths x line sizes x columns x data classes against inaccessible pages and canaries", BOUND_NOTE, ["memory faults, canaries, thrown errors"]),
    P("E04", "The column offset continues a line exactly where it was left",
      "Encoding with column offset c behaves as if c characters had already been written on the current line: the first line break comes after exactly the characters that still fit, the first byte is treated as the start of a line only if c is 0 or equal to the line size, in which case a fresh line is started; offsets below 0 or beyond the line size throw. "
      "Consequently lines after the first break are the same as for data starting there at column 0.",
      ["inputs", "configurations"], "every column 0..line size (and invalid ones) x line size x data around the first line break, every instruction-set level",
      "The tests use one or two offsets with long lines.",
      ["index.js", "src/yencode.cc"] + KERN_ENC,
      [("column parameter", "src/yencode.cc Encode/EncodeTo, src/encoder_common.h do_encode_simd"), ("first line handling", "src/encoder.cc, src/encoder_*_base.h")],
      TECH_N, BOUND_NOTE, ["encode(data, line, column)"]),
    P("E05", "Encoded output is always safe to transmit as article lines",
      "Whatever the data, the encoded output contains no NUL, no CR or LF other than CR LF pairs between lines, no line starting with '.', TAB or space, no line ending in TAB or space or in the middle of an escape, no empty line, no line break at its end, and no line longer than the line size plus one (a first line continued by a column offset counts from that column). "
      "Hence it can never contain an end-of-article marker, nor (as no line ever starts with '=y') a yEnc control line.",
      ["inputs", "configurations"], "every data, line size and column, every instruction-set level",
      "Tests compare samples with expected output; that no data whatsoever can produce a dangerous line is a claim over all of them.",
      ["index.js"] + KERN_ENC,
      [("escaping rules", "src/encoder.cc escapeLUT/escapedLUT, src/encoder_sse_base.h, src/encoder_avx_base.h"), ("final character", "src/encoder_common.h do_encode_simd")],
      TECH_N, BOUND_NOTE, ["bytes returned by encode/encodeTo"]),
    P("E06", "Encoding in pieces gives what encoding at once does",
      "Data encoded piece by piece (the addon's encodeIncr, or encode() of src/encoder.h without its end flag), each piece starting at the column the previous one returned, is exactly the encoding of the whole data however it is split, including pieces that end when a line is full, one beyond it after an escape, or are a single byte; only a blank at the very end stays as it is, as more may follow. "
      "The column returned is the number of characters on the last line.",
      ["inputs", "histories", "configurations"], "every data, every way to split it, every line size, every instruction-set level",
      "The tests never encode in pieces (and the column was wrong after a piece that fills a line); what a piece must do depends on where the previous one stopped.",
      ["src/encoder.h", "src/yencode.cc"] + KERN_ENC,
      [("column at the end of a piece", "src/encoder.cc do_encode_generic, src/encoder_common.h do_encode_simd"), ("column passed in", "src/yencode.cc EncodeIncr")],
      TECH_N, BOUND_NOTE, ["encodeIncr()", "RapidYenc::encode()"]),
    P("C01", "crc32 is the IEEE CRC-32 of exactly the given bytes",
      "For every data of every length and memory alignment, crc32 returns the standard (IEEE 802.3, reflected, as used by zip and yEnc) CRC-32 as 4 big-endian bytes, and with an initial value the CRC of the data appended to whatever that value is the CRC of. "
      "All implementations the library may select give the same value, and nothing outside the data is read.",
      ["inputs", "configurations"], "every byte sequence, alignment and initial value, every implementation",
      "Tests check a few strings; the folding kernels have separate paths per length modulo block size, per alignment and for short inputs.",
      ["index.js", "src/yencode.cc"] + KERN_CRC,
      [("folding kernels and their partial-block shuffles", "src/crc_folding.cc, src/crc_folding_256.cc"), ("generic implementation", "src/crc.cc, crcutil-1.0")],
      "exhaustive enumeration of lengths x alignments x byte positions x values of the implementation, compared with a bitwise CRC (linear, so single- and double-bit inputs span all)", BOUND_NOTE, ["crc32"]),
    P("C02", "CRCs of parts always amount to the CRC of the whole",
      "For every way of splitting data, feeding the parts one after another into crc32 with the previous value as initial value gives the CRC of the whole, and crc32_combine of the parts' CRCs with the second part's length gives it too, for every pair of CRC values and every length up to the largest safe integer. "
      "Combining is associative and an empty part changes nothing.",
      ["inputs", "histories"], "every data x every split; all CRC values x all lengths",
      "Tests combine a handful of values with small lengths; a wrong power table entry shows only for lengths with particular bits.",
      ["index.js", "src/yencode.cc", "src/crc.cc", "src/crc.h"],
      [("combine by multiplication with a power of x", "src/crc.h crc32_combine, src/crc.cc"), ("power table", "src/crc.cc / src/crc_folding.cc")],
      "exhaustive enumeration of splits and of lengths spanning every exponent bit pattern, against polynomial arithmetic", BOUND_NOTE, ["crc32 with initial, crc32_combine"]),
    P("C03", "CRC field operations obey their algebra for all operands",
      "crc32_zeroes(n, c) equals the CRC after appending n null bytes (removing them if n is negative), crc32_shift(n, c) multiplies by x^n for positive and negative n, and crc32_multiply is multiplication in the CRC field, for all operands and all counts that are safe integers. "
      "In particular zeroes(-n) undoes zeroes(n), shift(a) then shift(b) equals shift(a+b), and multiplication is commutative and linear.",
      ["inputs"], "all 2^32 x 2^32 operands (through bilinearity), all counts within +-2^53",
      "Tests check selected counts; each bit of a count and each bit of an operand selects its own table entry or reduction step.",
      ["index.js", "src/yencode.cc", "src/crc.cc", "src/crc.h", "src/crc_folding.cc"],
      [("multiplication", "src/crc.cc generic_crc32_multiply, src/crc_folding.cc"), ("powers and count reduction", "src/crc.cc crc32_shift, src/crc.h crc32_zeros/unzero/bytepow")],
      "exhaustive enumeration of basis operands and exponents against schoolbook polynomial arithmetic", BOUND_NOTE, ["crc32_zeroes, crc32_shift, crc32_multiply"]),
    P("K05", "Every build configuration computes the same results",
      "The code gives the results D01-D06, E01-E04, E06 and C01-C03 describe in every configuration binding.gyp offers: redistributable or tuned to the build machine's CPU (whatever that CPU is), with or without 256-bit AVX kernels, with or without crcutil. "
      "In particular the code compiled only into natively tuned builds (kernels specialised for the native level, carry-less multiplication variants) and the fallbacks used when a component is disabled are as exact, confined and split-invariant as those of the redistributable build.",
      ["configurations", "inputs"], "every build configuration x every input, length, alignment, line size and column",
      "Tests run in the one configuration somebody built, on one CPU.",
      ["binding.gyp", "src/common.h", "src/decoder.cc", "src/encoder.cc", "src/crc.cc", "src/crc_folding.cc", "src/crc_folding_256.cc", "src/decoder_vbmi2.cc", "src/encoder_vbmi2.cc"],
      [("native kernels", "src/decoder.cc decoder_set_native_funcs, src/encoder.cc encoder_native_init"), ("configuration switches", "YENC_BUILD_NATIVE, YENC_DISABLE_AVX256, YENC_DISABLE_CRCUTIL")],
      TECH_N, "Each configuration is built with the project's own binding.gyp (other CPUs' native tuning by substituting -march) and explored in full; those this CPU cannot run are noted as unexplored."),
    P("K01", "Only instructions the CPU and the operating system support are ever executed",
      "Whatever CPU the redistributable build runs on - any consistent combination of the features CPUID reports, of CPU families and models, of the register state the operating system has enabled (OSXSAVE, XCR0), including AVX-512 subsets and AVX10 limited to 256-bit vectors - loading the library and encoding, decoding and checksumming with it never executes an instruction that CPU or OS does not support, and never executes XGETBV unless the OS has enabled it. "
      "On every such CPU the results are the same.",
      ["configurations"], "every combination of CPU features, model and OS-enabled state x every kernel that combination selects",
      "Tests run on one CPU, which usually has everything: a missing or wrong feature check shows only on CPUs that lack that feature.",
      ["src/platform.cc", "src/common.h", "src/encoder.cc", "src/decoder.cc", "src/crc.cc", "binding.gyp"],
      [("CPU probe", "src/platform.cc cpu_supports_isa, cpu_supports_crc_isa"), ("dispatch", "encoder_init, decoder_init, crc32_init"), ("per-file instruction sets", "binding.gyp")],
      "explicit enumeration of CPU feature vectors on the real code: CPUID/XGETBV of the built objects answer from the vector, unsupported instructions are trapped while the selected kernels run; conformance of the vectors checked against a CPU emulator",
      "Trusts the classification of instructions (by encoding and mnemonic) and the CPUID semantics; both cross-checked by running the same code, and the package in Node, on 170 emulated CPUs. Kernels this machine's CPU cannot execute are not run."),
    P("K02", "Threads sharing the addon never affect each other's results",
      "The package may be loaded and used by the main thread and any number of Worker threads (and several times per thread) at once. Whatever the interleaving of their calls, and of calls with another thread loading the addon - including two threads loading it for the first time - every call returns exactly what it returns on its own: all of A01-A04, C01-C03 hold per call. "
      "Threads may start, end, be terminated and load the addon again in any order: remaining threads and results returned earlier are unaffected, nothing freed is used, no call hangs, and the process ends normally.",
      ["schedules", "histories", "inputs"], "every interleaving of two threads' memory accesses within the addon, every order of environments loading and leaving",
      "Tests use one thread; a race needs one thread to be stopped between two particular instructions while another runs.",
      ["src/yencode.cc", "src/encoder.cc", "src/decoder.cc", "src/crc.cc", "src/crc.h"],
      [("one-time initialisation", "src/yencode.cc NODE_MODULE_INIT, init_all"), ("dispatch pointers and lookup tables", "src/encoder.cc, src/decoder.cc, src/crc.cc"), ("calls without shared state", "src/yencode.cc, src/crc.h")],
      "stateless model checking of the real addon under a controlled scheduler: page protection makes every access to shared memory visible; partial-order reduction by recorded access conflicts, all schedules with up to two context switches where conflicts exist",
      "Two threads (the main thread and a Worker in real Node), sequential consistency, switches at memory accesses; programs of one to three calls. Without conflicting accesses one serial run covers all interleavings; where there are some, bounded context switches at them are enumerated.", ["results of all functions in all threads"]),
    P("K06", "The kernels for other processors compute the same results",
      "The code compiled for 32-bit x86, ARM (32 and 64 bit; portable, NEON, CRC and PMULL instructions), RISC-V (32 and 64 bit; portable, vector instructions whatever the vector length and whatever the processor does with inactive elements, carry-less multiplication) and big-endian processors gives the results D01-D06, E01-E04, E06 and C01-C03 describe, "
      "touches no memory outside the buffers, and is selected only where the processor announces the instructions it needs.",
      ["configurations", "inputs"], "every supported processor family, its optional instructions and vector lengths x every input, length, alignment, line size and column",
      "Tests run on the processor of whoever runs them, which is an x86-64 almost always.",
      ["src/decoder_neon.cc", "src/decoder_neon64.cc", "src/decoder_rvv.cc", "src/encoder_neon.cc", "src/encoder_rvv.cc", "src/crc_arm.cc", "src/crc_arm_pmull.cc", "src/crc_riscv.cc", "src/crc.cc", "src/platform.cc", "src/encoder.cc", "src/decoder.cc"],
      [("NEON kernels", "src/decoder_neon.cc, src/decoder_neon64.cc, src/encoder_neon.cc"), ("RVV kernels", "src/decoder_rvv.cc, src/encoder_rvv.cc"), ("CRC kernels", "src/crc_arm.cc, src/crc_arm_pmull.cc, src/crc_riscv.cc"), ("byte order", "src/common.h UINT16_PACK, src/crc.cc")],
      "exhaustive bounded exploration of the real kernels, cross-compiled and executed on the (emulated) processor, in lock-step with reference automata",
      "Smaller bounds than on x86-64, as emulation is slower; the emulator and the cross compiler are trusted. Kernels compiled with clang only."),
    P("A01", "encode/decode calls honour their documented contract",
      "encode and decode return a new Buffer holding the result; encodeTo and decodeTo write the same bytes to the start of the given Buffer, return their number and leave the rest of the process's memory alone; omitted arguments mean line size 128, column 0, no dot-unstuffing. "
      "A missing or wrong-typed data argument, a negative line size, or an output buffer too small for the largest possible result, throws an error and leaves the output untouched; the input is never modified unless it is also the output.",
      ["inputs", "configurations"], "every length and data class x optional-argument combination x output size around the needed one x invalid argument",
      "Tests call each function with a few plausible arguments only.",
      ["index.js", "src/yencode.cc"],
      [("argument parsing, size checks, result allocation", "src/yencode.cc Encode, EncodeTo, Decode, DecodeTo, CRC32 functions")],
      TECH_J, "Exhaustive over the enumerated arguments at several dispatch levels, with the addon's allocations against inaccessible pages.", ["return values, thrown errors, buffers"]),
    P("A02", "maxSize and minSize bound the encoded size of all data",
      "For every length, line size and column, the encoded size of any data of that length lies between minSize and maxSize; minSize is exactly attained by data needing no escapes (at column 0), and maxSize with an escape ratio bounds the size of data in which at most that fraction of characters is escaped. "
      "Ratios outside 0..1 throw, and both are 0 for length 0.",
      ["inputs"], "every length (also beyond 2 GiB), line size, column, escape ratio and data",
      "Tests check a few lengths; the extreme sizes are reached by specific data only.",
      ["index.js", "src/yencode.cc", "src/encoder.h", "src/common.h"],
      [("size formulas", "index.js minSize, maxSize")],
      TECH_J, "Exhaustive over the enumerated lengths and line sizes; extremes computed exactly by dynamic programming over the column machine and confirmed by encoding.", ["maxSize, minSize, encode().length"]),
    P("A03", "decodeChunk sessions report reads, writes, ends and states truthfully",
      "In every session of decodeChunk calls, each call reports the number of bytes read and written, the output (the caller's buffer if given, else a new one holding exactly the written data), whether the end was reached, and the documented state string, all consistent with what one decoder working on the concatenation would have done. "
      "Every documented form of call is accepted (state omitted, null, a string or longer history than needed; output before or after the state or omitted; in situ), empty data changes nothing, and any state string is treated as the characters that preceded the chunk.",
      ["inputs", "histories"], "every sequence of chunks x every state string x every calling convention",
      "Tests walk through a few sessions; states and end kinds combine with cut positions.",
      ["index.js", "src/yencode.cc", "src/decoder.h"],
      [("state table and argument order", "index.js decodeChunk"), ("native call", "src/yencode.cc DecodeIncr")],
      TECH_J, "All sessions up to the stated length, compared with the reference automaton after every call.", ["object returned by decodeChunk"]),
    P("A04", "Calls do not depend on earlier calls and results are never altered later",
      "The result of every call depends only on its arguments, whatever was called before (including calls that threw), and no later call changes a Buffer returned earlier or an input given earlier. "
      "Overwriting a returned buffer or an input after the call affects nothing else, and generated CRC values are fresh buffers.",
      ["histories"], "every sequence of API calls (bounded), with and without overwriting buffers in between",
      "Tests exercise functions one at a time and do not look at earlier results again.",
      ["index.js", "src/yencode.cc"],
      [("result allocation and ownership", "src/yencode.cc (newBuffer / realloc'd memory)"), ("session state kept in objects only", "index.js YEncoder")],
      "explicit exploration of all call histories up to a depth, every live result re-checked after every step", "All sequences of 3 (thorough: 4) of 30 calls.", ["all results of a history"]),
    P("A05", "Memory comes back once no longer needed, and not before",
      "Whatever calls are made, successfully or not, and whichever of their results are kept: a kept result, a slice of it or only its ArrayBuffer keeps its contents through any number of further calls and garbage collections; once nothing refers to it any more its memory is given back, exactly once, and so is all memory a call used in between, also by calls that throw and when a Worker ends, exits or is terminated with results still in use. "
      "No call holds on to its arguments or results after it returned, nor do multi_post sessions to the parts' data. Hence a process that encodes or decodes without end does not grow.",
      ["histories", "inputs"], "every sequence of calls and every choice of what is kept of their results",
      "A leak, a double release or a reference held is invisible in any test's results; tests run for seconds and keep everything.",
      ["src/yencode.cc", "index.js"], [("release of results", "src/yencode.cc free_buffer"), ("allocation and error paths", "src/yencode.cc Encode, EncodeIncr, Decode, DecodeIncr")],
      "explicit exploration of all sequences of calls x what is kept of them, with a recording allocator and weak references, to quiescence after each", "All pairs (thorough: triples) of calls x five choices of what is kept; the addon's allocator records every block and makes released ones inaccessible.", ["blocks in use, liveness of arguments and results"]),
    P("A06", "A failed memory request fails one call cleanly",
      "If memory for the output of encode, encodeIncr, decode or decodeChunk, or for what builds on them, cannot be had at any point, the call throws an Error, or succeeds with the right result where the memory is not essential; the process goes on, inputs are unchanged, no memory is lost, and the same and all other calls work as before afterwards.",
      ["fault_sequences", "histories"], "every request for memory of every call, refused alone or with all later ones",
      "Tests never run out of memory.",
      ["src/yencode.cc"], [("allocation of results", "src/yencode.cc Encode, EncodeIncr, Decode, DecodeIncr"), ("shrinking of results", "src/yencode.cc shrink_alloc")],
      "exhaustive fault injection: every request for memory of every call refused in turn, alone and with all later ones, followed by every other call", "All requests of the addon's own allocations; requests inside Node are not refused.", ["thrown errors, later results, blocks in use"]),
    P("P01", "post() always generates a well-formed, complete yEnc document",
      "For every data form (Buffer, string, array), line size and file name, post() returns '=ybegin line=L size=N name=F' CR LF, the encoding of the data, then CR LF '=yend size=N crc32=C' with N the data length and C its CRC-32 as 8 hex digits. "
      "The name is reduced so that it cannot break the document (no CR, LF or NUL, at most 256 characters, in the configured encoding), and the result is one that from_post takes back without warnings other than the missing final line break.",
      ["inputs"], "every file name, data and line size",
      "Before this work the tests never called post() at all, which always threw.",
      ["index.js"], [("document assembly", "index.js post"), ("name sanitising", "index.js RE_BADCHAR")],
      TECH_J, "Exhaustive over names of critical characters, lengths, line sizes and data classes; oracle assembled from the reference models.", ["post()"]),
    P("P02", "A multi-part session emits consistent parts and enforces its limits",
      "Over every sequence of encode() calls, a multi_post session numbers its parts from 1, gives each part the correct total, begin/end range, size and pcrc32, and gives the last part, and only it, the crc32 of the whole file; the decoded parts concatenate to the file, and a session of one part yields the same as post(). "
      "Too many parts, too much data or too little in the last part throw, and sessions do not influence one another.",
      ["histories", "inputs"], "every sequence of part sizes (incl. empty ones and one call too many) and interleaving of sessions",
      "Tests contain one multi-part example.",
      ["index.js"], [("session state", "index.js YEncoder"), ("running CRC", "index.js YEncoder.encode, crc32_combine")],
      "explicit exploration of all sessions up to a depth against a session model", "All part-size sequences within bounds; oracle is a session model.", ["multi_post().encode()"],
      [("part, pos, crc", "parts emitted, bytes emitted, CRC so far", "index.js YEncoder")]),
    P("P03", "from_post inverts post generation wherever the post sits",
      "For every generated single or multi-part post, with any text before it and after it, dot-stuffed or not, from_post returns the original data, its CRC-32, all properties of the control lines as strings, and offsets yencStart, dataStart, dataEnd and yencEnd that delimit exactly the document and its encoded data; no warning is given unless something is missing. "
      "Properties in any order, names containing spaces or '=' and trailing spaces do not confuse it.",
      ["inputs"], "every data, name, surrounding text, part structure, property order",
      "Tests parse a few fixed posts.",
      ["index.js"], [("marker search and line parsing", "index.js from_post, decoderParseLines")],
      TECH_J, "Exhaustive over the enumerated documents; the oracle is the description each document is generated from.", ["from_post()"]),
    P("P04", "from_post is total and self-consistent on arbitrary documents",
      "On any Buffer whatsoever from_post returns without throwing: either an Error object with one of the documented codes, returned exactly when the start marker, the end marker or a required property is missing, or a result whose offsets are ordered and lie within the buffer, whose data and crc32 are the decoding and CRC of exactly the bytes between dataStart and dataEnd, and which warns if the size or a CRC on the end line contradicts the data. "
      "Nothing but a Buffer is accepted.",
      ["inputs"], "every byte sequence, in particular every combination of control-line fragments in any order",
      "Tests try about a dozen malformed posts.",
      ["index.js"], [("marker search", "index.js from_post"), ("property parsing and validation", "index.js decoderParseLines, from_post")],
      TECH_J, "All documents of up to n tokens/lines over an alphabet of control-line fragments.", ["from_post()"]),
    P("P05", "Corrupted posts never pass silently",
      "If anything happens to a generated post's data in transit (a byte changed, lost or inserted, a range lost, the post cut off), from_post never returns different data without a warning or error; and if a size, part number, range or CRC on its control lines is changed so that it contradicts the rest, that is reported. "
      "Hence data returned without warnings is the data that was posted.",
      ["inputs", "fault_sequences"], "every single-byte change, deletion, insertion, lost range and truncation, and two-byte changes",
      "Tests corrupt a post in two or three fixed ways.",
      ["index.js"], [("size and CRC verification", "index.js from_post"), ("markers", "index.js from_post")],
      "exhaustive fault enumeration on generated documents, each fault position and value", "All single faults and bounded double faults of the enumerated posts.", ["from_post() data and warnings"]),
    P("P06", "from_post warns of exactly the inconsistencies a post contains",
      "The warnings of from_post are exactly those its control lines call for, each with its code and a message: numbers that are not all digits (invalid_prop_*) or 0 where a count or position is meant (zero_prop_*), malformed CRCs; part numbers differing between begin and end, or else exceeding the total; a range that runs backwards, or else disagrees with the part size, or else exceeds the file size; a missing range in a multi-part post; sizes in begin and end disagreeing (part size exceeding the file size for parts); decoded length and pcrc32, and for posts without =ypart crc32, disagreeing with the data (in either letter case); repeated lines and properties; text ignored on a line; a missing line break after =yend. "
      "Numbers are compared as numbers, up to the largest safe integer, however many leading zeros they are written with. A consistent post has no warnings property at all.",
      ["inputs"], "every combination of values and omissions on the control lines",
      "Tests look for six codes in one hand-made post and cannot tell a missing or superfluous warning elsewhere.",
      ["index.js"], [("checks of the properties", "index.js from_post"), ("line parsing warnings", "index.js decoderParseLines")],
      TECH_J, "All products of the enumerated values; the expected codes are computed from the description the document is made from, not by parsing it.", ["from_post().warnings"]),
]

EXTRA = []
try:
    import mkprops_extra
    EXTRA = mkprops_extra.make(P, BOUND_NOTE)
except ImportError:
    pass

SETUP = "python3 vf/setup.py"


def main():
    allp = ALL + EXTRA
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in allp:
            assert len(x["p"]["title"]) <= 80, x["p"]["title"]
            f.write(json.dumps(x["p"]) + "\n")
    m = {
        "version": 1,
        "setup_cmd": SETUP,
        "checks": [{
            "property": x["p"]["id"],
            "quick_cmd": "python3 vf/check.py " + x["p"]["id"],
            "thorough_cmd": "VERIF_TIER=thorough python3 vf/check.py " + x["p"]["id"],
            "technique": x["technique"], "level": "model_checking", "level_note": x["note"],
        } for x in allp],
        "not_applicable": [],
        "notes": "No hooks in /repo. Checks build a scratch copy of /repo's working tree under /verif/.work (git-ignored, cached by content hash).",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
