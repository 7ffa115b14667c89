#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","One-shot hashing computes the specified tree hash",
 "For every input shorter than 2^64 bytes and every key, the one-shot hash, keyed hash and key derivation functions return exactly the root value of the tree defined over 2048-byte chunks: left subtrees are the largest power-of-two number of chunks that leaves at least one byte on the right, and each compression gets the mode, chunk-start/end, parent and root flags, the 64-bit byte offset (zero for parents) and the block length that the definition prescribes. The result does not depend on the CPU features detected or on whether multithreading is enabled.",
 ["inputs","configurations"],"every input content and length below 2^64, every 32-byte key, all three modes, every detected SIMD level (none, SSE4.1, AVX2), with and without threads",
 "The tests compare a few dozen lengths up to about 100 KiB of one fixed byte pattern with one key on the machine's own SIMD level; tree shapes, chunk offsets above 2^32 and the other SIMD degrees are never reached.",
 ["src/lib.rs","src/platform.rs","src/portable.rs","src/sse41.rs","src/avx2.rs"],
 [("recursive split, wide leaf hashing, pairwise condensation and root finalization","src/lib.rs: hash_internal, hash_recurse, hash_chunks_parallel, hash_parents_parallel, condense_root, hash_one_chunk"),("compression function","src/portable.rs: compress"),("SIMD dispatch","src/platform.rs")],
 ["hash","keyed_hash","derive_key","hash_xof","keyed_hash_xof","derive_key_xof"])

p("C02","Incremental hashing equals one-shot hashing for every split",
 "For every sequence of updates (any number, any sizes including empty, written directly or through the io::Write interface), finalizing an incremental hasher gives the same output and the same extended output as one-shot hashing of the concatenated bytes in the same mode with the same key. Finalizing does not change the hasher: it can be repeated, continued with more input, or done on a clone without either side affecting the other.",
 ["inputs","histories"],"every history of update / write / finalize / clone calls on hashers of all three modes, total length below 2^64 bytes",
 "The tests feed each length in one or two calls at a handful of split points; which subtrees are merged at each point depends on the whole history of chunk counts and on how the buffered tail lines up, and counts above a few dozen chunks are never reached.",
 ["src/lib.rs"],
 [("lazily merged stack of subtree hashes, bounded by the number of one bits in the chunk count","src/lib.rs: Hasher::needs_merge, merge_parent, push_chunk_hash, update, finalize_xof"),("buffered current chunk","src/lib.rs: ChunkState")],
 ["Hasher::update","Hasher::finalize","Hasher::finalize_xof","<Hasher as io::Write>::write"],
 [("subtree hash stack","chaining values of complete subtrees left of the current chunk","src/lib.rs: Hasher"),("chunk state","partially filled current chunk and its byte offset","src/lib.rs: ChunkState")])

p("C03","Extended output is one consistent stream",
 "Reading an extensible output repeatedly yields the consecutive 64-byte blocks of one byte stream that depends only on mode, key and message: the k-th block is the root compression of the final node with its position counter advanced by 64*k bytes. Its first 32 bytes equal the default hash of the same message, and taking the default-length hash after k reads gives the first 32 bytes of the block that would be read next.",
 ["inputs","histories"],"every message, key and mode, every number of reads up to the 2^64-byte counter range, every SIMD level",
 "The tests read at most a few blocks of a few messages; positions whose counter needs more than 32 bits are never reached.",
 ["src/lib.rs","src/portable.rs","src/sse41.rs","src/platform.rs"],
 [("position counter","src/lib.rs: Output::read, Output::to_hash"),("full-width compression output","src/portable.rs and src/sse41.rs: compress_xof")],
 ["Output::read","Output::to_hash","Hasher::finalize_xof"])

p("C04","Rust SIMD kernels equal the portable kernel on all inputs",
 "For every block or message content, key, 64-bit starting offset and offset step, block length byte and flag byte values, and every number of parallel inputs, the SSE4.1 and AVX2 kernels (compression, extended compression and many-input hashing) produce exactly the bytes that the portable kernels produce, which are those of the defined compression function. Arithmetic on the 64-bit offsets carries correctly between the low and high words in every lane.",
 ["inputs","configurations"],"all byte contents, keys, offsets (including those where an offset crosses a 2^32 boundary between lanes), flags and input counts the library can issue; single-block and whole-chunk inputs",
 "The tests compare kernels on one painted buffer with one key, small offsets and fixed flags; a lane, flag, shuffle or carry error that shows only for other values is invisible.",
 ["src/portable.rs","src/sse41.rs","src/avx2.rs","src/platform.rs"],
 [("vectorised compression and transposition","src/sse41.rs, src/avx2.rs"),("per-lane offsets","src/sse41.rs, src/avx2.rs: load_offsets")],
 ["portable::compress","portable::hash_many","sse41::compress","sse41::compress_xof","sse41::hash_many","avx2::hash_many"])

p("C05","Compression kernels stay in bounds and write only their output",
 "On every input the library can pass, the Rust and C compression kernels read only within the given key, block and message buffers, and write only within the output (or in-place state) buffer, exactly 32 bytes per hashed message and nothing beyond. Surplus bytes of a longer output buffer and all input buffers are left unchanged.",
 ["inputs","configurations"],"every content and every permitted number of messages, for each kernel variant (portable, SSE4.1, AVX2, AVX-512, NEON; 32-bit and 64-bit)",
 "Out-of-bounds reads of a few bytes and writes past the produced hashes rarely change a test's result, and the tests always pass generously sized buffers of one shape.",
 ["src/portable.rs","src/portable64.rs","src/sse41.rs","src/avx2.rs","c","c64"],
 [("unaligned raw-pointer loads and stores","src/sse41.rs, src/avx2.rs, c/*.c, c64/*.c")],
 ["hash_many kernels","compress kernels"])

p("C06","No panic, overflow or failed internal check on any input",
 "No sequence of calls to the public Rust hashing API whose total input per message stays below 2^64 bytes panics, overflows an integer, indexes out of bounds, exhausts the fixed-size subtree stack, fails to terminate, or fails one of the library's own debug assertions.",
 ["inputs","histories"],"all inputs, keys, update histories and total lengths below 2^64 bytes, all SIMD levels",
 "The bounds involved (fixed 53-entry stack, one-byte and two-byte length counters, 64-bit offsets) can only be exceeded by inputs far larger, or split far more oddly, than any test supplies.",
 ["src/lib.rs","src/platform.rs","src/copy.rs"],
 [("size and depth invariants","src/lib.rs: MAX_DEPTH, ChunkState counters, debug_assert statements"),("fixed output buffers","src/lib.rs: hash_recurse, condense_root")],
 ["hash","Hasher::update","Hasher::finalize","Output::read"])

p("C07","The reference implementation computes the same function",
 "For every message, key, mode, split into updates and requested output length, the standalone reference implementation writes exactly the same output bytes as the tree-hash definition that the main library follows, and never panics for messages shorter than 2^64 bytes. Output requests of any length, including lengths that are not multiples of four or sixty-four bytes, are prefixes of the same stream.",
 ["inputs","histories"],"all messages, keys, modes, update splits and output lengths",
 "The tests only compare it at a handful of lengths, where both implementations agree; its eager merging schedule differs from the main library's and depends on the complete chunk count history.",
 ["reference_impl/reference_impl.rs"],
 [("eager subtree stack","reference_impl/reference_impl.rs: push_chunk_chaining_value, finalize"),("output blocks","reference_impl/reference_impl.rs: root_output_bytes")],
 ["reference_impl::Hasher::update","reference_impl::Hasher::finalize"])

p("C08","Wide copy transfers exactly the reader's bytes",
 "Copying from a reader to a writer with the wide copy helper delivers to the writer exactly the bytes the reader produced, in order, up to its end of file, and returns their total number, whatever sizes the individual reads return. Interrupted reads are retried without losing or repeating data, and any other read or write error is returned to the caller at once.",
 ["inputs","fault_sequences"],"every sequence of read results (short reads, interruptions, errors, end of file) and every writer outcome",
 "The test copies one in-memory buffer that always fills the read buffer and never fails.",
 ["src/copy.rs"],[("copy loop","src/copy.rs: copy_wide")],["copy::copy_wide"])

p("C09","Hash values compare, convert and print faithfully",
 "Two hash values (or a hash value and a byte array) compare equal exactly when all 32 bytes are equal, conversions to and from byte arrays are lossless, and the hexadecimal form is exactly 64 lowercase digits, two per byte, high digit first, in order. Comparison examines all bytes without branching on their values.",
 ["inputs"],"all pairs of 32-byte values",
 "The tests format and compare a few values; a comparison or formatting error confined to particular byte positions or values is not sampled.",
 ["src/lib.rs"],[("constant-time comparison and hex table","src/lib.rs: impl PartialEq for Hash, Hash::to_hex")],["Hash::eq","Hash::to_hex","Hash::as_bytes","From<[u8; 32]>"])

p("C10","C kernels equal the specified compression on all inputs",
 "Every 32-bit C kernel (portable, SSE4.1, AVX2, AVX-512 and NEON variants of single-block compression and of many-message hashing) produces, for all contents, keys, flags, block lengths, 64-bit offsets and numbers of messages, exactly the bytes of the defined compression function applied block by block. Message i of a batch is hashed with its own 64-bit offset, with carries between words handled exactly.",
 ["inputs","configurations"],"all contents, keys, flags, offsets and batch sizes for each C kernel variant",
 "The existing tests run one pattern at small offsets on the variants the host enables; AVX-512 and NEON code is not run at all in the default test runs.",
 ["c/baokeshed_impl.h","c/baokeshed_portable.c","c/baokeshed_sse41.c","c/baokeshed_avx2.c","c/baokeshed_avx512.c","c/baokeshed_neon.c"],
 [("vectorised kernels","c/baokeshed_*.c")],["hash_many_*","compress_*"])

p("C11","The C incremental hasher computes the same hash",
 "For every sequence of updates with total length below 2^64 bytes and every key and mode flag, the C hasher's final 32 bytes equal the tree hash of the concatenated input, and finalizing leaves the hasher state unchanged so that more input can follow. It never reads or writes outside its state, input and output buffers and never fails its own assertions.",
 ["inputs","histories"],"every update history, total below 2^64 bytes, for each kernel variant the hasher can be compiled with",
 "The tests feed a fixed list of lengths in one call each; the subtree stack, maximum depth and split-dependent paths are not exercised.",
 ["c/baokeshed.c","c/baokeshed_impl.h"],[("subtree stack and chunk state","c/baokeshed.c: hasher_push_chunk_hash, hasher_update, hasher_finalize, chunk_state_update")],
 ["hasher_init","hasher_update","hasher_finalize","chunk_state_*"])

p("C12","The command-line tool prints the requested bytes of the right stream",
 "For every requested length N up to 2^64-64 bytes, input file or standard input, and key option, the command-line tool prints exactly the first N bytes, in lowercase hexadecimal, of the extended output of the input's bytes in the mode selected by the options (plain, keyed, derive-key), whether the file is memory-mapped or streamed. Keys that are not exactly 32 bytes of hexadecimal are rejected, and an unreadable input makes the exit status non-zero without stopping the remaining inputs.",
 ["inputs","configurations"],"all lengths, inputs (empty, regular, non-regular, dash) and option combinations",
 "The binary has no tests of its own beyond one comparison driven from Python with short lengths.",
 ["baokeshed_bin/src/main.rs"],[("hex printing loop","baokeshed_bin/src/main.rs: print_hex"),("mode and input selection","baokeshed_bin/src/main.rs: hash_one, hash, maybe_memmap_input")],
 ["stdout and exit status of the baokeshed binary"])

p("C13","The 64-bit variant's kernels all compute one function",
 "For every content, key, flags, block length, 64-bit offset and number of messages, the 64-bit-word variant's Rust portable kernel and its C kernels (portable, SSE4.1, AVX2, AVX-512 and NEON) produce exactly the same bytes: those of the defined eight-round 64-bit compression with 128-byte blocks.",
 ["inputs","configurations"],"all contents, keys, flags, offsets and batch sizes for each 64-bit kernel variant",
 "The tests compare a single pattern and offset; AVX-512 and NEON variants are not run.",
 ["src/portable64.rs","c64/baokeshed64_impl.h","c64/baokeshed64_portable.c","c64/baokeshed64_sse41.c","c64/baokeshed64_avx2.c","c64/baokeshed64_avx512.c","c64/baokeshed64_neon.c"],
 [("64-bit kernels","src/portable64.rs, c64/*.c")],["portable64::compress","portable64::hash_many","hash_many64_*","compress64_*"])

p("C14","Hashing is constant-time in keys and message contents",
 "The sequence of branches taken and of memory addresses accessed while hashing, deriving output, or comparing hash values depends only on lengths, offsets, counts and CPU features, never on the values of key bytes, message bytes, chaining values or hash bytes.",
 ["inputs"],"all pairs of secrets (keys, messages, hash values) of the same lengths",
 "Functional tests cannot observe which branches or addresses a computation used.",
 ["src/lib.rs","src/portable.rs","src/sse41.rs","src/avx2.rs","c/baokeshed_portable.c","c/baokeshed_sse41.c","c/baokeshed_avx2.c","c/baokeshed_avx512.c"],
 [("data-independent kernels","src/portable.rs, src/sse41.rs, src/avx2.rs, c/*.c"),("constant-time equality","src/lib.rs: impl PartialEq for Hash")],
 ["compress","hash_many","hash","Hash::eq"])

p("C15","The Python implementation computes the same function",
 "For every message, key, mode and output length, the Python implementation returns exactly the bytes of the same tree-hash definition and extended output stream as the main library.",
 ["inputs"],"all messages, keys, modes and output lengths",
 "Its test compares a fixed list of lengths of one byte pattern with the Rust binary.",
 ["python/baokeshed.py"],[("recursive tree hash","python/baokeshed.py: hash_recurse, hash_chunk, left_len, Output")],["hash","keyed_hash","derive_key"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
