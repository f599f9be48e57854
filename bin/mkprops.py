#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name","meaning","where"), s)) for s in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))

prop("C01", "Every representation holds exactly the bytes it was built from",
 "A byte value reports exactly the bytes, length and emptiness of the data it was created from, whichever constructor or conversion produced it (static, borrowed, inline, owned, shared, external, concatenated, collected from an iterator). Converting it onward (into a shared value, a clone, a Vec, a String, a Cow, text and back) never changes, drops or reorders a byte. Values up to the inline limit of 14 bytes and values just beyond it behave alike.",
 ["inputs"], "every byte content and every length around the representation boundaries, for every constructor and conversion",
 "the unit tests build a handful of literal values; the tag/length packing and the inline/heap threshold depend on every length and on which representation the value happens to be in",
 ["src/bytedata.rs", "src/byte_chunk.rs", "src/shared_bytes.rs", "src/external.rs"],
 [("kind tag shared by a union of four layouts", "src/bytedata.rs: Kind, ByteData"), ("inline threshold", "src/byte_chunk.rs: ByteChunk::LEN")],
 ["ByteData::as_slice/len/is_empty", "From/Into impls", "SharedBytes::as_slice", "ByteChunk::as_slice"],
 [("kind", "which union member is live", "src/bytedata.rs")])

prop("C02", "Sub-slicing any value gives the same bytes as slicing a std slice",
 "Taking an in-range sub-range of a byte value, shared buffer, inline chunk or external buffer, by reference, by value or in place, yields exactly the bytes that indexing the underlying slice with the same range yields, for every kind of range. Slices of slices compose, and slicing never disturbs the value it was taken from nor any other live slice of it.",
 ["inputs", "histories"], "every in-range start/end in every range form, on every representation, including empty results, full ranges and results that fall below the inline limit",
 "tests slice a few literals with a few ranges; offsets into shared storage accumulate over repeated slicing and the representation switches when the result gets short",
 ["src/bytedata.rs", "src/shared_bytes.rs", "src/byte_chunk.rs", "src/external.rs", "src/queue/byte_queue.rs"],
 [("offset/length arithmetic", "src/shared_bytes.rs: sliced, into_sliced, make_sliced and *_range"), ("external sub-slices", "src/external.rs: sliced_range, make_sliced_range")],
 ["sliced", "into_sliced", "make_sliced", "sliced_range", "Index"])

prop("C03", "An out-of-range slice request is always refused",
 "Every request for a range or position that is not inside a byte, shared, inline, text, builder or queue value (start past end, end past the length, positions near the top of the integer range, inclusive ends that overflow) is refused by a panic. It never returns a value, never reads or writes outside the buffer, and is refused alike in debug and in optimised builds.",
 ["inputs", "configurations"], "every start/end over the full integer range that does not denote a sub-range, on every representation and slicing operation, with and without overflow checks",
 "no test passes an out-of-range argument; the interesting ones sit at the top of the 64-bit range and only misbehave in builds without overflow checks",
 ["src/shared_bytes.rs", "src/bytedata.rs", "src/byte_chunk.rs", "src/external.rs", "src/stringdata.rs", "src/queue/byte_queue.rs", "src/queue/string_queue.rs"],
 [("bounds checks", "src/shared_bytes.rs: sliced/into_sliced/make_sliced and *_range"), ("queue range check", "src/queue/byte_queue.rs: check_range"), ("text boundary check", "src/stringdata.rs: check_sliced")],
 ["sliced*", "into_sliced*", "make_sliced*", "ByteQueue::{slice,drain,split_off,consume,replace_range}"])

prop("C04", "Cutting a value into pieces loses and invents nothing",
 "Taking a prefix, taking while a condition holds, splitting at a position, splitting once or repeatedly on a byte sequence, and iterating a byte value all return pieces that, put back together (with the separators), are exactly the original bytes in order. The cut falls where the condition or the first occurrence of the separator says (splitting once leaves the separator at the front of the second piece), and a miss returns the value unchanged. Splitting a non-empty value repeatedly on a non-empty separator returns the pieces the std split returns; an empty value has no pieces, an empty separator never splits, and splitting always terminates.",
 ["inputs"], "every content, position, predicate and separator, on every representation",
 "tests cover no split on byte values; termination and the cut position depend on every combination of content and separator",
 ["src/bytedata.rs", "src/lib.rs"],
 [("prefix taking", "src/bytedata.rs: take_bytes, take_while, split_at"), ("separator splitting", "src/bytedata.rs: split_once_on, split_on")],
 ["ByteData::{take_bytes,take_while,split_at,split_once_on,split_on}", "Iterator for ByteData"])

prop("C05", "Shared storage lives exactly as long as its last handle",
 "For every history of creating, cloning, slicing, converting, moving and dropping handles to shared or external storage, each storage block is released exactly once, after its last handle is gone and not before, and with the layout it was allocated with. No handle ever reads freed or foreign memory, and an externally owned payload is dropped (or handed back) exactly once.",
 ["histories", "inputs"], "every order of clone, slice, convert and drop over a bounded number of handles, on every representation",
 "tests drop handles in one fixed order and do not observe the allocator; leaks, double frees and early frees are invisible to them",
 ["src/shared_bytes.rs", "src/shared_bytes_builder.rs", "src/external.rs", "src/bytedata.rs", "src/bytes_1/shared_bytes.rs"],
 [("reference count", "src/shared_bytes.rs: SharedBytesMeta.refcnt, Clone, Drop"), ("external header", "src/external.rs: ExtBytes Clone/Drop, take_inner")],
 ["allocator calls", "payload Drop", "is_unique", "as_slice of surviving handles"],
 [("refcnt", "number of live handles of a block", "src/shared_bytes.rs")])

prop("C06", "Writing through one handle is never visible through another",
 "Turning a shared value back into something writable (a builder, a Vec, a mutable buffer) keeps exactly the bytes of that value, reuses the storage only when no other handle exists, and otherwise copies. Whatever is then written, truncated, cleared or appended, every other handle still reads its original bytes; uniqueness is reported exactly when one handle is left.",
 ["histories", "inputs"], "every content, sub-range, number of other live handles and sequence of later writes",
 "the existing tests convert back only from one unsliced unique handle",
 ["src/shared_bytes.rs", "src/shared_bytes_builder.rs", "src/bytedata.rs", "src/external.rs"],
 [("reuse if unique", "src/shared_bytes.rs: From<SharedBytes> for SharedBytesBuilder"), ("is_unique", "src/shared_bytes.rs")],
 ["SharedBytesBuilder::from", "as_slice of the other handles", "is_unique"])

prop("C07", "A byte or text builder behaves like a growable vector",
 "Any sequence of creating (with or without capacity and alignment), reserving, extending, pushing, truncating, clearing, filling spare room and building leaves the builder with exactly the bytes a Vec would hold, and building returns those bytes. Existing contents survive every reallocation, requested capacity is really available without growing, a requested alignment (1 to 512) is honoured by the built data, and no call writes outside the allocation.",
 ["histories", "inputs"], "every bounded sequence of builder calls with symbolic contents, lengths, capacities and alignments",
 "tests append a few literals to a default builder; growth steps, alignments and capacity corner cases are not reached",
 ["src/shared_bytes_builder.rs", "src/shared_str_builder.rs", "src/shared_bytes.rs"],
 [("growth", "src/shared_bytes_builder.rs: reserve, reserve_exact, reserve_extra, extend_from_slice"), ("alignment", "with_alignment, with_aligned_capacity, compute_start_offset"), ("spare room", "apply_unfilled")],
 ["as_slice", "len", "capacity", "build"],
 [("off/len", "write position and allocation size, both including the header", "src/shared_bytes_builder.rs")])

prop("C08", "A byte queue is a flat byte sequence whatever its history",
 "After any history of pushing and popping at both ends, appending, extending, cloning and collecting, a byte queue holds exactly the concatenation of its chunks in order: length, emptiness, chunk count, first and last chunk, iteration and conversion to contiguous bytes all agree with that sequence. Chunks are never lost, duplicated or reordered when internal blocks fill up, empty out or are joined, and everything is released when the queue is dropped.",
 ["histories", "inputs"], "every bounded history of queue operations, including those that cross internal block boundaries at both ends and leave an empty block behind",
 "tests push a few chunks one way; joining queues with partially filled blocks and wrap-around inside a block are not reached",
 ["src/queue/linked_root.rs", "src/queue/linked_node_data.rs", "src/queue/linked_iter.rs", "src/queue/byte_queue.rs", "src/queue/chunk_iter.rs"],
 [("ring block", "src/queue/linked_node_data.rs"), ("block list", "src/queue/linked_root.rs: push/pop/append"), ("byte count", "src/queue/byte_queue.rs: remain")],
 ["len", "chunk_len", "chunks", "pop_front/pop_back", "front/back", "Vec::from"],
 [("chamber/first/last/count", "front slot, block list and number of chunks", "src/queue/linked_root.rs"), ("remain", "number of bytes", "src/queue/byte_queue.rs")])

prop("C09", "Queue edits by position match the same edit on a flat buffer",
 "Consuming, slicing, splitting off, draining, taking while a condition holds, and replacing a range of a byte queue give the bytes that the same edit gives on a contiguous byte vector, both in the part returned and in the part left behind, wherever the cut points fall relative to chunk and block boundaries. A drained range is removed whether the iterator is used up, partly used or dropped at once.",
 ["inputs", "histories"], "every cut position over queues of several chunks in several blocks",
 "tests use a single cut on a short queue; cuts on a chunk boundary, at both ends, and across blocks behave differently in the code",
 ["src/queue/byte_queue.rs", "src/queue/drain.rs", "src/queue/linked_root.rs"],
 [("cutting", "src/queue/byte_queue.rs: consume, slice, split_off, take_while, replace_range"), ("draining", "src/queue/drain.rs: do_drain")],
 ["returned queue/iterator", "remaining queue contents, len, chunk_len"])

prop("C10", "Queue iterators yield the flattened bytes, and size hints are exact",
 "Borrowing and owning iterators over the bytes or chunks of a queue yield exactly its bytes or chunks, in order, once. Skipping, limiting, jumping to the n-th element, asking for the last element or the count, from either end where offered, gives what the same call on the flattened sequence gives, and the reported remaining length is exact after every step.",
 ["inputs", "histories"], "every sequence of iterator steps with every skip/limit amount over queues of several chunks in several blocks",
 "tests only loop forward over the iterators; the skip/limit/jump overrides are never called",
 ["src/queue/byte_iter.rs", "src/queue/linked_iter.rs", "src/queue/chunk_iter.rs"],
 [("byte position", "src/queue/byte_iter.rs: ByteIter, OwnedByteIter"), ("chunk position", "src/queue/linked_iter.rs: skip_mut, item_len")],
 ["next/nth/skip/take/last/count/len/size_hint"])

prop("C11", "Searching and splitting a queue ignores chunk boundaries",
 "Looking for a byte or byte sequence in a queue (starts with, ends with, present at a position, first position, first position after a start) gives the answer the same search gives on the flattened bytes, even when the match straddles chunks or is preceded by partial matches. Splitting a non-empty queue on a non-empty sequence yields the pieces that splitting the flattened bytes yields, respects the piece limit, and always terminates; an empty queue has no pieces and an empty sequence never splits.",
 ["inputs"], "every content, needle, start position and limit, with every placement of chunk boundaries",
 "the existing tests search for short needles without repeated prefixes inside few chunks",
 ["src/queue/byte_queue.rs", "src/queue/split.rs", "src/queue/string_queue.rs"],
 [("sequence search", "src/queue/byte_queue.rs: find_slice_pos, exists_at"), ("split iterators", "src/queue/split.rs: SplitOn, SplitOnStr")],
 ["find_slice", "find_slice_after", "find_byte", "exists_at", "starts_with", "ends_with", "split_on", "splitn_on"])

prop("C12", "Text values are always valid UTF-8",
 "A text value or text queue can only be obtained from valid UTF-8, and no safe operation on it (slicing, splitting, draining, replacing, taking, appending, converting) ever makes its contents invalid. Bytes are accepted as text exactly when the std library accepts them, rejected input is handed back unchanged, and a cut that is not on a character boundary is refused.",
 ["inputs", "histories"], "every byte string up to the bound, every cut position, on every representation",
 "tests only use ASCII literals and in-boundary cuts",
 ["src/stringdata.rs", "src/queue/string_queue.rs", "src/shared_str_builder.rs"],
 [("validation", "src/stringdata.rs: try_from_bytedata and TryFrom impls"), ("boundary check", "src/stringdata.rs: check_sliced; src/queue/string_queue.rs")],
 ["TryFrom", "sliced/into_sliced/make_sliced", "StringQueue::{slice,split_off,drain,replace_range}"])

prop("C13", "Decoding text yields the same characters as the std library",
 "Iterating the characters, or the characters with their positions, of a text value or text queue yields exactly what the std iterators yield on the same text, with characters that straddle chunks decoded whole. The raw character decoders that accept arbitrary bytes return a character only for well-formed UTF-8 of that character, report its true length, and never read past the input.",
 ["inputs"], "every byte string up to the bound and, for queues, every placement of chunk boundaries including inside a character",
 "tests decode short ASCII text; overlong forms, surrogates, truncated and split sequences are not covered",
 ["src/char_indicies.rs", "src/lib.rs", "src/queue/char_iter.rs", "src/stringdata.rs"],
 [("incremental decoder", "src/char_indicies.rs"), ("const decoder", "src/lib.rs: const_utf8_char_next"), ("queue decoder", "src/queue/char_iter.rs")],
 ["StringData::{chars,char_indices}", "StringQueue::{chars,char_indices}", "const_utf8_char_next", "Utf8CharIndices"])

prop("C14", "Text trimming, taking and splitting match the std string operations",
 "Trimming (both sides, start, end, or by a condition), taking a prefix while a condition holds, taking lines, splitting at a position or on a separator, and cutting text values return exactly the text the corresponding std str operation returns (a taken line includes its newline, splitting once leaves the separator in the second part), and the consumed and remaining parts together are the original text. Repeating a taking operation makes progress until the text is used up.",
 ["inputs"], "every valid UTF-8 text up to the bound, every separator and position, on every representation",
 "the unit tests check two or three literals per operation",
 ["src/stringdata.rs", "src/queue/string_queue.rs"],
 [("text cutting", "src/stringdata.rs: trim*, take_while, take_line, split_*")],
 ["StringData::{trim*,take_while,take_line,take_bytes,split_at,split_once_on,split_on}"])

prop("C15", "Equality, order and hash depend only on the content",
 "Two byte or text values, shared buffers, chunks or queues compare equal exactly when their bytes are equal, order as their bytes order, and hash alike when equal, whatever their representation, offset or division into chunks. Comparisons against slices, arrays, vectors, strings and each other are symmetric and agree.",
 ["inputs"], "every pair of contents, every pair of representations, every division of a queue into chunks",
 "tests compare literals of one representation; hash and order across representations and chunk divisions are not exercised",
 ["src/bytedata.rs", "src/shared_bytes.rs", "src/byte_chunk.rs", "src/stringdata.rs", "src/queue/byte_queue.rs", "src/queue/string_queue.rs"],
 [("slice comparison", "PartialEq/Ord/Hash impls"), ("chunk-wise comparison", "src/queue/byte_queue.rs: eq, cmp, partial_cmp, hash")],
 ["==", "cmp", "partial_cmp", "hash"])

prop("C16", "Compile-time helpers agree with their run-time counterparts",
 "The const helper functions (equality, prefix and suffix tests, slicing of bytes and text, finding, splitting once on a byte, bytes or text with the separator left in the second part) return exactly what the corresponding std operation returns for every input, including empty arguments and ranges that end at the input's end, and refuse exactly the arguments std refuses. The const concatenation helpers produce the exact concatenation.",
 ["inputs"], "every content, needle and range up to the bound, in every range form",
 "doc tests evaluate a few literals",
 ["src/lib.rs", "src/macros.rs", "src/byte_chunk.rs"],
 [("const helpers", "src/lib.rs: const_*, build_const_bytes"), ("concat macros", "src/macros.rs")],
 ["const_eq", "const_starts_with", "const_ends_with", "const_slice", "const_slice_str", "const_find_bytes", "const_split_once_*", "concat_*_static"])

prop("C17", "Reading from and writing to values follows the std I/O contract",
 "Reading from a byte value, shared buffer, or queue through the std reader traits returns its bytes once, in order, returns exactly the number it reports, never touches the destination beyond that number, advances by exactly that number and returns zero only at the end or for an empty destination. Exact reads fail without inventing data when too little is left, buffered reading shows a prefix of what remains, and written bytes are appended completely and in order.",
 ["inputs", "histories"], "every content, destination size (shorter, equal, longer than the data) and sequence of reads, including vectored reads with several destinations",
 "no test calls these traits; a destination longer than the data is the ordinary case in practice",
 ["src/std.rs"],
 [("Read/BufRead/Write impls", "src/std.rs")],
 ["read", "read_exact", "read_vectored", "read_to_end", "fill_buf/consume", "write", "write_vectored"])

prop("C18", "Conversions to and from the bytes crate keep content and ownership",
 "Converting byte values, shared buffers and queues to and from Bytes and BytesMut keeps every byte, for empty, inline, static, shared and sliced values. Handles produced this way can be cloned, sliced, truncated, made unique, turned into a Vec and dropped in any order, with storage released exactly once, and the buffer-reading traits report remaining length, current chunk and position as the flat bytes dictate; appending through the buffer-writing trait appends exactly the given bytes.",
 ["inputs", "histories"], "every content and length, every representation, every order of handle operations within the bound",
 "tests convert one or two literals and drop them in one order; the conversion re-creates another crate's internal table, which only ownership histories exercise",
 ["src/bytes_1/mod.rs", "src/bytes_1/bytedata.rs", "src/bytes_1/shared_bytes.rs", "src/bytes_1/shared_bytes_builder.rs", "src/bytes_1/queue.rs"],
 [("shared table", "src/bytes_1/shared_bytes.rs"), ("Buf/BufMut", "src/bytes_1/queue.rs, src/bytes_1/bytedata.rs, src/bytes_1/shared_bytes_builder.rs")],
 ["Bytes::from", "Buf::{remaining,chunk,advance,copy_to_bytes}", "BufMut::{put_slice,put_bytes,put,advance_mut}"])

prop("C19", "An HTTP body streams exactly its content with correct framing",
 "Polling a byte value, text value, shared buffer or queue as an HTTP body yields data frames whose concatenation is exactly the content, each non-empty and at most 65535 bytes, then ends and stays ended. Before every poll the size hint is exactly the number of bytes still to come, the end-of-stream flag is true exactly when none are left, and no trailers are produced.",
 ["inputs", "histories"], "every content, representation and chunk division, over the whole polling history, for both supported versions of the body trait",
 "no test polls a body",
 ["src/http_body_04.rs", "src/http_body_1.rs"],
 [("frame cutting", "poll_data / poll_frame"), ("hints", "size_hint, is_end_stream")],
 ["Body::poll_frame / poll_data", "size_hint", "is_end_stream"])

prop("C20", "Parser input traits give the results of plain slices and strings",
 "Used as parser-combinator input, byte values, byte queues, text values and text queues give for every input-trait operation (length, offsets, iteration, positions, taking, splitting, finding, comparing, error versus incomplete at the end) the result that the same operation gives on the equivalent plain byte slice or str. The consumed and remaining inputs together are the original input.",
 ["inputs"], "every content, position, predicate and tag within the bound, on every input type and chunk division",
 "tests run one parser over one literal",
 ["src/nom_7/bytedata.rs", "src/nom_7/bytequeue.rs", "src/nom_7/stringdata.rs", "src/nom_7/stringqueue.rs"],
 [("input traits", "InputLength, InputTake, InputIter, InputTakeAtPosition, Compare, FindSubstring, FindToken, Offset, Slice")],
 ["nom traits on ByteData, ByteQueue, StringData, StringQueue"])

prop("C21", "Rendered bytes are unambiguous and complete",
 "The debug, escaped and hexadecimal renderings of a byte value or queue describe every byte in order and decode back to exactly the same bytes; hex output has two digits per byte in the requested case. The rendering depends only on the content, not on representation or chunk division, and the pieces handed to the output are valid text.",
 ["inputs"], "every byte content within the bound and every division into chunks",
 "tests print one literal",
 ["src/byte_string_render.rs", "src/queue/byte_queue.rs", "src/bytedata.rs"],
 [("escaping", "src/byte_string_render.rs")],
 ["Debug", "LowerHex", "UpperHex"])

prop("C22", "Serialised values read back equal",
 "Serialising a byte, text, shared or queue value and deserialising it in any of the accepted forms (borrowed bytes, owned bytes, text, sequence of numbers) yields an equal value. Malformed input (a sequence element outside the byte range, invalid UTF-8 for a text value) is reported as an error and never produces a value.",
 ["inputs"], "every content within the bound, every accepted wire form",
 "no test serialises or deserialises anything",
 ["src/serde_1/mod.rs", "src/serde_1/bytedata.rs", "src/serde_1/stringdata.rs", "src/serde_1/shared_bytes.rs"],
 [("visitors", "src/serde_1/*")], ["Serialize", "Deserialize"])

prop("C23", "Unstructured input always yields well-formed values",
 "Building byte, text, shared and queue values from an arbitrary byte stream never panics, never reads outside the stream, only yields values that satisfy the type's own guarantees (valid text, consistent lengths), and yields the same value for the same stream.",
 ["inputs"], "every input stream within the bound",
 "no test drives these generators",
 ["src/arbitrary_1/mod.rs", "src/arbitrary_1/bytedata.rs", "src/arbitrary_1/stringdata.rs", "src/arbitrary_1/byte_queue.rs", "src/arbitrary_1/string_queue.rs", "src/arbitrary_1/shared_bytes.rs"],
 [("generators", "src/arbitrary_1/*")], ["Arbitrary::arbitrary", "arbitrary_take_rest", "size_hint"])

prop("C24", "Handles may be cloned and dropped from any threads without a data race",
 "When handles to the same shared or external storage are read, cloned and dropped by several threads in any interleaving, the storage is released exactly once, and every access through any handle happens before the release and before any in-place reuse of the storage, under the language's memory model.",
 ["schedules"], "every interleaving of clone, read, drop and reuse by a bounded number of threads, under weak memory ordering",
 "tests are single threaded, and x86 hardware hides missing ordering",
 ["src/shared_bytes.rs", "src/external.rs", "src/bytes_1/shared_bytes.rs", "src/bytes_1/shared_bytes_builder.rs"],
 [("atomic reference counts and their orderings", "src/shared_bytes.rs: Clone, Drop, is_unique, From<SharedBytes>; src/external.rs: Clone, Drop, take_inner; src/bytes_1/shared_bytes.rs: vtable functions")],
 ["atomic operations on the reference count and the accesses they guard"])

prop("C25", "Interned values are equal to, and shared with, their first occurrence",
 "Interning returns a value equal to its argument, and interning equal content again, from any thread, returns the storage of the first occurrence.",
 ["inputs", "schedules"], "every content and every interleaving of interning calls",
 "tests intern a few literals on one thread",
 ["src/interning/mod.rs", "src/interning/static.rs", "src/interning/byte_interning.rs"],
 [("concurrent map", "src/interning/static.rs")], ["ByteInterning methods"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
