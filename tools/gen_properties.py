#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

prop("C01", "Saving and reopening a database loses and changes nothing",
 "Whenever saving a database succeeds, opening the saved bytes with the same credentials succeeds and yields every field of the database, its groups, entries, history entries, attachments, icons, custom data, colours, times and header settings exactly as stored, including which string and attachment values are protected and the order of groups, entries, history items and auto-type associations. Saving may fail only when the content cannot be represented in the format (characters XML cannot carry, protected text that is not UTF-8, a comment over 65535 bytes, groups nested more than 256 deep). Excluded: the generator name (always rewritten), history nested inside history entries, string keys that are not in canonical form, and parent ids, which are set from the tree.",
 ["inputs", "configurations"],
 "every database whose fields are drawn from the boundary alphabets (text, binary sizes around block boundaries, extremes of numbers and dates, all icons), one and two deviating fields at a time, every group/entry tree shape up to 5 nodes, both compressions, several hash-map iteration orders",
 "The tests open four fixed files and save nearly empty databases; the unit tests of the XML layer look at one tag at a time and never combine fields, orders of the protected values, sizes or special characters.",
 ["src/types/database.rs", "src/format/kdb2_writer.rs", "src/format/kdb2_reader.rs", "src/format/kdb2_xml_writer.rs", "src/format/kdb2_xml_reader.rs", "src/format/xml.rs", "src/types/group.rs", "src/types/entry.rs"],
 [("XML writer and reader are inverse, tag by tag", "src/format/kdb2_xml_writer.rs / kdb2_xml_reader.rs"), ("inner stream cipher runs in document order on both sides", "src/crypto/salsa20.rs")],
 ["Database::save, Database::open, all public fields"])

prop("C02", "Saved files are standard KDBX 3.1 that other programs can read",
 "Every file that saving produces successfully is a well-formed KDBX 3.1 file: signatures, version, each mandatory header once with the size and value the database asks for, a payload encrypted with AES-256-CBC under the key derived from the credentials, the hashed block stream, the requested compression, an XML document carrying the correct header hash, and protected values encrypted with the Salsa20 inner stream in document order. A decoder written from the format description alone, sharing no code with the library, recovers exactly the database that was saved.",
 ["inputs", "configurations"],
 "the same bounded space of databases as C01, times both compressions, numbers of key-transformation rounds 0..3 and larger, comments present and absent, versions, password / key file / combined credentials",
 "Every test reads back with the library itself, so an error made the same way on both sides (wrong tag, attribute, nonce, key derivation, endianness) is invisible to them.",
 ["src/format/kdb2_writer.rs", "src/format/kdb2_xml_writer.rs", "src/crypto/*.rs", "src/types/transformed_key.rs", "src/types/master_key.rs", "src/types/stream_key.rs"],
 [("header writer", "src/format/kdb2_writer.rs"), ("key derivation", "src/types/transformed_key.rs, master_key.rs")],
 ["bytes handed to the writer passed to Database::save"])

prop("C03", "Files written by other KDBX 3.1 programs are read with all their content",
 "Any conforming KDBX 3.1 file opens with the right credentials and yields exactly the content it encodes, whatever freedom its writer used: header order and optional headers, repeated or multiple payload blocks of any size, either compression, element order, letter case of booleans and of attribute names, absent optional elements, compressed or uncompressed binaries, entity and CDATA escapes, comments and white space between elements, values protected in the file or only in memory, files without header hash. (Numbers within 32 bits, icons of the standard set, four-digit years, no custom string named like a standard one but for letter case.) Elements the library does not know, including everything nested inside them, have no effect on the result.",
 ["inputs", "configurations"],
 "a set of reference contents, each encoded by an independent encoder under every choice of every single style freedom and every pair of them, every permutation class of header fields, unknown elements inserted at every position of the document",
 "The tests have four sample files from one version of two programs; none uses several blocks, shuffled headers or elements, CDATA, unknown nested elements or uncompressed binaries.",
 ["src/format/kdb2_reader.rs", "src/format/kdb2_xml_reader.rs", "src/format/xml.rs", "src/compression/gzip.rs"],
 [("event loop per element that dispatches on the child name", "src/format/kdb2_xml_reader.rs"), ("header loop", "src/format/kdb2_reader.rs")],
 ["Database::open result"])

prop("C04", "A database opens only with exactly the credentials it was saved with",
 "A database saved under one set of credentials (password, key file, or both) opens under equal credentials and is refused with an error under any other (any whose composite key differs), however close: one character or bit different, another letter case, white space or empty parts added, the password used where the key file belongs, or one of two factors missing. A refused attempt returns no content.",
 ["inputs", "configurations"],
 "every ordered pair of credentials from a near-collision alphabet (several hundred pairs and all single-bit key-file variants), several rounds and compressions, several files per pair",
 "The tests try one wrong password on one file; they cannot cover relations between pairs of credentials.",
 ["src/types/composite_key.rs", "src/types/transformed_key.rs", "src/types/master_key.rs", "src/format/kdb2_reader.rs"],
 [("start-byte comparison after decryption", "src/format/kdb2_reader.rs"), ("hash composition of the factors", "src/types/composite_key.rs")],
 ["Database::open result under each credential"])

prop("C05", "A damaged or torn file never opens as a different database",
 "If a saved file is changed in any way by storage (bits flipped, bytes overwritten, ranges zeroed, removed, duplicated or swapped, or an interrupted overwrite leaving a mixture of the old and the new file), opening it either fails with an error or yields the content of a file that was really saved. It never yields altered, partial or mixed content. A file whose document carries a header hash that is not the hash of the header in front of it, or whose payload does not begin with the start bytes its header names, is refused.",
 ["inputs", "crash_points", "fault_sequences"],
 "every single-bit and single-byte change of several small files; every torn overwrite old/new at byte, 16-byte and sector granularity (all subsets of sectors for small files); removal, duplication and swap of every pair of 16-byte cells",
 "No test opens a corrupted file; integrity must hold at every byte position and for every tear, not at a sampled one.",
 ["src/format/kdb2_reader.rs", "src/types/database.rs", "src/crypto/aes256.rs"],
 [("block hashes", "src/format/kdb2_reader.rs"), ("header hash comparison", "src/types/database.rs"), ("start bytes", "src/format/kdb2_reader.rs")],
 ["Database::open result"])

prop("C06", "An incomplete file is always rejected",
 "No strict prefix of a saved database file opens: wherever the writing of the file stopped, opening what is there returns an error instead of a database.",
 ["crash_points", "inputs"],
 "every prefix length of saved files of many sizes (both compressions, with and without comment, payload sizes around cipher-block boundaries) and of the files an independent encoder makes with several blocks",
 "No test truncates a file; the property is about every cut point.",
 ["src/format/kdb2_reader.rs", "src/types/database.rs", "src/crypto/aes256.rs"],
 [("final block and padding", "src/format/kdb2_reader.rs, src/crypto/aes256.rs")],
 ["Database::open result on every prefix"])

prop("C07", "Malformed input is answered with an error, never a crash",
 "Opening a database, opening a key file, or parsing a colour from any bytes whatsoever returns a value or an error within time and memory proportional to the input (counting what its compressed parts expand to, and leaving aside the transformation rounds the header itself asks for); it never panics, aborts, overflows the stack, hangs or reserves memory on the word of a length field that the input does not back up.",
 ["inputs"],
 "all inputs up to 2 bytes and all prefixes/mutations of valid files at every position; every field of the container and of the XML replaced by each value of a malicious alphabet, with all outer checks (hashes, encryption, padding) made valid again; every padding byte pattern; every colour string up to the format's length over a hostile alphabet",
 "The tests only ever feed valid files and a few malformed tags; crashes hide behind encryption where random fuzzing of bytes does not reach.",
 ["src/format/kdb2_reader.rs", "src/format/kdb2_xml_reader.rs", "src/format/xml.rs", "src/format/kf_reader.rs", "src/crypto/aes256.rs", "src/types/color.rs"],
 [("error returns instead of indexing", "src/format/kdb2_reader.rs"), ("size checks", "src/format/kdb2_reader.rs")],
 ["Database::open, KeyFile::open, Color::from_hex_string"])

prop("C08", "Reading does not depend on how the source delivers its bytes",
 "Opening a database or key file gives the same result however the source hands out its bytes: in one piece, one byte at a time, in any sequence of short reads, or with interrupted calls in between. If the source reports an error at any point before its end, opening fails with an error.",
 ["schedules", "fault_sequences", "inputs"],
 "every read call of the run answered short (1 byte, half, all but one) or interrupted, all single and all pairs of deviations, all constant chunk sizes, a failure at every read call, for small files of every credential and compression kind",
 "The tests read from complete in-memory slices and files, which never return short.",
 ["src/types/database.rs", "src/format/kdb2_reader.rs", "src/io/log_reader.rs", "src/format/kf_reader.rs"],
 [("read loops", "src/format/kdb2_reader.rs"), ("logging reader feeding the header hash", "src/io/log_reader.rs")],
 ["Database::open / KeyFile::open over a controlled Read"])

prop("C09", "A save reported as successful has delivered the whole file",
 "When saving a database or key file returns success, the sink has accepted exactly the complete file, however it takes the bytes (short writes, interrupted calls); when the sink fails or stops accepting bytes at any call, saving returns an error. Saving a database of an unsupported type fails and writes nothing.",
 ["schedules", "fault_sequences", "inputs"],
 "every write call answered short or interrupted (all single and pairs of deviations, all constant chunk sizes), an error or zero-length acceptance at every write call, every capacity limit of the sink from 0 to the file length",
 "The tests write to growing vectors, which accept everything.",
 ["src/format/kdb2_writer.rs", "src/format/kf_writer.rs", "src/io/log_writer.rs", "src/types/database.rs"],
 [("write calls and their results", "src/format/kdb2_writer.rs"), ("logging writer feeding the header hash", "src/io/log_writer.rs")],
 ["bytes and results at a controlled Write"])

prop("C10", "Every save uses fresh secrets from the system's random source",
 "Each save uses its own master seed, transformation seed, initialisation vector, inner stream key and start bytes, each of full length and drawn afresh from the operating system's random generator: no two saves and no two of these fields in one file share their value or part of it, whatever was saved before. The same holds for generated key files and for identifiers of new groups and entries; if the system cannot supply randomness, no file or key is produced.",
 ["histories", "fault_sequences", "configurations"],
 "all histories up to length 4 of new/save/save-again/open-and-save/key-file operations under a controlled random source; the random source failing at every call; answers varied call by call",
 "One test compares two random values; reuse after a particular history, partial randomness or a constant field passes all of them.",
 ["src/crypto/random_gen.rs", "src/format/kdb2_writer.rs", "src/types/key_file.rs", "src/types/entry_uuid.rs", "src/types/group_uuid.rs"],
 [("RandomGen over OsRng", "src/crypto/random_gen.rs")],
 ["header fields of saved files, decoded independently"])

prop("C11", "Protected values never appear in the clear",
 "A value marked protected is never written readable: it appears neither in the file nor in the decrypted XML document, in plain or merely encoded form, but only encrypted with inner-stream bytes that no other value of the file uses, and it stays marked protected when the file is read. Debug output of databases, entries, key files and composite keys does not show protected values or key material, nor do the errors of refused files and saves, and setting a password makes it protected.",
 ["inputs", "histories"],
 "every combination of protected/plain over all string and attachment slots of an entry, its history and several groups, secrets of many lengths and shapes, after every editing and reopening history up to length 3",
 "No test looks at the bytes between encryption layers or at debug output.",
 ["src/format/kdb2_xml_writer.rs", "src/format/xml.rs", "src/crypto/salsa20.rs", "src/types/string_value.rs", "src/types/binary_value.rs", "src/types/entry.rs"],
 [("one cipher object threaded through the document", "src/format/kdb2_xml_writer.rs"), ("secstr", "src/types/string_value.rs")],
 ["file bytes, decrypted XML obtained with the independent decoder, Debug output"])

prop("C12", "Searching and lookup find exactly the matching groups and entries",
 "Iterating a group visits that group and every group below it exactly once, breadth first with siblings in order. Lookup by id returns the first entry or group with that id in this order or nothing; searching returns, in this order, exactly the groups whose name and the entries one of whose unprotected string values contains the text ignoring case, whatever the key of that string, and never matches on protected values. Mutable variants return the same elements as the immutable ones.",
 ["inputs"],
 "all ordered group trees up to 6 groups, with up to 3 entries in every placement, all assignments from a small alphabet of ids (including duplicates and the nil id), names and values (including non-ASCII case pairs and empty text), all queries from the matching alphabet",
 "The tests use one tree of seven groups and single-entry databases.",
 ["src/types/database.rs", "src/types/group.rs"],
 [("queue based traversal", "src/types/group.rs"), ("case folding", "src/types/database.rs")],
 ["Group::iter/iter_mut, Database::find_*/get_*"])

prop("C13", "Editing the tree changes exactly what was asked and nothing else",
 "Adding puts an entry or group at the end of its list; removing by id takes out and returns the first direct child with that id, leaves the order of the others, and does nothing if there is none. Each setter changes only its own field (set_password storing a protected value, every other string setter a plain one), each getter returns what was last set (a protected value being readable through the same getter), and changes made through mutable lookups and traversals reach the tree itself. Nothing else in the database changes.",
 ["histories", "inputs"],
 "breadth-first search over all operation sequences up to depth 5 (thorough 6) from several starting trees, with a small alphabet of ids, keys and values, every state compared with a reference model",
 "The tests apply one operation to an empty object.",
 ["src/types/group.rs", "src/types/entry.rs", "src/types/database.rs", "src/types/times.rs", "src/types/string_key.rs"],
 [("vector editing", "src/types/group.rs"), ("string map", "src/types/entry.rs")],
 ["all public fields after every operation"])

prop("C14", "Key files are read, written and refused faithfully",
 "A key file of any of the three kinds with a 32-byte key saves to a file that opens again as the same key and kind, and the bytes written are exactly the kind's standard form. Opening takes any 32 bytes as a binary key, any 64 hexadecimal digits of either case as a hex key, and otherwise an XML key file, in any layout of that document, yielding exactly the decoded key; input that is none of these (64 bytes that are not hexadecimal, XML without key data, bad base64, another version) is refused with an error.",
 ["inputs", "configurations"],
 "all single-byte values at all positions of binary keys, all hex digits and near-hex bytes at all positions, all file lengths 0..200, all layout variants and defects of the XML form singly and in pairs",
 "The tests cover one fixed key per kind.",
 ["src/format/kf_reader.rs", "src/format/kf_writer.rs", "src/types/key_file.rs"],
 [("dispatch on length", "src/format/kf_reader.rs")],
 ["KeyFile::open/save"])

prop("C15", "Credentials are combined as the KeePass format prescribes",
 "The composite key of a password is SHA-256 of SHA-256 of its UTF-8 bytes, of a key file SHA-256 of the key it holds, and of both SHA-256 of the password's SHA-256 followed by that key; it does not depend on the kind of the key file, and it is the key under which the file is encrypted after the number of transformation rounds the file states.",
 ["inputs", "configurations"],
 "all passwords up to length 2 over a boundary alphabet plus all lengths 0..300 (hash block boundaries), key lengths 0..130, all pairs in the combined form, rounds 0..40 and boundary values, checked against an independent implementation",
 "Three fixed vectors in the unit tests; 10 rounds in one of them.",
 ["src/types/composite_key.rs", "src/types/transformed_key.rs", "src/types/master_key.rs", "src/crypto/sha256.rs"],
 [("hash composition", "src/types/composite_key.rs")],
 ["CompositeKey::unsecure, files decrypted by the independent decoder"])

prop("C16", "Header defects are reported as what they are",
 "A file whose header is defective is never opened, and the error names the defect: wrong signature or database type, a missing mandatory field, a field of wrong size (with field, expected and actual size), an unknown field, or an unsupported cipher, compression or stream cipher, each with the offending value. Header fields are accepted in any order; the first defect in file order is the one reported, and missing fields only once the header is complete.",
 ["inputs", "configurations"],
 "every order of the ten header fields up to adjacent and pairwise exchange (thorough: all orders of the mandatory fields in classes), every subset of missing fields, every size 0..64 and boundary sizes for every field, all 256 field ids, all single-bit variants of every identifier, pairs of defects",
 "No test opens a file with a defective header.",
 ["src/format/kdb2_reader.rs", "src/types/database.rs", "src/types/error.rs"],
 [("header loop and size checks", "src/format/kdb2_reader.rs")],
 ["Error variant and payload returned by Database::open"])

prop("C17", "The payload's block stream is verified completely",
 "A payload opens only if its blocks are numbered consecutively from zero, every block's data matches its SHA-256 hash and stated size, and a final empty block with an all-zero hash is present; otherwise opening fails, with the error for a wrong block number, block hash or final hash where that is the defect. A payload split into any number of valid blocks opens to the same content as one block.",
 ["inputs", "configurations"],
 "all splits of a small payload into up to 4 blocks at every position, every defect (number, hash bit, size, order, duplication, omission, missing/early final block) at every block, singly and in pairs, both compressions",
 "The library only writes one block, and no test damages a block.",
 ["src/format/kdb2_reader.rs"],
 [("block loop", "src/format/kdb2_reader.rs")],
 ["Database::open on files built with an independent encoder"])

prop("C18", "Icon, obfuscation, colour and key-name conversions are exact",
 "Icon and obfuscation numbers, colours and string-key names convert to and from the documented values exactly: every valid value converts to its counterpart and back, every other value of the whole range is refused with the documented error, and no two values share a representation. Colours are a hash sign and six hexadecimal digits of either case; standard string-key names are recognised ignoring case, all others kept as they are.",
 ["inputs"],
 "all 2^32 icon and obfuscation numbers, all 2^24 colours, all strings of the colour form with each position replaced by every character of a hostile alphabet (pairs of positions), all case variants of the standard names and near misses",
 "The tests walk a table of icon numbers and five colours.",
 ["src/types/icon.rs", "src/types/obfuscation.rs", "src/types/color.rs", "src/types/string_key.rs"],
 [("match tables", "src/types/icon.rs"), ("hex parsing", "src/types/color.rs")],
 ["Icon/Obfuscation from_i32/to_i32, Color from/to_hex_string, StringKey"])

prop("C19", "A database keeps its content through any history of edits, saves and reopens",
 "Through any sequence of editing, searching, saving, reopening, changing credentials, rounds, compression or comment, cloning, and failed attempts in between, the database equals at every moment what the edits alone would have made it. Saving and searching change nothing in the database, saving twice encodes the same content, a clone is independent of its original, and a reopened database behaves like the one that was saved.",
 ["histories", "fault_sequences"],
 "breadth-first search with state deduplication over all sequences up to depth 4 (thorough 5) of an alphabet of edits, saves, reopens, failing saves and opens, from an empty database, a rich database and one written by an independent encoder",
 "Each test performs a single open or save.",
 ["src/types/database.rs", "src/types/group.rs", "src/types/entry.rs", "src/format/*.rs"],
 [("no state outside the Database value", "src/types/database.rs")],
 ["all public fields after every step"])

prop("C20", "Mutable traversal hands out valid references to distinct elements",
 "Using the mutable traversals and lookups from safe code never touches freed memory, frees anything twice or loses an element: each group or entry is handed out once per pass, edits made through the references (including adding and removing children of the element at hand) appear in the tree, and the traversal continues correctly after them.",
 ["programs", "inputs"],
 "all trees up to 5 groups, all programs of up to 3 edits applied at every position of the traversal (in the loop, through collected results, through interleaved lookups), executed under an allocator that poisons and quarantines freed memory",
 "The traversal is built on an unsafe duplication of a mutable reference; tests only walk it without editing.",
 ["src/types/group.rs", "src/types/database.rs"],
 [("ptr::read of the current group", "src/types/group.rs IterMut::next")],
 ["tree content after edits, allocator state"])

prop("C21", "Simultaneous and nested operations do not influence each other",
 "Opening and saving are independent of every other open or save in progress or completed in the same process: in any interleaving of operations on several threads, nested inside a source or sink callback, or one after the other including failed, panicking and abandoned ones, each operation gives the result it gives alone. Files produced in any such history open with their own credentials only and contain their own content.",
 ["schedules", "histories", "fault_sequences"],
 "all interleavings with up to 2 preemptions (thorough 3) of two or three open/save operations at every read, write and random-number call, every nesting position of one operation in the callbacks of another, all ordered sequences of three operations with a failure injected at every call",
 "Every test runs one operation to completion.",
 ["src/types/database.rs", "src/format/*.rs", "src/crypto/*.rs", "src/io/*.rs"],
 [("all state is in locals and arguments", "src/format/kdb2_reader.rs, kdb2_writer.rs")],
 ["results of Database::open/save under a controlled scheduler"])

prop("C22", "Documents with defects are refused, never read in part",
 "A file in an intact container is refused with an error when its XML document is not well-formed or ends early, has another document element than KeePassFile or more than one, when compressed data (the document or an attachment) is incomplete or fails its checksum, when a value is not of its element's type (base64, numbers within 32 bits, dates, booleans, 16-byte identifiers, colours, icons 0 to 68, obfuscation 0 or 1, boolean attributes, UTF-8 of protected text; nothing at all where a value is required), or when the part that gives a value its meaning is missing (the key or value of a string, attachment or custom data item, the identifier or data of a custom icon, the identifier of an attachment in the pool). Every other document is read exactly as written: nothing is silently dropped or replaced by a default. (Not included: elements given twice, a missing root group, incomplete auto-type associations, which are left out with a warning, contents of unknown elements, namespaces and document types.)",
 ["inputs"],
 "documents containing one of everything: cut after every byte; every character replaced by, preceded by or followed by each of 30 signs and fragments; every element removed, doubled, moved, unwrapped, wrapped, nested, emptied and renamed to every other name; every pair of elements removed, doubled or unwrapped; every value replaced by each of a list of values of every type; every attribute on every element; every bit and byte of compressed data",
 "The unit tests of the XML layer look at single tags by themselves; whether an error deep inside the document reaches the caller depends on every level between.",
 ["src/format/kdb2_xml_reader.rs", "src/format/xml.rs", "src/compression/gzip.rs", "src/types/database.rs"],
 [("every reader of an element passes on the errors of its children", "src/format/kdb2_xml_reader.rs"), ("type conversions that refuse what they cannot convert", "src/format/xml.rs")],
 ["Database::open result"])

prop("C23", "Equality is equality of content, and clones are independent",
 "Databases, groups, entries, string and attachment values, key files, composite keys, associations, keys, identifiers, icons, colours, versions and the other public values compare equal (== in either order, != being its opposite) exactly when everything that can be read from them is equal: each public field counts, text exactly, a protected value differs from a plain one with the same text. Where a type is ordered or hashed, the order is total and consistent with equality, equal values hash equally, and ordered and hash maps keep different values apart. A clone equals its original and shares nothing with it: no edit of either, and no dropping, changes what can be read from the other.",
 ["inputs", "histories"],
 "every pair of databases that differ from a rich one in one field, with their groups, entries and history items; every pair of many values of each small type, and every three for orders; every sequence of three edits, then every edit on a clone and on the original",
 "Unit tests compare a value with itself and with one other; that no field is left out and that the order is total are statements about all pairs and threes.",
 ["src/types/database.rs", "src/types/group.rs", "src/types/entry.rs", "src/types/string_value.rs", "src/types/string_key.rs", "src/types/color.rs", "src/types/key_file.rs", "src/types/composite_key.rs"],
 [("derived comparison of every value type", "src/types/entry.rs"), ("derived order and hash of keys and identifiers", "src/types/string_key.rs")],
 ["==, !=, <, cmp, hash, clone of the public types", "BTreeMap and HashMap with them as keys"])

prop("C24", "Secrets do not stay behind in released memory",
 "Protected strings, protected attachments and the keys of key files and composite keys live only in memory that is overwritten before it is released: whenever a value that holds one is dropped, replaced, removed, cleared, cloned, moved, searched past, compared, printed, saved (to a working or failing sink, or refused), or read from a database file (sound, cut, under another key, or with a defect after it), no block of heap memory released in the course of it still contains the secret or a part of it. (Not included: text and files from which the caller makes a secret, such as a password that is hashed or a key file that is opened, text that stands in the document unencrypted, protected text which is not UTF-8 and is refused, attachments of the pool, which are not protected values, and the stack and registers.)",
 ["inputs", "histories", "fault_sequences"],
 "every sequence of three of thirty operations on values with secrets; secrets of every length to 200 bytes made in every way; saves failing at every call; files opened whole, cut and under another key, and documents going wrong at many places",
 "A unit test sees the values a function gives, not what it leaves in memory; a copy left on one path (an error, a long value, a growing map) shows only to a watch on every release on every path.",
 ["src/types/string_value.rs", "src/types/binary_value.rs", "src/types/key_file.rs", "src/types/composite_key.rs", "src/format/xml.rs", "src/format/kdb2_xml_writer.rs", "src/crypto/salsa20.rs"],
 [("protected values are kept as SecStr", "src/types/string_value.rs"), ("decrypted text is moved into the value, not copied", "src/format/xml.rs"), ("protected values are encrypted from where they are", "src/format/kdb2_xml_writer.rs")],
 ["the heap blocks released by the process"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
