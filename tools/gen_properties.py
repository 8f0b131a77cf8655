#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

ATOM = "src/atom/mod.rs"
p("C01", "A written tag reads back identically",
  "Writing a tag to a well-formed MP4 file succeeds unless a length or chunk offset would no longer fit its field, and reading the file then returns exactly the identifiers, values, value types and per-identifier value order of the tag, and nothing that was in the file before. This holds for standard and freeform identifiers, for every value type, for empty values and for any size of values, items and files (single values below 4 GiB; the padding identifier `free` is not an item).",
  ["inputs", "configurations"],
  "every tag content (identifier kinds, value types, value counts and sizes) times every well-formed file layout (atom order, missing metadata parents, 64-bit atom headers, unknown siblings)",
  "The tests write three fixed ASCII tags to four sample files that all have the track before the user data, standard atom headers and UTF-8 values only; no UTF-16, no empty list, no missing parents, no size sweep.",
  [ATOM, "src/atom/ilst.rs", "src/atom/data.rs", "src/atom/meta.rs", "src/atom/udta.rs", "src/tag/mod.rs"],
  [("length computation and serialisation of item atoms agree", "src/atom/mod.rs AtomData::len / AtomData::write, src/atom/data.rs Data::len / write_typed"),
   ("splice of the new item list into the existing hierarchy", "src/atom/mod.rs write_tag_to"),
   ("parsing of item list", "src/atom/ilst.rs, src/atom/mod.rs AtomData::parse")],
  [("atoms", "ordered list of identifier -> values", "src/tag/mod.rs Tag")],
  ["Tag::write_to / write_to_path then Tag::read_from", "bytes of the written file, decoded by an independent parser"])
p("C02", "Writing changes nothing but the metadata items",
  "A successful write leaves every atom outside the metadata item list with its kind, order and payload bytes, except for chunk offset values and the lengths of the atoms enclosing the item list; parents that were missing are created once, and an item list that existed is replaced in full. The resulting file is again a well-formed MP4: every atom, at every level, ends exactly where its parent's next child or end is, and no stray bytes are left over or cut off.",
  ["inputs", "configurations"],
  "every well-formed layout (any order and number of media, free and unknown atoms; any children next to the metadata; 64-bit headers anywhere) times growing, shrinking and same-size tags",
  "The tests only look at the tag and the audio info after a write; no test compares any byte of the media data or of other atoms, and the sample files cover four layouts.",
  [ATOM, "src/atom/head.rs", "src/atom/moov.rs", "src/atom/udta.rs", "src/atom/meta.rs"],
  [("moved data is re-written at its shifted position and the file length adjusted", "src/atom/mod.rs write_tag_to"),
   ("enclosing atom lengths updated for 32 and 64 bit headers", "src/atom/mod.rs write_tag_to, src/atom/head.rs")],
  [("len_diff, new_atoms_start, moved_data_start", "splice geometry", "src/atom/mod.rs write_tag_to")],
  ["bytes of the file before and after, compared atom by atom by an independent strict parser"])
p("C03", "Chunk offsets keep addressing the same media bytes",
  "After a successful write, every chunk offset of every track, in 32-bit and in 64-bit tables, addresses the same byte of the same media atom as before the write, whether that media lies before or after the moved region and wherever the table itself lies. If a new offset cannot be represented in its table, the write is refused instead.",
  ["inputs", "configurations"],
  "every order of movie and media atoms (including several media atoms on both sides), every order of tracks and user data inside the movie, 0..n tracks with 32/64-bit tables of any length, offsets across the 2^31, 2^32 boundaries, growing and shrinking tags",
  "No test reads a chunk offset. All sample files have one media atom and the tracks before the user data, so moved tables, mixed layouts, table sizes beyond an I/O buffer and large offsets are never reached.",
  [ATOM, "src/atom/stco.rs", "src/atom/co64.rs", "src/atom/stbl.rs", "src/atom/trak.rs", "src/atom/mdat.rs"],
  [("shift of chunk offsets by the length difference", "src/atom/mod.rs write_tag_to"),
   ("location of the tables", "src/atom/stbl.rs, src/atom/stco.rs, src/atom/co64.rs")],
  [("chunk offset tables", "absolute file positions of media chunks", "src/atom/stco.rs Stco, src/atom/co64.rs Co64")],
  ["chunk offset tables and media bytes of the file before and after"])
p("C04", "A refused write leaves the file untouched",
  "If writing a tag fails because the file is not acceptable (not an MP4, no movie atom, broken structure, broken chunk offset table) or because reading from it failed, the file has exactly the same bytes and length as before the call. Only a failure of a modifying operation of the storage itself may leave a partially updated file.",
  ["inputs", "fault_sequences"],
  "every malformed variation of a file (truncations, corrupted lengths, versions, counts, identifiers at any position, pairs of them) and every read or seek of a write failing",
  "No test performs a failing write at all.",
  [ATOM, "src/atom/stco.rs", "src/atom/co64.rs", "src/atom/head.rs"],
  [("all parsing happens before the first modification", "src/atom/mod.rs write_tag_to")],
  [], ["bytes and length of the file before and after a failed write"])
p("C05", "Reading arbitrary bytes never panics, hangs or over-allocates",
  "Reading a tag from any byte sequence ends with a tag or an error: it never panics, never aborts, performs work bounded by the input's size, and never allocates more memory than a small multiple of the input's size no matter what lengths the input claims.",
  ["inputs"],
  "every byte sequence; in particular every length, count, version and descriptor field at and around its boundary values, every truncation, and combinations of several such corruptions",
  "All tests read intact sample files; a panic needs a specific corrupt field such as a zero time scale or a length smaller than its header.",
  [ATOM, "src/atom/head.rs", "src/atom/data.rs", "src/atom/mvhd.rs", "src/atom/mp4a.rs", "src/atom/ftyp.rs"],
  [("length validation of atom heads", "src/atom/head.rs parse_head"),
   ("checked use of claimed lengths", "src/atom/data.rs ReadData, src/atom/mod.rs AtomData::parse, src/atom/mp4a.rs, src/atom/mvhd.rs")],
  [], ["Tag::read_from / read_from_path on arbitrary bytes: outcome, allocations, number of reads and seeks"])
p("C06", "Writing onto arbitrary files is safe and success is real",
  "Writing a tag onto a file with arbitrary content never panics, aborts, hangs or allocates more than a small multiple of the file and tag sizes. If it reports success and the file was readable before, the file is readable afterwards, with exactly the written items and unchanged audio information and file type.",
  ["inputs"],
  "every byte sequence as file content, in particular every corrupted length, version, identifier (duplicated or misplaced atoms) of a valid file, every truncation, and combinations of them",
  "All tests write to intact sample files.",
  [ATOM, "src/atom/head.rs", "src/atom/moov.rs", "src/atom/udta.rs", "src/atom/meta.rs", "src/atom/stbl.rs"],
  [("bounds found while scanning are validated against each other and the file", "src/atom/mod.rs write_tag_to, src/atom/head.rs"),
   ("reader and writer select the same atoms when atoms are duplicated", "src/atom/mod.rs read_tag_from / write_tag_to")],
  [], ["Tag::write_to on arbitrary files, Tag::read_from before and after"])
p("C07", "I/O failures are always reported, success means complete",
  "If any read, seek, write, flush or length change of the underlying reader, writer or file fails, the operation returns an I/O error carrying that failure, or else its result is exactly that of an undisturbed run; it never reports success with a missing, partial or different result and never panics.",
  ["fault_sequences"],
  "every single operation of a read, write or dump failing, once or persistently from then on, with any error kind, and a device that stops accepting bytes at any point",
  "No test injects an I/O failure.",
  [ATOM, "src/atom/data.rs", "src/atom/head.rs", "src/tag/mod.rs", "src/error.rs"],
  [("errors propagated from every operation, buffered writer flushed before returning", "src/atom/mod.rs write_tag_to, dump_tag_to"),
   ("io errors wrapped, original kept", "src/error.rs")],
  [], ["result of Tag::read_from, write_to, dump_to under injected faults; bytes produced"])
p("C08", "Results do not depend on how I/O is delivered",
  "Reading, writing and dumping give the same result whether the underlying reader, writer or file transfers all requested bytes at once or in arbitrarily small pieces, and whether or not operations are interrupted and have to be retried. Reading starts at the reader's current position, so that a file embedded behind other bytes reads the same as the file alone.",
  ["inputs", "fault_sequences"],
  "every pattern of short transfers and interruptions (bounded number of deviations at arbitrary operations, and uniform chunk sizes), every starting position",
  "The tests use regular files only, which always transfer fully and start at position 0.",
  [ATOM, "src/atom/data.rs", "src/atom/head.rs"],
  [("exact reads and complete writes everywhere", "src/atom/data.rs ReadData, src/atom/head.rs"),
   ("positions relative to the reader's start", "src/atom/data.rs remaining_stream_len")],
  [], ["Tag::read_from(reader), Tag::dump_to(writer), Tag::write_to(file)"])
p("C09", "Only the last write counts",
  "The content of a file after a sequence of writes depends only on the original file and on the last tag written: writing the same tag again changes nothing, and no sequence of earlier writes leaves any trace. Reading a tag and writing it back unmodified keeps the tag, however often it is repeated.",
  ["histories"],
  "every sequence of writes (bounded length) of growing, shrinking, empty and equal tags, interleaved with read-modify-write steps, from every starting layout",
  "The tests write at most three tags in one fixed order and do not compare files.",
  [ATOM, "src/atom/ilst.rs", "src/atom/meta.rs"],
  [("item list replaced in place, parents created only when missing", "src/atom/mod.rs write_tag_to")],
  [("file content", "state carried between writes", "the file")],
  ["bytes of the file after each history"])
p("C10", "Reading recovers exactly what a well-formed file stores",
  "For every well-formed file, reading returns exactly the items stored in the movie's metadata item list: values in stored order, items with the same identifier merged, freeform items named by their mean and name, padding and unknown atoms ignored at every level. How atoms are arranged, padded or sized (32 or 64-bit headers) makes no difference, nor do metadata-like atoms elsewhere in the file. The text of the file type atom is returned as stored.",
  ["inputs", "configurations"],
  "every item list content and every encoding of it (order, repetition, padding, unknown children, header sizes, flags, locale) in every arrangement of the surrounding atoms",
  "The tests read four sample files.",
  [ATOM, "src/atom/ilst.rs", "src/atom/meta.rs", "src/atom/udta.rs", "src/atom/moov.rs", "src/atom/head.rs", "src/atom/data.rs"],
  [("recursive descent that skips unknown atoms by their length", "src/atom/*.rs parse_atom"),
   ("merging of repeated identifiers", "src/atom/ilst.rs")],
  [], ["Tag::read_from"])
p("C11", "A tag behaves as a map from identifiers to value lists",
  "Under any sequence of set, add, take, remove, retain, clear and in-place changes, a tag behaves like a map from identifiers to non-empty ordered lists of typed values: each operation affects exactly the identifiers and value kinds it names, taking the values of an identifier of one kind returns those in order and removes the identifier, and all views (all values, per identifier, by kind, emptiness) agree. Storing an empty list of values is the same as storing nothing.",
  ["histories", "inputs"],
  "every sequence of container operations up to a depth, over identifiers that collide or nearly collide and values of every kind, from empty and non-empty tags",
  "The tests exercise short fixed sequences on one identifier (doc examples and multiple_values).",
  ["src/tag/mod.rs", "src/atom/ident.rs", "src/atom/data.rs"],
  [("generic data operations", "src/tag/mod.rs set_data .. retain_data"), ("identifier comparison", "src/atom/ident.rs")],
  [("atoms", "identifier -> values", "src/tag/mod.rs Tag")],
  ["public operations of Tag"])
p("C12", "Named accessors use their documented identifier and encoding",
  "Each named field (artist, album, bpm, compilation, artwork, ISRC, ...) stores and finds its values under the identifier and representation documented for it: what a setter stores its getter returns, adders append, removers and takers leave the field empty, single getters return the first of several values. Operations on one field never change another field.",
  ["histories", "inputs"],
  "every named field, every sequence of its operations up to a depth, every pair of fields, boundary values of the numeric fields",
  "The tests set most fields once; several fields, most adders, takers and removers and all interactions between fields are untested.",
  ["src/tag/mod.rs", "proc/src/lib.rs", "src/atom/ident.rs", "src/tag/genre.rs"],
  [("generated accessors", "proc/src/lib.rs"), ("identifier constants", "src/atom/ident.rs")],
  [], ["public accessors of Tag, raw data under the documented identifier"])
p("C13", "Track and disc numbers are independent pairs",
  "Track number, total tracks, disc number and total discs behave as four independent optional 16-bit values, absent meaning zero, under any sequence of their setters and removers and from any stored bytes: changing one never changes another, and when both halves of a pair have been removed nothing is left stored for it. Stored bytes of any length are tolerated.",
  ["histories", "inputs"],
  "every sequence of the pair operations up to a depth with boundary values, from every initial stored representation (absent, too short, 6 or 8 bytes, several values, other types)",
  "One test runs a single sequence with one set of values from an empty tag.",
  ["src/tag/tuple.rs", "src/atom/data.rs"],
  [("big endian fields in a byte vector", "src/tag/tuple.rs, be_int!/set_be_int! in src/atom/data.rs")],
  [("6 byte pair", "number at 2..4, total at 4..6", "src/tag/tuple.rs")],
  ["track/disc accessors and raw bytes of Tag"])
p("C14", "Genre accessors agree with the stored genres",
  "The combined genre view lists the names of all valid stored standard genre codes (1-based ID3v1 codes) in order, followed by all custom genres, and the single genre is its first element; unknown codes are skipped and malformed entries tolerated. Setting genres leaves only the given custom genres, taking genres returns the view and removes the custom genres, and removing them leaves none, under any sequence of operations.",
  ["histories", "inputs"],
  "every 16-bit code, every sequence of genre operations up to a depth, from every stored representation",
  "One test runs a fixed sequence with two codes.",
  ["src/tag/genre.rs", "src/tag/mod.rs"],
  [("code to name lookup", "src/tag/genre.rs stanard_genre"), ("combined view", "src/tag/genre.rs genres/genre/take_genres")],
  [], ["genre accessors of Tag"])
p("C15", "Audio information equals what the file declares",
  "Duration, channel configuration, sample rate and maximum and average bitrate reported for a readable file equal the values declared in its movie header and in its first MPEG-4 audio track, for every header version, descriptor length encoding and declared value, and are absent when not declared or not known. They are never changed by writing tags.",
  ["inputs", "configurations"],
  "every channel configuration and frequency index, boundary durations, time scales and bitrates, both movie header versions, 1 to 4 byte descriptor lengths, extra descriptors, several tracks",
  "Tests assert the values of a single sample file.",
  ["src/atom/mvhd.rs", "src/atom/mp4a.rs", "src/atom/stsd.rs", "src/types.rs", "src/tag/readonly.rs", ATOM],
  [("movie header", "src/atom/mvhd.rs"), ("elementary stream descriptor", "src/atom/mp4a.rs"), ("index tables", "src/types.rs")],
  [], ["Tag::audio_info and its accessors"])
p("C16", "A dumped tag is a complete readable copy",
  "Dumping a tag yields a well-formed sequence of a file type and a movie atom whose item list holds exactly the tag's items, so that reading the dump returns an equal set of items; atom lengths are right for every size, including totals beyond 4 GiB. Dumping to a path replaces any previous content of that file.",
  ["inputs"],
  "every tag content and size", "Two fixed tags are dumped and read back.",
  [ATOM, "src/atom/ftyp.rs", "src/atom/moov.rs", "src/atom/head.rs", "src/tag/mod.rs"],
  [("bottom-up length computation", "src/atom/*.rs WriteAtom::size, src/atom/head.rs Size::from")],
  [], ["Tag::dump_to / dump_to_path output"])
p("C17", "Typed values keep their type and content",
  "For every value, exactly the type predicates and the borrowing, mutable and consuming accessors documented for its type apply and all return the same content; its reported length is the number of bytes it occupies when stored. Text is stored as UTF-8 or big-endian UTF-16 and recovered exactly for all Unicode scalar values; stored text that is not valid is reported as a decoding error and never altered silently.",
  ["inputs"],
  "every value type, every Unicode scalar value and every short sequence of UTF-8 bytes or UTF-16 units, including invalid ones",
  "Tests use ASCII UTF-8 strings and two images; UTF-16 is not tested at all.",
  ["src/atom/data.rs", "src/types.rs"],
  [("type codes", "src/atom/data.rs"), ("string decoding", "src/atom/data.rs ReadData")],
  [], ["Data methods, dump and read of values"])
p("C18", "Coded enumerations are decoded by their documented codes",
  "Media type, advisory rating, channel configuration and sample rate map to and from exactly their documented codes, for all 256 codes: known codes round-trip, unknown codes are reported as unknown (or, for ratings, as explicit) with the offending code, and derived numbers (Hz, channel count) and names are right. A stored value of any length is tolerated.",
  ["inputs"],
  "all 256 codes of each enumeration and every stored value length", "Tests use a handful of the values.",
  ["src/types.rs", "src/tag/mod.rs"],
  [("code tables", "src/types.rs")], [], ["TryFrom/From conversions, accessors of Tag"])
p("C19", "Malformed files are reported with the documented error",
  "A file without file type atom is reported as having no tag, a missing movie, data or stream description atom or descriptor as that atom or descriptor not found, unsupported versions and data types with the offending number, undecodable text as a text decoding error, lengths that contradict the structure as a parsing error, and a premature end as an I/O error of unexpected end. An intact file is never reported as malformed.",
  ["inputs"],
  "every position at which each kind of malformation can occur in a file", "No test reads a malformed file.",
  ["src/error.rs", ATOM, "src/atom/head.rs", "src/atom/ftyp.rs", "src/atom/meta.rs", "src/atom/stsd.rs", "src/atom/mp4a.rs", "src/atom/stco.rs"],
  [("error construction at each check", "src/atom/*.rs"), ("error kinds", "src/error.rs")],
  [], ["ErrorKind of Tag::read_from / write_to"])
p("C20", "The printed summary shows every stored field",
  "Formatting a tag never panics, fails exactly if the formatter it is written to fails, and lists every named field that is present with all of its values, every freeform item, the audio information and the file type, and lists no named field that is absent.",
  ["inputs"],
  "every subset of up to a few fields present, with none, one or several values, and every boundary of the number formatting (durations, sizes)",
  "Tests print tags but never look at the output.",
  ["src/tag/mod.rs", "proc/src/lib.rs", "src/tag/readonly.rs", "src/tag/genre.rs", "src/tag/tuple.rs"],
  [("per-field formatters", "src/tag/*.rs, proc/src/lib.rs")], [], ["Display output of Tag"])
p("C21", "Identifiers match exactly when they are the same",
  "Two identifiers of any kind (four-character code, borrowed freeform, owned) are equal, match each other and find each other's values exactly when they are both four-character codes with the same four bytes or both freeform with the same mean and name. Conversion between the kinds preserves them, and printing shows the code or `----:mean:name`.",
  ["inputs"],
  "every pair of identifiers over all kinds and near-miss contents", "Only equal identifiers are used in tests.",
  ["src/atom/ident.rs"],
  [("comparison and conversion", "src/atom/ident.rs")], [], ["PartialEq, idents_match, From, Display, lookups in Tag"])
p("C22", "Path based operations act on exactly the named file",
  "Reading by path never changes the file; writing by path behaves exactly like writing to an opened handle of that file, requires it to exist and never creates or empties it; dumping by path creates the file or replaces its whole content. A missing file is an I/O error of kind not found, and no other file is touched.",
  ["inputs", "histories"],
  "every combination of operation, existing or missing or wrong kind of target, and shorter or longer previous content, in sequence",
  "Tests use each path function on fresh files only.",
  ["src/tag/mod.rs"],
  [("open options", "src/tag/mod.rs read_from_path, write_to_path, dump_to_path")], [], ["directory content before and after"])
p("C23", "Errors carry and print what failed",
  "An error carries its cause unaltered: the original I/O error (same kind, system error number and text, also as the error's cause), exactly the stored bytes for text that is not valid UTF-8, and the offending number or atom otherwise; conversion from I/O and text decoding errors keeps them. Printing an error, for users or for debugging, never panics, shows the kind with its value and the whole description, and fails exactly if the formatter it is written to fails.",
  ["inputs", "faults"],
  "every kind of error with every carried value and any description, every failing operation with every system error number, every undecodable text at every place of every text",
  "No test prints an error, and none injects failures; the values carried range over all numbers, system errors and byte sequences.",
  ["src/error.rs", "src/atom/data.rs"],
  [('conversions and formatting', 'src/error.rs impl From, Debug, Display, Error::cause'), ('text decoding', 'src/atom/data.rs ReadUtil read_utf8, read_utf16')],
  [],
  ["Error::kind, Error::description, cause, Display, Debug"])
p("C24", "Comparing and copying tags and values is exact",
  "Two tags are equal exactly when their file type, audio information and items (identifiers, value types, contents and order of the values) are the same, however the tags came about: read, copied or built by any sequence of operations. They are unequal as soon as one of these differs; only whether another order of the identifiers matters is left open. Values, images, image formats and audio information compare the same way. A copy shows the same as its original, and neither is affected by later changes of the other. A default tag holds nothing.",
  ["inputs", "histories"],
  "every pair of values, of audio informations, and of tags reached by any sequence of operations; every operation on one of two copies",
  "Tests compare only a few tags that are equal, so a comparison or copy that overlooks something passes.",
  ["src/tag/mod.rs", "src/atom/data.rs", "src/types.rs", "src/atom/ident.rs", ATOM],
  [("comparison and copying", "src/tag/mod.rs Tag, src/atom/mod.rs AtomData, src/atom/data.rs Data, src/types.rs AudioInfo, Img: PartialEq, Clone, Default")],
  [], ["==, !=, clone, clone_from and default of Tag, Data, Img, AudioInfo"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
