"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "palworld_save_tools/archive.py"
R = "palworld_save_tools/rawdata/"
GV, PS, PT, JT = "palworld_save_tools/gvas.py", "palworld_save_tools/palsav.py", "palworld_save_tools/paltypes.py", "palworld_save_tools/json_tools.py"
CV, RT = "palworld_save_tools/commands/convert.py", "palworld_save_tools/commands/resave_test.py"
TESTS = "the tests round-trip a handful of committed saves and a few hand-written blobs"

def P(id, title, statement, over, text, why, files, mech, observe, note, technique):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=note, technique=technique)

PROPS = [
P("C01", "Save to JSON to save is lossless",
  "Converting any well-formed Palworld save to JSON and converting that JSON, unedited, back to a save yields exactly the original uncompressed save bytes. This holds for every property type and nesting, every Palworld section, any text, number, guid, list length and property identifier, and both through the library and through the convert command.",
  ["inputs"], "all well-formed saves (canonical Unreal serialisation) of any class and content",
  TESTS + "; no committed save has property identifiers, most map key/value combinations, long or empty lists, or unusual numbers and text",
  [A, GV, R, PT, CV], [("matching reader and writer for every property type", A), ("decode/encode pair per raw data blob", PT)],
  ["GvasFile.read/dump/load/write", "the convert command on files"],
  "Random search over generated whole saves; the expected bytes are the generated save itself, so no reference is trusted beyond the generator's notion of a well-formed save.",
  "property-based testing: round trip over generated whole saves, size sweeps"),
P("C02", "The JSON shows exactly what the save stores",
  "The JSON document produced from a save shows every stored property, in the place and under the name it is stored, with its type, identifiers and exact stored value, with list and map entries complete and in stored order. It shows nothing that is not stored.",
  ["inputs"], "all well-formed saves; every generic property type, struct type, array and map element type, and their nesting",
  "the tests compare bytes after a round trip, so a value misread and miswritten symmetrically passes; only a few fields are compared with expected values",
  [A, GV, JT], [("one reader per property type", A), ("JSON encoding of identifiers", JT)],
  ["GvasFile.read(...).dump() as JSON"],
  "Differential against an independent model: the document is generated first, encoded by a separate table-driven encoder, and must come back member for member.",
  "model-based property testing: generated document vs. document shown"),
P("C03", "JSON to save stores exactly the document",
  "Converting a JSON document to a save stores precisely what the document says: edited values, longer or shorter text and lists, and added or removed properties and entries arrive as edited, every stored length, count and size agrees with the content, and everything else keeps its bytes. Converting the result back shows the edited document again. A number that does not fit its stored type is refused, never stored as a different number, a document nested too deeply to be written is refused, and so is one that cannot be stored because it names an unknown type, lacks a member, has a member of another kind (text for a number), or names a property None; none of these is ever stored in part.",
  ["inputs", "histories"], "all documents and sequences of edits to them",
  "the tests never edit a document before writing it back",
  [A, GV, R], [("sizes computed from the written bytes", A), ("range-checked packing of numbers", A)],
  ["GvasFile.load(doc).write()"],
  "Edit sequences on generated documents, compared with the reference encoder byte for byte (this includes every size and count), and read back.",
  "property-based testing: generated edit sequences vs. reference encoder, read-back, out-of-range injection"),
P("C04", "Guilds, characters, containers and items are decoded faithfully",
  "For every group, character, item container, item slot, character slot and dynamic item in a world save, the JSON shows each field with its stored value whatever the kind of group or item and whether the data is empty, and writing it back reproduces the stored bytes; edits to those fields are stored exactly.",
  ["inputs"], "all contents of these sections: every group type, any number of members, players, ids and skills, eggs, weapons, armour and unknown items",
  TESTS + "; they contain few group types, few list lengths and no edits",
  [R + "group.py", R + "character.py", R + "item_container.py", R + "item_container_slots.py", R + "character_container.py", R + "dynamic_item.py"],
  [("field-by-field decode and encode", R)], ["world save sections in the JSON document"],
  "Schema-driven generation of each blob; field-by-field comparison with an independent schema in both directions.",
  "schema-driven property testing against an independent codec"),
P("C05", "Base camps and work are decoded faithfully",
  "For every base camp (with its worker director, work collection and modules) and every work entry (with its assignments) in a world save, the JSON shows each field with its stored value for every kind of module, work and placement, and writing it back reproduces the stored bytes; edits to those fields are stored exactly.",
  ["inputs"], "all contents of these sections: every module type, work type and transform type, any list length",
  TESTS + "; few work and module types occur in them",
  [R + "base_camp.py", R + "base_camp_module.py", R + "worker_director.py", R + "work_collection.py", R + "work.py", R + "common.py"],
  [("field-by-field decode and encode", R)], ["world save sections in the JSON document"],
  "Schema-driven generation of each blob; field-by-field comparison with an independent schema in both directions.",
  "schema-driven property testing against an independent codec"),
P("C06", "Map objects and foliage are decoded faithfully",
  "For every map object (model, connectors, build process, concrete model and modules) and every foliage model and instance in a world save, the JSON shows each field with its stored value, the kind of map object being determined by its name regardless of letter case, and writing it back reproduces the stored bytes; edits to those fields are stored exactly.",
  ["inputs"], "all map object names and classes, module types, connectors and foliage placements",
  TESTS + "; most of the 304 map object names and several classes never occur in them",
  [R + "map_object.py", R + "map_model.py", R + "connector.py", R + "build_process.py", R + "map_concrete_model.py", R + "map_concrete_model_module.py", R + "foliage_model.py", R + "foliage_model_instance.py"],
  [("name to class table and per-class decode and encode", R + "map_concrete_model.py")], ["world save sections in the JSON document"],
  "Schema-driven generation over every name and class of the catalogue; field-by-field comparison with an independent schema in both directions.",
  "schema-driven property testing against an independent codec, catalogue swept"),
P("C07", "Data the tool does not understand is kept, never dropped",
  "Raw data of a kind the tool does not recognise (an unknown map object, base camp module, work, effect, item or transform type) is carried through to JSON and back byte for byte; map object modules of unknown type that hold data, which have no raw form in JSON, are refused. Recognised raw data that has been cut short, extended or altered is either refused or written back with exactly its bytes (flags, text and compact vectors being in canonical form); it is never silently shortened or changed.",
  ["inputs"], "all raw data blobs, recognised kinds with any byte appended, removed or replaced, and unrecognised kinds with any bytes",
  "the committed saves contain hardly any unrecognised data, and no damaged blob",
  [R], [("raw byte fallback", R), ("end-of-data check after decoding", R)], ["world save sections in the JSON document"],
  "Metamorphic: any accepted blob must be reproduced. Altered bytes that the model knows to be legal but non-canonical (flags other than 0/1) are outside the domain and not generated.",
  "property-based testing with blob mutation: accepted implies reproduced"),
P("C08", "Choosing which sections to decode never changes the save",
  "For any selection of sections to decode, the conversion to JSON shows the selected sections decoded and the others as plain stored bytes, everything else being identical, and converting that JSON back yields the same original save bytes.",
  ["inputs", "configurations"], "all subsets of the decodable sections, over all saves",
  "the tests only use all sections (and one save with none)",
  [CV, PT, A], [("selection of custom properties", CV), ("raw form when not selected", A)], ["convert --custom-properties", "GvasFile.read with a subset"],
  "Random subsets over generated saves; the document expected for a subset is computed by the model.",
  "property-based testing: configurations x saves vs. model"),
P("C09", "Compressing and decompressing a save are inverse",
  "Decompressing what was compressed returns exactly the same bytes and the same save type, for any payload and both save types, and the file begins with the payload length, the compressed length, the magic and the type as the game expects. Files written by the game, at any compression level and with or without the chunk prefix, decompress to their payload.",
  ["inputs"], "all payloads (any size and content), both types, any zlib parameters, with and without CNK prefix",
  "the tests only open the committed saves and compare after decompression",
  [PS], [("header assembly and single or double zlib", PS)], ["compress_gvas_to_sav", "decompress_sav_to_gvas"],
  "Round trip and differential against a reference container reader and writer.",
  "property-based testing: round trip and differential vs. reference container"),
P("C10", "A damaged save container is never accepted as different data",
  "A save file that was truncated, or whose magic, type, lengths or compressed content were altered, is refused with an error, or still decompresses to exactly the original payload and type; it is never accepted with other content. Files that are not Palworld saves, empty files and unsupported save types are refused.",
  ["inputs", "fault_sequences"], "all truncations, bit flips, field edits, splices and appended bytes of any container, and arbitrary files",
  "no test opens a damaged file",
  [PS], [("magic, type and length checks", PS), ("zlib checksums", PS)], ["decompress_sav_to_gvas", "the convert command's exit status and output file"],
  "Fault injection on generated containers: exhaustive over single-byte truncations and header bit flips of small containers, random beyond.",
  "fault-injecting property testing: accepted implies identical"),
P("C11", "A damaged save body never converts quietly or hangs",
  "A save whose decompressed content is cut short anywhere before the end of its property list, is not a save at all, is nested too deeply to be read, in which a text length or an entry count announces more than the file holds or a byte list disagrees with its stored size, or which uses a property type the tool does not know, is refused with an error in bounded time and memory; no shortened or different document is produced, and converting it leaves no JSON file behind.",
  ["inputs", "fault_sequences"], "every cut point of every save, arbitrary bytes, and corrupted length and count fields",
  "no test reads a truncated or corrupted save",
  [A, GV, CV], [("short reads raise", A), ("magic and version checks", GV), ("output opened only after parsing", CV)], ["GvasFile.read", "the convert command"],
  "Cut points are exhaustive for small saves; lengths and counts located by the model are overwritten with impossible values; a CPU limit per case catches endless loops.",
  "fuzzing with structured faults: cut points, impossible counts, garbage"),
P("C12", "NaN and infinities follow the chosen policy everywhere",
  "By default every NaN and infinity is shown in the JSON and written back as stored; with conversion to null requested, every one of them, wherever it is stored, becomes null, the JSON is strictly valid, all finite numbers are unchanged, and converting back stores NaN in those places and the original bytes everywhere else.",
  ["inputs", "configurations"], "all saves with non-finite numbers at any subset of their floating point positions",
  "the committed saves hardly contain non-finite numbers and the null option is never exercised",
  [A, CV, JT, R], [("allow_nan handed to every nested reader", A), ("null written as NaN", A)], ["convert --convert-nan-to-null", "GvasFile.read(allow_nan=False)"],
  "Generated saves with non-finite values planted at chosen positions; expected documents and bytes from the model.",
  "property-based testing: planted non-finite values vs. model"),
P("C13", "Guids are a faithful, comparable value",
  "Every 16-byte guid is shown as one canonical text and converts back to the same bytes, in any accepted spelling, and agrees with the standard library's value of that text. Guids are equal exactly when their bytes are equal, equal guids (and their texts) hash alike, and both implementations of the type behave the same.",
  ["inputs", "configurations"], "all 2^128 guids, all spellings, and both implementations",
  "the tests check two or three guid values",
  [A, JT], [("byte order of the four words", A), ("equality and hash", A)], ["archive.UUID", "guid fields in JSON and saves"],
  "Bijection and algebraic laws over random and structured guids, including every single-bit value, in both implementations (the second in a subprocess).",
  "property-based testing: bijection, equivalence and hash laws, differential"),
P("C14", "Results do not depend on installed extras or environment",
  "The JSON document and the save bytes produced from the same input are identical whether or not the optional performance dependency is used, with debugging output on or off, and for any hash seed; only diagnostics may differ.",
  ["inputs", "configurations"], "all inputs under every combination of these settings",
  "the tests run the committed saves under the two implementations but never compare the documents, and never with debugging on",
  [A, GV, CV], [("interchangeable guid implementations", A), ("diagnostics to standard output only", A)], ["subprocesses over the same generated files"],
  "Differential over subprocesses with different environments on batches of generated saves.",
  "differential testing across configurations on generated saves"),
P("C15", "Text survives unchanged",
  "Any text in a save (names, player names, guild names, signs, passwords, enum values and map keys) of any length and script, including emoji, unpaired surrogates, control characters and embedded zero characters, appears unchanged in the JSON and is written back unchanged; ASCII text is stored one byte per character, other text as UTF-16, each with its terminator counted. A JSON file that is not valid UTF-8 is refused, never stored as some other text.",
  ["inputs"], "all strings, in every place a string can occur",
  "the tests contain one tricky player name and a few Unicode saves",
  [A, JT, CV], [("string reader and writer with surrogate fallback", A), ("UTF-8 JSON files with escapes", CV)], ["GvasFile", "FArchiveReader.fstring/FArchiveWriter.fstring", "convert on files"],
  "Generated strings over all code unit classes and lengths (0..4200 swept, powers of two to 131073), placed at random string positions.",
  "property-based testing: generated text at generated positions, length sweep"),
P("C16", "Compact vectors and rotations are exact",
  "Compact vectors and rotations read from a save and written back reproduce the stored bytes for every stored form (scaled integers of any width, unscaled integers, plain doubles), and a rotation or vector written from JSON is stored in the game's narrowest form as the nearest representable value.",
  ["inputs"], "all component values and widths 1..63 bits, scale factors 1, 10, 100, all 65536 angle values per axis",
  "the tests check sixteen sample vectors and no edited values",
  [A, R + "foliage_model_instance.py"], [("bit width and sign handling", A), ("rounding and angle scaling", A)], ["FArchiveReader/FArchiveWriter.packed_vector and compressed_short_rotator", "foliage instances"],
  "Differential against exact integer arithmetic; angle values enumerated completely, widths and boundaries swept.",
  "property-based testing vs. exact reference, angles exhaustive"),
P("C17", "No file is overwritten without consent or by a failed run",
  "An existing output file is replaced only after the user confirmed with 'y' or gave the force option; any other answer, or no answer, leaves every file as it was and ends with a failure status. A conversion that fails because its input is missing, damaged or invalid leaves all existing files untouched and creates none.",
  ["inputs", "histories", "fault_sequences"], "all command lines, answers, pre-existing files, and invalid inputs",
  "the tests only convert to fresh paths with valid input",
  [CV], [("confirmation prompt", CV), ("output opened last", CV)], ["the convert command: file tree before and after, exit status"],
  "Model of the command over generated command lines, answers and file trees; the whole scratch tree is compared before and after.",
  "model-based testing of the command line on scratch trees"),
P("C18", "The command converts the right way to the right place",
  "The convert command picks the direction from the options, and otherwise from the file extension; it writes to the given output path, or by default to the input path with '.json' appended (to JSON) or removed (to save), touching nothing else. It exits with success exactly when the conversion was done, and minified and indented JSON hold the same document, the minified one in fewer characters and on one line.",
  ["inputs", "configurations"], "all combinations of options, file and directory names, extensions and contents",
  "the tests run one option combination",
  [CV], [("direction and path rules", CV)], ["the convert command: files written, exit status"],
  "Model of the command over generated options and names; scratch trees compared.",
  "model-based testing of the command line on scratch trees"),
P("C19", "Written saves have the container the game expects for their class",
  "A document whose save class is a world or local world save (its name contains Pal.PalWorldSaveGame or Pal.PalLocalWorldSaveGame) is written as a doubly compressed save and any other class as a singly compressed one, whatever type it was read from, and the result is a valid container of the document's bytes. The resave check reports the files as the same, with success, exactly when the resaved file has the same content and type as the original.",
  ["inputs"], "all save classes, original types and contents",
  "the tests compare only decompressed content of saves of five classes",
  [CV, RT, PS], [("class name to save type", CV), ("comparison of content and type", RT)], ["save type byte of files written by convert", "exit status and verdict of resave_test"],
  "Generated documents over class names near and far from the two special ones; verdict compared with a reference comparison.",
  "property-based testing: command on generated saves vs. reference verdict"),
P("C20", "Conversions are repeatable and independent of each other",
  "Any sequence of conversions in one process gives each conversion the result it has alone: reading, dumping and writing again give the same document and bytes, a written document can still be dumped and written to the same bytes, failed conversions leave no trace in later ones, changing one parsed document in place does not reach any other, and concurrent conversions do not disturb each other.",
  ["histories", "schedules"], "all interleavings of reads, dumps, writes and failures over several files, and concurrent threads",
  "each test converts one file once",
  [A, GV, R, PT], [("no state outside the reader, writer and document", A), ("write replaces decoded raw data in place", R)], ["GvasFile objects over operation sequences"],
  "Stateful generation of operation sequences over a pool of files, checked against the model after every step; threads with a tiny switch interval for concurrency (the scheduler is not controlled, see DESIGN.md).",
  "stateful model-based testing, plus randomised thread schedules"),
P("C21", "Documents of older releases still convert",
  "Documents in which a section is left undecoded, in which the raw data of guilds, base camp modules, work entries or map objects is plain bytes although the section is marked as decoded, in which work placements use the older field names and order, or which leave out empty property identifiers, convert to exactly the save bytes they describe.",
  ["inputs"], "all documents of these older shapes",
  "no test writes such a document",
  [R + "work.py", R, A], [("raw byte pass-through", R), ("pre-v2 transform", R + "work.py")], ["GvasFile.load(doc).write()"],
  "Generated documents downgraded to the older shapes; bytes expected from the model.",
  "property-based testing: downgraded documents vs. reference encoder"),
P("C22", "File header and trailer are kept, foreign files refused",
  "All header fields (versions, engine version and branch, custom version list, save class) and any trailing bytes are shown with their stored values and written back unchanged. A file whose magic number, save game version or custom version format is not the supported one is refused, not converted.",
  ["inputs"], "all header field values, custom version lists, trailers, and all unsupported magic and version values",
  "the tests read one fixed header",
  [GV], [("field-by-field header", GV), ("version checks", GV), ("base64 trailer", GV)], ["GvasFile.read/dump/load/write"],
  "Generated headers against the model; every refused value must raise.",
  "property-based testing vs. model header"),
P("C23", "Caller-supplied hints and decoders apply at exactly their paths",
  "When a library user supplies struct type hints or their own decoders, each is applied to every property at exactly its path and to no other, whatever the surrounding data; struct map keys and values without a hint are read as guids and property lists, and what a user's decoder returned is handed to the matching encoder, so the save round-trips, also inside the raw data of characters and eggs, whose paths start afresh. A document marked for a decoder that is not supplied is refused, not written.",
  ["inputs", "configurations"], "all hint tables and decoder tables, over all documents",
  "the tests use only the built-in tables",
  [A, GV], [("path construction while reading", A), ("dispatch on path and on the recorded path", A)], ["GvasFile.read(hints, decoders)/write(decoders)"],
  "Random documents and random tables; calls recorded and compared with the model's list of paths.",
  "property-based testing: generated tables, recorded calls vs. model"),
P("C24", "Archive primitives read back exactly what was written",
  "For any sequence of primitive values written through the archive writer (integers of every width, floats, bools, bytes, text, guids, optional guids, vectors, rotations, transforms, lists), the bytes are the little-endian Unreal encoding, and reading the same sequence returns the same values, ends exactly at the end of the data, and fails on data that is cut short. Values outside a type's range are refused.",
  ["inputs", "histories"], "all sequences of primitive operations and values",
  "the tests read and write a few primitives one at a time",
  [A], [("one reader and writer per primitive", A)], ["FArchiveReader", "FArchiveWriter"],
  "Stateful sequences of operations against a byte-level model.",
  "stateful model-based testing of the archive primitives"),
P("C25", "How the JSON is written down does not matter",
  "A JSON document converts to the same save bytes however it is written: with the members of a header, property, value, map entry or decoded record in any order (only the order of the properties in a list being content), with any whitespace, escapes and exponents, with whole numbers written without a fraction in floating point places, and with guids in capitals or without dashes. Documents that were sorted, reformatted or edited by other programs therefore still convert exactly.",
  ["inputs"], "all documents and all other spellings of them in the stated sense",
  "the tests convert only documents exactly as the tool itself wrote them",
  [A, GV, R, CV, JT], [("members are looked up by name", A), ("guid parsing", A)],
  ["GvasFile.load(doc).write()", "the convert command on JSON files"],
  "Metamorphic: a generated document and a drawn other spelling of it must both give the reference encoder's bytes.",
  "metamorphic property testing: re-spelled documents vs. reference encoder"),
P("C26", "A fault of the machine is never taken for success",
  "When a conversion is disturbed by the machine or the user (no room or no permission for a file, diagnostics that cannot be written, an exception at the question for consent, an interruption or the death of the process at any moment), the command reports success only if its output is complete and right; its input and every other existing file keep their bytes, an existing output is untouched unless overwriting was forced or consented to, and the same conversion repeated afterwards, in the same process or another, gives the right result.",
  ["inputs", "fault_sequences", "crash_points"], "all conversions, and all points at which they can be disturbed",
  "the tests never disturb a conversion, and do not run the command at all",
  [CV, RT, A, GV], [("errors propagate to a failing exit status", CV), ("no state is kept between conversions", A)],
  ["exit status and file tree of the convert command", "conversions repeated after the fault"],
  "Fault injection at drawn points: file size limits of the operating system, an unprivileged user, errors raised by the file functions, an exception or exit at a drawn line of the package.",
  "property-based fault injection (resource limits, permissions, interruption and crash at drawn lines)"),
P("C27", "The time of a conversion grows in proportion to the size of the save",
  "The time a conversion takes grows in proportion to the size of the save or of the document: with many times more properties, entries, objects or members, or longer texts and byte lists, at the same level of nesting, reading and showing, writing, compressing and decompressing take as many times longer, not the square of it.",
  ["inputs", "sizes"], "all saves, with any list, property set, text or byte list grown many times",
  "the tests convert small saves and do not look at the time",
  [A, GV, PS, R], [("one pass over the input with no copies of the rest", A), ("custom data through nested archives of their own bytes only", R), ("chunks are joined once", PS)],
  ["CPU time of GvasFile.read and dump, load and write, compress_gvas_to_sav and decompress_sav_to_gvas"],
  "CPU time of the same work on a save and on one about 8 times larger, with wide margins (3 times more than proportional and a quarter of a second, and only if it stays so): finds squares, not slow constants.",
  "property-based metamorphic testing (growth of the input against growth of the CPU time)"),
]
if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    done = [p for p in PROPS if os.path.exists(os.path.join(V, "vf", "checks", p["id"].lower() + ".py"))]
    man = {
        "version": 1, "setup_cmd": "true",
        "checks": [{
            "property": p["id"], "quick_cmd": f"./check {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"],
            "level": "exploration", "level_note": p["note"],
        } for p in done],
        "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in PROPS if p not in done],
        "notes": "Checks run the Python sources of /repo directly (no build product is used). See DESIGN.md.",
    }
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1); f.write("\n")
    print(len(PROPS), len(done))
