#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, technique, note, level="exploration", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, level=level, state=state or []))

D, L, T, G, R, I, M, V = ("src/decode.rs", "src/lib.rs", "src/detect.rs", "src/geometry.rs", "src/prepare.rs",
                          "src/identify/grid.rs", "src/identify/match_capstones.rs", "src/version_db.rs")
SPEC = "Trusts the reference encoder/decoder of the harness, written from ISO/IEC 18004 without rqrr's code. "
EXP = "Exploration: holds on every execution monitored, not a proof. "

p("C01", "An undamaged symbol decodes to exactly its content and metadata",
  "Decoding the module matrix of any valid QR symbol (versions 1 to 40, all levels and masks, numeric, alphanumeric, byte, kanji and ECI segments in any mix, at any fill up to capacity) yields exactly the encoded bytes in order, and exactly the version, level and mask of the symbol; kanji segments come out as their Shift-JIS bytes and ECI designators are skipped. Reading to a string gives the same content when it is UTF-8 and an encoding error otherwise; reading to a writer gives the bytes either way.",
  ["inputs"], "all versions x levels x masks x segment sequences x contents",
  "The tests decode about a dozen fixed pictures; most of the 1280 combinations, kanji, ECI, multi-segment and full symbols are never decoded.",
  [D, L, V], [("format reading and unmasking", D + " read_format, mask_bit"), ("codeword order and block structure", D + " read_data, codestream_ecc; " + V), ("segment decoding", D + " decode_payload and decode_*")],
  ["Grid::decode", "Grid::decode_to"], "runtime monitor: decoded output against an independent reference encoder", SPEC + EXP)
p("C02", "Damage within the error correction capacity never changes the result",
  "Changing any set of data or parity codewords of a valid symbol, with at most half as many wrong codewords in each block as the block has parity codewords (rounded down), does not change the decoded content or metadata. This holds for every version and level, wherever the wrong codewords are and whatever values they take.",
  ["inputs", "fault_sequences"], "all symbols x all error patterns up to floor(parity/2) wrong codewords in every block",
  "Only a few pictures with incidental damage are tested; the capacity limit and the position of errors within blocks are not.",
  [D, V], [("syndromes, Berlekamp-Massey, Forney", D + " correct_block"), ("block interleaving", D + " codestream_ecc"), ("block sizes", V)],
  ["Grid::decode", "Grid::decode_to"], "runtime monitor under injected codeword faults against the reference content", SPEC + "Error positions are enumerated, values and combinations sampled.", "fault_enumeration")
p("C03", "A symbol damaged beyond repair is refused, never misread",
  "Decoding reports success only if correcting the symbol, with no more wrong codewords per block than can be corrected, really leads to valid blocks and to the returned content. A symbol damaged beyond the correction capacity gives an error, never some other content, apart from the chance that the damage produces another valid symbol.",
  ["inputs", "fault_sequences"], "all matrices of a standard size, in particular symbols with more errors than can be corrected, and random ones",
  "Tests decode good symbols; no test decodes an uncorrectable one and the result space is astronomically large.",
  [D], [("syndromes are checked again after correction", D + " correct_block"), ("error locations beyond capacity are rejected", D + " berlekamp_massey, correct_block")],
  ["Grid::decode", "Grid::decode_to"], "runtime monitor: every outcome judged by an independent bounded-distance decoder", SPEC + "Miscorrections that bounded-distance decoding permits are accepted; a rate far above chance is an alarm.", "fault_enumeration")
p("C04", "Format information: up to three wrong bits in either copy are harmless",
  "The level and mask of a symbol are read correctly whenever the copy of the format information beside the upper left finder pattern has at most three wrong bits, and also when that copy is beyond repair and the second copy has at most three. If neither copy is within three bits of a valid word, decoding fails with a format error instead of guessing.",
  ["inputs", "fault_sequences"], "all 2^15 words in either copy x all versions, levels and masks",
  "Tests only see symbols with intact format information.",
  [D], [("BCH(15,5) correction", D + " correct_format, format_syndromes"), ("second copy", D + " read_format")],
  ["Grid::get_raw_data", "Grid::decode"], "runtime monitor under enumerated format bit faults against nearest-codeword tables", SPEC + "All 32768 words are enumerated for each copy.", "fault_enumeration")
p("C05", "Mirrored symbols decode exactly like upright ones",
  "A symbol whose modules are transposed (seen from behind) decodes to the same content and metadata as the upright symbol, also when damaged within the correction capacity. A mirrored or upright symbol whose content is malformed gives an error and no success with other content.",
  ["inputs"], "all symbols x transposition x damage within capacity",
  "One mirrored fixture is tested, in one version.",
  [D, L], [("second attempt on the transposed grid", D + " decode; " + L + " MirroredGrid")],
  ["Grid::decode", "Grid::decode_to"], "runtime monitor: mirrored against upright executions and reference content", SPEC + EXP)
p("C06", "Malformed payloads give the right error or exactly the right bytes",
  "For any sequence of data codewords in an otherwise valid symbol, decoding ends with exactly the content the standard assigns to it, with a data-underflow error if a segment is cut off by the end of the data, or with an unknown-data-type error for an unsupported mode; nothing is decoded past the data or after the terminator. It never panics.",
  ["inputs"], "all data codeword sequences x versions x levels",
  "Tests contain no malformed payload; counts, modes and truncation points multiply.",
  [D], [("remaining bits are checked before every read", D + " decode_numeric, decode_alpha, decode_byte, decode_kanji, decode_eci"), ("terminator and unknown modes", D + " decode_payload")],
  ["Grid::decode", "Grid::decode_to"], "runtime monitor: outcome against a reference bit-stream parser", SPEC + "Streams the standard leaves undefined are only required not to crash.")
p("C07", "A failing writer ends decoding with an I/O error, and only then",
  "When the writer given to decoding fails, or accepts no more bytes, decoding returns an I/O error and what the writer had accepted is a prefix of the content. Writers that accept few bytes at a time or are interrupted still receive the whole content exactly once, in order.",
  ["fault_sequences", "inputs"], "writer faults at every byte position x error kinds x short writes and interruptions x symbols of all modes",
  "No test uses a writer that fails or writes short.",
  [D, L], [("every write is write_all with its error mapped", D + " decode_*")],
  ["Grid::decode_to with a fault-injecting io::Write"], "fault injection at every write position, accepted bytes recorded and judged", SPEC + "Fault positions enumerated per symbol; symbols sampled.", "fault_enumeration")
p("C08", "Raw data is every data module once, in the standard order, still masked",
  "The raw bit stream of a grid holds every data module of the symbol exactly once, in the order of the standard, as it stands in the grid (still masked), skipping all function patterns, and the metadata are those of the symbol; its length is the number of data modules. It depends on no other modules than those and the format information.",
  ["inputs"], "all versions x levels x masks x module values",
  "One raw read of one fixture is compared in the tests.",
  [D, L, V], [("zigzag order", D + " read_data"), ("function patterns", D + " reserved_cell; " + V), ("masks", D + " mask_bit")],
  ["Grid::get_raw_data", "RawData"], "runtime monitor: each raw bit traced to its module by perturbation and a reference map", SPEC + "Arbitrary module values: every version, level and mask in every run.")
p("C09", "Any grid can be decoded without panic, out-of-range reads or endless work",
  "Decoding any grid of any size and content, even one that answers differently each time, terminates with content or an error, never panics, and asks only for modules inside the grid. Sizes below 21 and above 180 are refused as an invalid version; each size of a QR symbol (21, 25, ..., 177) maps to its version and back, and sizes in between count as the next smaller symbol.",
  ["inputs"], "all sizes, all module functions",
  "Tests use valid grids of valid sizes only.",
  [D, L], [("size check before anything is read", D + " Version::from_size, read_format")],
  ["BitGrid implemented by a monitor", "Version::from_size/to_size"], "monitored grid: bounds, panic and read-count assertions", EXP)
p("C10", "No picture makes preparing, searching or reading panic or run away",
  "Preparing any picture of any size (including empty and one pixel wide), searching it and decoding everything found terminates without panic and without asking the buffer for pixels outside of the picture. Every grid found has the size of a QR symbol and can be read at all its modules.",
  ["inputs"], "all pictures, of all shapes, from grey values or black and white",
  "The tests read a handful of good photographs; hostile geometry (degenerate finder patterns, huge coordinates) does not occur in them.",
  [R, T, I, G, M], [("coordinates are clamped", R + " get_pixel_at_point"), ("degenerate perspectives are rejected", G + " Perspective::create"), ("searches are bounded", I + " find_alignment_pattern, timing_scan")],
  ["ImageBuffer implemented by a monitor"], "monitored pixel buffer (bounds, step budget, panic) under hostile pictures", EXP + "A run-away is a budget of pixel accesses and CPU seconds, far above the worst seen.")
p("C11", "Every cleanly drawn symbol is found once and read exactly",
  "A symbol of any version drawn with at least two pixels per module and a quiet margin, upright or turned by a quarter, half or three-quarter turn, mirrored or not, anywhere in a picture of any size, is found exactly once and reads as its content and metadata. This includes symbols with damage within their correction capacity, and nothing else is ever read from the picture. On a light label on something dark (margin of at least one module) at least 99 of 100 are read.",
  ["inputs", "configurations"], "all symbols x orientations x scales x positions x picture sizes",
  "About a dozen pictures are tested, few versions, mostly one scale.",
  [R, T, I, G, M], [("finder search", T), ("grid fitting", I), ("grouping", M)],
  ["PreparedImage::detect_grids", "Grid::decode"], "runtime monitor: detection results against drawn ground truth", SPEC + EXP + "Symbols whose own data resembles a further finder pattern are judged by a rate instead.")
p("C12", "Distorted but legible symbols are read, and never misread",
  "Symbols of versions 1 to 6 drawn with at least eight pixels per module and rotated by any angle, in mild perspective, under uneven light or with moderate sensor noise are read in at least 99 of 100 cases (version 1 alone, strong perspective, five to eight pixels per module from version 2 on: 98 of 100; versions 7 to 14 rotated or tilted: 91 of 100), and upright ones of versions 1 to 10 with low contrast in at least 998 of 1000. This holds for every direction and any size of picture, and on a light card on something dark (98 of 100). Whatever is read from such pictures is exactly the content drawn.",
  ["inputs", "configurations"], "all symbols x angles x mild perspectives x illuminations x noise x contrasts",
  "A rate over a family of pictures is not visible in a dozen fixtures.",
  [R, T, I, G, M], [("adaptive threshold", R + " prepare"), ("perspective fit", I + " jiggle_perspective, find_alignment_pattern; " + G)],
  ["PreparedImage::detect_grids", "Grid::decode"], "statistical runtime monitor over distorted drawings with exact content oracle", SPEC + "Statistical: bounds lie well below the rates measured (0.992 and above; 0.95 for versions 7 to 14).")
p("C13", "Several symbols in one picture are each read exactly once, nothing else",
  "Every symbol of a picture with several separate symbols (also identical ones, also among hundreds or thousands of other marks) is read exactly once with its own content, as long as finder patterns of different symbols are not arranged like those of one symbol. Symbols may differ in size as much as they like and stand in frames or between rules. Of several combinations of finder patterns with stray ones the most symmetric counts (97 of 100). Nothing is read from pictures without symbols, nor content that no symbol of the picture has.",
  ["inputs", "configurations"], "all sets of symbols x placements x clutter",
  "The tests have one picture with two symbols.",
  [T, M, I, R, L], [("finder patterns of a found grid are not used again", R + " detect_grids"), ("region numbers are recycled", R + " get_region")],
  ["PreparedImage::detect_grids", "Grid::decode"], "runtime monitor: exactly-once ledger of drawn against read symbols", SPEC + EXP)
p("C14", "Searching never changes the picture or its copies",
  "Searching an image, any number of times, leaves every light pixel light and every dark pixel dark, leaves each connected dark region in one shade and never marks two regions with the same shade of discarded regions, and leaves no temporary markings behind. Searching one image changes no copy of it, and searching a copy does not change the original.",
  ["inputs", "histories"], "all pictures x sequences of searches and copies",
  "No test looks at pixels after a search or at copies.",
  [R, T], [("flood fill paints whole regions", R + " flood_fill, repaint_and_apply"), ("recycled shades are repainted", R + " get_region, cache"), ("trial groupings work on a copy or are undone", R + " detect_grids")],
  ["PreparedImage::get_pixel_at", "Clone", "ImageBuffer implemented by a monitor"], "runtime monitor: full pixel state diffed around each search against independent connected components", EXP,
  state=[{"name": "pixel colour", "meaning": "white, black, or marked as belonging to a region, finder or alignment pattern", "where": R}])
p("C15", "The reported corners are the corners of the symbol, in order",
  "The four points reported for a found symbol are the corners of the drawn symbol in clockwise order from its upper left, right up to one module at the first corner, one and three quarters at its two neighbours and two and a half at the opposite one for upright drawings. For versions 1 to 7 rotated or in mild perspective they are within two and a half modules in at least 99 of 100 cases (in strong perspective 95), however large the picture. A grid made from modules alone, without a picture, reports the origin for all four.",
  ["inputs", "configurations"], "all symbols x orientations x scales x positions x mild distortions",
  "No test compares corner points with the truth in the picture.",
  [R, I, G, L], [("corner points from the fitted perspective", R + " detect_grids; " + G + " map")],
  ["Grid::bounds"], "runtime monitor: corner points against drawn ground truth", SPEC + EXP)
p("C16", "All ways into the library give the same result",
  "The same picture gives the same grids, corners and contents whether it comes as an image, a luminance function, a custom buffer, or (once made black and white) a bitmap function or an image used without preparation, and whether or not the library is built with image support. A grid decodes the same whether sampled from the picture, copied, or given as a bit function.",
  ["inputs", "configurations"], "all pictures and grids x all constructors x features on and off",
  "Tests use each constructor on different fixtures and never compare them, nor build without image support.",
  [R, L], [("constructors", R + " prepare, without_preparation, prepare_from_*"), ("SimpleGrid", L)],
  ["PreparedImage::*", "SimpleGrid::from_func", "default-features = false"], "differential runtime monitor over all input paths and both feature sets", EXP)
p("C17", "Results depend only on the picture, not on history, order or threads",
  "Preparing, searching and decoding the same picture or grid again, after other pictures, in another order, from a copy, or in several threads at the same time gives identical grids, corners and contents. Grids can be decoded any number of times, by several threads at once.",
  ["inputs", "histories", "schedules"], "all pictures x operation sequences x thread schedules",
  "Tests decode each grid once on one thread.",
  [R, D, L, I], [("no global state; decoding takes &self", L + " Grid; " + D)],
  ["PreparedImage", "Grid", "threads"], "differential runtime monitor of repeated, reordered and concurrent executions", EXP + "Schedules as the operating system gives them; data races are looked for under C18.")
p("C18", "No use of the public interface has memory errors or data races",
  "Whatever pictures, grids, arguments, callbacks (even panicking ones) and threads use the library's safe interface, there is no out-of-bounds or use-after-free access, no undefined behaviour and no data race.",
  ["inputs", "schedules", "programs"], "all uses of the public interface, including arguments out of range",
  "Tests run uninstrumented, on good inputs, on one thread.",
  [R, D, L, T, I, G], [("safe Rust, checked indexing", R), ("no shared mutable state", L)],
  ["AddressSanitizer", "MemorySanitizer", "ThreadSanitizer", "Miri"], "AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri on the real code under hostile workloads", EXP + "Trusts the sanitizers.")
p("C19", "Preparation makes dark-on-light drawings exactly black and white",
  "After preparation, each pixel is black if its luminance is clearly below 95 percent of the running brightness average of its surroundings (along its row and the neighbouring row, over an eighth of the picture width) and white if it is above. Bitmaps are taken over exactly, blank pages of any luminance stay white, and at least 97 of 100 two-level drawings of symbols keep their exact shape.",
  ["inputs"], "all luminance pictures and bitmaps of any size",
  "No test looks at the pixels of a prepared image.",
  [R], [("adaptive threshold", R + " prepare"), ("bitmap", R + " prepare_from_bitmap")],
  ["PreparedImage::get_pixel_at"], "runtime monitor: each pixel against the threshold rule computed in real numbers", "Pixels within two grey levels of the threshold (integer rounding) are not judged. " + EXP)
p("C21", "Pictures written for debugging show the true state",
  "The picture written of a grid has one pixel per module, black where the module is set and white elsewhere. The picture written of an image's state has its size, is white and black where the image is white and unmarked black, and shows marked regions in other colours, one colour per marking.",
  ["inputs", "histories"], "all grids, all pictures before and after searches",
  "No test reads a written picture back.",
  [L, R], [("write_grid_to", L), ("write_state_to", R)],
  ["PNG files in a scratch directory"], "offline checker: written pictures parsed and compared pixel by pixel with the state", EXP + "Trusts the PNG reader of the image crate.")
p("C22", "Work, memory and stack stay bounded by the size of the input",
  "The pixel accesses, heap and stack needed to search a picture stay within fixed multiples of its pixels (and of the number of groupings of finder-like marks tried), doubling the resolution costs at most about four times the work, and no region shape needs deep recursion. Decoding reads each module a small number of times, needs bounded heap, and nothing stays allocated after everything is dropped.",
  ["inputs"], "all pictures and grids",
  "Tests do not measure work or memory.",
  [R, T, I, D], [("flood fill with an explicit work list", R + " flood_fill"), ("region cache", R), ("fixed-size buffers", D)],
  ["ImageBuffer and BitGrid implemented by monitors", "counting allocator", "512 KiB thread stack"], "runtime monitor: counted accesses, heap and stack against bounds", "Bounds are several times the worst seen on the unchanged tree. " + EXP)
p("C23", "The modules sampled from a picture are the modules drawn",
  "In a cleanly drawn upright symbol of any version, the grid found has the right size and at most 2 percent of its modules differ from the drawing, and in at least 99 of 100 pictures none does. In rotated and mildly tilted drawings of versions 1 to 7 with at least eight pixels per module every module is right in at least 96 of 100 pictures (in strong perspective 94, in very large pictures 92).",
  ["inputs", "configurations"], "all symbols x orientations x scales x mild distortions",
  "Error correction hides wrong modules from tests that only compare contents.",
  [I, G, R, T], [("perspective fit", I + " jiggle_perspective, fitness_*"), ("sampling at module centres", I + " RefGridImage::bit")],
  ["Grid::grid (BitGrid::bit)"], "runtime monitor: each sampled module against the drawn module", SPEC + EXP)

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        a = {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]], "observe_at": x["observe"], "hook_needed": None}
        if x["state"]:
            a["state"] = x["state"]
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
                            "quantifier": {"over": x["over"], "text": x["qtext"]}, "why_tests_cant": x["why"], "anchors": a}) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh",
       "checks": [{"property": x["id"], "quick_cmd": "bash check.sh " + x["id"],
                   "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + x["id"],
                   "technique": x["technique"], "level": x["level"], "level_note": x["note"].strip()} for x in P],
       "not_applicable": [],
       "notes": "No hooks: the monitors sit behind rqrr's public traits (ImageBuffer, BitGrid, io::Write), the global allocator and the sanitizers. KNOWN_FINDINGS.md lists the defects repaired in /repo; none is open."}
json.dump(man, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
import jsonschema
ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(here, "properties.jsonl")):
    jsonschema.validate(json.loads(l), ps)
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(P), "properties")
