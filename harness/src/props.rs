use crate::p_decode as d;
use crate::p_detect as t;
use crate::p_memory as k;
use crate::p_multi as m;
use crate::p_system as y;
use crate::run::{CaseFn, Prop, Rate, Stream};

fn st(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Stream {
    Stream {
        name,
        n: [quick, thorough],
        f,
    }
}

const SPEC: &str = "the reference encoder, decoder and tables of /verif/harness (written from ISO/IEC 18004, independent of rqrr) are right";

pub fn all() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            level: "exploration",
            rule: "symbols built by the reference encoder: all 1280 version/level/mask combinations with random segment mixes, every version/level/mode filled to capacity, character sweeps at the version limits, texts that begin, end or consist of byte order marks, zeros, blanks, line ends and other characters that are easily dropped; non-trivial: distinct (version, level, mask, modes, length)",
            streams: vec![
                st("combos", 1280 * 10, 1280 * 150, d::c01_combos),
                st("full", 640 * 4, 640 * 24, d::c01_full),
                st("chars", 1800, 36000, d::c01_chars),
                st("strings", 3000, 40000, d::c01_strings),
            ],
            rates: vec![],
            must: &["decode calls", "capacity cases", "UTF-8 results", "EncodingError results", "texts with unusual characters"],
            assumptions: &[SPEC],
            threads: 0,
        },
        Prop {
            id: "C02",
            level: "fault_enumeration",
            rule: "reference symbols with up to floor(parity/2) wrong codewords injected in every block: random, bursts, parity only, data only, equal values, every codeword position in turn, blobs and scratches; distinct: (version, level, mask, pattern)",
            streams: vec![
                st("max", 1280 * 8, 1280 * 120, d::c02_max),
                st("position", 160 * 8, 160 * 64, d::c02_position),
                st("blob", 2500, 40000, d::c02_blob),
            ],
            rates: vec![],
            must: &["codeword errors corrected", "pattern 0", "pattern 5"],
            assumptions: &[SPEC],
            threads: 0,
        },
        Prop {
            id: "C03",
            level: "fault_enumeration",
            rule: "symbols with more wrong codewords than can be corrected, scattered or in shapes (parity only, data only, padding only, one error value, blocks of one value, shifted blocks), noise of any strength, random grids, valid random codewords; every outcome judged by the independent bounded-distance reference decoder",
            streams: vec![
                st("beyond", 60000, 1500000, d::c03_beyond),
                st("noise", 30000, 800000, d::c03_noise),
                st("valid", 2560, 25600, d::c03_valid),
                st("shape", 24000, 600000, d::c03_shape),
            ],
            rates: vec![
                Rate { name: "uncorrectable symbols not reported as read", min: 0.99995, min_n: 1000 },
                Rate { name: "uncorrectable symbols not completed by luck", min: 0.9995, min_n: 1000 },
            ],
            must: &["uncorrectable, reported", "reported success, content confirmed", "shaped damage"],
            assumptions: &[SPEC, "a word beyond the correction radius can by chance be completed to a valid codeword sequence; expected in fewer than 1 of 100000, tolerated up to 5 in 100000 uncorrectable symbols"],
            threads: 0,
        },
        Prop {
            id: "C04",
            level: "fault_enumeration",
            rule: "all 2^15 format words in either copy with the other copy valid or uncorrectable, over random versions; whole symbols of all 1280 combinations with damaged format; distinct: (setting, word)",
            streams: vec![
                st("words", 2048, 2048 * 12, d::c04_words),
                st("decode", 1280 * 2, 1280 * 40, d::c04_decode),
            ],
            rates: vec![],
            must: &["both copies correctable", "only copy 1 correctable", "only copy 2 correctable", "no copy correctable"],
            assumptions: &[SPEC],
            threads: 0,
        },
        Prop {
            id: "C05",
            level: "exploration",
            rule: "transposed reference symbols of all 1280 combinations, half of them damaged within capacity (some with the first format copy lost), and transposed symbols with illegal payload; distinct: (version, level, mask, errors)",
            streams: vec![
                st("mirror", 1280 * 6, 1280 * 100, d::c05_mirror),
                st("errors", 6000, 100000, d::c05_errors),
            ],
            rates: vec![],
            must: &["mirrored symbols read", "mirrored symbols with the first format copy lost", "same outcome upright and mirrored"],
            assumptions: &[SPEC],
            threads: 0,
        },
        Prop {
            id: "C06",
            level: "exploration",
            rule: "valid symbols carrying legal, truncated, overlong, unknown-mode and random bit streams, judged by the reference parser; distinct: (version, level, data)",
            streams: vec![
                st("structured", 40000, 800000, d::c06_structured),
                st("random", 20000, 400000, d::c06_random),
                st("prefix", 60000, 1 << 20, d::c06_prefix),
            ],
            rates: vec![],
            must: &["Ok, UTF-8", "Ok, EncodingError from decode()", "DataUnderflow", "UnknownDataType"],
            assumptions: &[SPEC, "bit streams the standard gives no meaning (cut-off count field, digit group above 999, alphanumeric pair above 2024, ECI designator 111xxxxx) are only required not to crash"],
            threads: 0,
        },
        Prop {
            id: "C07",
            level: "fault_enumeration",
            rule: "a writer that fails (five error kinds, or accepts nothing) after every byte position, with short writes and interruptions, for symbols of every mode; distinct: (version, modes, fault position, chunk, interrupt)",
            streams: vec![st("every", 1500, 40000, d::c07_every)],
            rates: vec![],
            must: &["IoError reported", "complete writes", "interrupted writers"],
            assumptions: &[SPEC],
            threads: 0,
        },
        Prop {
            id: "C08",
            level: "exploration",
            rule: "arbitrary module matrices of all 40 versions, levels and masks: every raw bit compared with its module; single modules flipped; distinct: (version, level, mask, case) and (version, module)",
            streams: vec![
                st("raw", 1280 * 2, 1280 * 30, d::c08_raw),
                st("single", 240, 2400, d::c08_single),
            ],
            rates: vec![],
            must: &["raw bits compared", "data modules probed", "function modules probed"],
            assumptions: &[SPEC],
            threads: 0,
        },
        Prop {
            id: "C09",
            level: "exploration",
            rule: "grids of every size 0..200 and huge sizes: constant, random, sparse, periodic, inconsistent between reads, or real symbols under another size; monitored for out-of-grid reads, panics and read counts; distinct: (size, kind, outcome)",
            streams: vec![
                st("any", 40000, 1000000, d::c09_any),
                st("version", 3000, 100000, d::c09_version),
            ],
            rates: vec![],
            must: &["modules read", "sizes mapped to versions"],
            assumptions: &[],
            threads: 0,
        },
        Prop {
            id: "C10",
            level: "exploration",
            rule: "hostile pictures of 13 kinds, bent and squeezed finder figures in corner arrangement, empty, one-pixel-wide and very long pictures, black-and-white pictures taken as they are, points outside the picture, fields and rows of up to 1500 finder patterns; every pixel access goes through a monitored buffer; distinct: picture content",
            streams: vec![
                st("hostile", 13000, 400000, y::c10_hostile),
                st("big", 650, 20000, y::c10_big),
                st("raw", 8000, 200000, y::c10_raw),
                st("corner", 12000, 400000, y::c10_corner),
                st("shape", 600, 6000, y::c10_shape),
                st("points", 2000, 40000, y::c10_points),
                st("crowd", 60, 1500, y::c10_crowd),
            ],
            rates: vec![],
            must: &["pixel accesses watched", "trial groupings", "pictures: tiles", "pictures: odd shapes", "points asked for", "pictures of more than 255 finder patterns"],
            assumptions: &["a search that takes more than 200 million plus 60000 pixel accesses per pixel, or 150 s of CPU time, is taken not to end (worst seen: under 10000 per pixel)"],
            threads: 0,
        },
        Prop {
            id: "C11",
            level: "exploration",
            rule: "symbols of all versions drawn axis-aligned at 2 to 12 pixels per module with margins of at least one module, in all four rotations and mirrored, whole or damaged within capacity, in pictures up to several thousand pixels, on strips up to 70000 pixels, on light labels on something dark; distinct: (version, scale, rotation, mirror, level, mask)",
            streams: vec![
                st("clean", 8000, 100000, t::c11_clean),
                st("any", 4000, 40000, t::c11_any),
                st("big", 24, 200, t::c11_big),
                st("scale", 3000, 40000, t::c11_scale),
                st("page", 2500, 40000, t::c11_page),
                st("label", 1500, 20000, t::c11_label),
                st("long", 96, 1000, t::c11_long),
                st("damaged", 2000, 20000, t::c11_damaged),
            ],
            rates: vec![
                Rate { name: "symbols on labels on something dark", min: 0.99, min_n: 300 },
                Rate { name: "symbols with any data read", min: 0.98, min_n: 300 },
            ],
            must: &["clean symbols found exactly once and read", "damaged symbols found and read", "big images read", "mirrored images", "symbols on long strips found and read"],
            assumptions: &[SPEC, "symbols whose data happens to contain something like a fourth finder pattern (decided by a broader rule than any detector's) are left out where reading is required without exception"],
            threads: 0,
        },
        Prop {
            id: "C12",
            level: "exploration",
            rule: "symbols drawn through random rotations, mild and strong perspective, uneven light, sensor noise, low contrast, at any scale from 5 pixels per module to 3300 pixels for the symbol, anywhere on pages of any shape, on cards on something dark; distinct: (kind, version, angle, scale)",
            streams: vec![
                st("rotated", 1500, 60000, t::c12_rotated),
                st("rotated_v1", 1500, 60000, t::c12_rotated_v1),
                st("perspective", 1500, 60000, t::c12_perspective),
                st("middle", 1500, 30000, t::c12_middle),
                st("large", 250, 10000, t::c12_large),
                st("tilted", 1000, 20000, t::c12_tilted),
                st("light", 1500, 60000, t::c12_light),
                st("noise", 1500, 60000, t::c12_noise),
                st("contrast", 3000, 100000, t::c12_contrast),
                st("placed", 4320, 80000, t::c12_placed),
                st("huge", 160, 1600, t::c12_huge),
                st("steep", 800, 20000, t::c12_steep),
                st("card", 800, 20000, t::c12_card),
                st("illegible", 4000, 120000, t::c12_illegible),
                st("resized", 1600, 40000, t::c12_resized),
            ],
            rates: vec![
                Rate { name: "rotated", min: 0.99, min_n: 300 },
                Rate { name: "rotated version 1", min: 0.985, min_n: 300 },
                Rate { name: "perspective", min: 0.99, min_n: 300 },
                Rate { name: "rotated, versions 7 to 14", min: 0.92, min_n: 800 },
                Rate { name: "perspective, versions 7 to 14", min: 0.91, min_n: 800 },
                Rate { name: "uneven light", min: 0.99, min_n: 300 },
                Rate { name: "sensor noise", min: 0.99, min_n: 300 },
                Rate { name: "big modules, any distortion", min: 0.98, min_n: 200 },
                Rate { name: "symbols of 700 to 3300 pixels", min: 0.95, min_n: 60 },
                Rate { name: "turned, on a card on something dark", min: 0.985, min_n: 300 },
                Rate { name: "strong perspective", min: 0.985, min_n: 300 },
                Rate { name: "scaled and turned", min: 0.98, min_n: 300 },
                Rate { name: "scaled by any factor", min: 0.985, min_n: 300 },
                Rate { name: "low contrast", min: 0.998, min_n: 300 },
                Rate { name: "placed on a page", min: 0.99, min_n: 300 },
                Rate { name: "placed on a page, version 1", min: 0.98, min_n: 300 },
                Rate { name: "angle sector *", min: 0.95, min_n: 100 },
                Rate { name: "turned and *", min: 0.95, min_n: 100 },
                Rate { name: "at *", min: 0.7, min_n: 8 },
                Rate { name: "in line: 1 by 1", min: 0.94, min_n: 60 },
                Rate { name: "in line: *", min: 0.88, min_n: 30 },
            ],
            must: &["distorted images judged", "hardly legible symbols refused", "hardly legible symbols read"],
            assumptions: &[SPEC, "symbols whose data happens to contain something like a fourth finder pattern (decided by a broader rule than any detector's) are left out where reading is required without exception"],
            threads: 0,
        },
        Prop {
            id: "C13",
            level: "exploration",
            rule: "pictures of 2 to 258 symbols, of copies of one symbol, of large and small symbols together, of upright and turned symbols among up to 3000 marks, in frames and between rules, beside stray finder patterns, and of no symbol at all; placements where finder patterns of different symbols stand like those of one symbol are left out; distinct: case",
            streams: vec![
                st("aligned", 2500, 40000, m::c13_aligned),
                st("rotated", 600, 20000, m::c13_rotated),
                st("many", 600, 10000, m::c13_many),
                st("crowd", 16, 160, m::c13_crowd),
                st("sizes", 600, 8000, m::c13_sizes),
                st("framed", 1200, 12000, m::c13_framed),
                st("stray", 1200, 12000, m::c13_stray),
                st("same", 2000, 20000, m::c13_same),
                st("clutter", 1500, 20000, m::c13_clutter),
                st("turned", 400, 6000, m::c13_turned),
                st("none", 4000, 80000, m::c13_none),
            ],
            rates: vec![
                Rate { name: "symbols of a group, rotated", min: 0.97, min_n: 300 },
                Rate { name: "symbols beside stray finder patterns", min: 0.97, min_n: 300 },
                Rate { name: "rotated symbols among marks", min: 0.97, min_n: 300 },
                Rate { name: "random content not read", min: 0.99, min_n: 300 },
            ],
            must: &["symbols read, each exactly once", "pictures with more than 251 marks", "pictures of copies of one symbol", "pictures of 7 and more symbols", "pictures of more than 30 symbols", "pictures of large and small symbols", "pictures of framed symbols", "pictures with stray finder patterns"],
            assumptions: &[SPEC, "symbols whose data happens to contain something like a fourth finder pattern (decided by a broader rule than any detector's) are left out where reading is required without exception"],
            threads: 0,
        },
        Prop {
            id: "C14",
            level: "exploration",
            rule: "pictures of every kind searched one to three times, with copies taken before and searched in between; all pixels compared before and after, dark regions computed independently; distinct: picture content",
            streams: vec![
                st("state", 6000, 80000, y::c14_state),
                st("large", 40, 600, y::c14_large),
            ],
            rates: vec![],
            must: &["searches checked", "dark regions checked", "searches with more than 200 shades in use", "modules sampled", "large pictures"],
            assumptions: &[],
            threads: 0,
        },
        Prop {
            id: "C15",
            level: "exploration",
            rule: "symbols drawn at known places, also far from the origin on pages of other shapes: upright in all versions, rotations and mirrored; rotated by any angle and in mild perspective; several on a page; grids made without a picture; distinct: case",
            streams: vec![
                st("upright", 4000, 80000, m::c15_upright),
                st("rotated", 2000, 40000, m::c15_rotated),
                st("made", 400, 400, m::c15_made),
                st("several", 1200, 20000, m::c15_several),
                st("huge", 80, 1200, m::c15_huge),
            ],
            rates: vec![
                Rate { name: "distorted: corners within two and a half modules", min: 0.99, min_n: 300 },
                Rate { name: "strong perspective: corners within two and a half modules", min: 0.95, min_n: 100 },
                Rate { name: "huge: corners within two and a half modules", min: 0.95, min_n: 50 },
                Rate { name: "corners, angle sector *", min: 0.95, min_n: 50 },
                Rate { name: "corners, turned and *", min: 0.95, min_n: 50 },
            ],
            must: &["corner quadruples judged", "corners of symbols among others judged", "grids without a picture judged"],
            assumptions: &[SPEC, "symbols whose data happens to contain something like a fourth finder pattern (decided by a broader rule than any detector's) are left out where reading is required without exception"],
            threads: 0,
        },
        Prop {
            id: "C16",
            level: "exploration",
            rule: "every picture read from six sources (image, luminance function, two custom buffers, bitmap, unprepared image) and in the build without images; every grid decoded from three sources; pictures longer than 65536 pixels; distinct: picture content",
            streams: vec![
                st("sources", 4000, 80000, y::c16_sources),
                st("grids", 4000, 40000, y::c16_grids),
                st("noimg", 800, 8000, y::c16_noimg),
                st("long", 32, 400, y::c16_long),
            ],
            rates: vec![],
            must: &["grids compared", "pictures with a readable symbol", "grids compared over three sources", "pictures compared with the build without images", "pictures longer than 65536 pixels"],
            assumptions: &[],
            threads: 0,
        },
        Prop {
            id: "C17",
            level: "exploration",
            rule: "pictures and grids read again, in other orders, as copies, after other pictures, in new processes, and by four threads at once; prepared again in new and used threads; distinct: picture content or case",
            streams: vec![
                st("again", 4000, 80000, y::c17_again),
                st("threads", 150, 3000, y::c17_threads),
                st("decode", 4000, 80000, y::c17_decode),
                st("prepare", 8000, 80000, y::c17_prepare),
                st("process", 600, 8000, y::c17_process),
                st("unwound", 1500, 20000, y::c17_unwound),
            ],
            rates: vec![],
            must: &["calls unwound half way", "prepared pixels compared", "pictures read in new processes", "grids decoded again", "grids decoded by four threads at once", "grids decoded repeatedly"],
            assumptions: &[],
            threads: 0,
        },
        Prop {
            id: "C18",
            level: "exploration",
            rule: "pictures in rqrr's own buffers, more regions than can be remembered, grids of any size, arguments out of range, unwinding callbacks and threads, all under AddressSanitizer and MemorySanitizer; threads under ThreadSanitizer; small cases under Miri; distinct: case",
            streams: vec![
                st("images", 4000, 60000, k::images),
                st("regions", 600, 10000, k::regions),
                st("grids", 12000, 200000, k::grids),
                st("args", 3000, 60000, k::args),
                st("threads", 60, 2000, k::threads),
                st("tiny", 0, 0, k::tiny),
            ],
            rates: vec![],
            must: &[],
            assumptions: &["AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri report what they are documented to report"],
            threads: 0,
        },
        Prop {
            id: "C19",
            level: "exploration",
            rule: "symbols, waves, boxes and hostile pictures prepared, every pixel compared with the threshold rule computed in real numbers; two-level drawings; bitmaps and blank pages; distinct: picture content",
            streams: vec![
                st("rule", 15000, 200000, y::c19_rule),
                st("levels", 2000, 80000, y::c19_levels),
                st("exact", 2000, 80000, y::c19_exact),
                st("large", 160, 3000, y::c19_large),
            ],
            rates: vec![
                Rate { name: "two-level drawings kept exactly", min: 0.97, min_n: 300 },
            ],
            must: &["pixels that must be black", "pixels that must be white", "bitmap pixels compared", "large pictures"],
            assumptions: &["integer rounding moves the threshold by less than two grey levels; pixels that close to it are not judged"],
            threads: 0,
        },
        Prop {
            id: "C21",
            level: "exploration",
            rule: "the state of pictures before and after a search and all grids found in them, and random grids of all versions, written as PNG into a scratch directory and read back; distinct: picture content",
            streams: vec![
                st("dumps", 2000, 40000, y::c21_dumps),
                st("large", 40, 800, y::c21_large),
            ],
            rates: vec![],
            must: &["grid modules compared", "state pixels compared", "large pictures"],
            assumptions: &["the PNG reader of the image crate is right"],
            threads: 0,
        },
        Prop {
            id: "C22",
            level: "exploration",
            rule: "pixel accesses, module reads, heap peak and heap left counted for symbols of all versions, the same symbol and hostile pictures at growing resolution, hostile pictures, winding regions on a 512 KiB stack, and decoding of valid, damaged, mirrored and random grids; distinct: case",
            streams: vec![
                st("symbols", 2000, 40000, y::c22_symbols),
                st("hostile", 6500, 100000, y::c22_hostile),
                st("scaling", 400, 4000, y::c22_scaling),
                st("growth", 1400, 14000, y::c22_growth),
                st("large", 240, 4000, y::c22_large),
                st("maze", 400, 4000, y::c22_maze),
                st("decode", 4000, 80000, y::c22_decode),
            ],
            rates: vec![],
            must: &["symbol pictures measured", "hostile pictures measured", "scalings measured", "growths measured", "large pictures measured", "mazes: spiral", "grids decoded", "grids refused"],
            assumptions: &["the bounds are several times the worst seen on the unchanged tree"],
            threads: 0,
        },
        Prop {
            id: "C23",
            level: "exploration",
            rule: "every module of grids found in upright pictures of all versions and in rotated and perspective ones compared with what was drawn; distinct: case",
            streams: vec![
                st("upright", 4000, 80000, m::c23_upright),
                st("distorted", 2500, 60000, m::c23_distorted),
                st("huge", 80, 1200, m::c23_huge),
            ],
            rates: vec![
                Rate { name: "upright: every module sampled right", min: 0.99, min_n: 300 },
                Rate { name: "rotated: every module sampled right", min: 0.96, min_n: 300 },
                Rate { name: "perspective: every module sampled right", min: 0.96, min_n: 300 },
                Rate { name: "strong perspective: every module sampled right", min: 0.94, min_n: 100 },
                Rate { name: "huge: every module sampled right", min: 0.92, min_n: 50 },
                Rate { name: "modules, angle sector *", min: 0.95, min_n: 50 },
                Rate { name: "modules, turned and *", min: 0.95, min_n: 50 },
                Rate { name: "modules, version 1, turned and *", min: 0.8, min_n: 50 },
                Rate { name: "modules, drawn upright, version *", min: 0.8, min_n: 30 },
            ],
            must: &["modules compared"],
            assumptions: &[SPEC, "symbols whose data happens to contain something like a fourth finder pattern (decided by a broader rule than any detector's) are left out where reading is required without exception"],
            threads: 0,
        },
    ]
}
