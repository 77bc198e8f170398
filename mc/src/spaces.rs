//! Which spaces decide which property, per tier.

use crate::cases::Kind::{self, *};
use crate::engine::Space;
use crate::model::T::*;
use crate::prims::PRIMS;
use crate::sp_ctx::*;
use crate::sp_dec::*;
use crate::sp_five::*;
use crate::sp_more::*;
use crate::sp_val::*;
use crate::sp_wide::*;

fn bytes_mega(q: bool) -> Vec<usize> {
    let v = vec![(1 << 20) - 1, 1 << 20, (1 << 20) + 1, (1 << 22) + 1, 10_000_001];
    if q { v } else { v.into_iter().chain([(1 << 24) - 1, 1 << 24, (1 << 24) + 1, 33_333_333]).collect() }
}
fn dead_prefix() -> Vec<crate::model::Ins> { vec![UNR] }

fn typing(k: Kind, q: bool) -> Vec<Space> {
    let mut v = vec![
        tree(k, "tree-full", alpha_full(), if q { 4 } else { 5 }, vec![None, Some(I32), Some(F32)], vec![]),
        tree(k, "tree-core", alpha_core(), if q { 6 } else { 7 }, vec![None, Some(I32)], vec![]),
        tree(k, "tree-control", alpha_ctl(), if q { 7 } else { 9 }, vec![None], vec![]),
        tree(k, "tree-dead", alpha_dead(), if q { 5 } else { 6 }, vec![None, Some(I64)], dead_prefix()),
        branch_depths(k, if q { 40 } else { 140 }, if q { 1100 } else { 2100 }),
        br_tables(k, if q { 3 } else { 4 }),
        br_tables_long(k, if q { 140 } else { 300 }, if q { 70000 } else { 300000 }),
        ifs(k),
        long_bodies(k, if q { 300 } else { 1100 }, if q { 70000 } else { 300000 }),
        tall(k, if q { 70 } else { 300 }, if q { 20000 } else { 70000 }),
        grid(k, if q { 300 } else { 1100 }, &[5, 6]), body_returns(k), insides(k, if q { 1 } else { 3 }),
    ];
    v.push(if q { graph(k, 5, 4, 3, 6000) } else { graph(k, 8, 5, 4, 200000) });
    v
}

pub fn spaces(prop: &str, q: bool) -> Vec<Space> {
    match prop {
        "C01" => vec![
            mutate1(E2e),
            mutate2(E2e, if q { 60 } else { 120 }, interesting_bytes()),
            raw_bodies(E2e, interesting_bytes(), if q { 5 } else { 6 }),
            raw_modules(E2e, "raw-modules", interesting_bytes(), if q { 6 } else { 7 }),
            section_seqs(E2e, if q { 4 } else { 5 }),
            section_subsets(E2e), sized_all(E2e, if q { 17 } else { 140 }, if q { 300 } else { 5000 }),
            section_sizes(E2e),
            pairing(E2e),
            tree(E2e, "tree-full", alpha_full(), if q { 3 } else { 4 }, vec![None, Some(I32)], vec![]),
            tree(E2e, "tree-core", alpha_core(), if q { 5 } else { 6 }, vec![None, Some(I32)], vec![]),
            signatures(E2e, if q { 3 } else { 4 }),
            mem_ops(E2e), const_seqs(E2e, 2), limits(E2e), counts(E2e), types(E2e), starts(E2e), export_names(E2e, 3),
            index_values(E2e), index_mix(E2e, 1), locals(E2e, 2), body_lists(E2e, if q { 3 } else { 4 }), ifs(E2e), br_tables(E2e, 1),
            externs(E2e, 2, 1), mem_admin(E2e), customs(E2e, 20, 300),
            opcodes(E2e, if q { 3 } else { 4 }), later_versions(E2e), one_bad(E2e, if q { 20 } else { 140 }, if q { 5000 } else { 70000 }), tall(E2e, 5, 300), declared_limits(E2e),
            names_long(E2e, 70, 2100), name_units_in_place(E2e), const_long(E2e, 10, 1100), const_ops(E2e), calls(E2e, 2, 2), export_lists(E2e, 8, 300), branch_depths(E2e, 5, 130), preambles(E2e), pairing_big(E2e, 20, 300), pairing_patterns(E2e, 10, 140),
            empty_sections(E2e), below(E2e, if q { 10 } else { 70 }, if q { 130 } else { 1100 }), grid(E2e, if q { 1100 } else { 70000 }, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]), name_pairs(E2e), const_own(E2e, 1), body_returns(E2e),
            surroundings(E2e, ALL, !q), insides(E2e, if q { 1 } else { 2 }), engine_limits(E2e, !q), odd_one(E2e, if q { 8 } else { 40 }, if q { 260 } else { 5000 }), alike_types(E2e, if q { 17 } else { 257 }),
        ],
        "C02" => typing(Verdict, q),
        "C03" => {
            let mut v = vec![signatures(Verdict, if q { 4 } else { 5 }), calls(Verdict, if q { 3 } else { 4 }, 3), calls_long(Verdict, if q { 300 } else { 1100 }, if q { 20000 } else { 70000 })];
            v.extend([pairs(Verdict), contexts(Verdict), below(Verdict, if q { 40 } else { 140 }, if q { 300 } else { 5000 }), grid(Verdict, if q { 1100 } else { 70000 }, &[6]), insides(Verdict, 3), alike_types(Verdict, if q { 33 } else { 257 })]);
            v
        }
        "C04" => vec![mem_ops(Verdict), mem_admin(Verdict), declared_limits(Verdict), surroundings(Verdict, MEMORY, true)],
        "C05" => vec![surroundings(Verdict, INDEX, true), engine_limits(Verdict, true), odd_one(Verdict, if q { 70 } else { 300 }, if q { 5000 } else { 140000 }), alike_types(Verdict, 257), grid(Verdict, if q { 1100 } else { 70000 }, &[0, 1, 2, 3, 4, 5, 8, 10]), index_mix(Verdict, if q { 3 } else { 4 }), locals(Verdict, if q { 3 } else { 4 }), index_big(Verdict, if q { 70 } else { 300 }, if q { 20000 } else { 140000 }), index_values(Verdict), one_bad(Verdict, if q { 40 } else { 300 }, if q { 20000 } else { 70000 })],
        "C06" => vec![surroundings(Verdict, CONST, true), const_seqs(Verdict, if q { 4 } else { 5 }), const_ops(Verdict), const_own(Verdict, 2), const_globals(Verdict, if q { 40 } else { 130 }, if q { 2100 } else { 5000 }), const_long(Verdict, if q { 130 } else { 300 }, if q { 20000 } else { 70000 }), one_bad(Verdict, if q { 20 } else { 140 }, if q { 5000 } else { 70000 })],
        "C07" => vec![surroundings(Verdict, WIDE, true), engine_limits(Verdict, true), odd_one(Verdict, if q { 20 } else { 300 }, if q { 5000 } else { 70000 }), limits(Verdict), counts(Verdict), many_tables(Verdict, if q { 300 } else { 1100 }, if q { 70000 } else { 300000 }), types(Verdict), types_big(Verdict, if q { 300 } else { 1100 }, if q { 70000 } else { 300000 }), starts(Verdict), start_sizes(Verdict, if q { 300 } else { 1100 }, 70000), one_bad(Verdict, if q { 20 } else { 140 }, if q { 5000 } else { 70000 })],
        "C08" => vec![surroundings(Verdict, NAMES, true), export_every_char(Verdict, true), export_names(Verdict, if q { 6 } else { 7 }), export_chars(Verdict, if q { 1500 } else { 5000 }), export_lists(Verdict, if q { 70 } else { 150 }, if q { 20000 } else { 70000 }), export_long_names(Verdict, if q { 300 } else { 1100 }, if q { 140000 } else { 1 << 20 })],
        "C09" => vec![name_relations(Externs, if q { 2 } else { 3 }), surroundings(Externs, EXTERN, true), odd_one(Externs, if q { 40 } else { 300 }, if q { 5000 } else { 70000 }), alike_types(Externs, if q { 17 } else { 257 }), externs(Externs, if q { 3 } else { 4 }, 3), externs_big(Externs, if q { 300 } else { 1100 }, if q { 70000 } else { 300000 }), limits(Externs), starts(Externs), index_mix(Externs, if q { 2 } else { 3 })],
        "C10" => vec![
            nests(Nest, vec![0, 1, 2, 10, 63, 64, 100, 127, 128, 129, 200, 255, 256, 257, 500, 512, 1000, 1024, 2000]),
            nests(Deep, vec![200_000]),
            mutate1(Robust),
            mutate2(Robust, if q { 60 } else { 120 }, interesting_bytes()),
            raw_bodies(Robust, interesting_bytes(), if q { 4 } else { 6 }),
            raw_modules(Robust, "raw-modules", all_bytes(), 3),
            raw_modules(Robust, "raw-modules-deep", interesting_bytes(), if q { 5 } else { 7 }),
            inflated_sections(Robust), section_sizes(Robust), compact_overflow(Robust, true),
            mem_ops(Robust), mem_admin(Robust), index_values(Robust), limits(Robust), const_seqs(Robust, 2), const_ops(Robust),
            tree(Robust, "tree-full", alpha_full(), if q { 3 } else { 4 }, vec![None, Some(I32)], vec![]),
            tree(Robust, "tree-dead", alpha_dead(), if q { 3 } else { 4 }, vec![None], dead_prefix()),
            branch_depths(Robust, 10, 300), br_tables(Robust, 1), br_tables_long(Robust, 3, if q { 70000 } else { 300000 }), long_bodies(Robust, 20, 20000), ifs(Robust),
            signatures(Robust, 2), calls_long(Robust, 20, 2100), many_tables(Robust, 20, 300), types_big(Robust, 20, 1100), starts(Robust), pairing(Robust), export_names(Robust, 3),
            names_long(Robust, if q { 300 } else { 1100 }, 70000), one_bad(Robust, 8, 1100), tall(Robust, 5, 300), opcodes(Robust, if q { 2 } else { 3 }), later_versions(Robust), fills(Robust, 5, 300), externs(Robust, 2, 1), customs(Robust, 20, 300), declared_limits(Robust),
            sections_big(Robust, 20, if q { 20000 } else { 70000 }), entry_big(Robust, 20, 70000), sized_all(Robust, if q { 20 } else { 140 }, if q { 1100 } else { 70000 }), grid(Robust, if q { 260 } else { 70000 }, &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]), names_everywhere(Robust, if q { 600 } else { 5000 }), empty_sections(Robust), below(Robust, 5, 70), const_own(Robust, 1), body_returns(Robust),
            bytes_tree(Prim, "expr-bytes", vec!["expr", "instr", "constexpr"], interesting_bytes(), if q { 5 } else { 6 }, vec![]),
        ],
        "C11" => vec![inflated(Mem), inflated_elements(Mem), inflated_sections(Mem), inflated_nested(Mem, 70000), compact_overflow(Mem, false), compact_overflow(Mem, true), honest(Mem, if q { 70000 } else { 300000 }), compact(Mem, 2), honest_inside(Mem, if q { 70000 } else { 300000 }), sized_all(Mem, if q { 70 } else { 300 }, if q { 20000 } else { 140000 }), waiting(Mem, if q { 20000 } else { 70000 }, if q { 1000 } else { 2000 }), waiting_things(Mem, if q { 20000 } else { 140000 }, if q { 1000 } else { 2000 }), mutate1(Mem)],
        "C12" => vec![
            mega(Decode, &[9, 11, 14], bytes_mega(q)), structure(Prim, if q { 8 } else { 10 }),
            immediates(Prim),
            bytes_tree(Prim, "expr-all-bytes", vec!["expr"], all_bytes(), if q { 2 } else { 3 }, vec![]),
            bytes_tree(Prim, "expr-bytes", vec!["expr", "instr", "constexpr"], vec![0x00, 0x01, 0x02, 0x03, 0x04, 0x05, 0x0B, 0x0C, 0x0E, 0x11, 0x28, 0x40, 0x41, 0x7F, 0x80], if q { 6 } else { 7 }, vec![]),
            expr_sizes(Prim, if q { 300 } else { 1100 }, if q { 140000 } else { 1 << 20 }, 2000),
            tree(Decode, "tree-full", alpha_full(), if q { 3 } else { 4 }, vec![None], vec![]),
            tree(Decode, "tree-core", alpha_core(), if q { 5 } else { 6 }, vec![None], vec![]),
            signatures(Decode, 1), br_tables(Decode, 2), leb_in_place(Prim), float_consts(Prim),
            opcodes(Prim, if q { 3 } else { 4 }), later_versions(Decode), pairs_at(Prim), runs_at(Prim, if q { 3 } else { 4 }),
            repetitions(Prim, if q { 7 } else { 9 }), raw_entries(Prim, "expr-raw", vec!["expr", "instr"], vec![0x00, 0x02, 0x04, 0x05, 0x0B, 0x0E, 0x1C, 0x40, 0x41, 0x7F], if q { 6 } else { 7 }),
        ],
        "C13" => {
            let mut v = vec![
                bytes_tree(Prim, "entry-all-bytes", ENTRIES.to_vec(), all_bytes(), if q { 2 } else { 3 }, vec![]),
                bytes_tree(Prim, "entry-bytes", ENTRIES.to_vec(), entry_alpha(), if q { 5 } else { 6 }, vec![]),
            ];
            for (n, e, p) in [("import-desc", "import", vec![0u8, 1, b'a']), ("func-type", "functype", vec![0x60]), ("elem-tail", "elem", vec![0, 0x41, 0, 0x0B]), ("data-tail", "data", vec![0, 0x41, 0, 0x0B]), ("global-init", "global", vec![0x7F, 1]), ("func-locals", "func", vec![2, 1, 0x7F]), ("export-desc", "export", vec![1, b'e'])] {
                v.push(bytes_tree(Prim, n, vec![e], entry_alpha(), if q { 5 } else { 6 }, p));
            }
            v.extend([externs(Decode, 3, 1), index_values(Decode), limits(Decode), const_seqs(Decode, 2), types(Decode), starts(Decode), locals(Decode, 2), index_mix(Decode, 1),
                sections_big(Decode, if q { 300 } else { 1100 }, 70000), entry_big(Decode, if q { 300 } else { 1100 }, if q { 70000 } else { 300000 }), vec_sizes(Prim, 40, 300), compact(Prim, 2),
                raw_entries(Prim, "entry-raw", ENTRIES.to_vec(), vec![0x00, 0x01, 0x02, 0x0B, 0x41, 0x60, 0x70, 0x7F], if q { 6 } else { 7 }), mutate_elements(Prim, if q { 4 } else { 12 }), later_versions(Decode),
                mega(Decode, &[2, 8, 10, 12, 13], bytes_mega(q)), fills_long(Decode, if q { vec![65535, 65536, 65537] } else { vec![65535, 65536, 65537, 131071, 131072, 131073, 262144, 300001] }), fills(Decode, if q { 70 } else { 300 }, if q { 20000 } else { 70000 }), names_long(Decode, if q { 70 } else { 300 }, 20000), name_pairs(Decode), names_everywhere(Decode, if q { 300 } else { 5000 }), grid(Decode, if q { 300 } else { 70000 }, &[0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11]), empty_sections(Decode), lists(Decode, if q { 5 } else { 6 }), surroundings(Decode, INDEX | CONST | NAMES | WIDE, false), sized_all(Decode, if q { 40 } else { 140 }, 5000)]);
            v
        }
        "C14" => vec![mega(Decode, &[0, 1], bytes_mega(q)), reordered(Decode, !q), custom_names(Decode), preambles(Decode), section_seqs(Decode, if q { 5 } else { 6 }), section_subsets(Decode), section_sizes(Decode), customs(Decode, 300, if q { 140000 } else { 1 << 20 }), custom_bytes(Decode, if q { 6 } else { 7 }), tails(Decode),
            raw_modules(Decode, "raw-modules", all_bytes(), if q { 3 } else { 4 }), later_versions(Decode), names_long(Decode, 20, 300), empty_sections(Decode)],
        "C15" => vec![pairing(Decode), pairing_big(Decode, if q { 300 } else { 1100 }, if q { 70000 } else { 300000 }), section_subsets(Decode), body_sizes(Decode, 20, 300), pairing_patterns(Decode, if q { 70 } else { 300 }, if q { 5000 } else { 70000 }), index_values(Decode), fills(Decode, 20, 300)],
        "C16" => vec![cuts(Decode, "cut-bases", "every base module cut at every byte", crate::bases::all()), cut_subsets(Decode), cut_big(Decode, if q { 300 } else { 1100 }, if q { 140000 } else { 300000 }),
            cuts(Decode, "cut-padded", "every small base module with padded integers cut at every byte", crate::bases::small().iter().flat_map(|m| (1..=4).map(move |p| crate::model::encode_pad(m, p))).collect())],
        "C17" => {
            let ints = vec!["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"];
            let mut v = vec![
                bytes_tree(Prim, "leb-short", ints, all_bytes(), if q { 3 } else { 4 }, vec![]),
                leb_long(Prim, if q { 2 } else { 3 }, !q),
                leb_values(Prim), leb_in_place(Prim), pads(Prim, if q { 300 } else { 1100 }, if q { 70000 } else { 300000 }),
                leb_all(Prim, "leb-all-u16", "u16", 1 << 16), leb_all(Prim, "leb-all-i16", "i16", 1 << 16),
            ];
            if !q { v.push(leb_all(Prim, "leb-all-u32", "u32", 1 << 32)); v.push(leb_all(Prim, "leb-all-i32", "i32", 1 << 32)) }
            v
        }
        "C18" => vec![f32s(Prim, false), f64s(Prim, !q), float_consts(Prim), byte_arrays(Prim),
            bytes_tree(Prim, "array-bytes", vec!["byte", "byte0", "byte1", "byte2", "byte3", "byte4", "byte5", "byte6", "byte7", "byte8", "f32", "f64", "u32x3", "u8x0", "u8x1", "u8x2", "u8x3", "u8x4", "u8x5", "u8x6", "u8x7", "u8x8", "valx4", "valx7", "valx8"], vec![0, 1, 0x7F, 0x80, 0xFF], if q { 9 } else { 10 }, vec![]), crate::elems::arrays(),
            bytes_tree(Prim, "array-all-bytes", vec!["byte1", "byte2", "byte3", "byte"], all_bytes(), 3, vec![])]
            .into_iter().chain(if q { None } else { Some(f32s(Prim, true)) }).collect(),
        "C19" => vec![mega(Prim, &[5, 7], bytes_mega(q)), mega(Decode, &[3, 4], bytes_mega(q)), name_scalars(Prim), name_bytes(Prim, "name-bytes", all_bytes(), 3), name_bytes(Prim, "name-edges", utf8_edges(), if q { 4 } else { 6 }), name_long(Prim, if q { 300 } else { 1100 }, if q { 140000 } else { 1 << 20 }), names_in_place(Decode), name_units(Prim, if q { 3 } else { 4 }), name_units_at(Prim, if q { 70 } else { 300 }, if q { 20000 } else { 70000 }), name_units_in_place(Decode), name_pairs(Decode), names_everywhere(Decode, if q { 600 } else { 5000 }),
            vec_sizes(Prim, if q { 300 } else { 1100 }, if q { 140000 } else { 1 << 20 }), vec_bad(Prim, 130, 70000), compact(Prim, 2),
            bytes_tree(Prim, "vec-bytes", VECS.to_vec(), vec![0, 1, 2, 3, 0x0B, 0x41, 0x60, 0x61, 0x70, 0x7C, 0x7F, 0x80, 0xC3, 0xFF], if q { 5 } else { 6 }, vec![])],
        "C20" => vec![mega(Prim, &[6, 15], bytes_mega(q)), bytes_tree(Prim, "sized-bytes", SIZED.to_vec(), vec![0, 1, 2, 3, 4, 5, 0x0B, 0x61, 0x7F, 0x80, 0x81, 0xFF], if q { 6 } else { 7 }, vec![]), sized_delta(Prim, if q { 300 } else { 1100 }, if q { 70000 } else { 300000 }), body_sizes(Decode, if q { 70 } else { 130 }, if q { 2100 } else { 5000 }), section_sizes(Decode),
            bytes_tree(Prim, "sized-all-bytes", SIZED.to_vec(), all_bytes(), 3, vec![])],
        "C21" => vec![streams(Stream, if q { 4 } else { 8 }, 2), stream_bytes(Stream, vec!["u32", "i64", "byte2", "string", "vec-byte", "vec-u32", "sized-byte", "sized-consume", "expr", "limits", "functype", "compact-val", "sized-vec-byte", "f32"], vec![0, 1, 2, 3, 0x0B, 0x60, 0x7F, 0x80, 0xFF], if q { 4 } else { 5 }), stream_modules(Stream), stream_pads(Stream, if q { 20 } else { 40 }), stream_long(Stream, 300, 70000), stream_names(Stream)],
        "C22" => {
            let mut v = vec![congruent(Seq, if q { 13 } else { 17 }), histories(History, 1), histories(History, 2), histories(History, 3), alternations(History, if q { 16 } else { 64 }), repeats(Repeat, if q { 20000 } else { 300000 }), bursts(History, if q { 130 } else { 1100 }), cycles(Cycle, if q { 6000 } else { 70000 }), cycles_invalid(Cycle, if q { 6000 } else { 70000 })];
            v.extend([near_twins(Seq, if q { 4 } else { 12 }), cross_twins(Seq, if q { 4 } else { 12 }), long_twins(Seq, if q { 24 } else { 140 }), big_small(Seq, if q { 5000 } else { 70000 })]);
            if !q { v.push(histories(History, 4)) }
            v
        }
        "C23" => {
            let all: Vec<&'static str> = PRIMS.iter().map(|p| p.name).collect();
            vec![
                bytes_tree(ErrKind, "errors-all-bytes", all.clone(), all_bytes(), 2, vec![]),
                bytes_tree(ErrKind, "errors-bytes", all, vec![0, 1, 2, 3, 4, 5, 0x0B, 0x41, 0x60, 0x70, 0x7F, 0x80, 0xC3, 0xFF], if q { 4 } else { 5 }, vec![]),
                cuts(ErrKind, "cut-bases", "every base module cut at every byte", crate::bases::all()),
                mutate1(ErrKind), mutate2(ErrKind, if q { 36 } else { 60 }, vec![0, 1, 5, 0x0B, 0x7F, 0x80, 0xFF]), preambles(ErrKind), section_seqs(ErrKind, 3), section_sizes(ErrKind), leb_long(ErrKind, 1, false), tails(ErrKind),
                name_bytes(ErrKind, "name-edges", utf8_edges(), if q { 3 } else { 4 }), body_sizes(ErrKind, 6, 20), sized_delta(ErrKind, 40, 300), pairing(ErrKind), custom_bytes(ErrKind, 5), immediates(ErrKind), opcodes(ErrKind, 2), later_versions(ErrKind), name_units(ErrKind, 2), mutate_elements(ErrKind, if q { 2 } else { 8 }),
            ]
        }
        "C24" => vec![cli_long(Cli, if q { 20000 } else { 1000000 }), cli_args(Cli, 3), cli_names(Cli), cli_raw(Cli), cli_links(Cli), cli_paths(Cli), cli_modules(Cli), cli_sizes(Cli, if q { 20 } else { 24 })],
        "C25" => vec![body_returns(Indep), body_returns(Verdict), grid(Verdict, if q { 300 } else { 5000 }, &[0, 4, 10]), body_lists(Indep, if q { 3 } else { 4 }), body_many(Indep, if q { 30 } else { 70 }, if q { 140 } else { 300 }), body_many(Verdict, 8, if q { 7000 } else { 70000 }), body_leaks(Indep, if q { 70 } else { 130 }, if q { 5000 } else { 20000 }), body_leaks(Verdict, 20, if q { 20000 } else { 70000 }), locals_pairs(Indep, if q { 24 } else { 140 }, if q { 1100 } else { 5000 })],
        "C26" => vec![nestings(Nested, 2, 400), nestings(Nested, 3, if q { 6 } else { 12 }), schedules(Sched, if q { 40 } else { 400 }, 2), schedules(Sched, if q { 5 } else { 8 }, if q { 4 } else { 6 })],
        "C27" => vec![crate::trees::all(if q { 4 } else { 5 }), crate::trees::immediates(), crate::trees::shapes(if q { 4 } else { 5 })],
        "C28" => vec![crate::elems::short(if q { 5 } else { 6 }, 4), crate::elems::long(if q { 70 } else { 300 }, if q { 5000 } else { 70000 }), crate::elems::arrays(), crate::elems::structured(if q { 3 } else { 4 })],
        "C29" => vec![pairs_bases(Pair), pairs_instrs(Pair), pairs_alike(Pair, if q { 300 } else { 1500 }), pairs_big(Pair, if q { 70 } else { 300 }, if q { 5000 } else { 70000 }), pairs_fields(Pair), pairs_lists(Pair, if q { 4 } else { 5 })],
        _ => vec![],
    }
}

pub fn assumptions(prop: &str) -> Vec<&'static str> {
    let mut v = vec!["the bounds named for each space", "the reference model of WebAssembly 1.0 in mc/src (refdec, refval), itself run against every explored input"];
    match prop {
        "C24" => v.push("the tool is built by cargo from /repo's own package; standard output is open and takes everything"),
        "C10" => v.push("stack of 8 MiB for nesting depth; inputs expanding to more than 2^20 locals are skipped"),
        "C11" => v.push("allocations of the decoding thread are what the global allocator sees"),
        "C26" => v.push("decodes are interleaved where they read a byte; validation and printing run in one go; two threads and up to three nested decodes"),
        "C27" => v.push("the verdict is judged only for trees that a binary can encode; for others that there is one, and the same twice"),
        "C28" => v.push("element decoders are those of mc/src/elems.rs: so many bytes per call, failing at a chosen call with a chosen error"),
        "C29" => v.push("modules with NaN or negative zero constants are left out"),
        "C25" => v.push("judged by the implementation's own verdict on each function alone; no reference verdict involved for the independence spaces"),
        _ => {}
    }
    v
}
