# Which harness entries decide which property, with their bounds.
COMMON_ASSUMPTIONS = [
    "Bounded: every claim holds for all values within the stated sizes; larger inputs are outside the check.",
    "The executor models LLVM IR of clang -O1 -disable-llvm-passes after sroa/early-cse/simplifycfg; Z3, clang and the executor are trusted (counterexamples are replayed natively before being reported).",
    "Single-threaded execution; plain malloc/free stands in for the bundled dlmalloc.",
]
PROPS = {}
def prop(pid, **kw):
    PROPS[pid] = dict(jobs=[], **kw)
def job(pid, harness, entry, mods=("runtime",), name=None, **kw):
    PROPS[pid]["jobs"].append(dict(harness=harness, entry=entry, mods=list(mods), name=name or entry, **kw))


prop("C01")
job("C01", "utf.cpp", "h_utf8_any", params={"N": 5}, thorough={"N": 7})
job("C01", "utf.cpp", "h_utf8_points")
job("C01", "utf.cpp", "h_utf8_two")
job("C01", "utf.cpp", "h_utf16le_any", params={"N": 6}, thorough={"N": 8})
job("C01", "utf.cpp", "h_utf16be_any", params={"N": 6}, thorough={"N": 8})
job("C01", "utf.cpp", "h_utf16_points")
job("C01", "utf.cpp", "h_bytes")

prop("C03")
job("C03", "instream.cpp", "h_in_view", params={"OPS": 4}, thorough={"OPS": 5}, time=60)
job("C03", "instream.cpp", "h_in_pipe", params={"OPS": 3, "PICKS": 2, "SZHI": 4}, thorough={"OPS": 4, "PICKS": 3, "SZHI": 7}, time=100, ttime=900)
job("C03", "instream.cpp", "h_in_pipe", name="h_in_pipe_big", params={"OPS": 2, "PICKS": 3, "SZLO": 4, "SZHI": 7, "LENLO": 3}, thorough={"OPS": 3}, time=100)
job("C03", "instream.cpp", "h_in_boundary", params={"N": 140}, thorough={"N": 260})
job("C03", "instream.cpp", "h_in_far", params={"ROUNDS": 1}, thorough={"ROUNDS": 2})

job("C03", "fdpipe.cpp", "h_fd_in", params={"FAULTS": 3}, thorough={"FAULTS": 4})

prop("C04")
job("C04", "outstream.cpp", "h_out_view", params={"OPS": 4}, thorough={"OPS": 6})
job("C04", "outstream.cpp", "h_out_mem", params={"OPS": 3}, thorough={"OPS": 4})
job("C04", "outstream.cpp", "h_out_pipe", params={"OPS": 3}, thorough={"OPS": 4}, ttime=900)
job("C04", "outstream.cpp", "h_out_pipe", name="h_out_pipe_fail", params={"OPS": 3, "FAIL": 1}, thorough={"OPS": 4}, ttime=900)
job("C04", "outstream.cpp", "h_out_pipe", name="h_out_pipe_fail4", params={"OPS": 4, "FAIL": 1, "SZLO": 2, "SZHI": 4}, thorough={"OPS": 5}, ttime=900)
job("C04", "outstream.cpp", "h_out_blocks")
job("C04", "outstream.cpp", "h_blocklist", params={"OPS": 4}, thorough={"OPS": 5})
job("C04", "fdpipe.cpp", "h_fd_out", params={"FAULTS": 3}, thorough={"FAULTS": 5})
job("C04", "fdpipe.cpp", "h_fd_stream")

prop("C02")
job("C02", "textconv.cpp", "h_conv_string", params={"N": 5}, thorough={"N": 6})
job("C02", "textconv.cpp", "h_conv_read", params={"N": 3}, thorough={"N": 4})
job("C02", "textconv.cpp", "h_conv_read_block", params={"N": 4}, thorough={"N": 5})
job("C02", "textconv.cpp", "h_conv_write", params={"N": 4, "ROOM": 2}, thorough={"N": 5, "ROOM": 3}, ttime=600)
job("C02", "textconv.cpp", "h_newline_in", params={"N": 5}, thorough={"N": 6})
job("C02", "textconv.cpp", "h_newline_out", params={"N": 5}, thorough={"N": 6})
job("C02", "textconv.cpp", "h_format_roundtrip", params={"POINTS": 3}, thorough={"POINTS": 4}, ttime=600)
job("C02", "textconv.cpp", "h_format_detect", params={"POINTS": 3}, thorough={"POINTS": 4}, ttime=600)
job("C02", "textconv.cpp", "h_import_any", params={"N": 4}, thorough={"N": 5}, ttime=600)

prop("C05")
for t in ("u8", "s8", "u16", "s16", "u64", "s64"):
    job("C05", "numbers.cpp", "h_parse_" + t, params={"N": 4, "RADS": 4}, thorough={"N": 5, "RADS": 8}, ttime=300, rlimit=60)
for t in ("u8", "s8", "u16", "s16", "u32", "s32", "u64", "s64"):
    job("C05", "numbers.cpp", "h_limit_" + t, params={"RADS": 4}, thorough={"RADS": 0}, ttime=300)
job("C05", "numbers.cpp", "h_print_16", params={"RADS": 4}, thorough={"RADS": 12}, time=100, ttime=800, rlimit=60)
job("C05", "numbers.cpp", "h_print_64", params={"RADS": 8, "W": 6}, thorough={"RADS": 0, "W": 8}, ttime=800)
job("C05", "numbers.cpp", "h_print_64_pow2", time=100)
job("C05", "numbers.cpp", "h_to_u8")
job("C05", "numbers.cpp", "h_to_s32")
job("C05", "numbers.cpp", "h_parse_chunks")

prop("C06")
job("C06", "containers.cpp", "h_array", params={"OPS": 3}, thorough={"OPS": 4})
job("C06", "containers.cpp", "h_array_grow", thorough={"N": 70})
job("C06", "containers.cpp", "h_views", thorough={"N": 4})
job("C06", "containers.cpp", "h_fixed")
for e in ("small", "half", "odd", "block", "huge"):
    job("C06", "containers.cpp", "h_seq_" + e, thorough={"OPS": 3, "N": 4})

prop("C07")
job("C07", "hashmap.cpp", "h_map_4", params={"OPS": 3}, thorough={"OPS": 4}, time=150)
job("C07", "hashmap.cpp", "h_map_8", params={"OPS": 2}, thorough={"OPS": 3})
job("C07", "hashmap.cpp", "h_map_wrap", params={"OPS": 3}, thorough={"OPS": 4}, time=150)
job("C07", "hashmap.cpp", "h_map_ids")
job("C07", "hashmap.cpp", "h_map_far", thorough={"G1LO": 118})
job("C07", "hashmap.cpp", "h_map_grow", thorough={"N": 120})
job("C07", "hashmap.cpp", "h_map_strings")

prop("C08")
job("C08", "btree.cpp", "h_btree_4", params={"OPS": 2, "NHI": 16, "ORDERS": 1, "FIND": 0}, thorough={"NHI": 26, "ORDERS": 3}, fork=True)
job("C08", "btree.cpp", "h_btree_4", name="h_btree_4_deep", params={"OPS": 1, "NHI": 30, "FIND": 0}, thorough={"NHI": 60}, fork=True)
job("C08", "btree.cpp", "h_btree_4", name="h_btree_4_find", params={"OPS": 0, "NHI": 30}, thorough={"NHI": 80}, fork=True)
job("C08", "btree.cpp", "h_btree_4", name="h_btree_4_both", params={"OPS": 1, "NHI": 6, "ORDERS": 1}, thorough={"NHI": 24, "ORDERS": 3}, fork=True)
job("C08", "btree.cpp", "h_btree_8", params={"OPS": 1, "NHI": 30, "FIND": 0}, thorough={"NHI": 80}, fork=True)
job("C08", "btree.cpp", "h_btree_8", name="h_btree_8_two", params={"OPS": 2, "NLO": 7, "NHI": 10, "ORDERS": 1, "FIND": 0}, thorough={"NHI": 18}, fork=True)
job("C08", "btree.cpp", "h_btree_8", name="h_btree_8_find", params={"OPS": 0, "NHI": 30}, thorough={"NHI": 80}, fork=True)
job("C08", "btree.cpp", "h_btree_sym4", params={"N": 5}, thorough={"N": 7}, fork=True)
job("C08", "btree.cpp", "h_btree_sym8", params={"N": 5}, thorough={"N": 7}, fork=True)

prop("C09")
for e, n, t in (("view", 5, 6), ("affix", 4, 5), ("compare", 3, 4), ("trim", 5, 6), ("split", 6, 7), ("transform", 4, 5)):
    job("C09", "strings.cpp", "h_" + e, params={"N": n}, thorough={"N": t}, ttime=600)
job("C09", "strings.cpp", "h_reverse_utf8", params={"N": 4, "POINTS": 3}, thorough={"N": 5}, ttime=600)
job("C09", "strings.cpp", "h_concat")
job("C09", "strings.cpp", "h_own", params={"OPS": 3}, thorough={"OPS": 4})

prop("C10")
job("C10", "textfmt.cpp", "h_escape_quote", params={"N": 3}, thorough={"N": 4}, ttime=800)
job("C10", "textfmt.cpp", "h_quoted", params={"N": 5}, thorough={"N": 6}, ttime=600)
job("C10", "textfmt.cpp", "h_quoted", name="h_quoted_triple", params={"N": 10, "TRIPLE": 1}, thorough={"N": 12}, ttime=600)
job("C10", "textfmt.cpp", "h_quoted_pieces", params={"N": 4}, thorough={"N": 5}, ttime=600)
job("C10", "textfmt.cpp", "h_xml", params={"N": 3}, thorough={"N": 4}, ttime=600)
job("C10", "textfmt.cpp", "h_max_points", params={"N": 4}, thorough={"N": 5}, ttime=600)
job("C10", "textfmt.cpp", "h_winarg", params={"N": 4}, thorough={"N": 6}, ttime=600)
job("C10", "textfmt.cpp", "h_scan", params={"N": 4}, thorough={"N": 5}, ttime=600)
job("C10", "textfmt.cpp", "h_special", params={"N": 5}, thorough={"N": 7}, ttime=600)
job("C10", "textfmt.cpp", "h_format", params={"N": 5}, thorough={"N": 6}, ttime=600)

prop("C11")
for e, q, t in (("owned", 5, 6), ("optionally", 5, 6), ("reference", 4, 5), ("weak", 5, 6), ("functor", 5, 6), ("switch", 4, 5)):
    job("C11", "own.cpp", "h_" + e, params={"OPS": q}, thorough={"OPS": t}, ttime=400)
for e in ("owned_chain", "reference_chain", "functor_string", "any", "boxed", "small"):
    job("C11", "own.cpp", "h_" + e)

prop("C12")
job("C12", "pool.cpp", "h_pool", params={"OPS": 6}, thorough={"OPS": 8})
job("C12", "pool.cpp", "h_pool", name="h_pool_prefilled", params={"OPS": 5, "PREFILL": 1}, thorough={"OPS": 6})
job("C12", "pool.cpp", "h_pool_handle")
job("C12", "pool.cpp", "h_bigpool", params={"OPS": 4}, thorough={"OPS": 5})
job("C12", "pool.cpp", "h_labels", params={"N": 4, "LETTERS": 2}, thorough={"N": 5}, ttime=400)
job("C12", "pool.cpp", "h_label_length")
job("C12", "pool.cpp", "h_labels_long")
job("C12", "pool.cpp", "h_hash128")
job("C12", "pool.cpp", "h_hasher")

prop("C13")
for e in ("sort", "sort_down", "sort_weak"):
    job("C13", "algo.cpp", "h_" + e, params={"N": 5}, thorough={"N": 7}, ttime=400)
job("C13", "algo.cpp", "h_sort_records", params={"N": 4}, thorough={"N": 6}, ttime=400)
job("C13", "algo.cpp", "h_sort_long", params={"N": 9}, thorough={"N": 11}, ttime=400)
job("C13", "algo.cpp", "h_find", params={"N": 4}, thorough={"N": 6}, ttime=400)
job("C13", "algo.cpp", "h_filter", params={"N": 5}, thorough={"N": 7}, ttime=400)
job("C13", "algo.cpp", "h_fold", params={"N": 4}, thorough={"N": 6}, ttime=400)
job("C13", "algo.cpp", "h_random")
job("C13", "algo.cpp", "h_numeric")

prop("C14")
job("C14", "paths.cpp", "h_path_join", params={"N": 5, "K": 3}, thorough={"N": 6, "K": 4}, ttime=600)
job("C14", "paths.cpp", "h_path_relative", params={"N": 4}, thorough={"N": 5}, ttime=600)
job("C14", "paths.cpp", "h_path_split", params={"N": 6}, thorough={"N": 8}, ttime=600)
job("C14", "paths.cpp", "h_path_convert")
job("C14", "paths.cpp", "h_path_win32")

prop("C18")
job("C18", "pylon.cpp", "h_pylon_any", mods=("runtime", "pylon"), params={"N": 3}, thorough={"N": 4}, ttime=800)
job("C18", "pylon.cpp", "h_pylon_property", mods=("runtime", "pylon"), params={"N": 3})
job("C18", "pylon.cpp", "h_pylon_tokens", mods=("runtime", "pylon"), params={"N": 5, "KINDS": 10}, thorough={"KINDS": 16}, ttime=800)
job("C18", "pylon.cpp", "h_pylon_tokens", name="h_pylon_tokens_errors", mods=("runtime", "pylon"), params={"N": 3, "KINDS": 16, "REPORT": 1}, thorough={"N": 4}, ttime=800)
job("C18", "pylon.cpp", "h_pylon_quoted", mods=("runtime", "pylon"), params={"N": 6}, thorough={"N": 7}, ttime=600)
job("C18", "pylon.cpp", "h_pylon_quoted", name="h_pylon_triple", mods=("runtime", "pylon"), params={"N": 11, "TRIPLE": 1}, thorough={"N": 13}, ttime=600)
job("C18", "pylon.cpp", "h_pylon_roundtrip", mods=("runtime", "pylon"), params={"NODES": 3}, thorough={"NODES": 4}, ttime=800)
job("C18", "pylon.cpp", "h_pylon_object", mods=("runtime", "pylon"), params={"OPS": 4}, thorough={"OPS": 5, "KEYS": 8}, ttime=600)
job("C18", "pylon.cpp", "h_pylon_absent", mods=("runtime", "pylon"))

prop("C17")
job("C17", "locate.cpp", "h_locate", params={"N": 4}, thorough={"N": 5}, ttime=600)
job("C17", "locate.cpp", "h_locate_chunk", params={"N": 4, "KINDS": 6}, thorough={"KINDS": 8, "CHUNKS": 3}, ttime=600)
job("C17", "locate.cpp", "h_locate_text")
job("C17", "locate.cpp", "h_tags", params={"N": 7}, thorough={"N": 10}, ttime=600)
job("C17", "locate.cpp", "h_tags", name="h_tags_any", params={"N": 5, "MARKS": 0}, thorough={"N": 7}, ttime=600)

prop("C15")
job("C15", "vfs.cpp", "h_virtual", params={"N": 6, "M": 4}, thorough={"N": 8, "M": 5}, ttime=600)
WEB = ("web-common",)
job("C15", "webfiles.cpp", "h_fetch", mods=WEB, params={"N": 5}, thorough={"N": 6}, ttime=600)
job("C15", "webfiles.cpp", "h_fetch_types", mods=WEB, params={"K": 4})
job("C15", "webfiles.cpp", "h_source", mods=WEB, params={"N": 5}, thorough={"N": 6}, ttime=600)
job("C15", "webdocs.cpp", "h_docs", mods=("web-serve-docs",), params={"N": 5}, thorough={"N": 6}, ttime=600)

prop("C16")
job("C16", "fsops.cpp", "h_fs_list")
job("C16", "fsops.cpp", "h_fs_op")
job("C16", "fsops.cpp", "h_fs_ops", params={"OPS": 2, "FAULTS": 1}, thorough={"OPS": 3, "FAULTS": 0}, ttime=600)
job("C16", "fsops.cpp", "h_fs_save", params={"FAULTS": 1}, thorough={"FAULTS": 2}, ttime=600)
job("C16", "fsops.cpp", "h_fs_text")
job("C16", "fsops.cpp", "h_fs_walk", params={"N": 4}, thorough={"N": 5}, ttime=600)

prop("C20")
job("C20", "http.cpp", "h_http_any", mods=WEB, params={"N": 6}, thorough={"N": 8}, ttime=600)
job("C20", "http.cpp", "h_http_tokens", mods=WEB, params={"N": 4, "KINDS": 12}, thorough={"N": 5, "KINDS": 9}, ttime=600)
job("C20", "http.cpp", "h_http_body", mods=WEB)
job("C20", "http.cpp", "h_http_faults", mods=WEB, params={"READS": 2}, thorough={"READS": 3}, ttime=600)
job("C20", "http.cpp", "h_url_escape", mods=WEB, params={"N": 3}, thorough={"N": 4}, ttime=600)

prop("C19")
RFL = ("runtime", "reflect", "pylon", "pylon-reflect")
for e in ("scalars", "roundtrip", "evolve", "skip", "any", "saved", "nested", "kinds", "links_evolve"):
    job("C19", "reflect.cpp", "h_asset_" + e, mods=RFL)
job("C19", "reflect.cpp", "h_asset_links", mods=RFL, params={"N": 3, "M": 3}, thorough={"N": 4, "M": 3}, ttime=600)
job("C19", "reflect.cpp", "h_asset_numeric", mods=RFL, time=150, ttime=400)
for e in ("roundtrip", "into", "config", "saved"):
    job("C19", "reflect.cpp", "h_pylon_" + e, mods=RFL)

prop("C21")
MD = ("web-markdown",)
job("C21", "markdown.cpp", "h_md_any", mods=MD, params={"N": 3}, thorough={"N": 4}, ttime=600)
job("C21", "markdown.cpp", "h_md_tokens", mods=MD, params={"N": 4, "KINDS": 20}, thorough={"N": 5, "KINDS": 14}, ttime=600)
job("C21", "markdown.cpp", "h_md_blocks", mods=MD, params={"BLOCKS": 2, "DEPTH": 1, "LEAVES": 0, "INNER": 1}, thorough={"LEAVES": 2, "INNER": 2}, time=100, ttime=600)
job("C21", "markdown.cpp", "h_md_blocks", name="h_md_blocks_nested", mods=MD, params={"BLOCKS": 1, "DEPTH": 2, "LEAVES": 0, "ITEMS": 1, "INNER": 1}, thorough={"LEAVES": 1, "INNER": 2}, time=100, ttime=600)
job("C21", "markdown.cpp", "h_md_blocks", name="h_md_blocks_inner", mods=MD, params={"BLOCKS": 1, "DEPTH": 1, "LEAVES": 4}, thorough={"CUT": 1})
job("C21", "markdown.cpp", "h_md_lists", mods=MD, params={"N": 3, "KINDS": 11}, thorough={"N": 4}, ttime=600)
job("C21", "markdown.cpp", "h_md_inline", mods=MD, params={"SET": 0, "N": 5}, thorough={"N": 6}, ttime=600)
job("C21", "markdown.cpp", "h_md_inline", name="h_md_inline_long", mods=MD, params={"SET": 0, "N": 8, "KINDS": 4}, thorough={"N": 9}, ttime=600)
job("C21", "markdown.cpp", "h_md_inline", name="h_md_inline_code", mods=MD, params={"SET": 1, "N": 5}, thorough={"N": 6}, ttime=600)
job("C21", "markdown.cpp", "h_md_inline", name="h_md_inline_link", mods=MD, params={"SET": 2, "N": 5}, thorough={"N": 6}, ttime=600)
job("C21", "markdown.cpp", "h_md_anchor", mods=MD)

prop("C22")
job("C22", "image.cpp", "h_img_copy", mods=("image",))
job("C22", "image.cpp", "h_img_flip", mods=("image",))
job("C22", "image.cpp", "h_img_fill", mods=("image",), reach=["end", "copied"])
job("C22", "image.cpp", "h_img_half", mods=("image",))
job("C22", "image.cpp", "h_img_srgb", mods=("image",))
job("C22", "image.cpp", "h_img_color", mods=("image",))
job("C22", "audio.cpp", "h_snd_mix", mods=("audio",), reach=["end", "mixed"])
job("C22", "audio.cpp", "h_snd_pitch", mods=("audio",), params={"KIND": 0, "N": 2}, thorough={"N": 3})
job("C22", "audio.cpp", "h_snd_pitch", name="h_snd_pitch_at", mods=("audio",), params={"KIND": 1, "N": 1}, thorough={"N": 2}, ttime=600)
job("C22", "audio.cpp", "h_snd_pitch", name="h_snd_pitch_volume", mods=("audio",), params={"KIND": 2, "N": 2}, thorough={"N": 3})
job("C22", "audio.cpp", "h_snd_clip", mods=("audio",))

prop("C23")
for e in ("h_vec", "h_vec_div", "h_vec_shape", "h_vec_int", "h_mat", "h_quat", "h_quat_angle", "h_axis", "h_axis_rot", "h_axis_all", "h_length", "h_cubic", "h_color"):
    job("C23", "math.cpp", e, mods=("image",))
job("C23", "math.cpp", "h_box", name="h_box_int", mods=("image",), params={"KIND": 0, "CASES": 3}, thorough={"CASES": 7})
job("C23", "math.cpp", "h_box", name="h_box_float", mods=("image",), params={"KIND": 1, "CASES": 2}, thorough={"CASES": 7}, ttime=600)
job("C23", "math.cpp", "h_box", name="h_box_3d", mods=("image",), params={"KIND": 2, "CASES": 1}, thorough={"CASES": 3}, ttime=600)
job("C23", "math.cpp", "h_box", name="h_box_maps", mods=("image",), params={"KIND": 3})

prop("C24")
for nm, mid, bits in (("", 1970, 12), ("_after", 160000, 18), ("_before", -100000, 15), ("_zero", 0, 9)):
    job("C24", "datetime.cpp", "h_date_next", name="h_date_next" + nm, params={"YEARBITS": bits, "MID": mid})
job("C24", "datetime.cpp", "h_time_of_day")
job("C24", "datetime.cpp", "h_date_round", params={"YEARS": 3}, thorough={"YEARS": 12}, time=100, ttime=800)
job("C24", "datetime.cpp", "h_date_from", params={"DAYBITS": 5}, thorough={"DAYBITS": 8}, time=100, ttime=800)
job("C24", "datetime.cpp", "h_time_from")

prop("C25")
BR = ("build-repo",)
job("C25", "buildgraph.cpp", "h_graph_propagate", mods=BR, params={"N": 3, "KINDS": 3})
job("C25", "buildgraph.cpp", "h_graph_propagate", name="h_graph_propagate_libs", mods=BR, params={"N": 4, "KINDS": 0}, thorough={"KINDS": 3}, ttime=800)
job("C25", "buildgraph.cpp", "h_graph_project", mods=BR, params={"N": 3})
job("C25", "buildgraph.cpp", "h_graph_project", name="h_graph_project_4", mods=BR, params={"N": 4, "STATES": 0, "PREFIX": 0}, ttime=800, thorough_only=True)
job("C25", "buildgraph.cpp", "h_graph_text", mods=BR, params={"N": 3})
job("C25", "buildgraph.cpp", "h_graph_sources", mods=BR, params={"N": 2}, thorough={"N": 3}, ttime=600)
BF = ("build-folder",)
job("C25", "buildnames.cpp", "h_names_split", mods=BF, params={"N": 5}, thorough={"N": 7}, ttime=600)
job("C25", "buildnames.cpp", "h_names_find", mods=BF, params={"N": 3}, thorough={"N": 4}, ttime=600)
for w, nm in enumerate(("name", "generator", "platform", "toolset", "toolchain", "targets", "shared")):
    job("C25", "buildnames.cpp", "h_names_signature", name="h_names_signature_" + nm, mods=BF, params={"WHICH": w, "LEN": 1 if w > 3 else 2, "ITEMS": 2}, thorough={"LEN": 2}, ttime=600)
job("C25", "buildnames.cpp", "h_names_signature_text", mods=BF)
job("C25", "buildnames.cpp", "h_names_output", mods=BF)
job("C25", "buildnames.cpp", "h_names_saved", mods=BF, params={"LEN": 1}, thorough={"LEN": 3}, ttime=600)

prop("C26")
CP = ("cpp",)
job("C26", "cppread.cpp", "h_cpp_tokens", mods=CP, params={"N": 3}, thorough={"N": 4}, ttime=600)
job("C26", "cppread.cpp", "h_cpp_follow", mods=CP, params={"N": 2}, thorough={"N": 3}, ttime=600)
job("C26", "cppread.cpp", "h_cpp_raw", mods=CP, params={"N": 4}, thorough={"N": 6}, ttime=600, reach=["end", "string"])
job("C26", "cppread.cpp", "h_cpp_lines", mods=CP, params={"N": 4}, thorough={"N": 5}, ttime=600)
job("C26", "cppread.cpp", "h_cpp_macros", mods=CP, params={"N": 4}, thorough={"N": 5}, ttime=600)
