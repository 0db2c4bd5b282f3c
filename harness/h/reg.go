package h

// Native is the table of harnesses for native replay (tools/genreg.py).
var Native = map[string]func(){
	"C01_cut":           Run_C01_cut,
	"C01_frames":        Run_C01_frames,
	"C02_deep":          func() { Run_C02_deep(Setup_deep2()) },
	"C02_frames":        func() { Run_C02_frames(Setup_wild()) },
	"C02_mix":           func() { Run_C02_mix(Setup_wild()) },
	"C02_names":         func() { Run_C02_names(Setup_wild()) },
	"C02_vars":          func() { Run_C02_vars(Setup_wild()) },
	"C04_block":         func() { Run_C04_block(Setup_args()) },
	"C04_blockesc":      func() { Run_C04_blockesc(Setup_args()) },
	"C04_long":          func() { Run_C04_long(Setup_big()) },
	"C04_open":          func() { Run_C04_open(Setup_args()) },
	"C04_places":        func() { Run_C04_places(Setup_args()) },
	"C04_raw":           func() { Run_C04_raw(Setup_args()) },
	"C04_unicode":       func() { Run_C04_unicode(Setup_args()) },
	"C05_bool":          func() { Run_C05_bool(Setup_args()) },
	"C05_kinds":         func() { Run_C05_kinds(Setup_args()) },
	"C05_list":          func() { Run_C05_list(Setup_args()) },
	"C05_long":          func() { Run_C05_long(Setup_more()) },
	"C05_members":       func() { Run_C05_members(Setup_args()) },
	"C05_odd":           func() { Run_C05_odd(Setup_args()) },
	"C05_scalar":        func() { Run_C05_scalar(Setup_args()) },
	"C05_words":         func() { Run_C05_words(Setup_args()) },
	"C06_far":           func() { Run_C06_far(Setup_big()) },
	"C06_fill":          func() { Run_C06_fill(Setup_wild()) },
	"C06_strings":       func() { Run_C06_strings(Setup_wild()) },
	"C06_tail":          func() { Run_C06_tail(Setup_wild()) },
	"C07_alias":         func() { Run_C07_alias(Setup_sel()) },
	"C07_length":        func() { Run_C07_length(Setup_big()) },
	"C07_lists":         func() { Run_C07_lists(Setup_sel()) },
	"C07_long":          func() { Run_C07_long(Setup_long()) },
	"C07_many":          func() { Run_C07_many(Setup_big()) },
	"C07_select":        func() { Run_C07_select(Setup_sel()) },
	"C08_arg":           func() { Run_C08_arg(Setup_names()) },
	"C08_clash":         Run_C08_clash,
	"C08_field":         func() { Run_C08_field(Setup_names()) },
	"C08_hash":          func() { Run_C08_hash(Setup_names()) },
	"C08_long":          func() { Run_C08_long(Setup_long()) },
	"C08_many":          func() { Run_C08_many(Setup_big()) },
	"C08_naming":        func() { Run_C08_naming(Setup_nam()) },
	"C08_near":          func() { Run_C08_near(Setup_names()) },
	"C08_words":         func() { Run_C08_words(Setup_names()) },
	"C09_cycle":         func() { Run_C09_cycle(Setup_sel()) },
	"C09_deepcycle":     func() { Run_C09_deepcycle(Setup_sel()) },
	"C09_errors":        func() { Run_C09_errors(Setup_sel()) },
	"C09_graph":         func() { Run_C09_graph(Setup_sel()) },
	"C09_inline":        func() { Run_C09_inline(Setup_sel()) },
	"C09_long":          func() { Run_C09_long(Setup_long()) },
	"C09_many":          func() { Run_C09_many(Setup_big()) },
	"C09_name":          func() { Run_C09_name(Setup_sel()) },
	"C09_type":          func() { Run_C09_type(Setup_sel()) },
	"C10_bad":           func() { Run_C10_bad(Setup_dir()) },
	"C10_conditions":    func() { Run_C10_conditions(Setup_dir()) },
	"C10_custom":        func() { Run_C10_custom(Setup_dir()) },
	"C10_directives":    func() { Run_C10_directives(Setup_big()) },
	"C10_many":          func() { Run_C10_many(Setup_dir()) },
	"C10_places":        func() { Run_C10_places(Setup_dir()) },
	"C10_repeated":      func() { Run_C10_repeated(Setup_big()) },
	"C10_text":          func() { Run_C10_text(Setup_dir()) },
	"C10_tree":          func() { Run_C10_tree(Setup_dir()) },
	"C11_inside":        func() { Run_C11_inside(Setup_args()) },
	"C11_long":          func() { Run_C11_long(Setup_long()) },
	"C11_many":          func() { Run_C11_many(Setup_big()) },
	"C11_same":          func() { Run_C11_same(Setup_args()) },
	"C11_unset":         func() { Run_C11_unset(Setup_args()) },
	"C11_wrong":         func() { Run_C11_wrong(Setup_args()) },
	"C12_long":          func() { Run_C12_long(Setup_long()) },
	"C12_many":          func() { Run_C12_many(Setup_big()) },
	"C12_named":         func() { Run_C12_named(Setup_op()) },
	"C12_order":         func() { Run_C12_order(Setup_op()) },
	"C12_single":        func() { Run_C12_single(Setup_op()) },
	"C12_subscription":  func() { Run_C12_subscription(Setup_op()) },
	"C12_unnamed":       func() { Run_C12_unnamed(Setup_op()) },
	"C13_frames":        func() { Run_C13_frames(Setup_pair()) },
	"C13_history":       func() { Run_C13_history(Setup_pair()) },
	"C13_many":          func() { Run_C13_many(Setup_big()) },
	"C13_panic":         func() { Run_C13_panic(Setup_pan()) },
	"C13_values":        func() { Run_C13_values(Setup_pair()) },
	"C14_bytes":         func() { Run_C14_bytes(Setup_cache()) },
	"C14_early":         Run_C14_early,
	"C14_ending":        func() { Run_C14_ending(Setup_cache()) },
	"C14_evict":         func() { Run_C14_evict(Setup_cache()) },
	"C14_history":       func() { Run_C14_history(Setup_cache()) },
	"C14_long":          func() { Run_C14_long(Setup_cache()) },
	"C14_many":          func() { Run_C14_many(Setup_big()) },
	"C14_names":         func() { Run_C14_names(Setup_cache()) },
	"C14_rules":         func() { Run_C14_rules(Setup_cache()) },
	"C14_target":        func() { Run_C14_target(Setup_cache()) },
	"C14_turns":         func() { Run_C14_turns(Setup_cache()) },
	"C15_apart":         func() { Run_C15_apart(Setup_copies()) },
	"C15_args":          func() { Run_C15_args(Setup_argCopies()) },
	"C15_during":        func() { Run_C15_during(Setup_dur()) },
	"C15_frames":        func() { Run_C15_frames(Setup_copies()) },
	"C15_late":          func() { Run_C15_late(Setup_copies()) },
	"C15_limits":        func() { Run_C15_limits(Setup_copies()) },
	"C15_many":          func() { Run_C15_many(Setup_big()) },
	"C15_result":        func() { Run_C15_result(Setup_big()) },
	"C15_shapes":        func() { Run_C15_shapes(Setup_shapes()) },
	"C15_trace":         func() { Run_C15_trace(Setup_copies()) },
	"C16_deep":          func() { Run_C16_deep(Setup_dep()) },
	"C16_limit":         func() { Run_C16_limit(Setup_dep()) },
	"C16_siblings":      func() { Run_C16_siblings(Setup_dep()) },
	"C17_long":          func() { Run_C17_long(Setup_out()) },
	"C17_text":          func() { Run_C17_text(Setup_out()) },
	"C18_enum":          func() { Run_C18_enum(Setup_out()) },
	"C18_enumin":        func() { Run_C18_enumin(Setup_enums()) },
	"C18_enummany":      func() { Run_C18_enummany(Setup_big()) },
	"C18_enumout":       func() { Run_C18_enumout(Setup_enums()) },
	"C18_lists":         func() { Run_C18_lists(Setup_out()) },
	"C18_named":         Run_C18_named,
	"C18_small":         func() { Run_C18_small(Setup_out()) },
	"C18_wide":          func() { Run_C18_wide(Setup_out()) },
	"C19_arg":           func() { Run_C19_arg(Setup_out()) },
	"C19_malformed":     func() { Run_C19_malformed(Setup_out()) },
	"C19_named":         Run_C19_named,
	"C19_output":        func() { Run_C19_output(Setup_out()) },
	"C20_deep":          func() { Run_C20_deep(Setup_more()) },
	"C20_ended":         func() { Run_C20_ended(Setup_fail()) },
	"C20_index":         func() { Run_C20_index(Setup_fail()) },
	"C20_many":          func() { Run_C20_many(Setup_big()) },
	"C20_pairs":         func() { Run_C20_pairs(Setup_fail()) },
	"C20_refused":       func() { Run_C20_refused(Setup_fail()) },
	"C20_text":          func() { Run_C20_text(Setup_fail()) },
	"C20_tree":          func() { Run_C20_tree(Setup_fail()) },
	"C21_batch":         func() { Run_C21_batch(Setup_http()) },
	"C21_ctype":         func() { Run_C21_ctype(Setup_http()) },
	"C21_form":          func() { Run_C21_form(Setup_http()) },
	"C21_long":          func() { Run_C21_long(Setup_big()) },
	"C21_malformed":     func() { Run_C21_malformed(Setup_http()) },
	"C21_many":          func() { Run_C21_many(Setup_big()) },
	"C21_options":       func() { Run_C21_options(Setup_http()) },
	"C21_same":          func() { Run_C21_same(Setup_http()) },
	"C21_text":          func() { Run_C21_text(Setup_http()) },
	"C22_arg":           func() { Run_C22_arg(Setup_intro()) },
	"C22_enum":          func() { Run_C22_enum(Setup_intro()) },
	"C22_field":         func() { Run_C22_field(Setup_intro()) },
	"C22_input":         func() { Run_C22_input(Setup_intro()) },
	"C22_interface":     func() { Run_C22_interface(Setup_interface()) },
	"C22_kinds":         func() { Run_C22_kinds(Setup_kinds()) },
	"C22_many":          func() { Run_C22_many(Setup_big()) },
	"C22_name":          func() { Run_C22_name(Setup_intro()) },
	"C22_null":          func() { Run_C22_null(Setup_nl()) },
	"C22_order":         func() { Run_C22_order(Setup_intro()) },
	"C22_twins":         func() { Run_C22_twins(Setup_tw()) },
	"C22_type":          func() { Run_C22_type(Setup_intro()) },
	"C22_whole":         func() { Run_C22_whole(Setup_intro()) },
	"C23_kept":          func() { Run_C23_kept(Setup_args()) },
	"C23_many":          func() { Run_C23_many(Setup_big()) },
	"C23_path":          func() { Run_C23_path(Setup_keep()) },
	"C23_two":           func() { Run_C23_two(Setup_args()) },
	"C24_fail":          func() { Run_C24_fail(Setup_val()) },
	"C24_http":          func() { Run_C24_http(Setup_val()) },
	"C24_keys":          func() { Run_C24_keys(Setup_val()) },
	"C24_many":          func() { Run_C24_many(Setup_big()) },
	"C24_steps":         func() { Run_C24_steps(Setup_val()) },
	"C25_alien":         Run_C25_alien,
	"C25_eof":           Run_C25_eof,
	"C25_far":           func() { Run_C25_far(Setup_big()) },
	"C25_response":      func() { Run_C25_response(Setup_wild()) },
	"C25_shift":         Run_C25_shift,
	"C25_strings":       Run_C25_strings,
	"C26_introspect":    func() { Run_C26_introspect(Setup_hid()) },
	"C26_kinds":         func() { Run_C26_kinds(Setup_hidk()) },
	"C26_read":          func() { Run_C26_read(Setup_hid()) },
	"C26_write":         func() { Run_C26_write(Setup_hid()) },
	"C27_files":         func() { Run_C27_files(Setup_big()) },
	"C27_http":          func() { Run_C27_http(Setup_file()) },
	"C27_kinds":         func() { Run_C27_kinds(Setup_file()) },
	"C27_many":          func() { Run_C27_many(Setup_file()) },
	"C27_name":          func() { Run_C27_name(Setup_file()) },
	"C27_named":         Run_C27_named,
	"C27_none":          func() { Run_C27_none(Setup_file()) },
	"C28_cond":          func() { Run_C28_cond(Setup_if()) },
	"C28_fail":          func() { Run_C28_fail(Setup_if()) },
	"C28_global":        Run_C28_global,
	"C28_list":          func() { Run_C28_list(Setup_if()) },
	"C28_many":          func() { Run_C28_many(Setup_big()) },
	"C28_pointer":       func() { Run_C28_pointer(Setup_if()) },
	"C28_value":         func() { Run_C28_value(Setup_if()) },
	"C29_arg":           func() { Run_C29_arg(Setup_fl()) },
	"C29_echo":          func() { Run_C29_echo(Setup_fl()) },
	"C29_int":           func() { Run_C29_int(Setup_fl()) },
	"C29_long":          func() { Run_C29_long(Setup_more()) },
	"C29_out":           func() { Run_C29_out(Setup_fl()) },
	"C29_range":         func() { Run_C29_range(Setup_fl()) },
	"C29_special":       func() { Run_C29_special(Setup_fl()) },
	"C30_deep":          func() { Run_C30_deep(Setup_more()) },
	"C30_frames":        func() { Run_C30_frames(Setup_pair()) },
	"C30_history":       func() { Run_C30_history(Setup_pair()) },
	"C30_many":          func() { Run_C30_many(Setup_big()) },
	"C30_places":        func() { Run_C30_places(Setup_dirs()) },
	"C30_stopped":       func() { Run_C30_stopped(Setup_trace()) },
	"C30_trace":         func() { Run_C30_trace(Setup_trace()) },
	"C31_lists":         func() { Run_C31_lists(Setup_args()) },
	"C31_many":          func() { Run_C31_many(Setup_big()) },
	"C31_objects":       func() { Run_C31_objects(Setup_args()) },
	"C31_objlists":      func() { Run_C31_objlists(Setup_args()) },
	"C31_pointers":      func() { Run_C31_pointers(Setup_more()) },
	"C32_bytes":         func() { Run_C32_bytes(Setup_pool()) },
	"C32_copying":       func() { Run_C32_copying(Setup_pool()) },
	"C32_http":          func() { Run_C32_http(Setup_pool()) },
	"C32_requests":      func() { Run_C32_requests(Setup_pool()) },
	"C33_many":          func() { Run_C33_many(Setup_more()) },
	"C33_named":         Run_C33_named,
	"C33_other":         func() { Run_C33_other(Setup_shapes()) },
	"C33_signature":     func() { Run_C33_signature(Setup_shapes()) },
	"C34_alike":         Run_C34_alike,
	"C34_directive":     Run_C34_directive,
	"C34_directivekind": Run_C34_directivekind,
	"C34_enumkey":       Run_C34_enumkey,
	"C34_enumkind":      Run_C34_enumkind,
	"C34_enumset":       Run_C34_enumset,
	"C34_idmark":        Run_C34_idmark,
	"C34_implements":    Run_C34_implements,
	"C34_inlines":       func() { Run_C34_inlines(Setup_inl()) },
	"C34_rename":        Run_C34_rename,
	"C35_answer":        func() { Run_C35_answer(Setup_pair()) },
	"C35_fields":        func() { Run_C35_fields(Setup_tester()) },
	"C35_type":          func() { Run_C35_type(Setup_tester()) },
	"C36_deep":          func() { Run_C36_deep(Setup_more()) },
	"C36_frames":        func() { Run_C36_frames(Setup_pair()) },
	"C36_history":       func() { Run_C36_history(Setup_pair()) },
	"C36_vars":          func() { Run_C36_vars(Setup_pair()) },
	"C37_all":           func() { Run_C37_all(Setup_same()) },
	"C37_build":         func() { Run_C37_build(Setup_same()) },
	"C37_copy":          func() { Run_C37_copy(Setup_same()) },
	"C37_dirs":          func() { Run_C37_dirs(Setup_dirs()) },
	"C37_twins":         func() { Run_C37_twins(Setup_tw()) },
	"C38_directives":    Run_C38_directives,
	"C38_methods":       Run_C38_methods,
	"C38_named":         Run_C38_named,
	"C38_options":       Run_C38_options,
	"C38_reserved":      Run_C38_reserved,
	"C38_roles":         Run_C38_roles,
	"C38_roots":         Run_C38_roots,
	"C38_shapes":        Run_C38_shapes,
	"C38_tags":          Run_C38_tags,
}
