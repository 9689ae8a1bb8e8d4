package h

// Registry maps names to harnesses (generated by tools/genreg.sh).
var Registry = map[string]func(){
	"C01_bytes":         C01_bytes,
	"C01_deep":          C01_deep,
	"C01_grammar":       C01_grammar,
	"C01_modes":         C01_modes,
	"C01_mutants":       C01_mutants,
	"C01_slots":         C01_slots,
	"C01_tokens":        C01_tokens,
	"C02_arguments":     C02_arguments,
	"C02_comma":         C02_comma,
	"C02_epp":           C02_epp,
	"C02_eppTail":       C02_eppTail,
	"C02_first":         C02_first,
	"C02_grammar":       C02_grammar,
	"C02_markers":       C02_markers,
	"C02_slots":         C02_slots,
	"C02_statement":     C02_statement,
	"C02_stray":         C02_stray,
	"C02_tail":          C02_tail,
	"C02_tailModes":     C02_tailModes,
	"C02_utf8":          C02_utf8,
	"C03_bytes":         C03_bytes,
	"C03_cut":           C03_cut,
	"C03_grammar":       C03_grammar,
	"C03_kept":          C03_kept,
	"C03_modes":         C03_modes,
	"C03_others":        C03_others,
	"C03_pspec":         C03_pspec,
	"C03_slots":         C03_slots,
	"C03_then":          C03_then,
	"C04_backtick":      C04_backtick,
	"C04_braces":        C04_braces,
	"C04_divide":        C04_divide,
	"C04_double":        C04_double,
	"C04_hex":           C04_hex,
	"C04_nested":        C04_nested,
	"C04_regexp":        C04_regexp,
	"C04_single":        C04_single,
	"C04_unicode":       C04_unicode,
	"C04_utf8":          C04_utf8,
	"C04_variable":      C04_variable,
	"C05_bounds":        C05_bounds,
	"C05_float":         C05_float,
	"C05_huge":          C05_huge,
	"C05_minus":         C05_minus,
	"C05_notation":      C05_notation,
	"C05_places":        C05_places,
	"C05_several":       C05_several,
	"C05_text":          C05_text,
	"C06_beside":        C06_beside,
	"C06_context":       C06_context,
	"C06_declaration":   C06_declaration,
	"C06_end":           C06_end,
	"C06_escapes":       C06_escapes,
	"C06_interpolation": C06_interpolation,
	"C06_lines":         C06_lines,
	"C06_margin":        C06_margin,
	"C06_nextline":      C06_nextline,
	"C06_plain":         C06_plain,
	"C06_tags":          C06_tags,
	"C06_two":           C06_two,
	"C06_unicode":       C06_unicode,
	"C06_unterminated":  C06_unterminated,
	"C06_variable":      C06_variable,
	"C07_between":       C07_between,
	"C07_code":          C07_code,
	"C07_comment":       C07_comment,
	"C07_control":       C07_control,
	"C07_fragments":     C07_fragments,
	"C07_literal":       C07_literal,
	"C07_params":        C07_params,
	"C07_statements":    C07_statements,
	"C07_tag":           C07_tag,
	"C07_text":          C07_text,
	"C07_utf8":          C07_utf8,
	"C08_binary":        C08_binary,
	"C08_contexts":      C08_contexts,
	"C08_parens":        C08_parens,
	"C08_select":        C08_select,
	"C08_space":         C08_space,
	"C08_unary":         C08_unary,
	"C09_all":           C09_all,
	"C09_comments":      C09_comments,
	"C09_gaps":          C09_gaps,
	"C09_grammar":       C09_grammar,
	"C09_places":        C09_places,
	"C09_slots":         C09_slots,
	"C09_values":        C09_values,
	"C10_bytes":         C10_bytes,
	"C10_gaps":          C10_gaps,
	"C10_grammar":       C10_grammar,
	"C10_interpolated":  C10_interpolated,
	"C10_lists":         C10_lists,
	"C10_places":        C10_places,
	"C10_shift":         C10_shift,
	"C10_slots":         C10_slots,
	"C10_values":        C10_values,
	"C11_bytes":         C11_bytes,
	"C11_comma":         C11_comma,
	"C11_cut":           C11_cut,
	"C11_defects":       C11_defects,
	"C11_grammar":       C11_grammar,
	"C11_places":        C11_places,
	"C11_shift":         C11_shift,
	"C11_slots":         C11_slots,
	"C11_stray":         C11_stray,
	"C11_unterminated":  C11_unterminated,
	"C11_values":        C11_values,
	"C12_locator":       C12_locator,
	"C12_long":          C12_long,
	"C12_monotonic":     C12_monotonic,
	"C12_parsed":        C12_parsed,
	"C12_questions":     C12_questions,
	"C13_deep":          C13_deep,
	"C13_entry":         C13_entry,
	"C13_float":         C13_float,
	"C13_grammar":       C13_grammar,
	"C13_keys":          C13_keys,
	"C13_quote":         C13_quote,
	"C13_read":          C13_read,
	"C13_slots":         C13_slots,
	"C13_tree":          C13_tree,
	"C14_bytes":         C14_bytes,
	"C14_created":       C14_created,
	"C14_grammar":       C14_grammar,
	"C14_lists":         C14_lists,
	"C14_nested":        C14_nested,
	"C14_slots":         C14_slots,
	"C14_templates":     C14_templates,
	"C15_bytes":         C15_bytes,
	"C15_grammar":       C15_grammar,
	"C15_modes":         C15_modes,
	"C15_nested":        C15_nested,
	"C15_places":        C15_places,
	"C15_slots":         C15_slots,
	"C15_templates":     C15_templates,
	"C16_bytes":         C16_bytes,
	"C16_demote":        C16_demote,
	"C16_grammar":       C16_grammar,
	"C16_levels":        C16_levels,
	"C16_more":          C16_more,
	"C16_names":         C16_names,
	"C16_pairs":         C16_pairs,
	"C16_places":        C16_places,
	"C16_several":       C16_several,
	"C16_slots":         C16_slots,
	"C16_templates":     C16_templates,
	"C17_defaults":      C17_defaults,
	"C17_distinct":      C17_distinct,
	"C17_implied":       C17_implied,
	"C17_keys":          C17_keys,
	"C17_parameters":    C17_parameters,
	"C17_places":        C17_places,
	"C17_separate":      C17_separate,
	"C17_three":         C17_three,
	"C18_defaults":      C18_defaults,
	"C18_definitions":   C18_definitions,
	"C18_effect":        C18_effect,
	"C18_epp":           C18_epp,
	"C18_expressions":   C18_expressions,
	"C18_hosts":         C18_hosts,
	"C18_names":         C18_names,
	"C18_operands":      C18_operands,
	"C18_parameters":    C18_parameters,
	"C18_queries":       C18_queries,
	"C18_relations":     C18_relations,
	"C18_reserved":      C18_reserved,
	"C18_statements":    C18_statements,
	"C18_steps":         C18_steps,
	"C18_tasks":         C18_tasks,
	"C18_types":         C18_types,
	"C19_bytes":         C19_bytes,
	"C19_grammar":       C19_grammar,
	"C19_heredoc":       C19_heredoc,
	"C19_keys":          C19_keys,
	"C19_literals":      C19_literals,
	"C19_others":        C19_others,
	"C19_repeated":      C19_repeated,
	"C19_slots":         C19_slots,
	"C19_templates":     C19_templates,
	"C19_text":          C19_text,
	"C20_bytes":         C20_bytes,
	"C20_modes":         C20_modes,
	"C20_problems":      C20_problems,
	"C20_string":        C20_string,
	"C20_templates":     C20_templates,
	"C20_two":           C20_two,
	"C20_usage":         C20_usage,
	"C21_attributes":    C21_attributes,
	"C21_end":           C21_end,
	"C21_modes":         C21_modes,
	"C21_names":         C21_names,
	"C21_ordinary":      C21_ordinary,
	"C21_parameter":     C21_parameter,
	"C21_reserved":      C21_reserved,
	"C21_segments":      C21_segments,
	"C21_variable":      C21_variable,
	"C21_word":          C21_word,
	"C22_both":          C22_both,
	"C22_bytes":         C22_bytes,
	"C22_deep":          C22_deep,
	"C22_grammar":       C22_grammar,
	"C22_parser":        C22_parser,
	"C22_problems":      C22_problems,
	"C22_single":        C22_single,
	"C22_slots":         C22_slots,
	"C22_source":        C22_source,
	"C22_templates":     C22_templates,
	"C23_definitions":   C23_definitions,
	"C23_failed":        C23_failed,
	"C23_iteration":     C23_iteration,
	"C23_names":         C23_names,
	"C23_nested":        C23_nested,
	"C23_steps":         C23_steps,
	"C24_next":          C24_next,
	"C24_ops":           C24_ops,
	"C25_braces":        C25_braces,
	"C25_calls":         C25_calls,
	"C25_grammar":       C25_grammar,
	"C25_lists":         C25_lists,
	"C25_options":       C25_options,
	"C25_places":        C25_places,
	"C25_states":        C25_states,
	"C25_templates":     C25_templates,
	"C25_values":        C25_values,
	"C26_again":         C26_again,
	"C26_assert":        C26_assert,
	"C26_bytes":         C26_bytes,
	"C26_grammar":       C26_grammar,
	"C26_insert":        C26_insert,
	"C26_operators":     C26_operators,
	"C26_pairs":         C26_pairs,
	"C26_templates":     C26_templates,
	"C26_utf8":          C26_utf8,
	"C26_words":         C26_words,
	"C27_defects":       C27_defects,
	"C27_definitions":   C27_definitions,
	"C27_effect":        C27_effect,
	"C27_epp":           C27_epp,
	"C27_expressions":   C27_expressions,
	"C27_grammar":       C27_grammar,
	"C27_hosts":         C27_hosts,
	"C27_more":          C27_more,
	"C27_names":         C27_names,
	"C27_operands":      C27_operands,
	"C27_operators":     C27_operators,
	"C27_parameters":    C27_parameters,
	"C27_queries":       C27_queries,
	"C27_relations":     C27_relations,
	"C27_slots":         C27_slots,
	"C27_statements":    C27_statements,
	"C27_steps":         C27_steps,
	"C27_tasks":         C27_tasks,
	"C27_tokens":        C27_tokens,
	"C27_types":         C27_types,
	"C28_bytes":         C28_bytes,
	"C28_created":       C28_created,
	"C28_grammar":       C28_grammar,
	"C28_hash":          C28_hash,
	"C28_lists":         C28_lists,
	"C28_names":         C28_names,
	"C28_nested":        C28_nested,
	"C28_numbers":       C28_numbers,
	"C28_slots":         C28_slots,
	"C28_templates":     C28_templates,
}
