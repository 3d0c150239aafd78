// Code generated by genreg.sh; DO NOT EDIT.

package props

import "verif/sym"

func init() {
	sym.Register(
		C01_chains,
		C01_special,
		C01_trees,
		C02_expr,
		C02_names,
		C02_order,
		C02_prefix,
		C02_quoted,
		C02_recursion,
		C02_rules,
		C02_words,
		C03_built,
		C03_special,
		C03_trees,
		G01_chains,
		G01_order,
		G01_rules,
		G01_source,
		G01_special,
		G01_text,
		G01_trees,
		G01_words,
		G02_again,
		G02_args,
		G02_constant,
		G02_group,
		G02_local,
		G02_mute,
		G02_reject,
		G02_seq,
		I01_args,
		I01_invalid,
		I01_plain,
		I02_mute,
		I03_int,
		I03_types,
		I04_abort,
		I04_error,
		I04_mute,
		I04_nested,
		I04_source,
		I05_call,
		I05_numbers,
		I05_object,
		K01_chain,
		K01_expr,
		K01_literal,
		K01_numeral,
		K02_binary,
		K02_calls,
		K02_host,
		K02_malformed,
		K02_minmax,
		K02_params,
		K02_sign,
		K02_unary,
		K03_big,
		K03_calls,
		K03_expr,
		K03_func,
		K03_host,
		K03_literal,
		K03_malformed,
		K04_calls,
		K04_expr,
		K04_func,
		K04_host,
		K04_literal,
		K04_malformed,
		K04_numeral,
		K04_parts,
		M01_and,
		M01_deep,
		M01_list,
		M01_list0,
		M01_many,
		M01_named,
		M01_not,
		M01_or,
		M01_peek,
		M01_rep0,
		M01_rep01,
		M01_rep1,
		M01_second,
		M01_token,
		M01_tokens,
		M02_count,
		M02_nested,
		M02_recursive,
		M02_scalar,
		M03_bang,
		M04_abort,
		M04_and,
		M04_list,
		M04_look,
		M04_or,
		M04_rep,
		M04_trans,
		M05_nested,
		M05_progress,
		M06_inside,
		M06_match,
		M06_nil,
		M06_sub,
		M07_and,
		M07_bang,
		M07_list,
		M07_long,
		M07_look,
		M07_or,
		M07_rep,
		M07_tie,
		M07_wrapped,
		Q01_binary,
		Q01_precedence,
		Q01_unary,
		Q02_circuit,
		Q02_nested,
		Q03_if,
		Q03_many,
		Q03_nested,
		Q03_switch,
		Q04_fn,
		Q04_odd,
		Q04_steps,
		Q04_top,
		Q05_args,
		Q05_depth,
		Q05_fresh,
		Q05_recursion,
		Q05_rest,
		Q05_return,
		Q06_closures,
		Q06_library,
		Q06_scope,
		Q06_unset,
		Q07_broken,
		Q07_function,
		Q07_outer,
		Q07_script,
		Q08_new,
		Q08_objects,
		Q09_append,
		Q09_assign,
		Q09_change,
		Q09_map,
		Q09_ops,
		Q09_part,
		Q09_reject,
		Q09_slice,
		Q09_text,
		Q09_twice,
		Q09_typed,
		Q09_undef,
		Q10_args,
		Q10_failure,
		Q10_kinds,
		Q10_members,
		Q10_results,
		Q11_import,
		Q12_reuse,
		Q13_convert,
		Q13_make,
		Q13_minmax,
		Q13_panic,
		Q13_size,
		Q13_slice,
		Q13_text,
		Q14_args,
		Q14_calc,
		Q14_convert,
		Q14_marks,
		Q14_mute,
		Q14_operands,
		Q14_reuse,
		Q15_code,
		Q15_exports,
		Q15_reject,
		Q16_char,
		Q16_limits,
		Q16_number,
		Q16_raw,
		Q16_string,
		Q17_after,
		Q17_place,
		S01_ascii,
		S01_classes,
		S01_comment,
		S01_escape,
		S01_number,
		S01_op,
		S01_punct,
		S01_string,
		S01_unicode,
		S02_ascii,
		S02_comment,
		S02_number,
		S02_op,
		S02_punct,
		S02_reuse,
		S02_string,
		S02_unicode,
		S03_ascii,
		S03_blanks,
		S03_comment,
		S03_long,
		S03_ops,
		S04_ascii,
		S04_codepoint,
		S04_comment,
		S04_escape,
		S04_number,
		S04_string,
		S04_unicode,
		S04_utf8,
		S05_keywords,
		S05_kinds,
		S05_named,
		S05_ops,
		S05_own,
		S05_unknown,
		S06_directive,
		S06_lines,
		S06_ranges,
		X01_tree,
		X02_custom,
		X02_fails,
		X02_literals,
		X02_values,
		X03_rollback,
		X04_grammar,
		X04_options,
		X04_reuse,
		X04_ways,
		Z01_bytes,
		Z01_conv,
		Z01_errors,
		Z01_reflect,
		Z01_regexp,
		Z01_sort,
		Z01_strings,
		Z01_sync,
	)
}
