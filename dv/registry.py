"""Property id -> contracts, bounded stand-ins, trusted parts."""


def B(fn, quick, thorough, arg=None, mod="bounded", **k):
    return dict(mod=mod, fn=fn, quick=quick, thorough=thorough, arg=arg, **k)


I = "contracts_int"
L = "contracts_bool"
F = "contracts_flow"
K = "contracts_opt"
S = "contracts_store"
C = "contracts_call"
M = "contracts_math"
E = "contracts_ent"

PROPS = {
    "C01": dict(
        level="proof",
        contracts=[(I, n) for n in ("vc_binop", "vc_nested", "vc_unary",
                                    "vc_augassign", "vc_assign",
                                    "vc_intop")],
        bounded=[B("program", 1500, 20000, ("int", "both"))]),
    "C02": dict(
        level="proof",
        contracts=[(I, n) for n in ("vc_lemma_trunc", "vc_literal",
                                    "vc_fold", "vc_fold_unary",
                                    "vc_fold_compare")],
        bounded=[B("program", 1000, 20000, ("fold", "plain"))]),
    "C03": dict(
        level="proof",
        contracts=[(L, n) for n in ("vc_store", "vc_not", "vc_notnot",
                                    "vc_andor", "vc_and3", "vc_compare",
                                    "vc_chain", "vc_booleq",
                                    "vc_int_of_bool")],
        bounded=[B("program", 1500, 20000, ("bool", "both"))]),
    "C04": dict(
        level="proof",
        contracts=[(F, n) for n in ("vc_if", "vc_elif", "vc_while",
                                    "vc_for", "vc_seq")],
        bounded=[B("program", 1500, 20000, ("control", "both"))]),
    "C05": dict(
        level="proof",
        contracts=[(S, n) for n in ("vc_scalar", "vc_struct", "vc_shapes", "vc_reject",
                                    "vc_alloc_inv")],
        bounded=[B("program", 1500, 20000, ("storage", "both")),
                 B("alloc_history", 3000, 60000, None, "bounded2")]),
    "C06": dict(
        level="proof",
        contracts=[(C, n) for n in ("vc_bind", "vc_call", "vc_order", "vc_inline",
                                    "vc_callreject", "vc_handler")],
        bounded=[B("program", 1500, 20000, ("calls", "both"))]),
    "C07": dict(
        level="proof",
        contracts=[(K, n) for n in ("vc_inline", "vc_inline_cmds",
                                    "vc_graph", "vc_frame")],
        bounded=[B("program", 1500, 20000, ("all", "both")),
                 B("program", 500, 8000, ("calls", "opt"))]),
    "C21": dict(
        level="proof",
        contracts=[(M, n) for n in (
            "vc_minmax", "vc_minmax_const", "vc_moddiv", "vc_moddiv_lemma",
            "vc_const_moddiv", "vc_randint", "vc_pow_const", "vc_pow_lit",
            "vc_pow_var")],
        bounded=[B("math_case", 4000, 80000, None, "bounded2")]),
    "C20": dict(
        level="proof",
        contracts=[("contracts_sched", n) for n in (
            "vc_loop", "vc_loop_step", "vc_task", "vc_args", "vc_areas")],
        bounded=[B("sched_case", 3000, 60000, None, "bounded2")]),
    "C22": dict(
        level="proof",
        contracts=[("contracts_print", n) for n in (
            "vc_format", "vc_sequence", "vc_fonts", "vc_colors", "vc_reject")],
        bounded=[B("print_case", 4000, 80000, None, "bounded2")]),
    "C17": dict(
        level="proof",
        contracts=[(E, n) for n in (
            "vc_fields", "vc_struct_fields", "vc_many", "vc_refs",
            "vc_typing", "vc_inherit")],
        bounded=[B("entity_case", 3000, 60000, None, "bounded3")]),
    "C18": dict(
        level="proof",
        contracts=[(E, n) for n in ("vc_methods", "vc_rules", "vc_mro", "vc_kill")],
        bounded=[B("entity_case", 3000, 60000, None, "bounded3")]),
    "C19": dict(
        level="proof",
        contracts=[(E, n) for n in ("vc_groups", "vc_filters",
                                    "vc_filters2", "vc_filter_pairs",
                                    "vc_version")],
        bounded=[B("entity_case", 3000, 60000, None, "bounded3")]),
    "C08": dict(
        level="proof",
        contracts=[("contracts_out", n) for n in (
            "vc_init", "vc_closed", "vc_config", "vc_split")],
        bounded=[B("pack_case", 2500, 40000, None, "bounded4"),
                 B("determinism_case", 6, 100, None, "bounded4")]),
    "C09": dict(
        level="proof",
        contracts=[("contracts_syntax", n) for n in (
            "vc_arith3", "vc_arith4", "vc_compare", "vc_bool4",
            "vc_forms", "vc_layout")],
        bounded=[B("parse_case", 20000, 400000, None, "bounded5")]),
    "C10": dict(
        level="exploration",
        contracts=[("contracts_lex", n) for n in (
            "vc_reject", "vc_chars", "vc_escapes", "vc_pairs", "vc_fonts",
            "vc_versions",
            "vc_numbers", "vc_names", "vc_layout")],
        bounded=[B("lex_case", 15000, 300000, None, "bounded5"),
                 B("number_case", 8000, 100000, None, "bounded5"),
                 B("parse_case", 6000, 100000, None, "bounded5")]),
    "C11": dict(
        level="exploration",
        contracts=[("contracts_err", n) for n in (
            "vc_table", "vc_context", "vc_messages", "vc_cli")],
        bounded=[B("error_case", 40000, 800000, None, "bounded6")]),
    "C24": dict(
        level="exploration",
        contracts=[("contracts_world", n) for n in (
            "vc_functions", "vc_arguments", "vc_education", "vc_steps",
            "vc_offsets", "vc_conditions", "vc_reuse")],
        bounded=[B("world_case", 6000, 150000, None, "bounded7")]),
    "C12": dict(
        level="exploration",
        contracts=[("contracts_text", n) for n in (
            "vc_characters", "vc_special", "vc_entity_name", "vc_floats",
            "vc_ints", "vc_wellformed", "vc_raw")],
        bounded=[B("text_case", 6000, 200000, None, "bounded7")]),
    "C13": dict(
        level="proof",
        contracts=[("contracts_mod", n) for n in (
            "vc_import", "vc_graph", "vc_entry", "vc_reject",
            "vc_resolve", "vc_decoys")],
        bounded=[B("mod_case", 3000, 80000, None, "bounded7")]),
    "C14": dict(
        level="exploration",
        contracts=[("contracts_iface", n) for n in (
            "vc_paths", "vc_chars", "vc_reserved", "vc_bare",
            "vc_duplicate", "vc_twice", "vc_effect")],
        bounded=[B("program", 1500, 20000, ("ifaces", "both"))]),
    "C15": dict(
        level="exploration",
        contracts=[("contracts_list", n) for n in (
            "vc_index", "vc_slice", "vc_range", "vc_lists", "vc_operators",
            "vc_maps", "vc_mapx", "vc_loop")] +
        [("contracts_ct", n) for n in ("vc_lists", "vc_maps")],
        bounded=[B("ct_case", 4000, 200000, None, "bounded8")]),
    "C16": dict(
        level="exploration",
        contracts=[("contracts_ct", n) for n in (
            "vc_functions", "vc_reject", "vc_uses")],
        bounded=[B("ct_case", 20000, 400000, None, "bounded8")]),
    "C23": dict(
        level="exploration",
        contracts=[("contracts_cli", n) for n in (
            "vc_options", "vc_ids", "vc_values", "vc_places",
            "vc_override", "vc_failed", "vc_encoding", "vc_features")]),
}
