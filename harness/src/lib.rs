pub mod b;
pub mod glue;
pub mod p_compact;
pub mod p_api;
pub mod p_doc;
pub mod p_context;
pub mod p_eq;
pub mod p_expand;
pub mod p_flatten;
pub mod p_forms;
pub mod p_from;
pub mod p_linked;
pub mod p_load;
pub mod p_rdf;
pub mod p_syntax;
pub mod p_views;
pub mod refimpl;
pub mod sym;

macro_rules! roots {
    ($($m:ident :: $f:ident),* $(,)?) => {
        pub const ROOTS: &[(&str, extern "C" fn())] = &[$((stringify!($f), $m::$f)),*];
    };
}
roots! {
    p_forms::h_forms_variants,
    p_forms::h_forms_vocabulary,
    p_forms::h_forms_rdf,
    p_forms::h_forms_compare,
    p_forms::h_forms_warnings,
    p_views::h_views_values,
    p_views::h_views_nodes,
    p_views::h_views_documents,
    p_views::h_views_quads,
    p_views::h_views_changes,
    p_syntax::h_syntax_context,
    p_syntax::h_syntax_terms,
    p_syntax::h_syntax_names,
    p_syntax::h_syntax_views,
    p_syntax::h_print_values,
    p_syntax::h_print_structure,
    p_syntax::h_print_keywords,
    p_expand::h_expand_values,
    p_expand::h_expand_structure,
    p_expand::h_expand_iris,
    p_expand::h_expand_maps,
    p_expand::h_expand_twice,
    p_expand::h_expand_top,
    p_expand::h_expand_objects,
    p_doc::h_fixed_top,
    p_expand::h_expand_keywords,
    p_expand::h_expand_iris_long,
    p_context::h_ctx_terms,
    p_context::h_ctx_type,
    p_context::h_ctx_types,
    p_context::h_ctx_names,
    p_context::h_ctx_entries,
    p_context::h_ctx_protected,
    p_context::h_ctx_import,
    p_context::h_ctx_relative,
    p_context::h_ctx_chain,
    p_context::h_ctx_revert,
    p_context::h_ctx_redefine,
    p_context::h_ctx_scoped,
    p_context::h_ctx_remote,
    p_context::h_ctx_mode10,
    p_compact::h_compact_iris,
    p_compact::h_round_iris,
    p_compact::h_compact_values1,
    p_compact::h_round_values1,
    p_compact::h_compact_values2,
    p_compact::h_round_values2,
    p_compact::h_compact_lists,
    p_compact::h_round_lists,
    p_compact::h_compact_maps1,
    p_compact::h_round_maps1,
    p_compact::h_compact_maps2,
    p_compact::h_round_maps2,
    p_compact::h_compact_nodes,
    p_compact::h_round_nodes,
    p_compact::h_compact_scoped,
    p_compact::h_round_scoped,
    p_compact::h_compact_mode10,
    p_compact::h_round_mode10,
    p_compact::h_compact_prefixes,
    p_compact::h_round_prefixes,
    p_compact::h_compact_select,
    p_compact::h_round_select,
    p_compact::h_compact_types,
    p_compact::h_round_types,
    p_compact::h_compact_lists2,
    p_compact::h_round_lists2,
    p_compact::h_compact_own_maps,
    p_compact::h_round_own_maps,
    p_compact::h_compact_own_values,
    p_compact::h_round_own_values,
    p_compact::h_compact_own_structure,
    p_compact::h_round_own_structure,
    p_compact::h_compact_revert,
    p_compact::h_round_revert,
    p_api::h_api_expand,
    p_api::h_api_compact,
    p_api::h_api_policy,
    p_doc::h_fixed_values,
    p_doc::h_fixed_maps,
    p_doc::h_fixed_keywords,
    p_doc::h_fixed_twice,
    p_doc::h_fixed_structure,
    p_doc::h_read,
    p_eq::h_eq,
    p_eq::h_walk,
    p_eq::h_canonical,
    p_eq::h_compare,
    p_flatten::h_flat_nodes,
    p_flatten::h_flat_values,
    p_flatten::h_flat_graphs,
    p_from::h_from_quads,
    p_from::h_from_graphs,
    p_from::h_from_lists,
    p_from::h_from_literals,
    p_linked::h_linked_values,
    p_linked::h_linked_calls,
    p_linked::h_linked_typed,
    p_linked::h_linked_lists,
    p_linked::h_linked_nodes,
    p_rdf::h_rdf_values,
    p_rdf::h_rdf_lists,
    p_rdf::h_rdf_names,
    p_load::h_load_fs,
    p_load::h_load_chain,
    p_load::h_load_context,
}
#[cfg(feature = "http")]
pub const HTTP: &[(&str, extern "C" fn())] = &[
    ("h_http_type", p_load::http::h_http_type),
    ("h_http_links", p_load::http::h_http_links),
    ("h_http_redirect", p_load::http::h_http_redirect),
    ("h_http_accept", p_load::http::h_http_accept),
    ("h_http_junk", p_load::http::h_http_junk),
];
#[cfg(not(feature = "http"))]
pub const HTTP: &[(&str, extern "C" fn())] = &[];
