pub mod sym;
#[allow(dead_code)]
pub mod total;
#[allow(dead_code)]
pub mod flat;
#[allow(dead_code)]
pub mod macros;
#[allow(dead_code)]
pub mod conds;
#[allow(dead_code)]
pub mod glob;
#[allow(dead_code)]
pub mod outp;
#[allow(dead_code)]
pub mod names;
#[allow(dead_code)]
pub mod attach;
pub mod lr;
#[allow(dead_code)]
pub mod shapes;
#[allow(dead_code)]
pub mod docs;
#[allow(dead_code)]
pub mod specs;
#[allow(dead_code)]
pub mod maps;
#[allow(dead_code)]
pub mod nest;
#[allow(dead_code)]
pub mod place;
#[allow(dead_code)]
pub mod cli;
#[allow(dead_code)]
pub mod plugin;
#[allow(dead_code, unexpected_cfgs)]
#[path = "/repo/crates/mitex-wasm/src/lib.rs"]
pub mod wasm;
#[allow(dead_code)]
pub mod compile;
#[allow(dead_code, unexpected_cfgs)]
#[path = "/repo/crates/mitex-cli/src/main.rs"]
pub mod climain;
#[allow(dead_code)]
pub mod tree;
#[allow(dead_code)]
pub mod big;
#[allow(dead_code)]
pub mod lexer;

macro_rules! entries {
    ($($m:ident :: $name:ident),* $(,)?) => {
        #[cfg(not(feature = "native"))]
        mod ffi {
            $(#[no_mangle] pub extern "C" fn $name(a: u64, b: u64, c: u64, d: u64) { super::$m::$name(a, b, c, d) })*
        }
        #[allow(dead_code)]
        pub static TABLE: &[(&str, fn(u64, u64, u64, u64))] = &[$((stringify!($name), $m::$name)),*];
    };
}
entries! {
    big::h_row, big::h_inside, big::h_lists, big::h_chain, big::h_length, big::h_args,
    total::h_any, total::h_tok, total::h_defs, total::h_argtext,
    lexer::h_lex, lexer::h_lex_cmd, lexer::h_lex_env, lexer::h_lex_kw, lexer::h_lex_tok, lexer::h_lex_clause,
    lexer::h_pass, lexer::h_pass_bytes, lexer::h_page, lexer::h_pass_conv,
    tree::h_tree, tree::h_tree_tok,
    macros::h_expand, macros::h_redef, macros::h_envexp, macros::h_many, macros::h_kinds, macros::h_redef_env, macros::h_calls, macros::h_open_call, macros::h_builtin, macros::h_defines,
    outp::h_balance, outp::h_local, outp::h_again, outp::h_history, outp::h_governed, outp::h_comment, outp::h_delims,
    glob::h_glob, glob::h_glob_any, glob::h_glob_nest, glob::h_glob_long,
    names::h_unknown, names::h_unknown_char, names::h_near,
    attach::h_attach, attach::h_script_cmd, lr::h_lr,
    shapes::h_shape, shapes::h_wide, shapes::h_env, shapes::h_only, shapes::h_alias,
    docs::h_label, docs::h_columns, docs::h_name, docs::h_label2, docs::h_list, docs::h_item, docs::h_table, docs::h_column, docs::h_image, docs::h_color,
    specs::h_spec, specs::h_spec_json, specs::h_spec_use,
    maps::h_snap, maps::h_snap_long,
    nest::h_nest,
    cli::h_paths, compile::h_compile, compile::h_compile_none,
    place::h_in, place::h_deep,
    plugin::h_plugin, plugin::h_plugin_spec, plugin::h_plugin_json, plugin::h_plugin_turns,
    conds::h_cond, conds::h_cond_deep, conds::h_dead, conds::h_dead_macro, conds::h_typst,
    flat::h_flat, flat::h_flat_ctx, flat::h_flat_wide, flat::h_long, flat::h_marker, flat::h_group, flat::h_flat_in,
}

#[cfg(not(feature = "native"))]
#[no_mangle]
pub extern "C" fn h_init() {
    init()
}
/// concrete warm-up: the lazily built default specification
pub fn init() {
    let _ = mitex::convert_math("a", None);
    let _ = mitex::convert_text("a", None);
    shapes::table();
}
