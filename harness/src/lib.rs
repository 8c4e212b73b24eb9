//! Harnesses: each drives the real code from symbolic inputs and asserts one property.
#![allow(clippy::all)]
pub mod sym;
pub mod common;
pub mod corpus;
pub mod grammar;
pub mod h_parse;
pub mod h_ast;
pub mod gen;
pub mod h_svc;
pub mod h_fmt;
pub mod h_names;
pub mod h_ls;
pub mod h_sem;
pub mod instrs;
pub mod opcodes;
pub mod h_types;
pub mod h_nav;
pub mod h_edit;
pub mod h_comp;

/// every harness, by name (the symbolic executor enters them directly; the replayer through this table)
#[macro_export]
macro_rules! harnesses { ($($name:ident => $path:path),* $(,)?) => {
    $( #[cfg(not(feature = "native"))] #[no_mangle] pub extern "C" fn $name() { $path() } )*
    pub const HARNESSES: &[(&str, fn())] = &[ $( (stringify!($name), $path as fn()) ),* ];
} }

harnesses! {
    parse_bytes => h_parse::parse_bytes,
    parse_chars => h_parse::parse_chars,
    parse_window => h_parse::parse_window,
    parse_prefix => h_parse::parse_prefix,
    verdict_bytes => h_parse::verdict_bytes,
    verdict_window => h_parse::verdict_window,
    verdict_moved => h_parse::verdict_moved,
    wf_trivia => h_parse::wf_trivia,
    ast_trivia => h_ast::ast_trivia,
    ast_window => h_ast::ast_window,
    ast_gen => h_ast::ast_gen,
    ast_docs => h_ast::ast_docs,
    ast_moved => h_ast::ast_moved,
    literal => h_parse::literal,
    ident_chars => h_parse::ident_chars,
    string_chars => h_parse::string_chars,
    fmt_keeps => h_fmt::fmt_keeps,
    fmt_import_first => h_fmt::fmt_import_first,
    fmt_idem => h_fmt::fmt_idem,
    fmt_keeps_seq => h_fmt::fmt_keeps_seq,
    fmt_idem_seq => h_fmt::fmt_idem_seq,
    fmt_keeps_docs => h_fmt::fmt_keeps_docs,
    fmt_idem_docs => h_fmt::fmt_idem_docs,
    fmt_ignore => h_fmt::fmt_ignore,
    fmt_range => h_fmt::fmt_range,
    fmt_layout => h_fmt::fmt_layout,
    fmt_service => h_fmt::fmt_service,
    split_join => h_edit::split_join,
    only_kinds => h_edit::only_kinds,
    mem_arg => h_edit::mem_arg,
    folding => h_edit::folding,
    selection => h_edit::selection,
    goto_def => h_names::goto_def,
    goto_type => h_names::goto_type,
    goto_elsewhere => h_names::goto_elsewhere,
    refs => h_names::refs,
    rename => h_names::rename,
    rename_name => h_names::rename_name,
    rename_closing => h_names::rename_closing,
    undef_dup => h_names::undef_dup,
    ask_any => h_ls::ask_any,
    ask_edited => h_ls::ask_edited,
    ask_typed => h_ls::ask_typed,
    ask_trivia => h_ls::ask_trivia,
    utf16 => h_ls::utf16,
    history => h_ls::history,
    history_same => h_ls::history_same, history_edit => h_ls::history_edit,
    isolated => h_ls::isolated,
    sem_trivia => h_sem::sem_trivia,
    sem_names => h_sem::sem_names,
    sem_edited => h_sem::sem_edited,
    sem_range => h_sem::sem_range,
    op_sig => h_types::op_sig,
    op_result => h_types::op_result,
    op_call => h_types::op_call,
    op_stack => h_types::op_stack,
    op_immediate => h_types::op_immediate,
    multi_modules => h_types::modules,
    calls => h_nav::calls,
    outline => h_nav::outline,
    hover => h_nav::hover,
    hover_comment => h_nav::hover_comment,
    hover_instr => h_nav::hover_instr,
    inlay => h_nav::inlay,
    complete_ref => h_comp::complete_ref,
    complete_type => h_comp::complete_type,
    complete_word => h_comp::complete_word,
    svc_probe => h_svc::svc_probe,
}
