#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; the results are committed)."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from props import PROPS

META = {}
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    META[id] = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}

prop("P01", "Parsing is total and lossless",
 "For every text, valid or not, parsing terminates without crashing and the resulting syntax tree's text is exactly the input, byte for byte. The nodes and tokens of the tree tile the text: no gap, no overlap, nothing invented.",
 ["inputs"], "every source text, including truncated, garbled and non-ASCII ones",
 "the snapshot tests parse a fixed set of files; the guarantee is about every byte sequence an editor can send while the user is typing",
 ["crates/parser/src/parser/*.rs", "crates/syntax/src/lib.rs"],
 [("parser combinators with recovery", "crates/parser/src/parser/"), ("token rules", "crates/parser/src/parser/token.rs")], ["Parser::parse", "SyntaxNode::text"])
prop("P02", "Syntax errors are reported exactly for malformed text",
 "A document gets a syntax error if and only if it is not made of well-formed modules: unbalanced parentheses, unterminated strings or comments, stray characters and misplaced tokens are reported, while well-formed text, with any trivia between its tokens and any spelling of its literals, identifiers and strings, is accepted. Every reported error range lies inside the document and does not end before it starts.",
 ["inputs"], "every source text; every placement of trivia; every spelling of literals, identifiers, strings",
 "tests check listed good and bad files; neither direction of the equivalence is checked outside those files",
 ["crates/parser/src/parser/*.rs", "crates/parser/src/error.rs", "crates/service/src/features/diagnostics.rs"],
 [("lexer rules", "crates/parser/src/parser/token.rs"), ("error recovery", "crates/parser/src/parser/mod.rs"), ("error ranges", "crates/parser/src/error.rs")], ["Parser::errors", "publish diagnostics"])
prop("P03", "Formatting preserves the program and its comments",
 "Formatting a syntactically valid document yields a syntactically valid document with exactly the same tokens and comments in the same order, under every option set; only whitespace (and, when comment formatting is on, the padding of comments) differs. A node under an ignore directive is reproduced verbatim, and the directive applies only to that node.",
 ["inputs", "configurations"], "every well-formed document, every placement of comments, every layout and language option",
 "snapshot tests compare the output for given files; a comment in an untested position or an untested option combination can be lost silently",
 ["crates/formatter/src/printer/*.rs", "crates/formatter/src/lib.rs"],
 [("document generation per node kind", "crates/formatter/src/printer/"), ("ignore directive", "crates/formatter/src/printer/")], ["wat_formatter::format", "formatting request"])
prop("P04", "Formatting is idempotent",
 "Formatting an already formatted document with the same options changes nothing.",
 ["inputs", "configurations"], "every well-formed document with any comment placement, every option set",
 "the repository's stability test covers only the committed fixtures",
 ["crates/formatter/src/printer/*.rs"], [("document generation per node kind", "crates/formatter/src/printer/"), ("line breaking and indentation", "crates/formatter/src/lib.rs")], ["wat_formatter::format"])
prop("P05", "Range formatting only re-lays out and covers the requested range",
 "For every requested range of a valid document, range formatting returns at most one edit, that edit covers the requested range and is applicable, and applying it leaves every token and comment unchanged and the document valid.",
 ["inputs", "configurations"], "every valid document, start and end position, indent option",
 "tests format a handful of ranges",
 ["crates/formatter/src/lib.rs", "crates/service/src/features/formatting.rs"], [("smallest covering node", "crates/formatter/src/lib.rs: format_range"), ("edit construction", "crates/service/src/features/formatting.rs")], ["range formatting request"])

prop("P06", "Go to definition leads exactly to what a reference denotes",
 "From any position on a reference (by name or by index) to a function, type, global, memory, table, param, local or block label, go to definition (and declaration, and type definition of a call) leads to the definition(s) of that kind, in that module, function or enclosing block, which have that name or index, and to nothing else; labels resolve to the innermost enclosing block that has the name, and the label of an `if` is not in scope in its condition. A reference that denotes nothing, and a position that is not on a reference, lead nowhere.",
 ["inputs"], "every arrangement of names and indices over definitions and references, every cursor position",
 "tests look up one reference per kind in a fixed document; wrong-scope and wrong-kind resolution shows only for particular name equality patterns",
 ["crates/service/src/binder.rs", "crates/service/src/idx.rs", "crates/service/src/features/definition.rs", "crates/service/src/features/mod.rs"],
 [("symbol table and scopes", "crates/service/src/binder.rs"), ("token under the cursor", "crates/service/src/features/mod.rs: find_meaningful_token")], ["definition, declaration and typeDefinition requests"])
prop("P07", "Find references returns exactly the uses of a definition",
 "Asked from a definition (its name or keyword) or from any of its uses, find references returns exactly the uses that resolve to that definition (plus the definition itself iff the declaration is requested): none missing, none from another scope, kind, module or shadowing label.",
 ["inputs"], "every arrangement of names and indices without duplicate definitions, every cursor position, both values of includeDeclaration",
 "as P06: needs particular name equality patterns across scopes",
 ["crates/service/src/features/references.rs", "crates/service/src/binder.rs"],
 [("reference matching", "crates/service/src/features/references.rs"), ("label resolution", "crates/service/src/binder.rs")], ["references request"])
prop("P08", "Rename edits exactly the occurrences of the renamed thing",
 "Renaming an identifier produces edits for exactly its definition and every use by name of that definition (a label repeated after `else` or `end` is one), each replacing exactly the identifier, all in this document; identifiers of other things, other scopes and other modules stay as they are (fields of one module that share one name are renamed together). A new name is accepted if and only if it is a valid identifier, and prepare rename answers with the identifier under the cursor.",
 ["inputs"], "every arrangement of names without duplicate definitions, every cursor position, every new name",
 "as P06; a wrongly renamed identifier silently changes the meaning of the program",
 ["crates/service/src/features/rename.rs", "crates/service/src/binder.rs"],
 [("occurrence matching", "crates/service/src/features/rename.rs: rename_impl"), ("name validation", "crates/service/src/features/rename.rs: rename")], ["rename and prepareRename requests"])
prop("P09", "Undefined and duplicate names are reported exactly",
 "A reference gets an undefined-name error if and only if nothing in its scope defines it (modulo the listed findings about function-body labels), and a definition gets a duplicate-name error if another definition of its kind in its scope has the same name, and not when no other has it; the errors are located on the offending name and quote it, and that about a duplicate tells where the others are.",
 ["inputs"], "every arrangement of names and indices over definitions and references",
 "tests contain one undefined and one duplicate of each kind in fixed documents",
 ["crates/service/src/checker/undef.rs", "crates/service/src/checker/dup_names.rs", "crates/service/src/binder.rs"],
 [("undefined check", "crates/service/src/checker/undef.rs"), ("duplicate check", "crates/service/src/checker/dup_names.rs")], ["diagnostics"])

prop("P10", "Operand diagnostics agree with the signatures of instructions",
 "For a folded instruction, or instructions in sequence, a diagnostic about operands is reported if and only if an operand's type, or the number of operands, differs from what the instruction (per the WebAssembly specification) or the called function (however it is declared: inline, by type, by import) takes; it is at the operand or instruction concerned, once per mistake. Values whose type the checker does not know (results of blocks, unreachable code) never lead to such a diagnostic. Omitted memory arguments and table indexes are accepted; an immediate of the wrong kind is reported. Every module but the first is reported.",
 ["inputs"], "every instruction, every assignment of types to operands and params, every way of declaring a function, every short sequence of instructions",
 "tests check a handful of instructions; the 421 signatures and the ways to declare a callee are not covered",
 ["crates/service/src/checker/typeck.rs", "crates/service/src/checker/literal_operands.rs", "crates/service/src/checker/multi_modules.rs", "crates/service/src/data_set/instr_meta.rs", "crates/service/src/types_analyzer.rs"],
 [("signature table", "crates/service/src/data_set/instr_meta.rs"), ("operand check", "crates/service/src/checker/typeck.rs"), ("signatures of functions", "crates/service/src/types_analyzer.rs: get_func_sig")], ["diagnostics"])
prop("P11", "No document and no request makes the service crash, and answers point into the document",
 "For every text of a document, valid or in the middle of being edited, and every position or range a client may send (including beyond the end of a line or of the document), every request is answered without a crash, and every position, range and edit in the answer lies inside the document with its end not before its start: selection ranges nest around the position up to the whole document (or are empty where there is no word), outline items lie inside their parents and contain their selection, folding ranges span several lines, rename edits do not overlap.",
 ["inputs"], "every text reachable by an edit of a document, every request, every position and range",
 "a language server is asked about unfinished documents at every key press; tests ask about finished ones at chosen positions",
 ["crates/service/src/features/*.rs", "crates/service/src/helpers.rs", "crates/service/src/binder.rs", "crates/service/src/types_analyzer.rs", "crates/service/src/checker/*.rs"],
 [("position arithmetic", "crates/service/src/helpers.rs"), ("request handlers", "crates/service/src/features/"), ("analysis of incomplete syntax", "crates/service/src/binder.rs, types_analyzer.rs")], ["every request"])
prop("P12", "Columns are counted in UTF-16 code units in both directions",
 "Positions received and sent count columns in UTF-16 code units, as LSP requires: a document with characters outside of ASCII in comments or strings is answered exactly as the document that has as many ASCII characters as each of them has UTF-16 code units.",
 ["inputs"], "every character of every width, at every place, every request and position",
 "no test contains a character outside of ASCII before a position",
 ["crates/service/src/helpers.rs", "crates/service/src/features/*.rs"],
 [("position to offset and back", "crates/service/src/helpers.rs, files.rs"), ("token lengths", "crates/service/src/features/semantic_tokens.rs")], ["every request"])
prop("P13", "Semantic tokens decode to exactly the tokens of the text",
 "Decoded by the LSP rules with the announced legend, the semantic tokens of a document are, in order and without overlap, the comments, strings, numbers, types, keywords, instructions and identifiers of the text at their positions and with their lengths, each with its type: functions, params and other names are told apart by what they denote. Types the client does not know are left out without moving any other token. The tokens of a range are those of the document which the range touches (modulo the listed finding about the first line of a range).",
 ["inputs", "configurations"], "every document, layout, comment and client capability set, every range",
 "tokens are encoded relative to each other, so one miscounted line break moves all that follow; the tests have one document and one client",
 ["crates/service/src/features/semantic_tokens.rs", "crates/service/src/lib.rs"],
 [("relative encoding", "crates/service/src/features/semantic_tokens.rs: build_tokens"), ("classification", "crates/service/src/features/semantic_tokens.rs: token_type"), ("legend", "crates/service/src/lib.rs: initialize")], ["semanticTokens/full and /range requests"])
prop("P14", "Answers depend on the current text of the document only",
 "Whatever texts a document had before, whatever was asked meanwhile, and whatever other documents were opened or changed, each answer is the one a fresh service gives for the current text.",
 ["histories"], "every sequence of document changes, requests and changes of other documents",
 "answers come from an incremental computation (salsa) with interned keys; stale or mixed-up results need a particular history",
 ["crates/service/src/lib.rs", "crates/service/src/files.rs", "crates/service/src/binder.rs", "crates/service/src/uri.rs"],
 [("incremental database", "crates/service/src/files.rs, binder.rs, types_analyzer.rs"), ("document updates", "crates/service/src/lib.rs: commit")], ["every request"])
prop("P15", "Call hierarchy lists exactly the calls",
 "Preparing the call hierarchy on a function's name or keyword, or on a reference to it, gives that function (range, selection range, name). Its incoming calls are exactly the instructions, in any function of the module, that call or take a reference to it (call, return_call, ref.func, by name or index), each attributed to the function it is in; its outgoing calls are exactly those in its body whose callee is defined, each leading to the callee. The two are therefore symmetric.",
 ["inputs"], "every arrangement of names and indices over functions and calls, every cursor position",
 "tests query one document with three functions",
 ["crates/service/src/features/call_hierarchy.rs", "crates/service/src/binder.rs"],
 [("incoming calls by matching symbols", "crates/service/src/features/call_hierarchy.rs: call_hierarchy_incoming_calls"), ("outgoing calls by walking the body", "crates/service/src/features/call_hierarchy.rs: call_hierarchy_outgoing_calls")], ["callHierarchy requests"])
prop("P16", "Hover and inlay hints show what is defined",
 "Hovering over a definition, its keyword or a reference to it shows exactly that definition: kind, name and full signature or type (also when the function is declared by a type or imported), together with the documentation comment (`;;;` lines) directly above a function, and covers exactly the token; hovering over an instruction shows its name and its binary opcode, over a value type an explanation of that type. Inlay hints show, after every reference to a param, local or global that denotes something, the type it is defined with, and after every named function its name; hints in the requested range are all there, and none lie outside of it.",
 ["inputs"], "every arrangement of names and indices, every cursor position, every range",
 "tests hover over chosen tokens of fixed documents",
 ["crates/service/src/features/hover.rs", "crates/service/src/features/inlay_hint.rs", "crates/service/src/types_analyzer.rs"],
 [("rendering of signatures", "crates/service/src/types_analyzer.rs: render_func_header"), ("hover contents", "crates/service/src/features/hover.rs"), ("hints", "crates/service/src/features/inlay_hint.rs")], ["hover and inlayHint requests"])
prop("P17", "The document outline is complete and in order",
 "Document symbols list every module in order of the text, below it every type, function, global, memory and table it defines or imports, in order, and below a function its locals, in order; each with its name (or index when it has none), kind, full range and, as selection range, its identifier; nothing is missing, repeated or misplaced.",
 ["inputs"], "every arrangement of named and unnamed definitions over one or several modules",
 "one test with one module",
 ["crates/service/src/features/document_symbol.rs", "crates/service/src/binder.rs"],
 [("tree building from the symbol table", "crates/service/src/features/document_symbol.rs")], ["documentSymbol request"])

prop("P18", "Code actions keep the program",
 "Applying any code action offered for any selection changes only what it says: splitting params, results or locals yields one group per type, joining yields one group of the selected adjacent unnamed params, and the fix of a memory argument removes white space around its '=' only; all other tokens, all names, all types and all comments stay, in order. Splitting is offered inside every group of several types, joining for every selection of several adjacent unnamed params, the fix for every memory argument spelled with white space; with a list of kinds, exactly the actions of those kinds are offered.",
 ["inputs"], "every header, every placement of comments and line breaks, every selection, every list of kinds",
 "tests apply actions to a few headers without comments",
 ["crates/service/src/features/code_action.rs", "crates/service/src/refactorings/*.rs"],
 [("split", "crates/service/src/refactorings/func_header_split.rs"), ("join", "crates/service/src/refactorings/params_join.rs"), ("memory argument fix", "crates/service/src/refactorings/fix_invalid_mem_arg.rs"), ("selection of nodes and kinds", "crates/service/src/features/code_action.rs")], ["codeAction request"])
prop("P19", "Folding and selection ranges follow the structure of the text",
 "In a well-formed document, every parenthesised group and every block that spans several lines can be folded, once, from its first to its last character; nothing on a single line can be folded and folding ranges never cross. A selection request is answered for each position, in order, by a chain of growing ranges that contain the position, starting with the word there, passing through every enclosing group, and ending with the whole document (an empty range where there is no word).",
 ["inputs"], "every arrangement of line breaks and comments, every list of positions",
 "one test each",
 ["crates/service/src/features/folding_range.rs", "crates/service/src/features/selection_range.rs", "crates/service/src/features/mod.rs"],
 [("folding", "crates/service/src/features/folding_range.rs"), ("selection chain", "crates/service/src/features/selection_range.rs")], ["foldingRange and selectionRange requests"])

prop("P20", "Completion offers exactly what may stand there",
 "Where a reference stands, is missing, or has been begun with `$`, completion offers exactly the definitions it may denote: those of its kind in that module, function or the enclosing blocks, each once, with the text that refers to it and its type where it has one; nothing that is out of scope, of another kind or of another module. Where a type stands, exactly the types that may stand there are offered. Where a field keyword, a keyword of a function header, import, export, global, table, memory, data or element segment, or (once begun) the name of an instruction in a function stands, that word is among the offers, once.",
 ["inputs"], "every arrangement of names over definitions, every reference and type, every stage of typing it",
 "tests complete in a few fixed documents; offers out of scope or missing offers show only at particular places",
 ["crates/service/src/features/completion.rs", "crates/service/src/binder.rs", "crates/service/src/features/mod.rs"],
 [("context of the cursor", "crates/service/src/features/completion.rs: get_cmp_ctx"), ("items", "crates/service/src/features/completion.rs: get_cmp_list"), ("label scopes", "crates/service/src/binder.rs")], ["completion request"])
prop("P21", "The server answers every request exactly once and publishes current diagnostics",
 "In every conversation the server sends exactly one response to every request, with the id of that request: for an announced request with proper params, what the service answers for the current texts of the documents; for an unknown request, improper params or a refused rename, an error. The text of a document is the last one opened or sent. After every opening and change the diagnostics of that document, and no others, are published (unless the client pulls them), and after closing it none are left. Ignored, unknown or improper notifications and responses change nothing and do not stop the server, which ends without error at the end of the conversation.",
 ["histories", "inputs", "configurations"], "every sequence of messages, every id, every position, both kinds of clients",
 "the server has no tests at all; a request without an answer makes the client wait for ever",
 ["crates/server/src/server.rs"],
 [("message loop", "crates/server/src/server.rs: server_loop"), ("documents", "crates/server/src/server.rs: handle_did_open_text_document, handle_did_change_text_document, handle_did_close_text_document")], ["messages of the server"])
prop("P22", "Formatted text has the layout asked for, whatever the layout of the source",
 "Formatted text is indented with the characters and in whole steps of the width asked for, each line one step deeper than the one that opened the innermost group or block it is in (no deeper than its nesting where comments or blank lines interfere); tokens on a line are separated by at most one space, no line ends with white space, there is at most one blank line in a row, every line break is of the kind asked for, and the text ends with exactly one. Sources without comments or blank lines that differ in white space only, inside modules, get the same text. The formatting request replaces the whole document by that text, with the tab size and kind of indentation of the request.",
 ["inputs", "configurations"], "every document, every white space between its tokens, every layout option",
 "snapshots show the layout of chosen sources under default options",
 ["crates/formatter/src/printer/*.rs", "crates/formatter/src/lib.rs", "crates/service/src/features/formatting.rs"],
 [("document generation", "crates/formatter/src/printer/"), ("options", "crates/formatter/src/lib.rs: build_options, crates/service/src/features/formatting.rs: build_options")], ["wat_formatter::format", "formatting request"])

prop("P23", "The typed syntax tree gives every part of a well-formed text",
 "For every well-formed text the accessors of the typed syntax tree (wat_syntax::ast) give exactly the parts which the text has by the grammar of WebAssembly, in their order and each with its own text: of a root its modules, of a module its name and fields, of each field its keyword, name, inline import and exports, type use, params, results, locals, instructions, limits, types, offsets and elements, of a block its label, types and bodies, of an instruction its name, immediates and operands. A part which the text does not have is absent, and a tree has no part besides. Comments and white space make no difference.",
 ["inputs"], "every well-formed text",
 "snapshots pin the untyped tree of chosen sources; most accessors are not called by any test, and every feature of the service and formatter rests on them",
 ["crates/syntax/src/ast/*.rs", "crates/parser/src/parser/*.rs"],
 [("accessors", "crates/syntax/src/ast/"), ("shape of the tree", "crates/parser/src/parser/")], ["wat_syntax::ast accessors on the tree of wat_parser::parse"])

NOT_APPLICABLE = []
TECH = "symbolic execution of the real code's LLVM IR (symx), every branch and assertion decided by Z3; counterexamples replayed natively"
NOTE = "All values within the stated bounds (evidence: bounds, outside). Trusts: rustc's LLVM IR, symx's IR semantics (sample paths replayed natively every run), Z3, the harness' reference oracle."
with open("properties.jsonl", "w") as f:
    for k in sorted(META): f.write(json.dumps(META[k]) + "\n")
m = {"version": 1, "setup_cmd": "./setup.sh",
     "checks": [{"property": k, "quick_cmd": f"python3 check.py {k} quick", "thorough_cmd": f"python3 check.py {k} thorough", "technique": TECH, "level": "model_checking", "level_note": NOTE + " Bounds: " + PROPS[k]["bounds"]} for k in sorted(META) if k in PROPS],
     "not_applicable": NOT_APPLICABLE + [],
     "notes": "No hooks in /repo: the harness drives public entry points; /repo carries only fix: commits."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
