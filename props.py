# property -> the symbolic runs that decide it.  h: harness, p: parameters (bounds), b: time budget (s), r: points that must be reached
PROPS = {
"P01": {
  "bounds": "every ASCII string of 1..5 bytes; every string of up to 3 chars of 1-4 UTF-8 bytes; every document obtained from one of 55 module fields (all productions) by inserting/overwriting 1 arbitrary byte, deleting up to 3 bytes, or cutting it anywhere and appending 2 arbitrary bytes",
  "outside": "longer arbitrary texts; more than one independent edit",
  "quick": [dict(h="parse_bytes", p=[n], r=["end"]) for n in (1,2,3,4,5)] + [dict(h="parse_chars", p=[n]) for n in (1,2)] + [
    dict(h="parse_window", p=[0,99,1,0]), dict(h="parse_window", p=[0,99,1,1]), dict(h="parse_window", p=[0,99,0,1]), dict(h="parse_window", p=[0,99,0,3]), dict(h="parse_prefix", p=[0,99,1]), dict(h="parse_chars", p=[3]), dict(h="parse_prefix", p=[0,99,2])],
},
"P02": {
  "bounds": "as P01 for the rejecting direction; for the accepting direction every field with one piece of symbolic trivia (1-2 content bytes) at any token gap, identifiers of 1-3 symbolic characters, strings of 1-2 symbolic elements, numbers of 18 prefixes + 1-3 symbolic characters",
  "quick": [dict(h="verdict_bytes", p=[n], r=["errors"]) for n in (1,2,3,4,5)] + [
    dict(h="verdict_window", p=[0,99,1,0], r=["clean","errors"]), dict(h="verdict_window", p=[0,99,1,1]), dict(h="verdict_window", p=[0,99,0,1]), dict(h="verdict_window", p=[0,99,0,2]), dict(h="verdict_window", p=[0,99,0,4]), dict(h="verdict_window", p=[0,99,2,0]), dict(h="verdict_window", p=[0,99,2,1]), dict(h="verdict_moved", p=[0,99,0,127], r=["clean","errors"]),
    dict(h="wf_trivia", p=[0,99,1], r=["accepted"]), dict(h="wf_trivia", p=[0,99,2]), dict(h="literal", p=[1]), dict(h="literal", p=[2], r=["number","not a number"]), dict(h="literal", p=[3]),
    dict(h="ident_chars", p=[1]), dict(h="ident_chars", p=[3]), dict(h="string_chars", p=[1]), dict(h="string_chars", p=[2])],
},
"P03": {
  "bounds": "every corpus field (all productions) with 1-2 pieces of symbolic trivia (whitespace runs, line/block comments with 1-2 symbolic content bytes) in any token gap, under 4 option sets; five multi-field documents with 2 adjacent pieces anywhere, and under symbolic options (width 1..120, indent 1..3, tabs, CRLF, comment formatting); the ignore directive with 0-2 symbolic trailing bytes",
  "outside": "documents with syntax errors; trivia in several gaps at once; lone CR",
  "quick": [dict(h="fmt_import_first", p=[0])] + [dict(h="fmt_keeps", p=[0,99,n,o], r=["formatted"]) for n in (1,2) for o in (0,1,2,3)] + [dict(h="fmt_ignore", p=[0,0,0,o], r=["ignored","not ignored"]) for o in (0,1,2,3)]
     + [dict(h="fmt_keeps_docs", p=[2,0,1,0], r=["formatted"]), dict(h="fmt_keeps_seq", p=[0,99,1,0]), dict(h="fmt_keeps_docs", p=[0,0,1,4])],
  "thorough": [dict(h="fmt_keeps", p=[0,99,n,o], r=["formatted"]) for n in (1,2,3) for o in (0,1,2,3)] + [dict(h="fmt_keeps_docs", p=[2,0,2,o], b=400) for o in (0,1,2,3)]
     + [dict(h="fmt_keeps_seq", p=[0,99,1,o], b=400) for o in (1,3)] + [dict(h="fmt_keeps", p=[0,99,2,4], b=900), dict(h="fmt_keeps_docs", p=[1,0,1,4], b=900)],
},
"P04": {
  "bounds": "as P03: the formatted text of every such document is formatted again",
  "outside": "as P03",
  "quick": [dict(h="fmt_idem", p=[0,99,n,o], r=["formatted twice"]) for n in (1,2) for o in (0,1,2,3)]
     + [dict(h="fmt_idem_docs", p=[2,0,1,0], r=["formatted twice"]), dict(h="fmt_idem_seq", p=[0,99,1,0]), dict(h="fmt_idem_seq", p=[0,99,1,1]), dict(h="fmt_idem_docs", p=[0,0,1,4])],
  "thorough": [dict(h="fmt_idem", p=[0,99,n,o], r=["formatted twice"]) for n in (1,2,3) for o in (0,1,2,3)] + [dict(h="fmt_idem_docs", p=[2,0,2,o], b=400) for o in (0,1,2,3)]
     + [dict(h="fmt_idem_seq", p=[0,99,1,o], b=400) for o in (1,3)] + [dict(h="fmt_idem", p=[0,99,2,4], b=900), dict(h="fmt_idem_docs", p=[1,0,1,4], b=900)],
},
"P05": {
  "bounds": "every corpus field and the five documents, unformatted and formatted, with a symbolic start and end position anywhere in the text, indent width 1..3, spaces/tabs; with a comment inserted at any token gap and a symbolic position",
  "outside": "documents with syntax errors",
  "quick": [dict(h="fmt_range", p=[0,99,0,0], r=["range formatted"]), dict(h="fmt_range", p=[0,99,1,0]), dict(h="fmt_range", p=[0,55,0,1], b=120)],
  "thorough": [dict(h="fmt_range", p=[0,99,0,0], r=["range formatted"]), dict(h="fmt_range", p=[0,99,1,0]), dict(h="fmt_range", p=[0,99,0,3], b=400), dict(h="fmt_range", p=[0,99,1,3], b=400), dict(h="fmt_range", p=[0,99,0,2], b=1800)],
},
"P06": {
  "bounds": "44 module templates covering every kind of definition, reference and label scope (functions, types, globals, memories, tables, imports, exports, element segments, params, locals, block/loop/if labels in folded and flat form, several modules); every name is a symbolic choice (2-3 letters, so every equality pattern of names), every definition named or not, every reference a name or an index 0..1 (thorough 0..2); a symbolic position on the reference, or anywhere in the document; names one of which is the beginning of another (`$a` and `$ab`) in every assignment",
  "outside": "more definitions than the templates have; names of more than two letters (hashing is abstracted to equality)",
  "quick": [dict(h="goto_def", p=[0,99,2,0,0,0,2]), dict(h="goto_def", p=[0,99,3,0,0], r=["resolved","unresolved"]), dict(h="goto_def", p=[0,99,2,2,0]), dict(h="goto_def", p=[0,99,2,2,1]), dict(h="goto_def", p=[0,99,1,2,0,1]), dict(h="goto_def", p=[0,99,1,2,0,2]), dict(h="goto_def", p=[0,99,1,2,0,3]), dict(h="goto_elsewhere", p=[0,99,2,0,0], r=["elsewhere"]), dict(h="goto_type", p=[0,0,2,0,0], r=["type","no type"]), dict(h="goto_type", p=[0,0,2,4,1])],
  "thorough": [dict(h="goto_def", p=[0,99,2,0,0,0,2]), dict(h="goto_def", p=[0,99,3,0,0], r=["resolved","unresolved"]), dict(h="goto_def", p=[0,99,2,3,1], b=300), dict(h="goto_def", p=[0,99,2,0,0,0,1], b=300), dict(h="goto_def", p=[0,99,3,2,1], b=900), dict(h="goto_elsewhere", p=[0,99,2,2,1], b=900, r=["elsewhere"]), dict(h="goto_type", p=[0,0,3,6,1], b=300, r=["type","no type"])],
},
"P07": {
  "bounds": "as P06, without duplicate names in a scope; with and without the declaration; from a symbolic position on the definition's name, its keyword, or any reference",
  "outside": "as P06; documents with duplicate names",
  "quick": [dict(h="refs", p=[0,99,2,0,0,0,2]), dict(h="refs", p=[0,99,2,0,0], r=["found","none"]), dict(h="refs", p=[0,99,2,1,1], b=250), dict(h="refs", p=[0,99,2,2,0], b=250)],
  "thorough": [dict(h="refs", p=[0,99,2,0,0,0,2]), dict(h="refs", p=[0,99,3,0,0], r=["found","none"], b=300), dict(h="refs", p=[0,99,2,2,1], b=300), dict(h="refs", p=[0,99,2,3,1], b=1500)],
},
"P08": {
  "bounds": "as P06, without duplicate names of a kind in a scope; rename from a symbolic position on any identifier; new names of 0-3 arbitrary bytes with and without the leading $; labels repeated after `end` and `else` in four templates of flat blocks",
  "outside": "as P07; new names that capture another definition",
  "quick": [dict(h="rename", p=[0,99,2,0,0,0,2]), dict(h="rename", p=[0,99,2,0,0], r=["renamed","unresolved"]), dict(h="rename", p=[0,99,2,2,0]), dict(h="rename", p=[0,99,2,1,1])] + [dict(h="rename_name", p=[n]) for n in (0,1,2,3)] + [dict(h="rename_closing", p=[0,0,2,0,1], r=["closed by name"])],
  "thorough": [dict(h="rename", p=[0,99,2,0,0,0,2]), dict(h="rename", p=[0,99,3,0,0], r=["renamed","unresolved"], b=300), dict(h="rename", p=[0,99,2,2,1], b=300), dict(h="rename", p=[0,99,3,2,1], b=1500)] + [dict(h="rename_name", p=[n]) for n in (0,1,2,3,4)] + [dict(h="rename_closing", p=[0,0,3,1,1], r=["closed by name"])],
},
"P09": {
  "bounds": "as P06, duplicates included",
  "outside": "as P06; equal labels in one function (shadowing) are left unspecified",
  "quick": [dict(h="undef_dup", p=[0,99,2,0,0,0,2]), dict(h="undef_dup", p=[0,99,3,0,0], r=["duplicate","unique"]), dict(h="undef_dup", p=[0,99,2,3,0]), dict(h="undef_dup", p=[0,99,2,1,1]), dict(h="undef_dup", p=[0,99,1,3,0,1]), dict(h="undef_dup", p=[0,99,1,3,0,3])],
  "thorough": [dict(h="undef_dup", p=[0,99,2,0,0,0,2]), dict(h="undef_dup", p=[0,99,3,0,0], r=["duplicate","unique"]), dict(h="undef_dup", p=[0,99,2,3,1], b=300), dict(h="undef_dup", p=[0,99,2,0,0,0,1], b=300), dict(h="undef_dup", p=[0,99,3,2,1], b=1500)],
},
"P10": {
  "bounds": "every one of the 421 instructions with a fixed signature, with its immediates in every form, with operands of symbolic types (locals of i32, i64, f32, f64, v128) of the right number, one more, one less; its result as operand of a call with a param of symbolic type; calls of functions with 0..2 (thorough 3) params of any of 3 types declared in 6 ways (inline, grouped, by type, by both, imported, imported by type) with 0..2 operands out of 8 kinds (locals, globals, calls with 0, 1 and 2 results, blocks, unreachable); sequences of 4 (thorough 5) instructions out of 11; immediates of 8 kinds with symbolic digits for 76 instructions; 0..3 modules",
  "outside": "types of blocks and what follows them (not checked by the implementation, must not be reported); bodies of blocks in sequences; results of functions; v128.const and i8x16.shuffle (the grammar has no multi-lane immediates)",
  "quick": [dict(h="op_sig", p=[0,999,0], r=["fine","type"]), dict(h="op_sig", p=[0,999,1], r=["count"]), dict(h="op_sig", p=[0,999,2], r=["count"]), dict(h="op_result", p=[0,999], r=["fine","type"]), dict(h="op_call", p=[2,2,0,3], r=["known","unknown","related"], b=120), dict(h="op_stack", p=[3]), dict(h="op_stack", p=[4], r=["fine","ill typed"], b=120), dict(h="op_immediate", p=[0], r=["right","wrong"]), dict(h="multi_modules", p=[0], r=["several"])],
  "thorough": [dict(h="op_sig", p=[0,999,0], r=["fine","type"]), dict(h="op_sig", p=[0,999,1], r=["count"]), dict(h="op_sig", p=[0,999,2], r=["count"]), dict(h="op_result", p=[0,999], r=["fine","type"]), dict(h="op_call", p=[2,2,0,5], r=["known","unknown","related"], b=400), dict(h="op_call", p=[3,3,0,2], b=900), dict(h="op_stack", p=[5], r=["fine","ill typed"], b=1200), dict(h="op_immediate", p=[0], r=["right","wrong"]), dict(h="multi_modules", p=[0], r=["several"])],
},
"P11": {
  "bounds": "every request the service answers (11 by position, 4 by range, 5 by document), on: the 55 corpus fields and five multi-line documents with a symbolic position or range anywhere, and up to 3 columns and 1 line beyond the text; every corpus field with one symbolic byte inserted, one byte deleted, or cut anywhere and one symbolic byte appended (quick: the bytes that matter to the lexer; thorough: any), requests at and around the edit; every field with trivia (line breaks, comments) in any gap",
  "outside": "nesting deep enough to exhaust the stack; several independent edits; documents never opened",
  "quick": [dict(h="ask_any", p=[0,99,0], r=["position","range","document"]), dict(h="ask_any", p=[0,99,3]), dict(h="ask_trivia", p=[0,99,1]), dict(h="ask_edited", p=[0,99,0,1,1,1]), dict(h="ask_edited", p=[0,99,1,0,1,0], b=90), dict(h="ask_typed", p=[0,99,1,0,1,0], b=90)],
  "thorough": [dict(h="ask_any", p=[0,99,0], r=["position","range","document"]), dict(h="ask_any", p=[0,99,3]), dict(h="ask_trivia", p=[0,99,2]), dict(h="ask_edited", p=[0,99,0,1]), dict(h="ask_edited", p=[0,99,0,3]), dict(h="ask_edited", p=[0,99,1,0], b=600), dict(h="ask_edited", p=[0,99,1,1], b=600), dict(h="ask_typed", p=[0,99,1], b=400), dict(h="ask_typed", p=[0,99,2], b=900)],
},
"P12": {
  "bounds": "three documents that use every feature, with 1 (thorough: 2) symbolic characters of 2, 3 or 4 UTF-8 bytes in a comment or string at any of 4-5 places; every request, with a symbolic position or range end anywhere",
  "outside": "text of several lines between the character and the position (columns restart there)",
  "quick": [dict(h="utf16", p=[1], r=["same"], b=120)],
  "thorough": [dict(h="utf16", p=[1], r=["same"], b=120), dict(h="utf16", p=[2], b=900), dict(h="utf16", p=[3], b=900)],
},
"P14": {
  "bounds": "the same request, at a symbolic position, before and after the names of four documents change (every assignment of two letters to each); two successive texts of a document out of 5 with symbolic names, every request asked (or not) in between, another document opened, changed or emptied in between or not; then every request at a symbolic position, compared with a fresh service; two texts that differ in the trivia of one gap only (white space and comments come, go or change, also before the first and after the last token), the same request before and after; and the same request before and after another document is opened",
  "outside": "longer histories; hash collisions (hashing is abstracted to equality)",
  "quick": [dict(h="history_same", p=[0,99], r=["same"], b=120), dict(h="history_edit", p=[0,99], r=["same"]), dict(h="history", p=[0,5,0], r=["same"], b=90), dict(h="isolated", p=[0,5], r=["same"], b=90)],
  "thorough": [dict(h="history_same", p=[0,99], r=["same"], b=120), dict(h="history_edit", p=[0,99], r=["same"]), dict(h="history", p=[0,5,0], r=["same"], b=90), dict(h="isolated", p=[0,5], r=["same"], b=90), dict(h="history", p=[0,5,1,0], b=600), dict(h="history", p=[0,5,0,1], b=900)],
},
"P13": {
  "bounds": "every corpus field and the five multi-line documents with symbolic trivia (line breaks, line and block comments of 1-2 symbolic bytes) in any gap, for clients that know all token types, all but any one, few, or list them in another order; three documents with symbolic names of functions, params, locals, labels and globals; every field with an inserted or deleted byte and a line break; ranges with symbolic ends anywhere",
  "outside": "token modifiers; documents with non-ASCII text are P12's",
  "quick": [dict(h="sem_trivia", p=[0,99,0,12], r=["tokens"]), dict(h="sem_trivia", p=[0,99,1,12], b=150), dict(h="sem_names", p=[2], r=["names"]), dict(h="sem_edited", p=[0,99,1,0,1], r=["edited"]), dict(h="sem_edited", p=[0,99,0,1,2]), dict(h="sem_range", p=[0,25], r=["range"], b=90)],
  "thorough": [dict(h="sem_trivia", p=[0,99,2,12], r=["tokens"], b=600), dict(h="sem_names", p=[3], r=["names"], b=300), dict(h="sem_edited", p=[0,99,2,0,1], r=["edited"], b=600), dict(h="sem_edited", p=[0,99,1,1,2], b=300), dict(h="sem_range", p=[0,99], r=["range"], b=300)],
},
"P15": {
  "bounds": "the 44 module templates of P06 with symbolic names, indices 0..1 and unnamed functions; every function definition (from its name or keyword) and every reference to one, at a symbolic position; incoming and outgoing calls of it",
  "outside": "call_indirect; more functions than the templates have",
  "quick": [dict(h="calls", p=[0,99,2,0,0,0,2,1]), dict(h="calls", p=[0,99,2,0,0,0,0,1], r=["incoming","outgoing","unresolved"]), dict(h="calls", p=[0,99,2,2,0,0,0,1], b=120), dict(h="calls", p=[0,99,2,0,1,0,0,1])],
  "thorough": [dict(h="calls", p=[0,99,2,0,0,0,2,1]), dict(h="calls", p=[0,99,3,0,0,0,0,1], r=["incoming","outgoing","unresolved"], b=300), dict(h="calls", p=[0,99,2,2,1,0,0,1], b=600), dict(h="calls", p=[0,99,2,3,0,0,0,1], b=900)],
},
"P16": {
  "bounds": "hover: four documents with functions, params, locals, types and globals (plain, grouped, imported, declared by type), names symbolic (2 letters) or absent, references by name or index 0..1, a symbolic position on every definition and reference; documentation comments: 2-3 lines out of 5 kinds with symbolic characters; each of 424 instructions, also with any one letter replaced by a symbolic one, and the 7 value types in 5 places, at a symbolic position; inlay hints: the 44 module templates of P06, over the whole document and over a range with one symbolic end",
  "outside": "names defined twice; the wording of descriptions of types",
  "quick": [dict(h="inlay", p=[0,99,2,0,0,0,2,0,1]), dict(h="hover", p=[0,9,2,0,0,0,2]), dict(h="hover", p=[0,9,2,2,0], r=["shown","nothing"]), dict(h="hover", p=[0,9,2,0,1]), dict(h="hover", p=[0,2,2,1,1]), dict(h="hover_comment", p=[2], r=["doc","no doc"]), dict(h="hover_comment", p=[3]), dict(h="hover_instr", p=[0], r=["opcode"]), dict(h="hover_instr", p=[1], r=["opcode","no instruction"]), dict(h="hover_instr", p=[2], r=["type"]), dict(h="inlay", p=[0,99,2,2,1], r=["hint","hints"]), dict(h="inlay", p=[0,99,2,0,0,0,0,0,1], b=120)],
  "thorough": [dict(h="inlay", p=[0,99,2,0,0,0,2,0,1]), dict(h="hover", p=[0,9,2,0,0,0,2]), dict(h="hover", p=[0,9,3,2,0], r=["shown","nothing"], b=300), dict(h="hover", p=[0,9,2,2,1], b=900), dict(h="hover_comment", p=[3], r=["doc","no doc"]), dict(h="hover_comment", p=[4], b=300), dict(h="hover_instr", p=[0], r=["opcode"]), dict(h="hover_instr", p=[1], r=["opcode","no instruction"]), dict(h="hover_instr", p=[2], r=["type"]), dict(h="inlay", p=[0,99,3,2,1], r=["hint","hints"], b=600), dict(h="inlay", p=[0,99,2,1,0,0,0,0,1], b=900)],
},
"P17": {
  "bounds": "the 44 module templates of P06 (one or two modules, all kinds of fields, imports, params and locals), names symbolic or absent",
  "outside": "more definitions than the templates have",
  "quick": [dict(h="outline", p=[0,99,2,0,0,0,2,1]), dict(h="outline", p=[0,99,2,0,1,0,0,1], r=["outline","local"]), dict(h="outline", p=[0,99,3,0,0,0,0,1])],
  "thorough": [dict(h="outline", p=[0,99,2,0,0,0,2,1]), dict(h="outline", p=[0,99,3,0,1,0,0,1], r=["outline","local"], b=600), dict(h="outline", p=[0,99,2,0,0,0,1,1], b=300)],
},
"P18": {
  "bounds": "headers of functions, types, imports, blocks, loops and indirect calls of 1-2 (thorough: 3) params, results and locals, named or with 0-2 types each, selections with one symbolic end and the other at any word, a line break or a comment with symbolic text in any gap; memory arguments with white space, line breaks or comments around '=', symbolic decimal, hexadecimal and grouped digits, numbers before and after, a symbolic position; the kinds a client asks for",
  "outside": "selections beyond the header (nothing is promised there); memory arguments of instructions outside parentheses (read as instruction names by the parser)",
  "quick": [dict(h="split_join", p=[1,2,1], r=["split","none"], b=200), dict(h="split_join", p=[2,2,0], r=["split","join"], b=200), dict(h="split_join", p=[2,2,1,1], r=["join"], b=200), dict(h="split_join", p=[3,1,0,1], r=["join"]), dict(h="only_kinds", p=[2,2,0], r=["some","none"]), dict(h="mem_arg", p=[1], r=["fixed","nothing wrong"])],
  "thorough": [dict(h="split_join", p=[1,3,1], r=["split","none"], b=300), dict(h="split_join", p=[2,2,1], r=["split","join"], b=900), dict(h="split_join", p=[3,2,1,1], r=["join"], b=900), dict(h="split_join", p=[3,1,0], b=600), dict(h="only_kinds", p=[2,2,0], r=["some","none"]), dict(h="mem_arg", p=[3], r=["fixed","nothing wrong"])],
},
"P19": {
  "bounds": "every corpus field and the five multi-line documents with a line break, white space, or a line or block comment with a symbolic byte in any gap; selections at two symbolic positions",
  "outside": "documents with syntax errors; foldable parts other than parenthesised groups and blocks (arms of if, lists of element segments) are only checked for nesting",
  "quick": [dict(h="folding", p=[0,99,1], r=["folded"]), dict(h="selection", p=[0,99,0], r=["group"], b=120)],
  "thorough": [dict(h="folding", p=[0,99,1], r=["folded"]), dict(h="folding", p=[0,99,2], b=300), dict(h="selection", p=[0,99,1], r=["group"], b=600)],
},
"P20": {
  "bounds": "the 44 module templates of P06 with names symbolic or absent: completion at a symbolic position of a symbolic reference, which is there, left out, or has only its `$`; and at every place where a type stands (params, results, locals, globals, block types, ref.null, tables, element lists), left out or with a symbolic first letter; every field keyword (and `module`) and every function-header, import/export, global, table, memory, data, elem keyword and instruction name (one letter or more typed) of the corpus, every stage of typing it, after a piece of symbolic trivia",
  "outside": "keywords of block headers, `then`, `item`, `declare`, `shared` and the ref.* instructions, which are not offered everywhere; what keywords and instruction names are offered besides; names of data and element segments; positions after a complete type",
  "quick": [dict(h="complete_ref", p=[0,99,2,0,0,0,2,1]), dict(h="complete_ref", p=[0,99,2,0,0,0,0,1], r=["offered"]), dict(h="complete_ref", p=[0,99,2,1,1,0,0,1]), dict(h="complete_type", p=[0,99], r=["reference","value"]), dict(h="complete_word", p=[0,999,1], r=["word"])],
  "thorough": [dict(h="complete_ref", p=[0,99,2,0,0,0,2,1]), dict(h="complete_ref", p=[0,99,3,0,0,0,0,1], r=["offered"], b=600), dict(h="complete_ref", p=[0,99,2,1,1,0,0,1], b=600), dict(h="complete_ref", p=[0,99,2,0,0,0,1,1], b=600), dict(h="complete_type", p=[0,99], r=["reference","value"]), dict(h="complete_word", p=[0,999,1], r=["word"])],
},
"P21": {
  "module": "srv",
  "bounds": "conversations of `initialize`, a document opened, and 1 (of document notifications 2; thorough: 2 of everything, 3 of documents) further messages of any kind: opening, changing (1 or 2 texts) and closing two documents with 3 texts, each of the 21 announced requests (with fixed and with a symbolic position) with proper and with 4 kinds of improper params, 5 unknown requests, ignored, unknown and improper notifications, responses; request ids any 31-bit number or 2-character string; a client with and without pull diagnostics; ended by shutdown and exit, exit, or the end of the input",
  "outside": "reading and writing of the standard streams and JSON text (crate lsp-server); requests about documents which were never opened; messages between shutdown and exit",
  "quick": [dict(h="serve", p=[1], r=["conversation","request","malformed","unknown"]), dict(h="serve", p=[2,1]), dict(h="serve", p=[1,2,1])],
  "thorough": [dict(h="serve", p=[2], r=["conversation","request","malformed","unknown"], b=900), dict(h="serve", p=[3,1], b=900), dict(h="serve", p=[1,2,1])],
},
"P22": {
  "bounds": "every corpus field and the five documents with 1-2 symbolic white-space characters, or a piece of symbolic trivia, in any gap, under 4 option sets and with symbolic print width 1..120, indent width 1..3, tabs or spaces, LF or CRLF; the formatting request with tab sizes 0..4, tabs or spaces, text before and after the modules",
  "outside": "exact indentation of lines that follow comments or blank lines in a header; tab sizes beyond 4",
  "quick": [dict(h="fmt_layout", p=[0,99,n,o], r=["same layout","blank line"]) for n in (1,2) for o in (0,1,2,3)] + [dict(h="fmt_layout", p=[0,99,n,o,1], r=["with comment"]) for n in (1,2) for o in (0,1,2)] + [dict(h="fmt_service", p=[0,99], r=["formatted"]), dict(h="fmt_layout", p=[0,99,1,4])],
  "thorough": [dict(h="fmt_layout", p=[0,99,n,o], r=["same layout","blank line"]) for n in (1,2,3) for o in (0,1,2,3)] + [dict(h="fmt_layout", p=[0,99,n,o,1], r=["with comment"]) for n in (1,2,3) for o in (0,1,2,3)] + [dict(h="fmt_service", p=[0,99], r=["formatted"]), dict(h="fmt_layout", p=[0,99,2,4], b=900), dict(h="fmt_layout", p=[0,99,1,4,1], b=900)],
},
}

# every module of one field generated along the grammar (harness/src/gen.rs): g(harness, harness' own params, choices)
def _g(h, own, k, **kw): return dict(h=h, p=[100,110,*own,0,0,0,0,0,0][:8]+[2,k], **kw)
_GB = "; every module of one field generated along the grammar (nesting depth 2, any %s of its choices away from the first; thorough: %s)"
for _id, _q, _t, _w in [
  ("P02", [_g("wf_trivia",[1],3)], [_g("wf_trivia",[1],4,b=400), _g("wf_trivia",[2],3,b=300)], ("three","four")),
  ("P03", [_g("fmt_keeps",[1],2), _g("fmt_keeps",[1,3],1)], [_g("fmt_keeps",[1,o],3,b=300) for o in (0,1,2,3)] + [_g("fmt_keeps",[1],4,b=900)], ("two","four")),
  ("P04", [_g("fmt_idem",[1],2), _g("fmt_idem",[1,3],1)], [_g("fmt_idem",[1,o],3,b=300) for o in (0,1,2,3)] + [_g("fmt_idem",[1],4,b=900)], ("two","four")),
  ("P05", [_g("fmt_range",[0],2)], [_g("fmt_range",[o],3,b=500) for o in (0,1)], ("two","three")),
  ("P11", [_g("ask_any",[0],1)], [_g("ask_any",[0],3,b=400)], ("one","three")),
  ("P13", [_g("sem_trivia",[1,1],2)], [_g("sem_trivia",[1,12],3,b=500)], ("two","three")),
  ("P19", [_g("folding",[1],3), _g("selection",[0],2)], [_g("folding",[1],4,b=500), _g("selection",[0],3,b=500)], ("three (selections: two)","four (three)")),
  ("P22", [_g("fmt_layout",[1,0],3), _g("fmt_layout",[1,0,1],2)], [_g("fmt_layout",[1,o],3,b=300) for o in (1,2,3)] + [_g("fmt_layout",[1,0],4,b=900), _g("fmt_layout",[1,0,1],3,b=300)], ("three (with comments: two)","four (three)")),
]:
    _p = PROPS[_id]; _p.setdefault("thorough", list(_p["quick"]))
    _p["quick"] = _p["quick"] + _q; _p["thorough"] = _p["thorough"] + _t; _p["bounds"] += _GB % _w

PROPS["P23"] = {
  "bounds": "every corpus field with one piece of symbolic trivia (2 content bytes) in any gap, or with 1-2 (thorough: 3) arbitrary bytes inserted or overwritten anywhere, two bytes deleted, or one token moved; the five multi-field documents with a symbolic byte of trivia; every module of one field generated along the grammar (nesting depth 2, any five (thorough: seven) of its choices away from the first); texts that are not well-formed are only checked for the absence of crashes",
  "outside": "accessors of malformed texts; parts the grammar of the repository does not have",
  "quick": [dict(h="ast_trivia", p=[0,99,1], r=["given"])] + [dict(h="ast_window", p=p) for p in ([0,99,1,0],[0,99,1,1],[0,99,2,0],[0,99,2,1],[0,99,0,2])] + [dict(h="ast_docs", p=p) for p in ([1,0],[2,1])]
     + [dict(h="ast_moved", p=[0,99,0,127]), dict(h="ast_gen", p=[0,10,2,5], r=["given"]), dict(h="ast_gen", p=[0,10,2,4,1])],
  "thorough": [dict(h="ast_trivia", p=[0,99,2], r=["given"])] + [dict(h="ast_window", p=p, b=400) for p in ([0,99,2,0],[0,99,2,1],[0,99,0,2],[0,99,3,0],[0,99,3,1])] + [dict(h="ast_docs", p=p, b=300) for p in ([1,0],[2,1],[3,1])]
     + [dict(h="ast_moved", p=[0,99,0,127]), dict(h="ast_gen", p=[0,10,2,6], b=600, r=["given"]), dict(h="ast_gen", p=[0,10,2,5,1], b=400), dict(h="ast_gen", p=[0,10,2,7], b=1500)],
}
