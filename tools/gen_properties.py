#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list is easy to maintain)."""
import json, os
L = "crates/mitex-lexer/src/"
P = "crates/mitex-parser/src/"
C = "crates/mitex/src/converter.rs"
S = "crates/mitex-spec/src/"
props = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    props.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": hook}})

prop("C01", "Tokenization partitions the input into maximal, correctly classified runs",
 "With macro expansion off, the tokens of any input cover every character exactly once and in order (for an environment clause only the name is the token text, its \\begin{..} / \\end{..} wrapping is implied). Every token is the longest run of its category: line breaks, other Unicode white space, a comment up to but excluding the end of line, a single punctuation or brace mark, one or two dollars, a word, a double backslash, or a command. Every character of Unicode falls in exactly one category.",
 ["inputs"], "every finite string over Unicode",
 "The tests tokenize a few dozen fixed ASCII snippets; they cannot reach every mix of categories, line endings and non-ASCII white space.",
 [L+"token.rs", L+"stream.rs"], [("token regexes and priorities", L+"token.rs Token"), ("name lexing callback", L+"token.rs lex_command_name")],
 ["Lexer<()>::peek / eat"])
prop("C02", "Command, starred command and environment names are recognised exactly",
 "A backslash followed by letters or @ is one command named by the whole run, extended by a directly following star exactly when the starred name is in the command specification; a backslash followed by any other non-space character is the command of that single character. An environment clause may have white space and comments before its opening brace and before its closing brace and yields exactly its name (letters, @, optional star); any other \\begin or \\end is an error token for the command alone. Conditionals, \\left, \\right, \\( \\[ \\) \\] are classified by their full name, never by a prefix of a longer name.",
 ["inputs", "configurations"], "every input string and every set of specified (starred) commands",
 "Existing tests use a handful of names with the default specification; name boundaries, stars, comments and unusual white space around environment names are not sampled.",
 [L+"token.rs"], [("command name lexing", L+"token.rs lex_command_name, advance_ascii_name"), ("environment name lexing", L+"token.rs lex_begin_end")],
 ["Lexer<()>::peek / eat", "mitex_parser::parse"])
prop("C03", "Buffered reading never loses, repeats or reorders tokens",
 "For any input length and any interleaving of peeking, taking a token and consuming part of a token, the reader observes exactly the tokens of the input in order, once each, until the end, and then nothing. This holds with and without macro expansion, wherever internal buffer boundaries fall, including when an expansion or a definition straddles one.",
 ["inputs", "histories"], "every token sequence of any length and every history of peek/eat/partial-consume calls",
 "Test inputs are far shorter than one internal buffer page, so no test ever crosses a boundary.",
 [L+"lib.rs", L+"stream.rs", L+"macro_engine.rs"], [("page refill", L+"stream.rs LexCache::bump"), ("refill with expansion", L+"macro_engine.rs do_bump"), ("push back of an expansion", L+"stream.rs LexCache::extend")],
 ["Lexer::peek, peek_text, peek_char, eat, consume_utf8_bytes"],
 [("peek_outer", "tokens ready for the parser", L+"stream.rs"), ("peek_inner", "tokens pushed back for rescanning", L+"stream.rs")])
prop("C04", "A user-defined command expands to its definition with its own arguments",
 "Using a command defined earlier in the document replaces it and its arguments, and nothing else, by its definition with every #i replaced by the i-th argument, and the result is expanded again. An argument is a balanced group without its braces, a single character of a word, or a single other token, white space and comments before it being skipped; with a default value given in the definition the first argument is the optional one, taken from brackets if they follow. All other tokens pass through unchanged and in order, and a use with too few arguments is reported as an error.",
 ["programs"], "every document whose macros do not (directly or mutually) expand to themselves",
 "The tests expand three macros on one-line inputs; argument kinds, nesting, chained and repeated expansion combine without bound.",
 [L+"macro_engine.rs", L+"stream.rs"], [("macro dispatch", L+"macro_engine.rs trapped_by_macro"), ("argument reading", L+"macro_engine.rs read_macro_args"), ("substitution", L+"macro_engine.rs expand_tokens"), ("parameter marks", L+"macro_engine.rs process_macro_def")],
 ["Lexer<MacroEngine>::eat", "mitex::convert_math / convert_text"],
 [("macros", "name to definition in force at this point of the document", L+"macro_engine.rs MacroEngine")])
prop("C05", "Definitions take effect from where they stand under the new/renew/provide rules",
 "A definition leaves nothing of itself in the output and is in force for the rest of the document until redefined; spaces and comments may separate its parts. Defining an existing user command as new, or renewing a name that is neither user-defined nor in the command specification, is reported as an error; providing keeps an existing user definition; a robust declaration always (re)defines. A use before the definition is not expanded, and the latest definition in force wins.",
 ["programs"], "every sequence of definitions and uses",
 "Tests define each name once; order, redefinition and the interaction of the defining commands are unbounded.",
 [L+"macro_engine.rs"], [("definition parsing", L+"macro_engine.rs identify_macro_update"), ("update rule", L+"macro_engine.rs UpdateAction in trapped_by_macro")],
 ["Lexer<MacroEngine>::eat, get_macro", "mitex::convert_text"])
prop("C06", "A user-defined environment expands to begin code, body and end code",
 "An environment defined in the document is replaced by its begin code (with arguments substituted), the unchanged body up to its own matching \\end, and its end code (with the same arguments); everything is then expanded again, so nested uses work. Environments inside the body are kept with their own ends. An unclosed or wrongly closed use is reported as an error instead of losing its content silently.",
 ["programs"], "every nesting of user-defined and built-in environments",
 "One test expands one environment with a one-word body.",
 [L+"macro_engine.rs"], [("body collection", L+"macro_engine.rs read_env_body"), ("expansion", L+"macro_engine.rs trapped_by_macro Macro::Env")],
 ["Lexer<MacroEngine>::eat", "mitex::convert_math"])
prop("C07", "Exactly the selected branch of a literal conditional contributes",
 "For every nesting of \\iftrue, \\iffalse, \\iftypst, \\else and \\fi, only the tokens of the taken branches reach the output: the true branch of \\iftrue, the else branch of \\iffalse, and the first branch of \\iftypst as verbatim Typst code; branch marks themselves never do. Untaken branches have no effect at all: nothing in them is printed, defined or expanded, and a conditional nested in them, with its own else, belongs to them entirely.",
 ["programs"], "every well-nested combination of conditionals with content, definitions and uses",
 "Tests cover nesting depth two on a dozen fixed strings, none with a nested else inside a skipped branch.",
 [L+"macro_engine.rs", P+"parser.rs", C], [("if/else/fi handling", L+"macro_engine.rs trapped_by_if, trapped_by_else, trapped_by_endif, skip_false_tokens"), ("block comment and Typst code", P+"parser.rs eat_body_of_ifs")],
 ["Lexer<MacroEngine>::eat", "mitex::convert_text"],
 [("reading_if", "stack of open conditionals", L+"macro_engine.rs")])
prop("C08", "Rolling back a scope restores exactly the definitions at its start",
 "For any history of nested scopes, insertions, overwrites and removals, rolling back to a snapshot restores exactly the map (and, for the macro engine, the definitions in force) at the time of the snapshot; committing keeps the changes so that an outer rollback still undoes them. Scopes of one lexer never influence another lexer or the built-in definitions.",
 ["histories"], "every well-nested history of snapshot/insert/remove/commit/rollback over any keys and values",
 "No test exercises the snapshot map or engine scopes at all.",
 [L+"snapshot_map.rs", L+"macro_engine.rs"], [("undo log", L+"snapshot_map.rs insert/remove/reverse"), ("engine scopes", L+"macro_engine.rs create_scope, restore, add_macro")],
 ["mitex_lexer::snapshot_map::SnapshotMap", "MacroEngine::create_scope / restore / add_macro", "MacroEngine::get_macro"],
 [("undo_log", "operations to undo since the open snapshots", L+"snapshot_map.rs")])
prop("C09", "The syntax tree keeps the source tokens in order",
 "Parsing without macro expansion yields a tree whose leaves, read left to right, are exactly the input tokens in order, except for the marks of block comments and Typst code blocks and for white space and comments between the arguments of one command. Nothing is duplicated, reordered or invented, and trailing white space that belongs to no argument stays in place after the command.",
 ["inputs"], "every input and every command specification",
 "Tests print trees of fixed snippets (one proptest exercises only plain text); splitting words into arguments and wrapping earlier items interact in ways they do not sample.",
 [P+"parser.rs"], [("word splitting into arguments", P+"parser.rs match_arguments_"), ("wrapping of earlier items", P+"parser.rs start_command_at, attach_component"), ("held white space", P+"parser.rs hold_trivia / extract_holding_trivia")],
 ["mitex_parser::parse_without_macro"])
prop("C10", "A command takes exactly the arguments its specified shape accepts",
 "Following a command or environment opening, arguments are taken from left to right as long as the sequence of their kinds (group or single item, bracket group, parenthesis group) stays a prefix accepted by the specified argument pattern, each character of a word counting as one item; the first thing that does not fit, an alignment mark, a script mark, or the end of the enclosing scope stops it and stays outside. Commands without arguments take none and greedy commands take everything up to the end of their scope (stopping at a row separator inside an environment). An unknown command takes no argument.",
 ["inputs", "configurations"], "every command shape and every following token sequence in every scope",
 "The tests try about thirty command/argument combinations from the default specification.",
 [P+"arg_match.rs", P+"parser.rs"], [("matchers", P+"arg_match.rs ArgMatcher"), ("argument loop", P+"parser.rs match_arguments_")],
 ["mitex_parser::parse", "mitex::convert_math"])
prop("C11", "Prefix matching of argument patterns equals the language of the pattern",
 "For a pattern made of argument kinds, ?, *, character classes and brace alternatives, where the next argument always determines the alternative and no * stands before a brace, the prefix matcher accepts a string exactly when it can be extended to (or is) a string the pattern describes. For such a pattern without braces the full matcher accepts exactly the strings it describes. In particular acceptance of a string implies acceptance of all its prefixes; a leading ! negates the answer.",
 ["inputs", "configurations"], "every such pattern and every string of argument kinds",
 "Tests check three patterns on a dozen strings for the prefix mode.",
 ["crates/mitex-glob/src/lib.rs", P+"arg_match.rs"], [("matching loop", "crates/mitex-glob/src/lib.rs glob_match_internal"), ("brace stack", "crates/mitex-glob/src/lib.rs BraceStack")],
 ["mitex_glob::glob_match_prefix", "mitex_glob::glob_match"])
prop("C12", "Groups, environments, delimiters and formulas close where they must",
 "Every opening brace, bracket argument, formula, environment and \\left opens a scope which is closed by the first matching closer at its own level; a closing brace or an \\end also ends every still open inner formula, bracket argument or \\left (and never an outer scope), so an unclosed inner construct cannot swallow what follows its enclosing group. A closing brace, \\end or math closer with nothing to close is marked as an error in the tree.",
 ["inputs"], "every nesting and mis-nesting of the scope marks",
 "Tests contain mostly balanced input of depth one or two.",
 [P+"parser.rs"], [("scope stack", P+"parser.rs ParseScope, stop_by_scope"), ("group parsing", P+"parser.rs item_group, environment, item_lr")],
 ["mitex_parser::parse", "mitex_parser::parse_without_macro"],
 [("list_state.scope", "innermost open scope", P+"parser.rs ListState")])
prop("C13", "Scripts and operators bind to the right operands",
 "A sub- or superscript binds exactly the immediately preceding item (scripts in a row share the base) and takes exactly one following item or single character; a prime binds the preceding item and takes nothing. An infix operator such as \\over takes everything before it in its own group as left operand and everything after it up to the end of the group as right operand; a left-associative command such as \\limits takes only the preceding item. No operand crosses the boundary of its group, cell or argument.",
 ["inputs"], "every sequence of items, scripts and operators in every kind of group",
 "Tests sample about twenty script and operator combinations.",
 [P+"parser.rs", C], [("attachment", P+"parser.rs attach_component"), ("operand checkpoints", P+"parser.rs ListState, start_command_at")],
 ["mitex_parser::parse", "mitex::convert_math"],
 [("list_state.start/last", "where the current group and its last item began", P+"parser.rs ListState")])
prop("C14", "Formulas delimit math and restore the surrounding mode",
 "Content of an inline formula is emitted inside an inline equation and content of a display formula inside a display equation, once, and the surrounding text mode is in force again right after it, whatever is nested inside. A formula whose opening and closing delimiters differ in kind makes the conversion fail. In math mode a formula mark adds no nested equation delimiters.",
 ["inputs"], "every nesting of formulas, groups, commands and environments in both modes",
 "Tests convert single formulas; leaving and re-entering modes through nested constructs is unbounded.",
 [C, P+"syntax.rs"], [("mode switching", C+" convert_formula, enter_mode, exit_mode"), ("delimiter check", P+"syntax.rs FormulaItem")],
 ["mitex::convert_text", "mitex::convert_math"],
 [("mode", "text or math", C+" Converter")])
prop("C15", "Every piece of content is emitted once, in order, escaped for its mode",
 "In text mode words are emitted verbatim and in math mode character by character separated by spaces; white space and line breaks of the source are kept. The marks , / # * @ \" ; ( ) [ ] (and ^ _ where they are not scripts) are emitted escaped, a tilde becomes an escaped tilde in text and a non-breaking space in math, and an empty group in math leaves a placeholder. Commands are emitted under their specified Typst name with arguments in source order, in parentheses in math and in brackets in text.",
 ["inputs", "configurations"], "every sequence of characters, groups and specified commands in both modes",
 "Tests fix the output of about a hundred snippets; the combination of mode, nesting and command shape is unbounded.",
 [C], [("leaf conversion", C+" Converter::convert"), ("command conversion", C+" convert_normal_command, convert_command_sym")],
 ["mitex::convert_text", "mitex::convert_math"])
prop("C16", "Math environments convert with their own row and column separators",
 "A math environment becomes one call of its Typst handler holding its arguments and body; in a matrix, alignment marks and row breaks become the matrix separators, in cases a row break separates cases, elsewhere they stay alignment marks and line breaks, and inside a nested brace group a row break adds nothing. The rules of the innermost enclosing environment apply, and those of the outer one are in force again after it ends. From text mode the call is wrapped in one display equation.",
 ["inputs"], "every nesting of environments, groups and cells",
 "Tests convert single, mostly un-nested environments.",
 [C], [("environment conversion", C+" convert_env, convert_curly_group"), ("environment stack", C+" enter_env / exit_env")],
 ["mitex::convert_text", "mitex::convert_math"],
 [("env", "innermost environment kind", C+" Converter")])
prop("C17", "Lists, tables, figures and labels keep their structure",
 "Each list item starts a new line with the mark of its list and is indented by the depth of list nesting, whose value is restored when a list ends; an item outside a list is an error. A table emits one cell per alignment-separated piece with rows in order, rules and column lines at their places, and an unknown column type is an error; a figure emits its caption separately from its body. A label is attached exactly once: at its place in text, or after the figure or equation environment that contains it (of several labels in one such environment, the last).",
 ["inputs"], "every nesting and sequence of lists, tables, figures, equations and labels",
 "Tests convert one list nesting, two tables and three figures.",
 [C], [("lists", C+" convert_command_item, convert_env"), ("tables and figures", C+" convert_env_table, convert_env_figure"), ("labels", C+" convert_command_label")],
 ["mitex::convert_text"],
 [("indent", "two per open list", C+" Converter"), ("label", "label waiting for its environment", C+" Converter")])
prop("C18", "Conversion is a pure function of its input and specification",
 "The result of a conversion depends only on its input text, mode and command specification: not on conversions made before, on their definitions or failures, nor on conversions running at the same time on other threads. Repeating a conversion gives the identical result.",
 ["histories", "schedules"], "every history and every concurrent interleaving of conversions",
 "Every test converts one document once in isolation; leaking definitions or shared state would not show.",
 ["crates/mitex/src/lib.rs", C, L+"macro_engine.rs"], [("built-in macro table shared by all engines, copied on write", L+"macro_engine.rs DEFAULT_MACROS, Cow"), ("per conversion state", C+" convert_inner")],
 ["mitex::convert_text", "mitex::convert_math", "mitex_parser::parse"])
prop("C19", "Every input yields a result: no panic, no hang",
 "For every input text, including truncated, unbalanced or non-ASCII ones, tokenizing, parsing and converting in each mode terminate without panicking and return either output or an error message. (Inputs whose macro expansion never ends, and nesting beyond what the call stack holds, are excluded.)",
 ["inputs"], "every string; nesting depth up to a few hundred",
 "A test suite samples a few dozen malformed inputs; panics were found on inputs such as a label without argument.",
 [L+"token.rs", L+"macro_engine.rs", P+"parser.rs", C], [("error returns", C+" ConvertError"), ("error nodes", P+"parser.rs content")],
 ["mitex::convert_text", "mitex::convert_math", "mitex::convert_math_no_macro", "mitex_parser::parse"])
prop("C20", "What cannot be converted is rejected, never silently dropped or misread",
 "A document using an unknown command or environment, a closing brace, \\end or math closer with nothing to close, a formula closed by the wrong mark, a malformed environment clause or a macro use with too few arguments makes the conversion fail with an error instead of returning output, wherever it occurs outside comments, untaken branches, verbatim Typst code, and arguments that are used as raw text or not at all (label and image names, column specifications, placements, rule commands). Conversely a document built only from specified commands with their arguments and balanced marks converts successfully.",
 ["inputs", "programs"], "every document and every position of the fault in it",
 "Tests assert failure on a few inputs only at top level.",
 [C, P+"parser.rs", L+"macro_engine.rs"], [("unknown names", C+" convert_normal_command, convert_command_sym, convert_env"), ("error tokens", P+"parser.rs content, "+L+"macro_engine.rs")],
 ["mitex::convert_text", "mitex::convert_math"])
prop("C21", "Command specifications survive encoding and mean what their short forms say",
 "Any command specification decoded from its binary encoding, at any memory alignment, has exactly the same items; its JSON form round-trips as well. Each short form of the JSON specification denotes its documented canonical item, and looking a name up as a command or as an environment succeeds only for an item of that kind.",
 ["configurations", "inputs"], "every set of commands and environments of any shape, names and aliases",
 "Tests decode only the one default specification.",
 [S+"lib.rs", S+"query.rs", S+"preludes.rs", S+"stream.rs"], [("binary form", S+"lib.rs to_bytes/from_bytes, "+S+"stream.rs"), ("short forms", S+"query.rs From<CommandSpecItem>")],
 ["CommandSpec::to_bytes / from_bytes / get / get_cmd / get_env / items", "JsonCommandSpec"])
prop("C22", "The built-in specification is the later-wins merge of the packages",
 "The built-in command specification contains exactly the items declared by the Typst-side packages, a later package overriding an earlier one, and every supported LaTeX command and environment keeps its argument shape, its handling of content and its Typst name. Conversion without an explicit specification uses it; conversion with an explicit one uses only that one.",
 ["configurations"], "every command and environment of the packages; every supplied specification",
 "Tests use a few of the thousand entries.",
 ["crates/mitex-spec-gen/build.rs", "crates/mitex-spec-gen/src/lib.rs", "packages/mitex/specs/latex/standard.typ", "packages/mitex/specs/prelude.typ", "packages/mitex/specs/mod.typ", C], [("merge", "crates/mitex-spec-gen/build.rs generate"), ("declarations", "packages/mitex/specs/latex/standard.typ")],
 ["mitex_spec_gen::DEFAULT_SPEC", "mitex::convert_math"])
prop("C23", "The command line compiles files without touching anything else",
 "Compiling reads the input file and writes only the output file: the one given, or the input name with the extension .typ; the input file is never modified (unless named as output). On any failure (bad arguments, unreadable input, conversion error) the exit status is non-zero and no output file is created or changed; on success it is zero and the output ends with the conversion of the input. Positional and named forms of the arguments mean the same, and mixing them is rejected.",
 ["configurations", "inputs", "fault_sequences"], "every combination of argument forms, file states and document contents",
 "There is no test of the command line at all.",
 ["crates/mitex-cli/src/lib.rs", "crates/mitex-cli/src/main.rs", "crates/mitex-cli/src/utils.rs"], [("argument rules", "crates/mitex-cli/src/lib.rs process_opts"), ("compile", "crates/mitex-cli/src/main.rs compile")],
 ["mitex compile"])
prop("C24", "Comments never change the meaning",
 "Inserting a line comment together with its line end where white space containing a line break already stands, or changing the text of a comment, does not change the converted document apart from white space; comment text never reaches the output. This holds between arguments, inside environments, formulas and tables, and around macro definitions and uses.",
 ["inputs"], "every document and every position of the comment",
 "Tests contain comments in six fixed positions.",
 [L+"token.rs", P+"parser.rs", C], [("trivia handling", P+"parser.rs trivia, hold_trivia"), ("comment conversion", C+" Converter::convert TokenComment")],
 ["mitex::convert_text", "mitex::convert_math"])
prop("C25", "The plugin and the package convert exactly as the library does",
 "For every sequence of calls of the plugin's functions, each result depends on the arguments of its call only: convert_math and convert_text give the library's conversion of the input, under the built-in specification when none is passed and otherwise under the one whose JSON form compile_spec was given, and compile_spec gives the same bytes natively and as a module; input that is not UTF-8, malformed JSON and rejected documents give an error, never a trap or a guess. The package's mitex-convert gives that text for its mode and specification; mi shows the formula inline, mimath displayed (unless told otherwise by its arguments), mitext the document, and mitex either by its mode; whether the source comes as a string, a raw element or a text element.",
 ["inputs", "configurations", "histories"], "every sequence of calls, input and specification",
 "The plugin's two tests convert three letters each; the package's functions and the module itself are never run.",
 ["crates/mitex-wasm/src/lib.rs", "packages/mitex/mitex.typ", "packages/mitex/lib.typ", "crates/mitex-spec/src/lib.rs"], [("plugin functions", "crates/mitex-wasm/src/lib.rs impls, wasm_host"), ("package functions", "packages/mitex/mitex.typ")],
 ["mitex_wasm::convert_math", "mitex_wasm::convert_text", "mitex_wasm::compile_spec", "packages/mitex: mitex-convert, mi, mimath, mitext, mitex"])
prop("C26", "A compiled file is a Typst document that shows what its author wrote",
 "For every well-formed document over the built-in commands and environments, the file written by `mitex compile` is accepted by Typst on its own, with the package it imports installed, and what it shows is the document its author wrote: every name of the built-in specification that a conversion can use has its meaning in the file, whether the package or Typst itself defines it, and the definitions in front show nothing.",
 ["inputs", "programs"], "every document; every name of the specification",
 "There is no test of the command line, and no test that runs Typst.",
 ["crates/mitex-cli/src/main.rs", C, "packages/mitex/lib.typ", "packages/mitex/specs/latex/standard.typ"], [("definitions in front of the document", "crates/mitex-cli/src/main.rs compile"), ("names used in the output", C)],
 ["mitex compile"])
prop("C27", "A converted formula shows in Typst what its author wrote",
 "For every well-formed formula made of symbols, commands with their arguments, scripts and primes, groups, growing delimiters, infix commands, style declarations, text, environments with cells and rows, and user-defined macros, the conversion succeeds, Typst accepts the result with the definitions of the package, and the content it evaluates to has the structure of the LaTeX formula: the same characters in the same order, each script on its base, each numerator, index, accent, style, cell and row where LaTeX puts it.",
 ["inputs", "programs"], "every formula over the built-in symbols, commands and environments, of any nesting",
 "Tests compare the converted text of a few hundred formulas with a stored one; none is ever given to Typst, and no test says what a formula means.",
 [P+"parser.rs", P+"arg_match.rs", C, "packages/mitex/specs/latex/standard.typ"], [("binding of scripts, infix commands and arguments", P+"parser.rs item_list, content, attach_component"), ("calls, separators and escapes", C+" convert_env, convert_command_sym, Converter::convert"), ("meaning of the names", "packages/mitex/specs/latex/standard.typ")],
 ["mitex::convert_math", "packages/mitex: mitex-scope"])
prop("C28", "A converted document shows the text its author wrote, with its structure",
 "For every well-formed document made of words, spaces, paragraph and line breaks, comments, escaped symbols, inline and displayed formulas, emphasis, font and colour commands and declarations, footnotes, sections, lists, quotations, tables, figures, captions, labels, references, citations, pictures and user-defined macros and environments, nested in each other, the conversion succeeds, Typst accepts the result with the definitions of the package, and what it shows is that document: every character and no other, in the same order, in the same paragraph, item, cell, caption or emphasised piece; no character of the text acts as Typst markup; every label stands on the thing it was written for.",
 ["inputs", "programs"], "every document over the built-in text commands and environments, of any nesting",
 "Tests compare the converted text of a few documents with a stored one; none is ever given to Typst.",
 [P+"parser.rs", C, "packages/mitex/specs/latex/standard.typ"], [("escaping of text", C+" Converter::convert TokenWord"), ("lists, tables, figures, labels", C+" convert_env, convert_env_table, convert_env_figure, convert_command_label"), ("commands in text mode", C+" convert_normal_command")],
 ["mitex::convert_text", "packages/mitex: mitex-scope"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props), "properties")
