#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties given in NOTES."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLC = "TLA+ specification checked with TLC; conformance in both directions: TLC enumerates documents exhaustively and the real code is run on them, and recorded runs of the real code are judged by TLC"
BASE = ("TLC checks the property's invariants on every document it enumerates or is given, and the real code must give exactly what the specification gives on all of them. "
        "Exhaustive up to the bounds of the run, random beyond; trusted: the specification, TLC, and the harness that translates tokens and nodes into the specification's vocabulary. ")
NOTES = {
 "C01": "All short texts over the character classes, the category of every Unicode code point, random long texts.",
 "C02": "All short texts around names, stars, comments and environment clauses; all conditional names; every built-in name with every kind of following character.",
 "C03": "All short scripts of peek/take/consume against the token list, and long scripts with texts placed across the buffer's page boundaries, with and without macros.",
 "C04": "All short sequences of macro uses and arguments after a fixed set of definitions, and random programs of definitions and uses.",
 "C05": "All short histories of definitions and uses over a few names and the defining commands, and random programs.",
 "C06": "All short sequences of environment marks and content after user-defined environments, and random programs.",
 "C07": "All short sequences of conditional marks, content and definitions, and random programs; the selection is also stated independently of the machine (C07_Selected).",
 "C08": "All short histories of map operations with nested snapshots, long random ones, and definitions in documents.",
 "C09": "All short sequences of the parser's marks, and random documents with damage; the leaves against the tokens.",
 "C10": "Every command shape with all short sequences of following tokens in every scope.",
 "C11": "Every pattern of the class up to a length and every string up to a length, in both matchers.",
 "C12": "All short sequences of opening and closing marks, and random damaged documents.",
 "C13": "All short sequences of items, scripts and operators in every kind of group.",
 "C14": "All short sequences of formula marks; all nestings of depth three of formulas and constructs; the mode is followed at every single step of the converter.",
 "C15": "All triples of marks, words and commands in both modes, all commands with all kinds of arguments, every built-in name, random Unicode text.",
 "C16": "All short bodies of all environment kinds, all nestings of depth three, all built-in environments.",
 "C17": "All short lists, tables, figures and image options, nested ones at random, labels in all hosts.",
 "C18": "All short sequential histories and all thread interleavings (step by step, with the copy-on-write macro table) of a few conversions in the specification; the same histories and real threads on the code.",
 "C19": "All short texts over the marks of the language, truncations of all example documents, damaged random documents, Unicode soup, deep nesting; every stage must come back, and the exact result is compared where the specification defines it.",
 "C20": "Documents made of specified parts only must convert, and the same documents with one fault planted at every position must not.",
 "C21": "All item forms singly and in small tables in the specification, with the encodings as actions; large random tables with names and aliases of all lengths around the inline limits, decoded at all 16 alignments.",
 "C22": "Every form of declaration of the Typst side, the packages of the repository merged by TLC against the built-in specification, random lists of packages through both builders, a pinned table of all built-in items, and conversions with and without a specification.",
 "C23": "All argument lists up to length 3 (thorough: 4) over a small vocabulary, all forms of naming files crossed with file states, random argument lists; the real command is run in scratch directories and every change on disk is compared.",
 "C24": "A comment inserted at every possible place (twice in the smaller ones) of documents that cover every construct, and of random ones; the specification states that the result stays the same as a property of the edit action.",
 "C25": "Plugin.tla is the host's view of the plugin: all sequences of three calls over valid and malformed inputs and compiled specifications, and random documents under random specifications; replayed on the plugin's functions in one process and on the real module (built for wasm32 from the working tree) inside Typst; the package's functions are called on formulas and documents of the author models, in every form.",
 "C26": "Documents and what they show come from the author models Formula.tla and Text.tla; the real command line compiles each and Typst reads the file with the package of the working tree installed. Each built-in symbol, command and environment; simulated long documents of everything.",
 "C27": "An author model (Formula.tla) writes source together with its meaning; every formula it writes is converted by the real code and read by Typst, and the content must have that meaning. All symbols, all commands and environments in each other, all simulation runs with long formulas.",
 "C28": "An author model (Text.tla) writes a document together with what it shows; every document it writes is converted by the real code and read by Typst, and the content must be that. Pairs of all words and symbols; all small documents of lists, tables, figures, commands, declarations; simulated long documents of everything.",
}
exec(open(os.path.join(here, "tools", "more_notes.py")).read()) if os.path.exists(os.path.join(here, "tools", "more_notes.py")) else None
checks = [{"property": p, "quick_cmd": f"python3 run/check.py {p} quick", "thorough_cmd": f"python3 run/check.py {p} thorough",
           "technique": TECH.get(p, TLC) if "TECH" in globals() else TLC, "level": "model_checking", "level_note": BASE + n} for p, n in sorted(NOTES.items())]
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 run/check.py setup", "checks": checks,
     "not_applicable": [{"property": i, "reason": "the check is being written"} for i in ids if i not in NOTES]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
