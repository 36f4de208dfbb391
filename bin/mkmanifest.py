#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TLA = "TLA+ specification checked with TLC, bound to the code by "
T = {
    "P08": ("conformance of recorded tokenizations", "Lexer machine proved equal to the declarative tokenization for all texts up to the bound; real tokenizer validated on exhaustive short and random long texts over six operator tables."),
    "P09": ("conformance of recorded parse trees", "Shunting-yard machine equals precedence climbing for every token sequence up to the bound (TLC); real trees validated record by record."),
    "P10": ("conformance of recorded parser errors", "As P09 for acceptance, error class and error position; crashes and hangs of the real parser are detected under AddressSanitizer and a time limit."),
    "P11": ("conformance of recorded printed texts", "Parse(Show(t)) = t for every tree a bounded token sequence can build (TLC); real printed text validated character by character, numbers of at most 10 digits."),
    "P01": ("replayed model sessions and recorded sessions", "Substitution theorem (call by value = expansion) model-checked on every session over a bounded alphabet; each of these sessions is replayed in the real interpreter; random sessions rich in nested calls are validated line by line. Values are compared where the model tracks them (dyadic rationals, 10 digits)."),
    "P02": ("replayed model sessions and recorded sessions", "Which names are bound after each line: action property of the model on all bounded sessions, these replayed, random sessions of definitions, uses, redefinitions and clears validated line by line."),
    "P03": ("replayed model sessions and recorded sessions", "A definition that stays keeps its closed body (invariant and action property); sessions that clear and redefine what definitions used and that change the history replayed and validated."),
    "P04": ("replayed model sessions and recorded sessions", "The history is a prefix-extending sequence (action property); sessions reading ans and @k after every kind of line replayed and validated, values compared where tracked."),
    "P05": ("replayed model sessions and recorded sessions", "A failing line leaves the state as it was and prints to the error stream only: action property on all bounded sessions, with and without simplification rules; replayed; random sessions with later probing lines."),
    "P06": ("recorded runs of the real program", "Runs of the built program with switches, -c, files and standard input: status, output and error output must be what the Batch machine gives; bounded sessions replayed as well."),
    "P07": ("replayed model sessions and recorded sessions", "Loading is running the lines in the model; all bounded sessions with nested, failing, empty and missing files replayed, random nested files validated, rule files included."),
    "P12": ("conformance of recorded evaluations", "Exact rational/dyadic arithmetic in TLA+ for the exactly representable results, 1692 reference values at 9 digits, compositionality of the rest."),
    "P18": ("replayed model sessions and recorded sessions", "Rows, errors, folds and refused ranges of table lines over dyadic bounds and steps, interactive and batch, validated character by character against the Session machine."),
    "P24": ("replayed model sessions and recorded sessions", "The complete error output of failing lines, i.e. column and length of the marker in interactive mode and the message in batch mode, equals the text the model computes from token positions, with and without simplification rules."),
    "P13": ("conformance of recorded matchings", "Constructive matching equals the declarative definition for every small pattern and tree (TLC); real matchings of exhaustive small and random patterns compared one by one, in order, with constraints."),
    "P14": ("conformance of recorded rewriting", "Rewriting strategy model-checked (first rule, outermost, fixpoint, values); real results and step counts of random rules and rule sets validated."),
    "P15": ("conformance of recorded simplifications", "Values before and after simplification compared exactly (dyadic arithmetic in TLA+) and at sample points, for random expressions and for instances of every rule of the rule file in force."),
    "P16": ("conformance of recorded derivatives", "Oracle for derivatives in TLA+, itself checked against difference quotients; real derivatives compared exactly and at sample points; error cases against the model of simplification; independence from definitions by paired sessions."),
    "P17": ("conformance of recorded rule files", "Rule file grammar in TLA+: rules read, offending line, rules in force after loading several files (through the model of simplification)."),
    "P20": ("replayed model behaviours and recorded operation histories", "Every behaviour of the abstract vector and list over a bounded alphabet (enumerated by TLC) and long random histories are run by the real containers, contents and results compared after every operation; the pointer-level list is checked to refine the sequence."),
    "P21": ("replayed model behaviours and recorded operation histories", "As P20 for the trie against a map from strings; the node-level trie is checked to refine the map."),
    "P22": ("replayed model behaviours and recorded operation histories", "Histories of additions, deletions, lookups and glue choices validated operation by operation, the tokenizer included."),
    "P23": ("replayed model behaviours and recorded operation histories", "Histories of appends over lengths around every capacity, formats and clears, text compared after every operation."),
    "P19": ("replayed model behaviours and recorded tables", "Declarative image of a table in TLA+, shown rectangular, tiled, lossless and tight for every table of a bounded number of operations (TLC); every such table and random large ones are rendered by the real code and compared line by line."),
    "P27": ("sessions that look at the help, checked against the specification of what it shows", "Help.tla derives from the state of the session what help has to list and how; recorded sessions of random definitions, redefinitions, clears, results, loaded files and rules are checked line by line. A theorem over all short sessions (TLC) says that the listing entered again gives the same definitions; the same is done with the real program."),
    "P26": ("recorded sessions and component runs with the number of live heap blocks", "The specification follows a session and says when two moments have the same state; the number of heap blocks the real program holds must be a function of it, and zero after the end. Short sessions over a mixed alphabet, random sessions with and without rules, one use of every component with destruction."),
    "P25": ("conformance of recorded simplifications", "Model of the whole simplification (folding, rule sets in order, derivatives between two passes) run on the rule files; real result trees and errors must be equal, shipped and generated rule files."),
}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 bin/selftest.py",
     "checks": [{"property": p, "quick_cmd": "python3 bin/check %s quick" % p, "thorough_cmd": "python3 bin/check %s thorough" % p,
                 "technique": TLA + T[p][0], "level": "model_checking", "level_note": T[p][1]} for p in ids if p in T],
     "not_applicable": [{"property": p, "reason": "no check has been built for it yet"} for p in ids if p not in T],
     "notes": "No hooks in /repo are needed: the driver links the library sources directly."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
