#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEX = "TLA+ specification of the token stream (Regex/Lexer), "
LR = "TLA+ specification of canonical LR(1) tables and the driver (Grammar/LR1/LRDriver), "
T = {
    "C01": (LEX + "recorded token streams validated by TLC (LexTrace) and real tables checked in product with the residual automaton for all inputs (DfaEquiv)", "Per pattern list, the table product covers inputs of every length; lists are fixed, enumerated and sampled ones. Trusts the translation from the harness's expression tree to pattern text. Expressions that contain the empty expression are excluded (known finding)."),
    "C02": (LEX + "recorded token streams validated by TLC (LexTrace, longest)", "Exhaustive over small pattern pairs and all short inputs, sampled beyond; MCLexer checks the specification itself."),
    "C03": (LEX + "recorded token streams validated by TLC (LexTrace, first)", "Exhaustive over small pattern pairs and all short inputs, sampled beyond."),
    "C04": (LEX + "recorded token streams validated by TLC (LexTrace, tile)", "Every recorded token's text, source items and position are compared; unmatched input ends the stream as specified."),
    "C05": (LEX + "recorded pull counts validated by TLC (LexTrace, pull)", "The source counts every item handed out; the specification fixes the number per token."),
    "C06": ("TLA+ specification of construct support (Support), build verdicts validated by TLC", "Classes of constructs are listed, composed at random and wrapped; what is a regular expression at all is regex-syntax's decision."),
    "C07": ("TLA+ residual automaton of pattern lists (Overlap): TLC computes the overlapping pairs that must be reported, compared with the real warnings", "Overlap is decided exactly per list; lists are enumerated and sampled."),
    "C08": ("TLA+ specification of determinism (Same) over observations of many rebuilds in several processes", "Hash seeds differ per map and process; a dependence that shows with probability p per build is missed with probability (1-p)^n for n builds."),
    "C09": (LR + "recorded parses validated against derivability (DeriveTrace, Earley), real tables in product with the canonical ones (TabEquiv), driver model-checked on all short words (MCDriver)", "Per grammar, the table product covers all inputs; grammars are fixed, enumerated and sampled."),
    "C10": (LR + "recorded reducer calls validated as a bottom-up derivation (DeriveTrace, LRTrace)", "Each call's rule, children, order and identity is compared; children are taken by the reducer so reuse shows."),
    "C11": (LR + "recorded reads and detection points validated against viable prefixes (DeriveTrace), MCDriver OneRead", "Conflict-free grammars without error productions."),
    "C12": (LR + "a failure injected at every reducer call position, validated by TLC (LRTrace, fault)", "Fault positions of each parse are enumerated up to a bound and sampled beyond."),
    "C13": (LR + "TLC computes the conflicts of every grammar (LRGen), compared with the real reports", "Conflicts are decided exactly per grammar; grammars are enumerated and sampled."),
    "C14": (LR + "parses of conflicting grammars validated by TLC (LRTrace), tables in product (TabEquiv)", "Per grammar exact; grammars are enumerated and sampled."),
    "C15": (LR + "recorded recoveries validated by TLC (LRTrace), MCDriver on all short words", "Per grammar, all words up to a bound are run and longer ones sampled."),
    "C16": (LR + "recorded error spans validated by TLC (LRTrace, span)", "Token identity, not only kind, is compared."),
    "C17": (LR + "abnormal ends of parses judged by TLC (LRTrace, panic); Ends and bounded variant model-checked (MCDriver)", "A parse that exceeds its time or call budget counts as not terminating; budgets are generous multiples of the input length."),
    "C18": ("TLA+ specification of the token stream: streams of macro-generated tokenizers, compiled by the check, validated by TLC (LexTrace) and compared with the run-time ones (Same)", "Macro invocations are sampled per seed and compiled from /repo's current tree."),
    "C19": ("TLA+ specification of the LR driver: parses of macro-generated parsers, compiled by the check, validated by TLC (LRTrace) and compared with the run-time ones (Same)", "Macro invocations are sampled per seed and compiled from /repo's current tree."),
    "C20": ("TLA+ specification of the calculator (Calc: text to tokens to value), answers of the real example program and of tokenize(..).parse(..) validated by TLC", "Values are compared exactly on expressions whose value is an integer, and by tree otherwise."),
    "C21": ("TLA+ specification of runs sharing one object (Shared): TLC generates the schedules, they are replayed on the real code and the observations validated by TLC (SharedTrace)", "All schedules of small cases with at most two nested entries and one panic or abandoned run; random behaviours of the specification for larger ones. One thread: the objects are not Sync."),
    "C22": ("TLA+ specification of macro invocations (MacroForm, Support) and of what they must announce (LR1 conflicts, Overlap); verdict and output of the real compiler compared", "Invocations are sampled from well-formed ones with at most one mistake; an announcement is a printed line containing 'warning'."),
}
import sys
sys.path.insert(0, HERE)
import importlib
mods = []
for m in ("lexer", "lr", "macros", "calc", "shared", "forms"):
    try:
        mods.append(importlib.import_module("vlib." + m))
    except ImportError:
        pass
ids = [json.loads(l)["id"] for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if any(hasattr(m, i) for m in mods) and i in T:
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}",
                       "evidence_file": f"evidence/{i}.json", "technique": T[i][0],
                       "level": "fault_enumeration" if i == "C12" else "model_checking", "level_note": T[i][1]})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "mkdir -p work evidence && cd harness && CARGO_TARGET_DIR=/verif/work/target cargo build --offline --bin lex --bin lr", "checks": checks,
     "not_applicable": na, "notes": "Specifications are in spec/ (TLA+, checked with TLC); run.py <property> builds the harness against /repo, records executions and validates them. No hooks in /repo."}
open(HERE + "/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
