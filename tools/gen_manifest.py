#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# id -> (technique, level, what the oracle is / what is trusted)
T = {
"C01": ("property-based testing (proptest): reconstruction and position invariants over generated strings and grammars", "exploration",
        "Generated strings of all character classes and all Unicode blocks; positions recomputed from the string, grapheme counts from ICU's own segmenter. Trusts ICU's segmenter."),
"C02": ("property-based testing: differential against a per-character reference tokeniser; every Unicode scalar swept", "exploration",
        "Reference tokeniser written from the statement; Pattern_Syntax from ICU properties, Pattern_White_Space from the stability-guaranteed list."),
"C03": ("stateful property-based testing: lookup histories against a reference registry keyed by ICU's parsed identifier", "exploration",
        "Histories of spellings, near-misses and garbage; instance identity by pointer. Trusts icu_locid's parser as the definition of well-formed and canonical."),
"C04": ("stateful property-based testing: lists after lookup histories against a model of the sets", "exploration",
        "Same histories as C03, model = set of canonical tags and set of non-canonical spellings."),
"C05": ("property-based testing: round trip text -> escaped/literal notation -> formatted text", "exploration",
        "Any text over all character classes, in main and named strings; the identity is the oracle."),
"C06": ("grammar-based and mutation-based generation, bounded-exhaustive token strings; differential against a reference parser and evaluator", "exploration",
        "Reference parser written from the documented grammar; constructs the documentation leaves open are not judged (listed in DESIGN.md). All token strings up to the stated length over a token alphabet are enumerated."),
"C07": ("fuzzing with structured generators: no panic, abort, stack overflow or hang, each case in a supervised worker process; determinism on a fresh localiser", "exploration",
        "Watchdog on CPU time, address space limit, crash of the worker is confirmed by re-running the case in its own process. Nesting up to the generated sizes (see DESIGN.md)."),
"C08": ("property-based testing: model-based evaluation of generated patterns and values", "exploration",
        "Reference evaluator; error cases judged on the named placeholder."),
"C09": ("property-based testing: differential against ICU's FixedDecimalFormatter; metamorphic relation across value kinds", "exploration",
        "Trusts ICU's decimal formatter and locale data. Floats whose shortest decimal text is ambiguous are excluded."),
"C10": ("property-based testing: differential against ICU's date and time formatters", "exploration",
        "Trusts ICU's date and time formatters and calendars. Years -9999 to 9999."),
"C11": ("property-based testing: differential between ISO text and the typed value it denotes, single-fault texts must fail; calendar sweep", "exploration",
        "Forms from the documentation; undocumented forms are not judged."),
"C12": ("property-based testing: differential against ICU's plural rules, hand-written rules for some languages, permutation metamorphics", "exploration",
        "Trusts ICU's plural rules data except where hand-written rules confirm it."),
"C13": ("property-based testing: model-based evaluation of nested select patterns", "exploration", "Reference evaluator."),
"C14": ("stateful property-based testing: sequences of formats of one cached string against the reference evaluator", "exploration",
        "Reference evaluator of number signs, shared branches, several formats of one cached string."),
"C15": ("property-based testing: recording commands, parameter lists compared with the model", "exploration",
        "Commands registered by the harness dump the parameters with their kinds."),
"C16": ("stateful property-based testing: registration histories against a map model; built-ins against hand-written oracles", "exploration",
        "Functions are told apart by what they return."),
"C17": ("stateful property-based testing: request histories on one caching localiser against fresh uncached localisers", "exploration",
        "Differential; in-memory provider implementing the provider contract."),
"C18": ("stateful property-based testing: request and default-changing histories against a reference model of lookup, fallback and defaults", "exploration",
        "Reference model plus reference evaluator; in-memory provider."),
"C19": ("property-based testing: random trees of localisation data against inside-out evaluation", "exploration",
        "Metamorphic (inner first, outer with texts) and model."),
"C20": ("property-based testing: generated Sqlite3 repositories against a reference search", "exploration",
        "Repositories written with rusqlite from the documented schema. Where several strings extend the tag any of them is accepted."),
"C21": ("property-based testing: generated Sqlite3 repositories against set comprehension over the data", "exploration", "As C20."),
"C22": ("property-based testing: generated Sqlite3 repositories, histories of detail requests against aggregates computed from the data", "exploration", "As C20."),
"C23": ("mutation-based property-based testing: schema built from a description, single faults enumerated and combined with contents", "exploration",
        "Every single-column fault of every table is enumerated; the error must name the place."),
"C24": ("fault injection with generated damage (bytes, truncation, rows, files, after opening), byte-for-byte comparison of the directory", "fault_enumeration",
        "Damage is generated in scratch directories, undamaged components are compared with the model, supervised worker processes."),
"C25": ("property-based testing: generated errors (direct and provoked) localised through the shipped repositories", "exploration",
        "Payload containment and variant naming as oracle; the shipped .sqlite3 files are used from /repo."),
"C26": ("property-based testing and full sweep of scripts: differential against ICU likely subtags and script direction", "exploration",
        "Trusts ICU's likely subtags and ScriptDirection data."),
"C27": ("concurrent property-based testing: generated per-thread operation lists with start barriers in the sync build, judged against the sequential models; sequential cases of all other properties in that build", "exploration",
        "Schedules are those of the operating system, sharpened by start barriers and random pauses; a deadlock is a case without progress and without processor use for 40 s, confirmed by re-running. The cases of all other properties are also run in the sync build."),
"C28": ("stateful property-based testing: end-to-end requests on generated Sqlite3 repositories against reference search + reference evaluator", "exploration",
        "Composition of the models of C06 to C15, C18 and C20."),
"C29": ("property-based testing by construction: one fault is planted in a valid pattern and the error must identify it", "exploration",
        "Positions computed with ICU's grapheme segmenter."),
"C30": ("property-based testing: the generated cases and oracles of all other properties, in the build with the features icu_extended and logging and a logger at a random level", "exploration",
        "The features icu_blob and icu_fs are not covered: they need ICU data files that are not available here (and enable no code: the code tests for features named blob and fs)."),
"C31": ("fault injection: stateful property-based testing on a provider that fails the calls of a generated plan, against the models of lookup, fallback and formatting", "fault_enumeration",
        "The failing calls are those of the LocalisationProvider trait that the localiser makes; five kinds of errors."),
}
import subprocess
built = subprocess.run([V + "/target/debug/vh", "list"], capture_output=True, text=True).stdout.split()
built += subprocess.run([V + "/target-sync/debug/vh", "list"], capture_output=True, text=True).stdout.split()
built += subprocess.run([V + "/target-extra/debug/vh", "list"], capture_output=True, text=True).stdout.split()
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if p in built:
        t, l, n = T[p]
        checks.append({"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
                       "evidence_file": f"evidence/{p}.json", "technique": t + ("" if p == "C27" else "; random, then coverage-guided generation"), "level": l, "level_note": n})
    else:
        na.append({"property": p, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: every check uses the public API. run.sh rebuilds the crates of /repo on every run. ./target/debug/vh replay FILE re-runs a replay file."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
