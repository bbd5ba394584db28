#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.join(os.path.dirname(__file__), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
T = {
 "C01": ("online model monitor on PO loads", "Every lookup of every entry of generated catalogues in random legal layouts is compared with an independent model; trusts the renderer and model."),
 "C02": ("online model monitor on MO loads", "Lookups on generated MO files (byte orders, revisions, table and string placement) are compared with an independent model; trusts the writer and model."),
 "C03": ("differential monitor, PO against MO", "The same generated catalogue is loaded in both formats and all answers compared, also with the model."),
 "C04": ("online monitor of fallback values", "Absent and partly translated messages through every method at every level are compared with the model's exact fallback."),
 "C05": ("online model monitor with colliding keys", "Keys that look alike, orders of loading and editing; every answer compared with a keyed model."),
 "C06": ("reference-evaluator monitor on plural rules", "Generated rules are compiled and evaluated against an independent C-semantics evaluator on boundary, small and random counts; malformed rules must be refused."),
 "C07": ("online model monitor of plural selection", "Lookups under generated rules, resolvers and counts compared with the model."),
 "C08": ("online monitor of headers", "Generated header blocks compared with what the objects report."),
 "C09": ("round-trip monitor", "Export and reload of generated catalogues and edit histories compared entry by entry; exported text read by an independent strict reader."),
 "C10": ("determinism and order monitor on exports", "Repeated exports, permuted insertions and export-load-export compared byte by byte, order checked against an independent sort."),
 "C11": ("round-trip and corruption monitor on gob data", "Restored objects compared with the originals by every query; damaged bytes must give an error or a usable object."),
 "C12": ("hostile-input monitor with memory accounting", "Mutated and generated bytes; crash, hang and allocation monitors, contents compared where the model defines them."),
 "C13": ("hostile-input monitor with memory accounting", "Corrupted MO files; crash, hang and allocation monitors, and every served text must lie in the file."),
 "C14": ("race detector under pairwise and mixed stress", "All pairs of public operations and mixed sets run under Go's race detector with result monitors; covers the schedules that occurred."),
 "C15": ("race detector under pairwise and mixed stress", "All pairs of locale operations and of package operations run under Go's race detector with result monitors; covers the schedules that occurred."),
 "C16": ("linearizability checking of recorded histories", "Porcupine checks recorded concurrent histories per key; covers the histories that occurred, with injected yields; race detector on."),
 "C17": ("version-tag consistency monitor under stress", "Everything in one answer must belong to one version of the catalogue, within its real-time window; race detector on."),
 "C18": ("version-window monitor under stress and slow storage", "Each lookup during reloads must return a text of a version in its real-time window; race detector on; files replaced by renaming."),
 "C19": ("structural deadlock detection under nested stress", "Nested calls in formatting callbacks and translators with waiting writers; blocked goroutines are diagnosed from their states, not by time."),
 "C20": ("online monitor against lookups and model", "Every query compared with the model and with the matching lookup's source."),
 "C21": ("exhaustive layouts with an ordering oracle", "All 256 subsets of candidate files for each language shape and storage kind."),
 "C22": ("online model monitor of language preference", "Generated languages, catalogues and lookup histories compared with a list-order model."),
 "C23": ("differential monitor against fmt", "Results and buffers compared with fmt for generated texts and arguments."),
 "C24": ("differential monitor against fmt", "Named formats compared with an independent translation to positional verbs."),
 "C25": ("state monitor around reads and mutations", "Full state compared before and after every read, snapshot mutation and buffer reuse."),
 "C26": ("model-based history monitor", "Random edit histories compared step by step with a keyed store."),
 "C27": ("online monitor of references", "Generated arrangements of reference comments compared with the model, also after round trips."),
 "C28": ("online model monitor of settings", "Random sequences of setters compared with a model of the configuration; tags compared with the definition."),
 "C29": ("fault injection at every storage operation", "Every operation of each sampled load fails in each of eight ways, once and from then on; contents, isolation, open files and recovery are compared with the model."),
 "C30": ("goroutine and lock monitor", "Goroutine profile filtered to library frames, and completion of every operation, after accepted and refused inputs."),
 "C31": ("output monitor on generated programs", "The xgotext binary runs on generated, compiling Go modules; templates are compared with the calls generated."),
 "C32": ("output monitor with independent PO reader", "Templates for hostile literals read by an independent reader and by the library; reruns compared byte by byte."),
 "C33": ("crash and output monitor on hostile trees", "Exclusion lists and damaged sources; exit status, panics and extracted calls are compared with the tree generated."),
 "C34": ("differential monitor, locale and package against translators", "Every forwarding method compared with the translator's own answer and recorded calls."),
 "C35": ("history monitor over changing storage", "Answers between changes of the files and reloads compared with what was there at the last load; operations of the storage during lookups are recorded."),
 "C36": ("model-based monitor of entries", "Every method of an entry compared with a plain record after each random step."),
 "C37": ("model-based monitor of headers", "Header maps compared with lists of pairs after each step, then exported, read by an independent reader and reloaded."),
 "C38": ("isolation monitor and race detector", "The full state of every object compared with its own keyed store after each step on any of them, sequential and concurrent."),
}
checks = []
for p in props:
    i = p["id"]
    tech, note = T[i]
    checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                   "technique": "runtime monitoring: " + tech, "level": "fault_enumeration" if i == "C29" else "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": [],
     "notes": "The checks need no hooks in /repo: the harness is linked with /repo's packages (and, for C31-C33, runs the xgotext binary built from it). known_findings.txt lists the defects left alone and those repaired."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
