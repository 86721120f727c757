#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions here."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/dst")
sys.dont_write_bytecode = True
import props

GEN = ["cocogen/main.c", "cocogen/generator/generator.c", "cocogen/dynamic_backend/", "cocogen/filegen/", "cocogen/frontend/"]


def m(name, where):
    return {"name": name, "where": where}


D = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    D.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note))


SIM = "deterministic simulation of the real generator with seeded fault injection"
RSIM = "deterministic simulation of generated compilers against an executable reference model"
TRUST = "Samples seeded executions; trusts the simulator's model of the disk and the heap (glibc stdio is real), gcc, and the reference model."

prop("P01", "A successful generator run has written every generated file completely",
     "When the generator exits with success, every file it generates for the specification is present in the output directory with its complete contents, whatever the operating system did to the calls it made while running. In particular a full disk, an I/O error or a short write never leads to a success exit with missing or truncated output.",
     ["fault_sequences", "inputs"], "all specifications, all sequences of failing, partial and torn file operations, all disk capacities",
     "The tests run the generator on a healthy disk only and never look at what happens when a write, flush or close fails.",
     ["cocogen/generator/generator.c", "cocogen/main.c", "cocogen/frontend/attribute_scheduler/schedule_attribute_visits.c", "cocogen/dot/"],
     [m("buffered output files and their closing", "cocogen/generator/generator.c"), m("exit status", "cocogen/main.c")], "exit status and contents of the output directory", SIM,
     "Compares the output directory after every successful faulty run with that of the fault-free run of the same specification. " + TRUST)
prop("P02", "Failing file operations end the generator orderly and audibly",
     "When a file operation fails, the generator terminates within a bounded number of steps, by exiting, never by a crash or memory error, and a failing exit is accompanied by a message on standard error.",
     ["fault_sequences", "inputs"], "all specifications, all sequences of failing file operations (transient and persistent), any errno",
     "No test injects a failing operation, so no error path of the output code has ever run in them.",
     ["cocogen/generator/generator.c", "cocogen/filesystem/", "cocogen/frontend/scanAndParse/", "cocogen/main.c"],
     [m("opening and creating output files and directories", "cocogen/generator/generator.c"), m("opening the input", "cocogen/frontend/scanAndParse/scan_parse.c")], "exit status, standard error, simulated heap", SIM,
     "A checked heap (canaries, freed-block poisoning, double-free detection) and a step bound judge every faulty run. " + TRUST)
prop("P03", "Memory exhaustion ends the generator orderly",
     "When any memory allocation fails, the generator stops with a failing exit status and a message, or completes with complete output; it never crashes, hangs, misuses memory or reports success with incomplete output.",
     ["fault_sequences", "inputs"], "all specifications, failure of any allocation, alone or with all later ones, with and without an I/O error on top",
     "Tests never run out of memory.",
     ["palm/src/memory.c", "palm/src/ctinfo.c", "palm/src/hash_table.c", "cocogen/frontend/scanAndParse/"],
     [m("checked allocation", "palm/src/memory.c"), m("out-of-memory abort", "palm/src/ctinfo.c")], "exit status, standard error, simulated heap", SIM,
     "Allocation failures are spread over all allocating code locations reached (call-stack hashes). " + TRUST)
prop("P04", "Running the generator again after a crash repairs the output",
     "After any number of generator runs that were killed at arbitrary points, with or without loss of data that had not reached the disk, one undisturbed run on the same specification succeeds and leaves the same generated files as if nothing had happened before.",
     ["crash_points", "histories", "fault_sequences", "inputs"], "all specifications, all sequences of killed, failed or completed runs of the same or another specification, all crash points, all subsets of lost unsynced data",
     "Tests generate into a fresh directory and are never interrupted.",
     ["cocogen/generator/generator.c", "cocogen/filesystem/", "cocogen/filegen/"],
     [m("(re)creation of output directories and files", "cocogen/generator/generator.c")], "output directory after the last run", SIM,
     "Crash points at every kind of file operation and at allocations, torn last writes, loss of unsynced data. " + TRUST)
prop("P05", "Generated files depend on the specification only",
     "Two runs of the generator on the same specification with the same options produce byte-identical source files and the same diagnostics, whatever the memory layout, the contents of uninitialised memory, the chunking of reads and writes, the environment and the previous contents of the output directory.",
     ["schedules", "configurations", "inputs"], "all specifications, all memory layouts and heap contents, all read and write chunkings, all earlier contents of the output directory",
     "Tests run the generator once per input in one environment and never compare two runs.",
     ["cocogen/frontend/", "cocogen/dynamic_backend/", "palm/src/hash_table.c"],
     [m("iteration over pointer-keyed hash tables", "palm/src/hash_table.c"), m("code emission order", "cocogen/dynamic_backend/")], "output directory and standard error of two runs", SIM,
     "The heap places blocks at seeded addresses and fills fresh memory with seeded bytes. Diagram files are compared by size only. " + TRUST)
prop("P06", "Invalid specifications never succeed and never touch generated sources",
     "A specification that breaks a rule of the language is answered with a failing exit status and a message, and neither creates nor changes any generated source file, also when memory or I/O fails while it is being rejected.",
     ["inputs", "fault_sequences", "configurations"], "all specifications breaking a documented rule, all memory layouts, all allocation, I/O and console failures, any earlier contents of the output directory",
     "The failing tests cover twenty fixed files without faults and only look at the exit status.",
     ["cocogen/frontend/", "cocogen/frontend/scanAndParse/dsl-lexer.l", "cocogen/frontend/scanAndParse/dsl-parser.y"],
     [m("semantic checks", "cocogen/frontend/check_existance.c, check_attributes.c, check_product_rules.c, buildsymboltable.c"), m("abort before generation", "palm/src/ctinfo.c")], "exit status, standard error, output directory", SIM,
     "55 rules are broken by seeded mutations of otherwise valid random specifications. Rules the language does not document (duplicate enum values, duplicate equations) are left out. " + TRUST)
prop("P07", "The generator changes nothing outside the output directory",
     "Whatever happens during a run, the generator creates, changes or removes nothing outside the output directory it was given, and never its input.",
     ["fault_sequences", "crash_points", "configurations", "inputs"], "all specifications, options, spellings of the output directory, fault sequences and crash points",
     "Tests do not look outside the output directory, and never with failing operations.",
     ["cocogen/generator/generator.c", "cocogen/filesystem/", "cocogen/dot/"],
     [m("path construction", "cocogen/generator/generator.c")], "whole simulated disk", SIM,
     "The disk is simulated, so a stray write is recorded, not performed. " + TRUST)
prop("P19", "Any input ends orderly, and every valid specification is accepted",
     "For any input text and any memory layout, the generator terminates within a bounded number of steps with success or an orderly failure, without misusing memory; a valid specification is accepted, and one whose attribute dependencies cannot be scheduled is refused as such.",
     ["inputs", "schedules", "configurations"], "all valid, invalid and damaged inputs, all memory layouts, fill patterns and reuse policies, all read chunkings",
     "Tests run a few dozen fixed inputs with one benign memory layout, under which use of stale or uninitialised memory goes unnoticed.",
     ["cocogen/frontend/", "cocogen/dynamic_backend/", "copra/src/"],
     [m("the whole pipeline", "cocogen/main.c")], "exit status, standard error, simulated heap", SIM,
     "Uninitialised and freed memory is filled with hostile patterns and blocks are reused aggressively. " + TRUST)

exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

NA = []
if os.path.exists(os.path.join(V, "tools", "not_applicable.json")):
    NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))

D.sort(key=lambda d: d["id"])
with open(V + "/properties.jsonl", "w") as f:
    for d in D:
        f.write(json.dumps({"id": d["id"], "title": d["title"], "statement": d["statement"], "quantifier": {"over": d["over"], "text": d["text"]},
                            "why_tests_cant": d["why"], "anchors": {"files": d["files"], "mechanism": d["mech"], "observe_at": [d["observe"]]}}) + "\n")
    for n in NA:
        f.write(json.dumps(n["def"]) + "\n")
checks = []
for d in D:
    assert d["id"] in props.PROPS, d["id"]
    assert len(d["title"]) <= 80, d["id"]
    checks.append({"property": d["id"], "quick_cmd": "python3 dst/check.py --property %s --tier quick" % d["id"],
                   "thorough_cmd": "python3 dst/check.py --property %s --tier thorough" % d["id"], "technique": d["technique"], "level": "exploration", "level_note": d["note"]})
man = {"version": 1, "setup_cmd": "python3 dst/setup.py", "checks": checks, "not_applicable": [{"property": n["def"]["id"], "reason": n["reason"]} for n in NA],
       "hooks": {"guard": "none", "enable": "no hooks: the simulator replaces libc's allocation, file and console functions at link time", "source_commits": []},
       "notes": "Every check builds what it runs from /repo's working tree. See DESIGN.md."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
try:
    import jsonschema
    for n in ("PROPERTIES", "MANIFEST"):
        sch = json.load(open("/root/.vp/%s.schema.json" % n))
        for o in ([json.loads(l) for l in open(V + "/properties.jsonl")] if n == "PROPERTIES" else [man]):
            jsonschema.validate(o, sch)
    print("schemas ok", len(D))
except ImportError:
    print("no jsonschema")
