#!/usr/bin/env python3
"""known_findings.json: repaired defects (and open ones, if any)."""
import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE).stdout.decode().split("\n")
MAP = [("report failed writes of generated", "P01", "a failing write or close of a generated file was followed by a success exit with truncated output"),
 ("report failed writes of the attribute", "P01", "a failing write of the scheduling log went unnoticed"),
 ("abort orderly when a hash table", "P03", "an unchecked allocation in the hash table constructor crashed the generator"),
 ("removing an absent key", "P21", "removing an absent key from an empty bucket dereferenced a null pointer"),
 ("reset the element count", "P21", "the element count stayed up after clearing a hash table"),
 ("parser or lexer runs out", "P03", "unchecked allocations in the lexer and parser crashed the generator"),
 ("evaluate only the referenced set", "P19", "a set expression freed the expressions of later nodesets (use after free)"),
 ("NULL-variants", "P05", "the order of generated equation variants depended on heap addresses"),
 ("check all attributes", "P06", "only the first attribute of a node or nodeset was checked"),
 ("resolve every lifetime", "P12", "only the first lifetime of an entity was resolved; the others checked garbage action ids"),
 ("depends on itself", "P06", "an attribute depending on itself was accepted"),
 ("reject actions that are not", "P06", "a phase could name a node as one of its actions, which generated broken sources"),
 ("without a root node", "P06", "a specification without root node or start phase crashed the generator"),
 ("nested phase must not reset", "P09", "a phase nested in a cycle reset the cycle's iteration count and lost its change notifications"),
 ("generated checks of 'allowed'", "P12", "checks generated for allowed lifetimes called a function that does not exist"),
 ("declare the function a pass", "P08", "a pass with a func option had a declaration for another function"),
 ("name the duplicate pass function", "P06", "the message for a duplicate pass function printed a node pointer as a string"),
 ("covers the phases nested", "P12", "the end of a lifetime that targets a phase was wrong when its last action is a phase"),
 ("first member of a nodeset child", "P19", "a valid attribute grammar was refused with an internal inconsistency"),
 ("C keyword when matching", "P06", "a C keyword was accepted as a name when the matcher ran out of memory"),
]
try:
    MAP += json.load(open(V + "/tools/known_more.json"))
except FileNotFoundError:
    pass
F = []
for pat, pid, what in MAP:
    h = [l for l in log if pat in l and " fix:" in l]
    assert len(h) == 1, (pat, h)
    c = h[0].split()[0]
    F.append({"id": "F%02d" % (len(F) + 1), "property": pid, "status": "fixed", "commit": c, "text": "fixed: property=%s %s %s" % (pid, c, what)})
try:
    F += json.load(open(V + "/tools/known_open.json"))
except FileNotFoundError:
    pass
json.dump({"findings": F}, open(V + "/known_findings.json", "w"), indent=1)
print(len(F))
