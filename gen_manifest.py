#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.abspath(__file__))
NOTE = {
 "C01": "Exhaustive over the finite program families of fam.py and their parameter boxes, on the real library; trusts the reference enumeration (mc/oracle.c), the case reader and the interpreters, which are cross-checked against gcc and gfortran runs in C05 and C07. Nothing is claimed beyond the bounds in the evidence file.",
 "C02": "Exhaustive over the scattered and unscattered program families; order compared with dates computed from the input text alone.",
 "C03": "Exhaustive over families x listed option vectors; undocumented debugging options are out of scope.",
 "C04": "Exhaustive over families x the whole product of presentation options.",
 "C05": "Exhaustive over families; the text interpreter implements C's truncating arithmetic and is validated against gcc-compiled runs of the same texts.",
 "C07": "Exhaustive over families; the interpreter treats REAL quotients as exact rationals (values stay below 2^24) and is validated against gfortran-compiled runs.",
 "C06": "Exhaustive over sub-families; the generated programs are compiled with gcc and run for every requested parameter vector, so the deciding step is execution of the real artefact.",
 "C08": "Exhaustive over families x the re-writings of forms.py and the construction routes of mc/ext.c; each form is judged by executing the code generated from it.",
 "C09": "Exhaustive over families x option vectors on the library compiled with ASan, LSan and UBSan; the sanitizers decide each run, the enumeration decides which runs there are. Memory of the set library and of gmp is outside.",
 "C10": "All histories of library operations up to the stated depth over a set of programs, option vectors, languages and sharing modes, on the real library in one process, against a reference text from a fresh process.",
 "C11": "Exhaustive over families x all masks of named and unnamed statements, iterators, parameters and scattering dimensions.",
 "C12": "Exhaustive over families; membership of each executed iteration in the attached domain is decided by the set library; exactness only on the families without divisions.",
 "C13": "Exhaustive over families x all stop levels; prefixes computed from the input text alone.",
 "C14": "All option-word sequences up to the stated length through the real tool; the expected text comes from the library interface with the same settings.",
 "C15": "All truncations and all single-token corruptions of the seed inputs, through the real tool compiled with ASan and UBSan.",
 "C16": "Exhaustive over all small sets of the enumerated shapes and all pairs; results judged by explicit integer points.",
 "C17": "Exhaustive over the results of the families x all filters, against an independent traversal.",
 "C18": "Exhaustive over the results of the families x annotations of one loop per nest; directives are interpreted by position and variable list, not by an OpenMP compiler.",
 "C19": "Exhaustive over magnitudes around machine-word powers of two in the big families, in 128-bit arithmetic with explicit overflow detection in the reference.",
}
TECH = "explicit-state bounded model checking of the real library: exhaustive enumeration of programs x options x parameter values against an enumerated reference"
import re
extra = {}
p = os.path.join(V, "manifest_notes.json")
if os.path.exists(p):
    extra = json.load(open(p))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    q = json.loads(l)
    i = q["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        e = extra.get(i, {})
        checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                           technique=e.get("technique", TECH), level=e.get("level", "model_checking"),
                           level_note=e.get("note") or NOTE[i]))
    else:
        na.append(dict(property=i, reason="no check registered yet"))
json.dump(dict(version=1, setup_cmd="python3 build.py fast asan", hooks=dict(guard="none", enable="no hooks: the checks use the public library interface", source_commits=[]),
               checks=checks, not_applicable=na,
               notes="Every check rebuilds from /repo's working tree (content-hashed) and drives the real library; see DESIGN.md."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
