#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and run.py's table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
NOTE = {
 "C01": ("grammar-based, mutational and coverage-guided fuzzing against an independent RFC 8259 recogniser", "Every generated text is judged by a reference parser written from the RFC; open points (NUL escapes, unpaired surrogates, BOM, depth over 1000) accept either answer."),
 "C02": ("generated documents compared with an independent reference decoder", "Numbers are compared with strtod in the C locale, which is trusted to round correctly."),
 "C03": ("fuzzing under address and undefined-behaviour sanitizers with exact-size buffers and an allocation balance oracle", "Absence of memory errors is shown for the explored inputs; trusts the sanitizers. Termination is judged by a 40 s limit per case (cases take milliseconds)."),
 "C04": ("generated invalid texts, error position and status compared with the reference parser's error interval", "Accepts every position between the start of the offending token and the first impossible byte, exact for structural errors."),
 "C05": ("generated documents, write / re-parse round trip with reference re-parse of the written bytes", "Documents are generated below the library's file size limit."),
 "C06": ("generated values of a family of user types, serialise / write / parse / deserialise round trip against a reference encoding", "Covers the listed type family, not every C++ type."),
 "C07": ("generated documents against a family of declared structures, validation and deserialisation compared with a reference schema checker", "Covers the listed type family."),
 "C08": ("generated present / absent / malformed / extra / reordered member combinations against a reference model", "Covers the listed type family."),
 "C09": ("model-based: generated objects with adversarial names compared with a finite map", "First duplicate wins, as in the current library."),
 "C10": ("differential file parse versus buffer parse under generated read schedules (wrapped system calls)", "The schedules are injected by wrapping open/read/fstat/lseek/close at link time; only faults that fired count."),
 "C11": ("generated documents, prior file contents and write/close fault schedules (wrapped system calls)", "As C10; also one real full disk (/dev/full)."),
 "C12": ("stateful: generated operation histories on several document objects against a model", "Each step is compared with the reference model or a fresh object."),
 "C13": ("fault enumeration: every allocation index of each generated operation fails once, and with all later ones", "Enumerates all allocation indices of each generated case; the cases themselves are sampled. The typed finders are not claimed."),
 "C14": ("stateful: generated map operation histories against std::map with element lifetime tracking and depth bound", "Public interface only."),
 "C15": ("stateful: generated array operation histories against std::vector with lifetime-counting elements", "Public interface only."),
 "C16": ("stateful: generated string operation histories against std::string", "Public interface only."),
 "C17": ("generated texts against plain reference definitions; all code points enumerated", "Public interface only; floating point to text is only claimed approximately."),
 "C18": ("differential testing of several builds of the library and several locales on the same generated inputs", "Builds with the compilers and locales available on this machine."),
 "C20": ("stateful: generated editing histories on document trees, also through user types with hand-written functions, against a reference tree", "Editing is claimed for the listed operations of the public tree interface; taking members out of an object is not."),
 "C21": ("numeric sampling of every primitive in three builds side by side: random, boundary and consecutive bit patterns against exact definitions or double-precision functions with stated tolerances", "SSE4 and NEON branches are not compiled (the former does not compile with gcc or clang)."),
 "C19": ("generated concurrent workloads under the thread sanitizer, results compared with sequential runs", "The thread sanitizer reports races of the executed code independent of the actual interleaving; schedules are sampled."),
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i in run.PROPS:
        t, n = NOTE[i]
        checks.append({"property": i, "quick_cmd": "python3 run.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "property-based testing: " + t, "level": run.PROPS[i].get("level", "exploration"), "level_note": n})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the checks use the public interface, wrapped system calls and a replaced operator new."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
