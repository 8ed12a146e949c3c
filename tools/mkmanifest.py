#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Every property of properties.jsonl is claimed as soon as the harness has a part for it."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
src = "".join(open(HERE + "/harness/" + f).read() for f in os.listdir(HERE + "/harness") if f.endswith(".go"))
have = set(re.findall(r'reg\("(C\d\d)"', src))
T = {
    "C01": ("property-based round-trip test", "Generated packages are written and read back through all layouts and access modes."),
    "C02": ("model-based stateful testing (rapid)", "Generated session histories against an ordered-map model, bytes reopened after every finalise."),
    "C03": ("crash-point enumeration over generated histories", "Every prefix of the recorded write calls of each generated history is opened. Trusts program-order persistence and unsplit writes of up to 64 bytes."),
    "C04": ("structured mutation fuzzing with semantic oracle", "Mutated, spliced and random bytes; the oracle decodes the header and tables itself and compares ranges. Pinned seeds, no coverage guidance."),
    "C05": ("model-based stateful testing (rapid)", "Operation sequences on tagsets against an ordered list of tags."),
    "C06": ("property-based round-trip test", "Values of every type with boundary classes; all widths for foreign payloads."),
    "C07": ("model-based stateful testing (rapid)", "Rename/alias/delete/retag sequences against the model, in memory and reopened."),
    "C08": ("model-based and metamorphic testing (rapid)", "Generated trees and directory pairs against a model of the documented semantics."),
    "C09": ("model-based round-trip test, differential of both readers", "The quick information reader is compared with a full open at every openable moment."),
    "C10": ("differential testing against bytes.Reader", "Operation scripts on handles of three access modes against an in-memory reader."),
    "C11": ("differential testing against a reference file tree", "Generated name sets; every directory view is compared with a tree built by the harness."),
    "C12": ("metamorphic testing (sub-workspace against prefixed root)", "Every call through a sub-workspace is compared with the prefixed call on a twin package."),
    "C13": ("differential testing against path.Match", "Generated patterns and names; set comparison and pattern errors."),
    "C14": ("model-based testing against a first-wins merge", "Generated lists of packages against a merged tree."),
    "C15": ("metamorphic testing (twin packages, slash and backslash)", "Each operation runs with both spellings on twin packages."),
    "C16": ("randomised concurrency testing under the race detector", "Goroutine programs from a generator; schedules are those the runtime produces, not enumerated."),
    "C17": ("model-based stateful testing, concurrent part under the race detector", "Sequential histories against a list model; concurrent programs checked by invariants and the race detector."),
    "C18": ("property-based round-trip and prefix enumeration", "All strict prefixes and generated fragmentations of generated encodings."),
    "C19": ("model-based testing of generated Lua programs", "Generated tag operations run in the Lua machine against a model of the conversion rules."),
    "C20": ("model-based testing of generated Lua programs", "Generated scripts against a model; the result is read by the Go API."),
    "C21": ("property-based testing against standard library digests", "Generated scripts with option sets; digests are recomputed by the standard library."),
    "C22": ("property-based round-trip test of the built utilities", "Generated source trees through the real pack and extract programs."),
    "C23": ("generated hostile packages with file-system invariant", "Extraction as an unprivileged user in a scratch tree; everything outside the destination is compared before and after."),
    "C24": ("property-based testing of the built utilities", "Generated trees and options through the real pack program; the result is read by the Go API."),
    "C25": ("differential testing against a reference expander", "Grammar-generated strings and environments."),
    "C26": ("differential testing against reference definitions", "Generated strings against bytewise definitions and the standard library."),
    "C27": ("fault enumeration over generated histories", "Each write, seek and read of a generated history is made to fail in turn."),
    "C28": ("property-based round-trip test of times", "Generated times through disk files, in-memory file systems and packages."),
    "C29": ("boundary-value property testing", "Tagset sizes around the format limit."),
    "C30": ("model-based testing of reader snapshots", "Readers are opened between the operations of a generated history and kept."),
    "C32": ("model-based testing of generated script lists", "Generated lists of scripts with failures at any statement through the real build program and the Go call."),
    "C33": ("property-based testing of resource balance over generated call histories", "Descriptors and mappings of the process are counted with garbage collection off; utilities run under a descriptor limit. Mappings of the utilities themselves are not counted."),
    "C34": ("randomised concurrency testing under the race detector", "Goroutine programs over one opened package against the known files; schedules are those the runtime produces, not enumerated."),
    "C36": ("randomised concurrency testing under the race detector, metamorphic (alone against together)", "Goroutines evaluate generated cases of other properties at the same time by their own oracles; a case that also fails alone is left to its own property. Schedules are those the runtime produces."),
    "C35": ("differential testing against fstest.MapFS through standard consumers", "Generated trees and requests; the HTTP file server, archivers, copying and conformance suites of the standard library over the package and over a reference."),
    "C31": ("property-based aliasing test", "Returned slices and passed buffers are overwritten and the package is compared."),
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in have:
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           technique=T[i][0], level="fault_enumeration" if i in ("C03", "C27") else "exploration", level_note=T[i][1] + " Explores generated cases only; establishes nothing beyond them."))
    else:
        na.append(dict(property=i, reason="the check is not built yet"))
m = dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo. Fixes of genuine defects are separate commits, listed in KNOWN_FINDINGS.txt.")
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
open(HERE + "/MANIFEST.json", "a").write("\n")
print(len(checks), "claimed,", len(na), "not")
