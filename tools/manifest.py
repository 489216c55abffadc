#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after changes)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOK_COMMITS = ["0d91099", "14e8a19"]
PARSE = "whole parse run in one process under a seeded simulator"
T = {
 "C01": ("exploration", f"{PARSE}: delivery of pieces (boundaries, empty pieces) chosen by seed, items compared with an executable reference model of the notation"),
 "C02": ("exploration", f"{PARSE}: every reported position looked up in the delivered source and compared with the reference model"),
 "C03": ("fault_enumeration", f"{PARSE}: the stream is cut off at every (short) or drawn (long) point and compared with the uncut simulated run and the model"),
 "C04": ("exploration", f"{PARSE}: the simulated source counts requests; bounded-progress check of when each item is handed over"),
 "C05": ("exploration", f"{PARSE}: seeded plans of refused allocations and exhausted array storage, compared with the fault-free run of the same seed"),
 "C06": ("exploration", f"{PARSE}: seeded plans of refused mutable access and of nodes shared by the application, compared with the fault-free run"),
 "C07": ("exploration", f"{PARSE}: recorded history of macro calls compared with the reference model's, with injected macro failures"),
 "C08": ("exploration", f"{PARSE}: history of source requests, macro calls and allocations at the return of each collecting entry point, compared with the model up to the first error"),
 "C09": ("exploration", f"{PARSE}: damaged documents and failing macros, iteration continued to the end against the model, bounded number of items and steps"),
 "C10": ("exploration", f"{PARSE}: crash and abandonment injection (panics of source, macro, allocator) between parses on one parser, differential against a new parser"),
 "C11": ("exploration", "seeded thread scheduler over every reference-count operation of shared trees; drop tokens counted over the recorded history"),
 "C12": ("exploration", "seeded thread scheduler over every reference-count operation while observers read; each read compared with the built structure"),
 "C13": ("exploration", "seeded shapes, sharing and refusal plans; stack depth and number of reference operations measured at the seams, unoptimised build"),
 "C14": ("exploration", "seeded scripts of source operations with allocation failures against a small list model"),
 "C15": ("exploration", f"{PARSE}: weak observers on every delivered buffer, checked at every item and after faults"),
 "C16": ("exploration", f"{PARSE}: stack depth measured at the seams for documents of growing length, unoptimised build"),
 "C17": ("exploration", f"{PARSE}: the same simulated delivery on drawn combinations of components, differential"),
 "C18": ("exploration", f"{PARSE}: result texts parsed again, also from inside running macros, against the model"),
 "C20": ("exploration", f"{PARSE}: the same documents received twice in differently drawn pieces and joined by drawn scripts, results compared character by character"),
 "C21": ("exploration", f"{PARSE}: the same period of input, faults and abandonment recurs, and the bytes in use counted by the simulated allocator are compared between early and late periods and after the end"),
 "C22": ("exploration", f"{PARSE}: requests, classifications and allocations counted at the seams for a length and a multiple of it"),
 "C23": ("exploration", "seeded scripts build the same or nearly the same form twice from differently delivered texts, storage and sharing; comparison, hashing, copying and lookup compared with the written-out nodes"),
 "C24": ("exploration", f"{PARSE}: storage limited to exactly the nodes that the reference model counts for the documents, or slightly more; no refusal may strike"),
 "C19": ("exploration", "seeded thread scheduler over concurrent parses and consumers, each compared with its undisturbed run"),
}
NOTE = {
 "exploration": "seeded search over schedules, deliveries and fault plans; no completeness claimed beyond the runs made",
 "fault_enumeration": "all cut points of each drawn short document; documents themselves are drawn",
}
import subprocess
claimed = [l.split()[0] for l in subprocess.run([f"{here}/target/release/ksim", "list"], capture_output=True, text=True).stdout.splitlines()]
props = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
NA = {}
full = [subprocess.run(["git", "-C", "/repo", "rev-parse", c], capture_output=True, text=True).stdout.strip() for c in HOOK_COMMITS]
m = {
 "version": 1,
 "setup_cmd": "bash /verif/check.sh --build",
 "hooks": {"guard": "cargo feature sim_hooks of crate kul (off by default)",
           "enable": "the harness crate /verif/sim depends on kul with feature sim_hooks",
           "source_commits": full},
 "checks": [], "not_applicable": [],
}
for p in props:
    if p in claimed:
        lv, tech = T[p]
        m["checks"].append({"property": p, "quick_cmd": f"bash /verif/check.sh {p}",
            "thorough_cmd": f"bash /verif/check.sh {p}", "evidence_file": f"/verif/evidence/{p}.json",
            "technique": "deterministic simulation with fault injection: " + tech,
            "level": lv, "level_note": NOTE[lv]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "The check is not built yet.")})
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
