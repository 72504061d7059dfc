#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json.
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
focus={
"P01":"worker interleavings down to statement level, latencies, worker counts; refinement against a wikitext/book model and a sequential run",
"P02":"crash points before, inside and after every file operation, disk and network faults; invariant over every file after each operation",
"P03":"error statuses, broken, truncated and mislabelled answers; what they carried must never reach cache or book",
"P04":"network, disk and command faults; exit status against the completeness of the finished book",
"P05":"histories with kills, faults and deletions; the next undisturbed run against a run on an empty cache",
"P06":"histories ending with a repeated run, network switched off or recorded",
"P07":"histories with clock moves and changing remote resources",
"P08":"histories under cache limits, size judged at every addition",
"P09":"histories under cache limits, every eviction judged against the recorded file times and sizes",
"P10":"HTTP 429 answers with all kinds of Retry-After, simulated clock",
"P11":"number, host, headers and overlap of all requests of a run",
"P12":"deadlock, livelock and step budgets under faults and hostile wikitext",
"P13":"every path of every file operation and command, with unusual names and under faults",
"P14":"failing or killed runs over an existing output file",
"P15":"the walk over image hosts with missing pages, files and failing hosts",
"P16":"provenance of every image through download, conversion and processing",
"P17":"open bodies and files counted by the simulated network and disk",
"P18":"two processes interleaved on one disk, one of them possibly killed",
"P19":"statistics against a model, under all interleavings and map orders",
"P20":"temporary files after successful runs that follow kills, faults and leftovers",
"P21":"malformed wikitext and answers of every service, combined with network, disk and command faults; how the process ended",
"P22":"whole runs with settings spread over all places, compared with a reference run on a copy of the simulated disk",
"P24":"projects whose titles, images and formulas hardly differ, over histories with expiry and changed content",
"P25":"generated documents of nested wikitext constructs, rendered in whole runs with several workers, network faults and reruns; comparison with the tree of elements the documents stand for",
"P26":"statistics of generated documents of nested wikitext constructs in whole runs with several workers, network faults and reruns; comparison with the counts of the documents' model",
"P27":"EPUBs of the internal driver from generated articles, titles, fonts, metadata and layered settings in whole runs with several workers, disk, network and command faults and reruns; every file of each book is parsed strictly and compared with project, settings and inputs",
"P23":"whole runs with one impossible setting in any place, on caches filled by earlier runs; no effect may precede the refusal",
}
note="Seeded sampling of schedules, faults and histories of the whole program (real code of /repo, rewritten at build time; disk, network, clock, randomness, scheduler and external commands simulated). A clean run is evidence, not proof. Trusts the models of disk, services and commands described in DESIGN.md."
checks=[dict(property=p,quick_cmd=f"bash check.sh {p} quick",thorough_cmd=f"bash check.sh {p} thorough",evidence_file=f"evidence/{p}.json",
  technique="deterministic simulation with fault injection: "+t,level="exploration",level_note=note) for p,t in focus.items()]
na=[]
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=[dict(property=a,reason=b) for a,b in na],
 notes="No hooks in /repo: the checks rewrite a copy of the working tree when they build (see DESIGN.md). Repairs of genuine defects are separate 'fix:' commits, listed in known-findings.txt.")
json.dump(m,open(root+"/MANIFEST.json","w"),indent=1); open(root+"/MANIFEST.json","a").write("\n")
