#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
R = "runtime monitor over generated renderings"
NOTE = ("Every rendering of the real library in the run is judged by an oracle; a violation is a concrete document. "
        "Sampled, not exhaustive: documents outside of what the generators reach are not covered. Trusts the harness' HTML tokeniser and URL rules.")
CHECKS = {
 "C01": ("crash, hang, stack and allocation monitors over generated renderings; Miri", "exploration", NOTE + " Memory errors: Miri in both tiers on small documents, AddressSanitizer in the thorough one."),
 "C02": ("browser-tokeniser monitor over hostile renderings", "exploration", NOTE),
 "C03": ("URL-resolution monitor over hostile renderings", "exploration", NOTE),
 "C04": ("link and image oracle over generated renderings", "exploration", NOTE),
 "C05": ("online element-stack monitor over renderings", "exploration", NOTE),
 "C06": ("word-conservation monitor (exactly once, in order)", "exploration", NOTE),
 "C07": ("round-trip text oracle over generated renderings", "exploration", NOTE),
 "C08": ("verbatim-code oracle over generated renderings", "exploration", NOTE),
 "C09": ("element-tree oracle over generated documents", "exploration", NOTE),
 "C10": ("span oracle over generated lines", "exploration", NOTE),
 "C11": ("metamorphic monitor: parts alone against the whole", "exploration", NOTE),
 "C12": ("footnote-link checker over generated renderings", "exploration", NOTE),
 "C13": ("repeat, reorder and concurrency monitors; ThreadSanitizer; Miri; cross-process digests", "exploration", NOTE + " Races: ThreadSanitizer with an instrumented standard library, and Miri."),
 "C14": ("fault injection into system calls, byte-exact file monitor", "fault_enumeration", "Faults are injected below the standard library (preloaded shim, resource limits, full device); every call position of the calls made is hit. Trusts the shim and the kernel."),
 "C15": ("before/after directory monitor on runs of the real program", "exploration", "Runs of the built program in scratch directories; the expected bytes come from the library of the same tree, whose correctness is C01 to C13."),
 "C16": ("fault injection and directory monitor on runs of the real program", "fault_enumeration", "Each listed cause of failure, and a browser failing at each step of its protocol, in scratch directories. The browser is a stand-in speaking the same protocol."),
 "C17": ("scripted-browser monitor with faults at every protocol step", "fault_enumeration", "The browser is a stand-in which loads the page it is told to load and records it; a real one is not installed here. Concurrency is sampled."),
 "C18": ("monitor on configuration histories and concurrent runs", "exploration", "Runs of the built program and of its configuration reader against an independent model of the settings."),
 "C19": ("command-line conformance monitor on runs of the real program", "exploration", "Runs of the built program over spellings and positions of all options; the documented behaviour is the oracle."),
 "C20": ("recording stand-in for the binary under generated calls of the npm package", "exploration", "The sources are turned into JavaScript by esbuild and run with the execa at hand; the bundle that is published is not built here."),
 "C22": ("line-break oracle over generated paragraphs", "exploration", NOTE),
 "C23": ("metamorphic monitor: a document alone against the same in containers and with other line endings", "exploration", NOTE),
 "C21": ("commit, tag and package monitor on releases in a scratch clone, with faults", "exploration", "The script and the command steps of the workflow are run in clones of the tree with stand-ins for git-cliff, gpg, npm, cargo and the archiver; steps of the workflow which are actions of others are left out."),
}
done = [l.strip() for l in os.popen("cd /verif && cat tools/claimed.txt").read().split()]
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "checks": [{"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                 "technique": t, "level": l, "level_note": n} for p, (t, l, n) in CHECKS.items() if p in done],
     "not_applicable": [{"property": p, "reason": "its check is not built yet"} for p in CHECKS if p not in done],
     "notes": "No hooks: everything is observed through the public interface of the library, the program, its files and system calls. Repairs of defects found are the commits in /repo starting with fix:, listed in KNOWN_FINDINGS.txt."}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
