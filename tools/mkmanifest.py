#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. The checks and reasons live here."""
import json, pathlib, subprocess
V = pathlib.Path(__file__).resolve().parent.parent
COMMON = "Every execution within the stated bounds (listed per suite in the evidence file) runs the real code, built from /repo's working tree with overflow checks and debug assertions, and is compared step by step with an independent oracle; nothing beyond the bounds is covered. Trusted: the oracle in /verif/mc, rustc and the standard library."
T = {
 "C01": "stateless model checking: all page operation sequences up to a depth over the real page code against a list model",
 "C02": "stateless model checking: all page operation sequences, page sizes and row sizes within bounds on the real code, with guard-fenced buffers",
 "C03": "exhaustive bounded enumeration of types, values and case choices through the real marshaller",
 "C04": "exhaustive bounded enumeration of types, values, buffer sizes and alignments through the real marshaller, with guard-fenced buffers",
 "C05": "exhaustive bounded enumeration of types and values through the real encoder and decoder",
 "C06": "exhaustive bounded enumeration of types, values and output-sink fault placements on the real encoder, judged by an independent JSON parser",
 "C07": "exhaustive bounded enumeration of documents, document edits and texts on the real decoder against an independent JSON reader",
 "C08": "exhaustive bounded enumeration of texts on the real tokenizer against an independent JSON lexer",
 "C09": "exhaustive bounded enumeration of type descriptors, token sequences and texts on the real parser against an independent reader",
 "C10": "exhaustive bounded enumeration of types, names, and pairs and triples of paths on the real code",
 "C11": "stateless model checking: all operation sequences up to a depth on the real data source and reused components against a map model",
 "C12": "exhaustive bounded enumeration of types, values and member orders through the whole real pipeline",
 "C13": "exhaustive bounded enumeration of syntax trees and their renderings through the real SQL parser, judged against the tree generated first",
 "C14": "exhaustive bounded enumeration of SQL token sequences, texts, case and layout variants on the real parser",
 "C15": "stateless model checking: all name pairs and triples and all catalog operation sequences within bounds on the real code",
 "C16": "exhaustive bounded enumeration of expressions on the real type checker against an independent typing oracle and an exhaustive evaluator over all rows",
 "C17": "exhaustive bounded enumeration of DML statements and table schemas on the real validator against an independent oracle",
 "C18": "exhaustive bounded enumeration of queries and catalogs on the real validator against an independent scoping oracle",
 "C19": "stateless model checking of the real buffer pool under a controlled scheduler: all interleavings of task programs within bounds, over a simulated device",
 "C20": "stateless model checking of the real buffer pool under a controlled scheduler: all interleavings and cancellation points within bounds; deadlock and leak detection",
 "C21": "exhaustive bounded enumeration of addresses, and of all volume-creation histories up to exhaustion, on the real code",
 "C22": "exhaustive bounded enumeration of arguments, offsets, lengths and alignments on the real helpers",
}
CLAIMED = [l.strip() for l in (V / "tools/claimed.txt").read_text().split()]
NA = {"C23": "volume creation, mounting, fetching and storing are unimplemented!() in this commit, so no medium is ever written and there is no crash history to explore"}
props = [json.loads(l)["id"] for l in (V / "properties.jsonl").read_text().splitlines()]
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines() if l.split(" ", 1)[1].startswith("hook:")]
m = {
 "version": 1, "setup_cmd": "bash setup.sh",
 "hooks": {"guard": "cathlamet_verif", "enable": "RUSTFLAGS='--cfg cathlamet_verif' (set by /verif/build.sh)", "source_commits": list(reversed(hooks))},
 "checks": [{"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough", "technique": T[p], "level": "model_checking", "level_note": COMMON} for p in props if p in CLAIMED],
 "not_applicable": [{"property": p, "reason": NA.get(p, "check under construction")} for p in props if p not in CLAIMED],
}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
