#!/usr/bin/env python3
"""Writes MANIFEST.json (kept in git; run by hand when claims change)."""
import json
NOTE = {
 "C01": "Seeded search over schedules of shared-evaluator histories; every result compared with an independent reference model (all 7462 strengths, all hand sizes 0..52, errors). Assumes sequentially consistent memory; trusts the reference model (brute-force cross-checked) and the compiler's memory-access instrumentation.",
 "C02": "Seeded showdowns: players' results delivered late, twice, merged from partial observers in any order, by every public comparison; checked against the reference ranking. Trusts the reference model.",
 "C03": "Seeded histories of creating, cloning, moving, sharing and dropping evaluators on several threads under a controlled schedule; every one must answer like the reference model. Trusts the reference model.",
 "C04": "Every caller-code, allocation and entropy fault is injected at a seeded point of each kind of call; memory balance, later answers and the same call repeated are checked. Faults at points no run chose are not covered.",
 "C05": "Caller code is stalled for ever or re-enters the library at seeded points while other threads run under a controlled schedule; progress is bounded by step counts.",
 "C06": "Cards cross a simulated byte or token link with loss, duplication, reordering, truncation and corruption; results and messages compared with the reference parser.",
 "C07": "Decks from seeded good, constant, biased, repeating and failing sources on several threads; each checked for 52 distinct cards, bounded draws and isolation.",
 "C08": "The same stream is replayed by value and behind a trait object, on other threads, in other environments (clock, addresses, process id, entropy, history); decks and stream positions must agree.",
 "C09": "Statistical: about 13 million simulated decks per run, tested with fixed limits of 7.5 standard deviations or more; biases below roughly one part in a thousand of a cell are not seen.",
 "C10": "Simulated operating-system entropy with interruptions, short reads, absent call, device fallback and hard failure; decks compared across environments that differ only in entropy or only in everything else.",
 "C11": "Seeded sources that pause, panic, lie about their size or are shared, driven through every iterator entry point; each pull is recorded and compared with a reference parser.",
 "C12": "Every printable value printed to targets failing at seeded writes, on several threads, under several environments and hash seeds; texts compared with the reference model.",
 "C13": "Complete sessions of the real game program with simulated terminal or pipe, entropy and faults; each transcript is checked against a reference model of the rules and payout chart.",
 "C14": "Complete sessions of the real prompt program with simulated terminal or pipe and faults; each transcript is compared line by line with the reference answers.",
 "C15": "The crate is built with static_lookup through a simulated HTTP client; calls to the static table and to built evaluators are mixed on several threads under a controlled schedule with faults, and every static result is compared with a built evaluator's. The published table itself cannot be had offline: the reference model computes one in its format.",
 "C16": "Every way of building cards, on several threads under a controlled schedule and with failing allocations; encodings, equality, hashes and texts compared with the documented layout.",
 "C17": "Lists of cards sorted, merged, grouped and compared in every way on several threads, with comparators that stall, re-enter and panic; compared with ordering by rank number.",
 "C19": "Statistical over some hundred thousand simulated rounds of complete sessions, classed by what went before, with fixed limits of 7 standard deviations or more; twin sessions that differ only in entropy. Small biases are not seen.",
 "C20": "Long loops of calls on simulated threads; bytes kept (simulated allocator) and instrumented memory accesses are compared between early and late windows. Growth below 16 KiB per few thousand calls is not seen, nor work outside instrumented code.",
 "C18": "Series of builds with the real build script against a simulated network and disk (failures, truncation, error pages, crashes at and inside calls); whatever table is left with success is compiled into the crate and asked about every hand. Assumes transport integrity.",
}
NA = [
]
m = {"version": 1, "setup_cmd": "true",
 "hooks": {"guard": "none", "enable": "no hooks are needed: the checks build /repo's unchanged sources, with compiler instrumentation (C01-C12, C15-C17, C20) or a preloaded system-call shim (C13, C14, C18, C19)", "source_commits": []},
 "checks": [{"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
   "evidence_file": f"evidence/{p}.json", "technique": "deterministic simulation with fault injection (seeded schedule and fault search)", "level": "exploration", "level_note": n} for p, n in NOTE.items()],
 "not_applicable": NA,
 "notes": "Known findings and repairs: known_findings.txt. Replays: sim replay FILE or sess replay FILE under target/ after a check has built it; python3 static/download.py replay FILE for C18."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
