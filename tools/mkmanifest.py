#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MON = "runtime monitoring: "
T = {
    "C01": "event log of the real evaluation judged against an executable specification, forged-witness workload",
    "C02": "event log judged against an executable specification, double-spend/reorder/omission workload",
    "C03": "event log judged against an executable specification, altered-disclosure workload",
    "C04": "final state and verdict judged against an executable specification, valid histories of all shapes",
    "C05": "fault injection at every kind of point, effects and recovery judged against a specification",
    "C06": "event log judged against the codex run on the specified state, invalid-operation workload",
    "C07": "event log judged against an executable specification, overlapping/duplicate deliveries",
    "C08": "event log judged against an executable specification, genesis and contract-id workload",
    "C09": "event log judged against an executable specification, foreign-genesis workload",
    "C10": "event log judged against an executable specification, witness replacement workload",
    "C11": "trace monitor of the callbacks (exactly once, payload, order)",
    "C12": "returned errors compared with the set of true faults of the first invalid operation",
    "C13": "differential monitoring of ledgers fed in different ways (confluence)",
    "C14": "monitor comparing tokens with an independent implementation, collision watch",
    "C15": "monitor comparing resolved seals with the definitions, collision watch",
    "C16": "round-trip, layout and malformed-data monitors over encoded items",
    "C17": "panic/hang/heap/read monitors under hostile consignments, checked builds, ASan and Miri",
    "C18": "differential monitoring of repeated, nested, interleaved and concurrent executions and builds",
}
NOTE = ("Exploration: the property held in every execution observed (numbers are in the evidence), for random contracts, "
        "consignments, ledgers and faults from a seed; no claim on what wasn't executed. Trusted: the executable "
        "specification in harness/src, and the libraries under rgb-core (SONIC, single-use-seals, strict encoding, bp).")
EXTRA = {
    "C09": " The property is broken by the present code in one way, listed in known-findings.txt; everything else is reported.",
    "C17": " Damage of encoded bytes is explored with a mock seal protocol only, since decoders of bitcoin transactions in the upstream library allocate by an attacker-given length.",
    "C18": " Digests of all verdicts and logs are compared among four builds (seven in the thorough tier) and numbers of threads.",
}
checks = [dict(property=p, quick_cmd=f"./check {p} quick", thorough_cmd=f"./check {p} thorough", technique=MON + t,
               level="exploration", level_note=NOTE + EXTRA.get(p, "")) for p, t in T.items()]
m = dict(version=1, setup_cmd="./check setup", checks=checks, not_applicable=[],
         notes="No hooks in /repo: everything is observed via the public interface of the crate. "
               "Findings are in known-findings.txt.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
