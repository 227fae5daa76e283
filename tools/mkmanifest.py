#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
mod = open(os.path.join(root, "harness/src/scen/mod.rs")).read()
done = {m.upper() for m in re.findall(r"&(c\d\d)::S", mod)}
NOTE = {
    "C01": "Seeded search over conversion histories of generated expressible plans through real parser, formatter and codecs, with failed and killed attempts in between. Trusts serde/pbjson/prost decoders as independent readers of JSON, YAML and protobuf, and the generator's domain of expressible plans.",
    "C02": "Seeded search over deliveries (chunking, EINTR, pipe/file) of generated and damaged inputs, compared with whole delivery. Trusts the shim's model of read(2).",
    "C03": "Seeded search over placements and kinds of read failures. Trusts the shim's model of read(2).",
    "C04": "Seeded search over acceptance patterns and rejections of the destination. Trusts the shim's model of write(2) and std's buffering.",
    "C05": "Seeded search over file layouts and causes of failure, comparing all files before and after. Trusts the shim's model of the file system.",
    "C06": "Seeded search over commands, plans and faults on all streams; exit status and both streams compared with the library's own result on perfect streams.",
    "C07": "Seeded schedules of real threads with a change of hands possible at every allocation, handler call, stream call and blocking wait; each result compared with the same call alone in a fresh process. Races between two instructions without such a point in between are not explored.",
    "C08": "Seeded search over hash keys, clock, process identity, environment, thread and preceding calls; outputs compared byte for byte.",
    "C09": "Seeded search over plans and failing handler calls; text compared line by line with the fault-free text, problems with a small reference model of where and when each failure is met.",
    "C10": "Seeded search over texts and failing handler calls, with recovery.",
    "C11": "Seeded histories of registrations, rejections, copies and uses against a set model.",
    "C12": "Seeded argument lists and access sequences against a model of which arguments were looked at.",
    "C13": "Seeded storage damage on generated plans in all formats, in process and as simulated processes; crash, abort and hang detection by a supervising process.",
    "C14": "Seeded crash points and faults over sequences of attempts, compared with an uninterrupted run.",
    "C15": "Seeded histories of descriptor additions and registrations; inline and raw payload forms compared.",
    "C16": "Seeded storage damage (stale tails, doubled, foreign and zeroed ranges, single fields and tokens) on generated plans; an accepted file is compared, piece by piece, with the plan read. Text is compared by its words, numbers and brackets, up to spelling variants; unknown JSON keys are not followed.",
    "C17": "Seeded storage damage to single lines of generated text plans in drawn layouts (line ends, blank lines up to tens of thousands, no final line end), with the lines that may be named known from the damage; other text damage only needs a line that exists and is quoted. In process, a quarter also through the simulated command.",
}
NA = {
    "N01": "A pure function of the plan: no schedule, clock, I/O, fault or history takes part, so there is nothing for a simulator to control (C01 decides its observable consequence over conversion histories).",
    "N02": "A pure function of the text; a grammar-conformance question for proof or generation-based testing, not for simulation.",
    "N03": "A pure function of the text.",
    "N04": "A pure function of the relation tree.",
    "N05": "A pure function of the declarations and references.",
    "N06": "A pure function of the literal.",
    "N07": "A pure function of the plan message (C06 decides its consequence for the exit status).",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in done:
        checks.append({"property": i, "quick_cmd": f"./check.sh run {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh run {i}",
                       "technique": "deterministic simulation with fault injection", "level": "exploration", "level_note": NOTE[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are libc (LD_PRELOAD shim), the library's Read/Write/handler parameters and the allocator. Replay: ./check.sh replay <file>."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
