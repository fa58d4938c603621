#!/usr/bin/env python3
"""Writes MANIFEST.json. Usage: tools/gen_manifest.py [ID...] (default: every property)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
claimed = sys.argv[1:] or props
T = {
 "C01": ("runtime monitor: independent reference encoder over generated messages", "generated values of every type; the value space is sampled"),
 "C02": ("runtime monitor: reference grammar and round-trip oracle over generated and mutated frames", "systematic mutations of every type of frame; the space of frames is sampled"),
 "C03": ("crash and allocation monitors over hostile bytes", "hostile lengths and counts at every position of every type, plus random bytes"),
 "C04": ("runtime monitor: reference splitter over scripted readers with faults at every offset", "every chunking kind and every fault offset of generated sequences"),
 "C05": ("runtime monitor: reference model of the buffers over random operation sequences", "random sequences"),
 "C06": ("runtime monitor: component oracle over assembled URIs, crash monitor on mutants", "generated URIs in a reduced alphabet plus special cases"),
 "C07": ("runtime monitor: stream equality and quiescence (stuck detection) on real sessions", "real TCP sessions under random schedules, chunkings and conversations"),
 "C08": ("runtime monitor on recorded connections of a fake database", "generated start-up packets and SSL prefixes"),
 "C09": ("runtime monitor: reference database selection rule, zero bytes at the fake database", "generated near-miss start-ups"),
 "C10": ("runtime monitor: protocol state machine on real sessions, bounded-resource counters", "generated negotiation sequences"),
 "C11": ("fault injection at every step and schedule point with delivery, quiescence and leak monitors", "hang-ups by FIN and RST at generated steps times swept delays"),
 "C12": ("runtime monitor: tagged traffic (isolation) and liveness of good sessions beside hostile ones", "generated mixes of sessions"),
 "C13": ("runtime monitor: quiescence (deadlock) and byte bounds under stalled receivers", "stalled and saturated directions, random schedules"),
 "C14": ("schedule perturbation at every statement with close, leak and crash monitors", "every statement reached is delayed in turn around the close"),
 "C15": ("schedule perturbation with a monitor of accepting addresses", "random histories of configurations times swept delays"),
 "C16": ("fault injection into the listener with serving and descriptor monitors", "scripted error sequences, and descriptor exhaustion of the real program"),
 "C17": ("offline checker of life-cycle call histories, schedule perturbation", "random concurrent histories times swept delays"),
 "C18": ("online linearizability monitor (register with ordered values), quiescence", "random concurrent histories times swept delays"),
 "C19": ("trace checker against a reference filter, schedule perturbation", "random histories times swept delays"),
 "C20": ("quiescence and leak monitors with blocked subscribers", "random histories times swept delays"),
 "C21": ("online monitor of event observations, schedule perturbation", "every statement of the event delayed under concurrent use"),
 "C22": ("runtime monitor on the real program: sockets, reached database, exit status", "generated files"),
 "C23": ("runtime monitor on the real program: convergence to the last saved configuration", "generated ways of saving times bursts and delays"),
 "C24": ("runtime monitor on the real program: output, exit status, sockets", "generated command lines"),
 "C25": ("fault injection at every message and byte of a fake PostgreSQL, script oracle", "every cut and server error position of generated conversations"),
 "C26": ("Go race detector over the concurrent workloads of all other checks", "happens-before races in the executions driven"),
 "C27": ("runtime monitor: which fake database is reached across configuration histories", "random histories"),
 "C28": ("resource monitors (goroutines, descriptors, watches, live heap) over repeated rounds", "repeated rounds of generated kinds of use"),
 "C29": ("monitors of idle sessions and waiting calls while the product's clock is moved", "generated states times lengths of pauses; library and kernel clocks only for the seconds truly waited"),
}
checks = []
for p in props:
    if p in claimed:
        checks.append({"property": p, "quick_cmd": f"./run.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p}",
                       "evidence_file": f"evidence/{p}.json", "technique": T[p][0], "level": "exploration", "level_note": T[p][1]})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": p, "reason": "check not finished yet"} for p in props if p not in claimed]}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
