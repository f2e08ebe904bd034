#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("runtime monitoring: call-by-call comparison with a sequential lock model on a deterministic executor, linearizability checking of threaded histories",
         "Real lock code under seeded random histories, with other clients' calls injected at delay points inside the lock operations (guarded hook), and on real threads. Sampled, not exhaustive."),
 "C02": ("runtime monitoring: permission judged at the instant the device guard is handed out, with injected interleavings, plus threads marking the device",
         "Seeded schedules with other clients' grants injected between permission check and hand-over (guarded hook); threads with random delays. Sampled."),
 "C03": ("runtime monitoring: exact quiescence detection on an executor which polls only woken tasks, plus threaded runs with timeouts",
         "A lost wake-up is decided without clocks: nothing is woken but a permitted client still waits. Sampled schedules."),
 "C04": ("runtime monitoring: fault injection (drop, close, reset, destroy) against a lock-state monitor and waiting clients",
         "Direct handles on the deterministic executor and real HiSLIP/VXI-11 connections ended at random points. Sampled; bounded-progress deadlines."),
 "C05": ("runtime monitoring: delivery model per subscriber, cross-subscriber order check on threads, heap growth monitor",
         "Seeded histories compared value by value; concurrent rounds compared across subscribers. Sampled."),
 "C06": ("runtime monitoring: line-splitter reference model over in-memory pipes, TCP and unix sockets",
         "Seeded byte streams, segmentations, flow control and stream ends; compared at every quiescent point. Sampled."),
 "C07": ("runtime monitoring: counting clients that hold a response against the limit over arrival/departure histories",
         "Real sockets; the safety half cannot be missed by timing (a served client is counted until it leaves), the liveness half uses a deadline. Sampled."),
 "C08": ("runtime monitoring: telnet session model over in-memory pipes and TCP with an independent tokenizer",
         "Three defects of the telnet parser dependency are recorded as known findings and avoided by the random workload. Sampled."),
 "C09": ("runtime monitoring: independent HiSLIP client with a session-table model",
         "Real connections in random order, concurrent set-ups, a full wrap of the id space. Sampled."),
 "C10": ("runtime monitoring: independent HiSLIP client, command log and response reassembly compared with a reference",
         "Random chunkings, sizes and announced maxima over several sessions. Sampled."),
 "C11": ("runtime monitoring: malformed-message injection with an answer-per-message oracle",
         "All 256 type codes on both channels plus random sequences, truncations at every byte of sample messages. Sampled beyond that."),
 "C12": ("runtime monitoring: device-clear injection at random points against a trace specification",
         "Clear requested idle, mid-command, while waiting for a lock and during long responses. Sampled."),
 "C13": ("runtime monitoring: lock-table model over real HiSLIP sessions in real-time order",
         "Sequential histories are compared answer by answer, waits are judged by bounded progress. Sampled."),
 "C14": ("runtime monitoring: status/SRQ model and device call log over real HiSLIP sessions",
         "Random announcement, query and remote/local histories on several sessions. Sampled."),
 "C15": ("runtime monitoring: independent RPC client with a reply-per-call oracle",
         "Random headers, fragmentations, truncations and pipelining against core, abort and portmapper servers over TCP and UDP. Sampled."),
 "C16": ("runtime monitoring: link-table model over several VXI-11 connections",
         "Random create/use/destroy/disconnect histories. Sampled."),
 "C17": ("runtime monitoring: byte-stream model of VXI-11 write and read",
         "Random writes and reads with every reported reason compared. Sampled."),
 "C18": ("runtime monitoring: lock model with real-time bounds over VXI-11 links",
         "Error codes and earliest return times are judged exactly, completion by bounded progress. Sampled."),
 "C19": ("runtime monitoring: aborts injected before, during and after waiting calls",
         "Every waiting operation, several links. Sampled."),
 "C20": ("runtime monitoring: harness-run interrupt servers (TCP/UDP) recording every interrupt call",
         "Random histories of channels, enables and announcements. Sampled."),
 "C21": ("runtime monitoring: device call log compared with VXI-11 calls",
         "All 256 status bytes, all device errors, random mixes. Sampled."),
 "C22": ("runtime monitoring: independent portmapper client compared with the table",
         "Random tables and queries over TCP and UDP, concurrent clients. Sampled."),
 "C23": ("runtime monitoring: scripted adversarial portmapper server against the real client",
         "Every call against random reply scripts (order, duplication, truncation, garbage). Sampled."),
 "C24": ("runtime monitoring: structure-aware mutation fuzzing with panic hook, process monitor and health probes",
         "Debug assertions and overflow checks on; a well-behaved client checks service throughout. Sampled."),
 "C25": ("runtime monitoring: stalled peers next to measured well-behaved clients",
         "Each way of stalling in each protocol, progress of others judged by a deadline. Sampled."),
 "C26": ("runtime monitoring: command/response conservation and lock exclusion over four protocols on one device",
         "Device log compared with what every client sent; exclusion judged by what is executed while a lock is held. Sampled."),
 "C27": ("runtime monitoring: round trips and wire comparison of XDR values through the portmapper client's indirect call, every truncation",
         "Independent XDR encoder; types built from the public Read/Write traits. Sampled values, exhaustive truncation points."),
 "C28": ("runtime monitoring: counting allocator and descriptor count read between equal rounds of each activity",
         "44 activities of all protocols; growth must not be proportional to what was served. Sampled."),
 "C29": ("runtime monitoring: twin runs of wrapped devices and of a reference of their documentation, directly and behind all servers",
         "Results and the inner device's call log are compared after every operation. Sampled."),
 "C30": ("runtime monitoring: configurations folded into a model and every setting observed on the wire, listening sockets read from the kernel",
         "Random builder call sequences, addresses in use, restarts. Sampled."),
}
main = open(os.path.join(here, "harness/src/main.rs")).read()
ids = [i for i in T if f'("{i}",' in main]
allp = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "./check.sh setup",
 "hooks": {"guard": "lxi_verif and lxi_verif_xdr", "enable": "RUSTFLAGS=\"--cfg lxi_verif --cfg lxi_verif_xdr\" (set by check.sh)",
           "source_commits": ["f79c37f", "c6c52af"]},
 "checks": [{"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} thorough",
             "technique": T[i][0], "level": "exploration", "level_note": T[i][1]} for i in ids],
 "not_applicable": [{"property": i, "reason": "check not built yet"} for i in allp if i not in ids],
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
