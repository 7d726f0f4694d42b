#!/usr/bin/env python3
"""Write MANIFEST.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
"C01": "Two real endpoints (and real against reference) over a faulty simulated link; every completion is matched to the responder's signatures and both exact conversations.",
"C02": "Impostors that hold every secret but the leaf key, and chains known by construction to be valid or not, against the real requester with real ECDSA and path validation.",
"C03": "Nonces and signatures of all simulated sessions are matched one to one; entropy faults and replays of old frames injected.",
"C04": "Completion on undisturbed links for drawn worlds, and bounded recovery once the last fault is over (liveness as a number of attempts).",
"C05": "Transcript compared with the recorded wire bytes after every call of every run.",
"C06": "Call scripts of arbitrary requests against the real responder, judged by a phase-table model: accept, refuse or open, exact answer, exact ERROR.",
"C07": "Arbitrary and structured bytes in every live state, six build configurations, overflow checks on and off; panics, hangs and writes outside the buffers are caught. No memory-safety instrumentation; the crate is safe Rust.",
"C08": "Arbitrary negotiations in both directions, judged by an independent reading of offers and selections.",
"C09": "Arbitrary slot populations and requests for every slot, in both directions.",
"C10": "After drawn histories the responder is reset or gets GET_VERSION and is compared call by call with a fresh twin given the same entropy.",
"C11": "The real requester against reference peers with arbitrary legal choices, contradictions, mutations and unsolicited messages; order, refusal and completion judged by a model.",
"C12": "The global allocator of the simulator counts every request made while library code runs, in every run.",
"C13": "Buffers around the exact need, signer and entropy failures at drawn calls; result, output, state and recovery judged by the model.",
"C14": "Several sessions interleaved by the scheduler, each then re-executed on the same inputs and entropy alone, in a process of its own, and on a thread preempted at seeded instructions while another session runs; all compared.",
"C15": "Every emitted message is rebuilt from the negotiated values by an independent codec; every legal message of an independent peer must be taken.",
"C16": "After every regular call the public state structures of both roles are read and compared with values parsed independently from the wire. Should a tree change the shape of those structures, only phase names and slots are compared (the evidence says so).",
}
checks = [dict(property=p, quick_cmd="python3 check.py %s --tier quick" % p,
               thorough_cmd="python3 check.py %s --tier thorough" % p,
               evidence_file="evidence/%s.json" % p,
               technique="deterministic simulation with fault injection (seeded schedule and fault search judged by a reference model)",
               level="exploration",
               level_note=n + " Seeded search, not exhaustive: assurance for the runs explored; trusts ring's primitives and the reference model.")
          for p, n in NOTE.items()]
na = [dict(property="N01", reason="The generation of constants from a configuration file is a pure function executed by the build script at compile time: no time, schedule, I/O fault, peer or history for a simulation to decide. (The six configurations simulated do run through it.)"),
      dict(property="N02", reason="The measurement and ERROR codecs are pure functions that no state machine of the library calls with peer data; no schedule, clock, fault or history can influence them, so a simulation would only be a property-based unit test of a function.")]
json.dump(dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo: every source of nondeterminism already has a seam (see DESIGN.md)."),
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
