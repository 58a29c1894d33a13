#!/usr/bin/env python3
# mk_manifest.py   writes MANIFEST.json
import json
BFS = "explicit-state exploration of the implementation in lock step with a reference model"
NOTE = ("Every state and history within the bounds the evidence lists is executed on the real code and compared with an "
        "independent reference model. Trusted: the model (src/check/model.go), the Go runtime, the fixed width table. ")
ENUM = ("Every case within the bounds the evidence lists is executed on the real code. ")
C = {
 "C01": ("exhaustive exploration of token sequences, splits and resizes on the implementation, with panic and progress monitors", "model_checking",
         ENUM + "The monitor is a recover around the read loop, a progress watchdog and a sweep of all read accessors."),
 "C02": (BFS, "model_checking", NOTE),
 "C03": (BFS, "model_checking", NOTE),
 "C04": (BFS, "model_checking", NOTE),
 "C05": (BFS, "model_checking", NOTE),
 "C06": (BFS, "model_checking", NOTE),
 "C07": (BFS, "model_checking", NOTE),
 "C08": ("exhaustive enumeration of read segmentations of bounded streams on the implementation, compared with the unsplit run", "model_checking",
         ENUM + "The oracle is the run of the same stream in one read. Trusted: uniseg for where extended grapheme clusters end."),
 "C09": ("exhaustive enumeration of control sequences from the grammar, in several contexts, in lock step with a reference model", "model_checking", NOTE),
 "C10": (BFS + " and a shadow frontend", "model_checking", NOTE),
 "C11": ("exhaustive exploration of screens reachable within a depth, rendered and reinterpreted by a second terminal", "model_checking",
         ENUM + "The oracle is cell-by-cell equality of the two terminals."),
 "C12": ("exhaustive enumeration of key events x keyboard modes against a reference encoder, a decoder and a uniqueness check", "model_checking",
         ENUM + "Trusted: the encoder written from keyboard-protocol.rst in src/check/c12.go; where the protocol leaves a choice every choice is accepted."),
 "C13": ("exhaustive enumeration of mouse events x modes x encodings x write faults, judged by a decoder", "model_checking", ENUM + "Trusted: the decoder and filter table in src/check/c13.go."),
 "C14": (BFS, "model_checking", NOTE),
 "C15": ("stateless exploration of all schedules up to a preemption bound on the real code, with hooks in package sync and the race detector as monitor", "model_checking",
         ENUM + "Scheduling points are lock acquisitions, backend, tee and frontend calls; data races between them are found by the race detector's happens-before relation, to which the scheduler adds no edges. Trusted: that detector, and the reference model for which states a reader may see."),
 "C16": ("exhaustive enumeration of backend read and write behaviours (sizes, errors, faults at every point) on the real code", "model_checking",
         ENUM + "Trusted: the reference model for what a prefix of the input does."),
 "C17": (BFS, "model_checking", NOTE),
 "C18": (BFS, "model_checking", NOTE),
 "C19": (BFS, "model_checking", NOTE),
 "C20": ("explicit-state exploration of both screen buffers in lock step", "model_checking",
         ENUM + "The oracle is equality of the two buffers after every operation, content, cursor, region and notifications."),
}
out = {"version": 1, "setup_cmd": "./run.sh setup", "checks": [
    {"property": p, "quick_cmd": f"./run.sh {p} quick", "thorough_cmd": f"./run.sh {p} thorough",
     "evidence_file": f"evidence/{p}.json", "technique": t, "level": l, "level_note": n.strip()} for p, (t, l, n) in sorted(C.items())],
  "not_applicable": [{"property": "C%02d" % i, "reason": "check not built yet"} for i in range(1, 21) if "C%02d" % i not in C],
  "notes": "Checks are built by overlay from /repo's working tree: see run.sh. Violations leave a history in evidence/replay, shown by ./run.sh replay FILE."}
json.dump(out, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
