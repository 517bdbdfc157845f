#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUB = ("Searches generated cases against an explicit oracle; finds violations, never proves absence. "
        "hypercore and replicator are the offline stand-ins of /verif/stubs; one thread, all awaits scheduled by the harness. ")
CHECKS = {
 "C01": ("model-based property testing (proptest) against an ordered map", "Oracle: BTreeMap with log indexes."),
 "C02": ("property-based testing (proptest) of traversals against the sorted map", "Oracle: filter and sort over the live map, both directions."),
 "C03": ("stateful property testing (proptest) with a B-tree invariant over independently decoded blocks", "Oracle: structural invariant and key set, after every write."),
 "C04": ("stateful property testing (proptest) over the raw log, metamorphic reopening of prefixes", "Oracle: block counts, earlier bytes unchanged, map history."),
 "C05": ("model-based property testing (proptest) with reopen points and several handles", "Oracle: ordered map; same history through one handle."),
 "C06": ("differential property testing (proptest) against a transcription of JavaScript Hyperbee", "Oracle: byte equality with the reference writer. The reference is a transcription; Node cannot run it here."),
 "C07": ("model-based property testing (proptest) of conditional writes with recorded conditions", "Oracle: ordered map and a plain-operation twin."),
 "C08": ("model-based and differential property testing (proptest) of sub-trees", "Oracle: ordered map over full keys; byte equality with the prefixed writes."),
 "C09": ("fault-injecting property testing (proptest) over storage failures", "Oracle: state before the failed write, then retry and further writes against the model."),
 "C10": ("schedule-generating property testing (proptest) with a linearizability check", "Oracle: search for a linearization consistent with the log; byte equality with the sequential writer."),
 "C11": ("model-based property testing (proptest) of open iterators under interleaved writes", "Oracle: snapshot of the map at the time of traverse."),
 "C12": ("model-based property testing (proptest) with generated block arrivals and streams", "Oracle: the writer's map at the length the reader has reached."),
 "C13": ("structure-aware mutation fuzzing (proptest) of logs", "Oracle: finishes within fixed poll, read and stack budgets, no panic, keys returned are the keys asked for."),
 "C14": ("property-based testing (proptest) of the C symbols against an ordered map", "Oracle: ordered map, exactly one callback, exact bytes."),
 "C15": ("model-based property testing (Hypothesis) of the generated Python bindings", "Oracle: a dict and log indexes."),
 "C16": ("property-based testing (proptest) of the range builder against the stated rule", "Oracle: the acceptance rule restated over the inputs."),
 "C17": ("property-based testing (proptest) of bound comparisons against byte order", "Oracle: slice comparison and decimal text."),
 "C18": ("model-based property testing (proptest) of header creation, decoded independently", "Oracle: header model over the block list."),
 "C19": ("property-based testing (proptest) with generated cancellation points", "Oracle: model state before or after the dropped operation, and the raw log."),
 "C20": ("property-based testing (proptest) of the debug views against the decoded log", "Oracle: height and lines computed from independently decoded blocks."),
 "C21": ("fault-injecting property testing (proptest) of reads", "Oracle: correct prefix followed by an error item, or the full answer; full answer after recovery."),
 "C22": ("differential property testing (proptest) with a foreign-encoding writer", "Oracle: ordered map, and the reference writer continuing from the same log."),
 "C23": ("property-based testing (proptest) of recorded block fetches and sparse copies", "Oracle: set of permitted blocks computed from independently decoded blocks."),
 "C25": ("stateful property-based testing (proptest) of drops, with reference counts and exact memory accounting", "Oracle: the storage has no holder left; ordered map for what still lives; no growth over repetitions."),
 "C24": ("metamorphic property testing (proptest): the same history watched and unwatched", "Oracle: equal results and equal log bytes."),
}
NOT_YET = {}
exec(open(os.path.join(ROOT, "tools", "not_yet.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "not_yet.py")) else None
FAULTS = ()
checks = [dict(property=i, quick_cmd=f"tools/run.sh {i} quick", thorough_cmd=f"tools/run.sh {i} thorough",
               technique=t, level="exploration", level_note=STUB + n)
          for i, (t, n) in sorted(CHECKS.items()) if i not in NOT_YET]
m = dict(version=1, setup_cmd="tools/run.sh build", checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NOT_YET.items())],
         notes="No hooks: the checks use /repo's public interface only, through its own cargo features (debug, ffi, clib). Known findings: known_findings.txt.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(NOT_YET), "not claimed")
