#!/usr/bin/env python3
"""Write MANIFEST.json: one entry per existing check, the others under
not_applicable."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": ("runtime invariant monitor over parse trees (synthetic field programs, corpus, mutated files)",
            "Every reached field set is checked by direct arithmetic; holds for the inputs generated, not for all."),
    "C02": ("runtime monitor of names, paths, indexes and addresses over parse trees",
            "Lookups compared with the iteration order on every reached set."),
    "C03": ("differential runtime monitor: tree records under random access schedules",
            "Compares tree records of independent parses driven by different access orders."),
    "C04": ("hostile-input monitor with exception oracle and logical step budget",
            "Mutated corpus, random data and forced parsers; hangs decided by executed-line counts."),
    "C05": ("differential monitor of field values against independent decoders",
            "Oracle decoders are struct/codecs/integer arithmetic written for the check."),
    "C06": ("model-based monitor: stream requests against the byte string",
            "16 kinds of nested streams, including real pipes and short-reading sources."),
    "C07": ("model-based monitor: output writes against a bit list",
            "Mixed byte orders only at byte boundaries."),
    "C08": ("model-based monitor of edit sequences against spliced bytes", ""),
    "C09": ("ground-truth monitor of stripped files", ""),
    "C10": ("differential monitor of regex language against re and exhaustive word sets", ""),
    "C11": ("ground-truth monitor of sub-file search", ""),
    "C12": ("runtime monitor of metadata values and exports", ""),
    "C13": ("differential monitor of parser selection across processes, orders and hints", ""),
    "C14": ("ground-truth monitor of embedded and compressed sub-streams", ""),
    "C15": ("model-based monitor of replacements, events and the ordered dictionary", ""),
    "C16": ("model-based monitor of conversions and text helpers",
            "Independent arithmetic (Fraction, int.to_bytes, datetime) as oracle."),
    "C17": ("resource and guard monitor (timers, signals, rlimits, descriptors)", ""),
    "C18": ("differential monitor of grep output against an independent tree scan", ""),
    "C19": ("process-level monitor of the command line tools", ""),
    "C20": ("ground-truth monitor: generated archives", ""),
    "C21": ("ground-truth monitor: generated images", ""),
    "C22": ("ground-truth monitor: generated audio and video files", ""),
    "C23": ("ground-truth monitor: generated programs, disks and documents", ""),
    "C24": ("model-based monitor of scripted sessions of the browser (screens, files written, state after each key)",
            "A scripted screen replaces the terminal driver of urwid; a few sessions run on a real pseudo terminal."),
    "C25": ("differential monitor of the trees read from several kinds of sources", ""),
}


def main():
    props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        mod = pid.lower()
        if os.path.exists(os.path.join(HERE, "checks", mod + ".py")):
            tech, note = TECH[pid]
            checks.append({
                "property": pid, "quick_cmd": "./run.sh " + mod, "thorough_cmd": "./run.sh " + mod,
                "evidence_file": "evidence/%s.json" % pid,
                "technique": "runtime monitoring: " + tech, "level": "exploration",
                "level_note": (note + " Held on the executions observed; the counts are in the evidence file.").strip()})
        else:
            na.append({"property": pid, "reason": "the check is not built yet"})
    data = {"version": 1, "setup_cmd": "true",
            "hooks": {"guard": "none", "enable": "no hooks: the monitors wrap and observe the unmodified code",
                      "source_commits": []},
            "checks": checks, "not_applicable": na}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
        json.dump(data, fp, indent=1)
        fp.write("\n")


if __name__ == "__main__":
    main()
