#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the property catalogue and the harness's own list of checks."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
levels = {}
for f in ["api", "dec_hist", "dec_io", "dec_meta", "dec_px", "enc", "quant"]:
    src = open(f"{root}/harness/src/checks/{f}.rs").read()
    levels.update(re.findall(r'CheckInfo \{ id: "(C\d\d)", level: "(\w+)"', src))
TECH = {
    "fault_enumeration": "bounded exhaustive enumeration of fault positions (stateless model checking of the real code under a fault injector)",
    "model_checking": "stateless model checking: exhaustive exploration of the real code over bounded choice vectors, compared with a reference model on every execution",
}
SCOPE = {
 "C01": "panics (debug assertions and overflow checks on) and non-terminating calls are caught on every execution; the explored alphabet is block tokens, code sequences, byte mutations of seed files and API call histories",
 "C02": "every partition is compared with one-piece delivery of the same bytes; the partitions enumerated are all pairs of cuts, all uniform sizes, all partitions of 8-byte windows and up to two interrupted reads",
 "C03": "metadata and extension state are compared with an independent reference parser",
 "C04": "pixels are compared with an independent variable-width-code LZW decoder written for this purpose",
 "C05": "row order is compared with the four-pass definition, for every height and width in the bound",
 "C06": "colours are compared with palette lookups in the reference parse",
 "C07": "all ways of reading one frame are compared with each other and with the model",
 "C08": "every sequence of per-frame actions is compared with the plain reading of the same file",
 "C09": "raw frames are compared with the compressed bytes in the file and with normal decoding",
 "C10": "every cut position of every file in the corpus is one fault; what is delivered is compared with the whole file's frames",
 "C11": "a counting allocator measures the peak of the heap; acceptance is compared with the sizes in the file",
 "C12": "files with and without end codes are generated together with the expected verdict",
 "C13": "the verdict is compared with integer arithmetic over boundary values of all 16-bit fields",
 "C14": "files with unknown blocks are compared with the same files without them",
 "C15": "the event sequence is compared with the one derived from the reference parse",
 "C16": "call sequences after the end and the position of the returned reader are compared with the trailer's position",
 "C17": "round trips are compared with the frames passed in",
 "C18": "the output is read by an independent strict parser and compared with the calls",
 "C19": "every write position is one fault; output is compared with the perfect output",
 "C20": "every call history is ended in every way, with and without failing writers, with and without the raii_no_panic feature",
 "C21": "the verdict of each call is compared with a precondition model and the output with that of the history without the refused call",
 "C22": "outputs are compared byte for byte",
 "C23": "the palette lookup of every pixel is compared with the pixel; RGBA alphabets include colliding colours and all alpha classes",
 "C24": "well-formedness, determinism and transparency only; closeness of the quantised colours is not judged",
 "C25": "payloads written are compared with payloads read",
 "C26": "interleavings of calls on two or three objects (the crate has no threads or shared state, so call interleavings are all schedules) and frame histories are compared with isolated runs",
 "C28": "every accessor is asked after every call of every history and compared with the reference parse",
 "C29": "every setting is told apart by a file whose verdict it decides; verdicts are compared with the meaning of the last value set",
 "C30": "the copy is compared with the original, and the copy of the copy byte for byte with the copy",
 "C31": "decoded RGBA pixels are compared with the pixels the frames were made from",
 "C32": "the conversions are compared with the tables of the format, over all values",
 "C27": "every read call position is one fault; results are compared with fault-free decoding",
}
checks = [{
    "property": p["id"],
    "quick_cmd": f"bash run.sh check {p['id']} quick",
    "thorough_cmd": f"bash run.sh check {p['id']} thorough",
    "evidence_file": f"evidence/{p['id']}.json",
    "technique": TECH[levels[p["id"]]],
    "level": levels[p["id"]],
    "level_note": "Holds for every execution within the bounds written in the evidence file (alphabet, lengths, cut and fault positions); "
        + SCOPE[p["id"]] + ". Trusts the reference model in harness/src, the Rust toolchain and weezl/color_quant as vendored.",
} for p in props]
m = {"version": 1, "setup_cmd": "bash run.sh build", "checks": checks, "not_applicable": [],
     "notes": "No hooks are needed: everything is driven through the public API. /repo carries only 'fix:' commits; see known_findings and DESIGN.md."}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
