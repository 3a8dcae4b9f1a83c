#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: one check per property listed in CHECKS.
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
HIST = "explicit-state exploration of the real engine: every operation history up to a bound, "
INP = "bounded-exhaustive model checking of the real engine against a reference interpreter: "
CHECKS = {
 "C01": ("model_checking", HIST + "run in lockstep with a twin engine that never sees the refused updates"),
 "C02": ("model_checking", HIST + "compared with a fresh engine and a reference interpreter after the last update"),
 "C03": ("model_checking", HIST + "compared block by block with a reference interpreter that carries node state across updates"),
 "C04": ("model_checking", INP + "every small routing of chains, references and prefix references"),
 "C05": ("model_checking", "exhaustive enumeration of every wiring of a small audio graph, run on the real graph code with recording nodes and checked against the scheduling rules"),
 "C06": ("model_checking", HIST + "with a control message at every point, compared with a reference interpreter"),
 "C11": ("model_checking", HIST + "run on twin engines and with the chains declared in every order"),
 "C12": ("model_checking", "exhaustive enumeration of programs, each run on engines of every block size and compared sample by sample"),
 "C13": ("model_checking", INP + "every sequence of the bounded grammar over several bars"),
 "C14": ("model_checking", HIST + "with tempo and speed changes at every point, compared with a reference interpreter"),
 "C23": ("model_checking", INP + "every breakpoint curve of the bounded grid"),
 "C24": ("model_checking", INP + "every arrangement of the bounded grid over several repeats"),
 "C32": ("model_checking", INP + "every short input signal through every kind of consumer"),
 "C15": ("model_checking", INP + "every short frequency and modulation signal through every oscillator"),
 "C16": ("model_checking", INP + "every short stereo signal and operand through the arithmetic nodes"),
 "C17": ("model_checking", INP + "every short stereo signal through pan, balance and mix"),
 "C18": ("model_checking", INP + "every short signal and modulation through every delay"),
 "C19": ("model_checking", INP + "every short trigger and gate signal through the envelopes"),
 "C20": ("model_checking", INP + "every sample, pitch, trigger word and pattern of the bounded grid"),
 "C21": ("model_checking", INP + "every short signal through every filter setting"),
 "C22": ("model_checking", INP + "every rate, seed and list of choices of the bounded grid"),
 "C25": ("model_checking", INP + "every trigger word through each drum and synth and through the patch it stands for"),
 "C26": ("model_checking", INP + "every set of notes of the bounded grid"),
 "C27": ("model_checking", INP + "every short impulse word through the plate"),
 "C28": ("model_checking", INP + "every expression up to a depth, evaluated independently"),
 "C07": ("model_checking", "bounded-exhaustive enumeration of node spellings and chains, parsed by the real parser and compared with the tree each text means"),
 "C08": ("model_checking", "bounded-exhaustive enumeration of layouts of programs, parsed by the real parser and compared with the plain layout"),
 "C09": ("model_checking", "every token word up to a bound decided by an independent recogniser and replayed on the real parser"),
 "C10": ("model_checking", "exhaustive enumeration of single-token corruptions and missing names; the error of the real parser and engine is compared with the known place and name"),
 "C29": ("model_checking", HIST + "reset, and run in lockstep with a new engine"),
 "C30": ("model_checking", HIST + "repeated, with heap bytes and graph size compared with a warm-up and with a new engine"),
 "C31": ("model_checking", HIST + "every extreme program, message and short text; any panic, hang or malformed block is a failure"),
 "C33": ("model_checking", HIST + "made through the exported functions of the browser crate, in lockstep with a twin engine"),
 "C34": ("model_checking", "explicit-state exploration of the real ring buffer code under every interleaving of its shared memory accesses"),
 "C35": ("model_checking", "bounded-exhaustive enumeration of builder calls; the text that reaches the audio thread is parsed by the real parser and compared with the program it reads like"),
 "C36": ("model_checking", "exhaustive enumeration of call histories on the real audio context with recording nodes, compared with a model of the wiring"),
 "C37": ("model_checking", "exhaustive enumeration of builder options in every order on the real nodes, in lockstep with an engine playing the same program"),
 "C38": ("model_checking", "exhaustive enumeration of words of setting messages on the real nodes, compared with nodes built with the setting"),
 "C39": ("model_checking", "exhaustive enumeration of call, delivery and block histories on the real package with a recording engine whose memory moves, compared with a model of what was asked"),
 "C40": ("model_checking", "exhaustive enumeration of call, delivery and block histories and of texts with code on the real page with a recording engine, compared with a model of what was asked"),
 "C42": ("model_checking", HIST + "refused programs and resets, on the engine built for a board with several inputs, compared with the sum each program stands for"),
 "C41": ("model_checking", HIST + "on the crate compiled for wasm32, in lockstep with the same crate compiled for the host"),
 "C43": ("model_checking", "exhaustive enumeration of key and cursor histories on the real page script with a stand-in editor, and of lines over an alphabet of pieces coloured by the real rules"),
 "C45": ("model_checking", "exhaustive enumeration of channel counts and inputs of the real sum and pass nodes, compared with the sum written out; all small blocks"),
 "C46": ("model_checking", "all words of calls on the real binding code against an engine that keeps books on its memory, which may move at any call; words on the compiled engine of the repository bind the stand-in"),
 "C44": ("model_checking", "every program of a list of repeating programs is run on the real engine past 2^24 samples; each period is compared with the fifth"),
}
CHECKS = dict(sorted(CHECKS.items()))
NOTES = {}
out = {
 "version": 1,
 "setup_cmd": "./check --build",
 "hooks": {"guard": "none", "enable": "no source hooks are needed; the checks link the crates in /repo/rs as they are", "source_commits": []},
 "checks": [
  {
   "property": k,
   "quick_cmd": f"./check {k} --tier quick",
   "thorough_cmd": f"./check {k} --tier thorough",
   "technique": t,
   "level": lv,
   "level_note": NOTES.get(k, "exhaustive within the bounds stated in DESIGN.md; the code that runs is the code in /repo's working tree"),
   "evidence_file": f"evidence/{k}.json",
  }
  for k, (lv, t) in CHECKS.items()
 ],
 "not_applicable": [],
 "notes": "check --replay FILE re-runs one recorded case. Bounds, oracles and findings are described in DESIGN.md and known_findings.txt.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
print(len(out["checks"]), "checks")
