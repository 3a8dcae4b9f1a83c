#!/usr/bin/env python3
# Writes the "fixed:" part of known_findings.txt from the fix commits in /repo;
# "open:" lines are kept as they are.
import os, subprocess
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PROP = {
 "a script that fails or returns": "C28",
 "match old and new nodes": "C02", "forget the old input order": "C02", "silence a kept node": "C02", "restore the live input": "C29",
 "ignore messages to a position": "C31", "accept live input when": "C31", "take the speed of a sequence": "C14",
 "a bar shorter than one sample": "C31", "make seq, choose": "C04", "arrange passes both": "C24", "a message to arrange": "C06",
 "arrange follows": "C14", "psampler follows": "C14", "the cutoff pattern of lpf follows": "C14", "psynth uses the tempo": "C26",
 "interpolate between sample": "C20", "modulated delayms and": "C18", "play every frame": "C20", "onepole with a reference": "C21",
 "adsr attacks": "C19", "lpf and hpf take": "C21", "hpf uses": "C21", "msgsynth rises": "C26", "list each reference": "C04",
 "spread the groups": "C13", "keep the first and last": "C28", "report an error for a points": "C31", "an empty list of points": "C31",
 "points interpolate": "C23", "points without a written": "C23", "delayn delays both": "C18", "delayms without": "C31",
 "delayms plays a mono": "C18", "delayms can be set": "C06", "a very long modulated": "C31", "apfmsgain with a delay": "C31",
 "pan without": "C31", "pan positions beyond": "C17", "plate without": "C31", "an impulse train faster": "C31", "patterns with a cycle": "C31",
 "msgsynth ignores": "C31", "msgsynth forgets": "C30", "psynth ignores": "C31", "eval code that cannot": "C28",
 "refuse nodes the engine": "C31", "do not register samples": "C31", "spell the missing sample": "C10", "samples can be added after": "C33",
 "keep the live input after": "C32", "a message can change the delay of": "C06",
 "a mono sample in a pattern": "C20", "a pattern goes on when it": "C20",
 "envperc with an enormous": "C31", "noise with the largest": "C31", "adsr with an enormous": "C31", "choose with the largest": "C31", "the spelling msg_synth": "C07", "psynth without a written": "C07",
 "pass messages on to a boxed": "C36", "forget the tags": "C36", "tell the nodes of a chain": "C36", "keep the rate of an impulse": "C37",
 "keep the time of a delay": "C37", "keep the time of an all-pass": "C37", "place the points of a curve": "C37", "let curves follow": "C14",
 "show the error of a text": "C39", "show errors whose list": "C39", "keep samples and their names": "C39", "keep the names of samples": "C40",
 "keep texts apart": "C39", "do not cut texts": "C39", "do not cut messages": "C39", "take one input buffer": "C39", "show an error that arrives": "C39",
 "do not evaluate plain": "C40", "clear the frequency canvas": "C40", "wait for the documentation": "C40", "adc reads the input": "C42", "keep the adc inputs": "C42", "reconnect an adc": "C42",
 "loops through several chains": "C11", "oscillators keep their range": "C15", "nodes that ignore their inputs": "C30", "the ring buffer": "C34", "close the code block": "C35",
}
path = os.path.join(ROOT, "known_findings.txt")
old = open(path).read().splitlines() if os.path.exists(path) else []
keep = [l for l in old if l.startswith("open:")]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
with open(path, "w") as f:
    f.write("# open:  property=<id> case=<case key> :: <what fails>      (reported as KNOWN-FINDING)\n")
    f.write("# fixed: property=<id> <commit in /repo> <what failed>\n")
    for l in keep:
        f.write(l + "\n")
    for l in log:
        h, s = l.split(" ", 1)
        if s.startswith("fix: "):
            s = s[5:]
            p = [v for k, v in PROP.items() if s.startswith(k)]
            assert len(p) == 1, (s, p)
            f.write(f"fixed: property={p[0]} {h} {s}\n")
