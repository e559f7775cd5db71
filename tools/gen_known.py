#!/usr/bin/env python3
"""known_findings.json: repaired defects (suppress nothing) and recorded ones."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
MAP = [("bodies without tides or flattening", "C13"), ("rotational flattening of a body without spin", "C15"), ("detect ejected", "C11"), ("resume --time-limit", "C05"),
 ("periodic recovery snapshots", "C05"), ("snapshots are fully written", "C02"), ("refuse binary snapshots", "C02"), ("before the first historic snapshot", "C03"),
 ("several bodies without the effect", "C16"), ("gravity terms ignored by WHFast", "C16"), ("interpolated correctly when the time goes back", "C19"), ("evolution of the love number", "C19"),
 ("wind is the only effect", "C17"), ("dissipation factor of the right pair", "C13"), ("Kaula love numbers", "C21"), ("Roche radiuses", "C11"), ("spin precession of Kidder", "C16"), ("bisection of the WHFast", "C06")]
MAP += json.load(open(os.path.join(root, "tools/fixmap.json"))) if os.path.exists(os.path.join(root, "tools/fixmap.json")) else []
fixed = []
for l in reversed(log):
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): continue
    prop = next((p for k, p in MAP if k in s), None)
    assert prop, s
    fixed.append(f"fixed: property={prop} {h} {s[5:]}")
known = json.load(open(os.path.join(root, "tools/known.json"))) if os.path.exists(os.path.join(root, "tools/known.json")) else []
json.dump({"fixed": fixed, "known": known}, open(os.path.join(root, "known_findings.json"), "w"), indent=1)
print(len(fixed), "fixed", len(known), "known")
