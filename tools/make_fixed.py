"""Fills the "fixed" list of known_findings.json from the fix: commits in /repo."""
import json, subprocess
PROP = ["C01", "C03", "C03", "C05", "C05", "C06", "C06", "C08", "C06", "C08", "C08", "C08", "C08", "C10", "C10", "C10", "C10", "C10", "C10", "C12", "C12", "C11",
        "C22", "C12", "C12", "C15", "C15", "C15", "C16", "C16", "C16", "C17", "C17", "C17", "C18", "C18", "C18", "C20", "C22", "C22", "C23", "C24", "C24", "C24",
        "C25", "C25", "C25", "C25", "C25", "C26", "C28", "C28", "C28", "C28", "C28", "C28", "C29", "C29", "C29", "C29", "C29", "C29", "C29",
        "C25", "C29", "C10", "C25", "C22"]
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "63c09e8..HEAD"], text=True).splitlines()
assert len(log) == len(PROP), (len(log), len(PROP))
f = "/verif/known_findings.json"
d = json.load(open(f))
d["fixed"] = [f"fixed: property={p} {l.split(' fix: ', 1)[0]} {l.split(' fix: ', 1)[1]}" for p, l in zip(PROP, log)]
json.dump(d, open(f, "w"), indent=1)
