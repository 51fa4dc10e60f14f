"""Record a repair: add_fixed.py COMMIT PROPERTY "input" (the subject of the commit gives the rest)."""
import json
import subprocess
import sys

commit, prop, what = sys.argv[1:4]
git = lambda *a: subprocess.run(["git", "-C", "/repo", *a], check=True, capture_output=True, text=True).stdout.strip()
full = git("rev-parse", commit)
subject = git("log", "-1", "--format=%s", full).split("fix: ", 1)[1]
d = json.load(open("/verif/known_findings.json"))
d["findings"] = [f for f in d["findings"] if f.get("commit", "")[:7] != full[:7]]
d["findings"].append({
    "id": "fixed-" + full[:7], "property": prop, "also": sys.argv[4:], "status": "fixed", "commit": full,
    "what_failed": subject, "input": what, "line": "fixed: property=%s %s %s" % (prop, full[:7], subject),
})
with open("/verif/known_findings.json", "w") as f:
    json.dump(d, f, indent=1)
    f.write("\n")
