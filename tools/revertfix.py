"""tools/revertfix.py [COMMIT...]: undo each repair of known_findings.txt in /repo's working tree and see that its check reports it."""
import re, subprocess, sys
want = sys.argv[1:]
for ln in open("/verif/known_findings.txt"):
    m = re.match(r"fixed: property=(\S+) (\w+) (.*)", ln)
    if not m or (want and m[2] not in want):
        continue
    prop, c, what = m.groups()
    diff = subprocess.run(["git", "-C", "/repo", "show", "--format=", c], capture_output=True, text=True).stdout
    p = subprocess.run(["git", "-C", "/repo", "apply", "-R", "--3way", "-"], input=diff, text=True, capture_output=True)
    bad = subprocess.run(["git", "-C", "/repo", "diff", "--name-only", "--diff-filter=U"], capture_output=True, text=True).stdout
    if p.returncode or bad:
        print(c, prop, "cannot be undone on its own:", what, flush=True)
    else:
        subprocess.run(["git", "-C", "/repo", "reset", "-q"])
        r = subprocess.run(["/verif/check.sh", prop, "--no-min"], capture_output=True, text=True, cwd="/verif")
        print(c, prop, "CAUGHT" if r.returncode == 1 else f"MISSED rc={r.returncode}", what, "|", r.stdout.strip().splitlines()[0][:200] if r.returncode == 1 else "", flush=True)
    subprocess.run(["git", "-C", "/repo", "reset", "-q", "--hard", "HEAD"])
