"""tools/addlevel.py ID 'technique' 'note': register a check in levels.json and rewrite MANIFEST.json."""
import json, subprocess, sys
i, t, n = sys.argv[1:4]
d = json.load(open("/verif/levels.json"))
d["checks"][i] = dict(technique=t, level="exploration", note=n)
json.dump(d, open("/verif/levels.json", "w"), indent=1)
subprocess.run([sys.executable, "mkmanifest.py"], cwd="/verif", check=True)
