"""Add a notes.json entry: note.py PID TECHNIQUE LEVEL_NOTE; rewrites MANIFEST.json."""
import json, os, subprocess, sys
R = os.path.dirname(os.path.abspath(__file__))
f = os.path.join(R, "notes.json")
d = json.load(open(f))
d[sys.argv[1]] = sys.argv[2:4]
json.dump(dict(sorted(d.items())), open(f, "w"), indent=1)
subprocess.check_call([sys.executable, os.path.join(R, "mkmanifest.py")])
