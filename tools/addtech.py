"""usage: addtech.py C14 "technique" "level note" """
import json, os, sys
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "techniques.json")
d = json.load(open(p))
d[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
json.dump({k: d[k] for k in sorted(d)}, open(p, "w"), indent=1)
