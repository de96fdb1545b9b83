#!/usr/bin/env python3
"""kf.py fixed PROP COMMIT TEXT | known PROP KEY TEXT   -- adds an entry to known_findings.json (by hand, never at run time)"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(p))
kind, prop, x, text = sys.argv[1:5]
k["findings"].append(dict(property=prop, status="fixed", commit=x, what="fixed: property=%s %s %s" % (prop, x, text)) if kind == "fixed"
                     else dict(property=prop, status="known", key=x, what=text))
json.dump(k, open(p, "w"), indent=1)
