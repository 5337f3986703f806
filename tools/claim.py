#!/usr/bin/env python3
"""claim.py ID 'technique' 'note'"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.json")
c = json.load(open(p))
c[sys.argv[1]] = {"technique": sys.argv[2], "note": sys.argv[3]}
json.dump(c, open(p, "w"), indent=1)
