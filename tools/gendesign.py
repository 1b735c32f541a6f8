#!/usr/bin/env python3
"""Check that DESIGN.md mentions every property; no generation of prose."""
import json,sys
d=open('/verif/DESIGN.md').read()
ids=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m=[i for i in ids if i not in d]
print('missing in DESIGN.md:',m); sys.exit(bool(m))
