#!/usr/bin/env python3
"""tools_claim.py ID technique note  -- moves a property to the claimed ones"""
import json, sys
c = json.load(open('/verif/claims.json'))
i, t, n = sys.argv[1:4]
c['checks'][i] = {"technique": t, "level": "model_checking", "note": n}
c['not_applicable'].pop(i, None)
json.dump(c, open('/verif/claims.json', 'w'), indent=1)
