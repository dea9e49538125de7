#!/usr/bin/env python3
"""Writes the run counts of checks.json from a table of measured costs (seconds per 12000 runs on 8 workers)."""
import json, os
F = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks.json')
COST = dict(C01=3.1, C02=3.5, C03=1.7, C04=1.5, C05=.7, C06=1.25, C07=.9, C08=1.1, C09=1.1, C10=1.1, C11=3.8, C12=4.6, C13=.8, C14=2.8, C15=2,
            C16=.8, C17=2.8, C18=2.4, C19=6, C20=2.6, C21=2.7)
c = json.load(open(F))
for p, s in COST.items():
    q = min(int(12000 * 45 / s), 450000)
    q -= q % 800
    c['checks'][p]['quick_runs'] = q
    c['checks'][p]['thorough_runs'] = min(q * 20, 6000000)
json.dump(c, open(F, 'w'), indent=1)
