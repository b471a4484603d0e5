"""python3 tools/fixed.py P04 <commit> <what>: record a repaired defect"""
import json
import os
import sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(p))
k['fixed'].append(f'fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}')
with open(p, 'w') as f:
    json.dump(k, f, indent=1)
    f.write('\n')
