"""addfix.py PROP COMMIT WHAT: record a repaired defect (dev helper)."""
import json, subprocess, sys, os
p, c, what = sys.argv[1:]
full = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', c], text=True).strip()
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.jsonl')
open(f, 'a').write(json.dumps(dict(property=p, status='fixed', commit=full, what=what, line=f'fixed: property={p} {full[:7]} {what}')) + '\n')
