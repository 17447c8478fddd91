#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT-ISH what failed   (adds a "fixed" line to known_findings.jsonl)"""
import json, subprocess, sys
p, c, w = sys.argv[1:4]
h = subprocess.run(['git', '-C', '/repo', 'rev-parse', c], capture_output=True, text=True, check=True).stdout.strip()
open('/verif/known_findings.jsonl', 'a').write(json.dumps(dict(status='fixed', property=p, commit=h,
     what='fixed: property=%s %s %s' % (p, h, w))) + '\n')
