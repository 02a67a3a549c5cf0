#!/usr/bin/env python3
"""addfix.py <property> <text>: records the last commit of /repo as the repair of a defect"""
import json, subprocess, sys
k = json.load(open('/verif/known_findings.json'))
h = sys.argv[3] if len(sys.argv) > 3 else subprocess.getoutput('git -C /repo log --format=%h -1')
k['fixed'].append("fixed: property=%s %s %s" % (sys.argv[1], h, sys.argv[2]))
json.dump(k, open('/verif/known_findings.json', 'w'), indent=1)
