#!/usr/bin/env python3
# fixed.py Cxx : append every "fix:" commit of /repo that known_findings.jsonl does not list yet, for property Cxx
import json, subprocess, sys
SKIP = ('fceda89', 'd1fe41a')  # reverted by 8e063ec; d1fe41a undoes a part of bba1866
have = open('/verif/known_findings.jsonl').read()
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
for line in log.splitlines():
    h, s = line.split(' ', 1)
    if s.startswith('fix:') and h[:7] not in have and h[:7] not in SKIP:
        w = s[4:].strip(); d = {'property': sys.argv[1], 'status': 'fixed', 'commit': h, 'what': w, 'entry': f'fixed: property={sys.argv[1]} {h} {w}'}
        open('/verif/known_findings.jsonl', 'a').write(json.dumps(d) + '\n'); print(d['entry'])
