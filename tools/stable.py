#!/usr/bin/env python3
"""Which stable tests fail right now."""
import json, subprocess, sys
subprocess.run('bash /opt/vp/test.sh /tmp/o_stable.json', shell=True, capture_output=True)
a = json.load(open('/tmp/o_stable.json'))
s = json.load(open('/opt/vp/BASELINE.json'))['stable']
bad = sorted(set(s) - set(a['passed']))
print(f'stable {len(s)} failing {len(bad)}')
for b in bad:
    print('  ', b)
sys.exit(bool(bad))
