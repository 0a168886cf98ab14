#!/usr/bin/env python3
# claim.py ID "technique" "level note": add a property to gen_manifest.py's CLAIMED and regenerate MANIFEST.json.
import sys, os, re, json, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, 'tools/gen_manifest.py'); s = open(p).read()
i, t, n = sys.argv[1:4]
s = re.sub(r'^ "%s":.*\n' % i, '', s, flags=re.M)
a = s.index('CLAIMED = {'); e = s.index('\n}', a)
s = s[:e] + '\n ' + json.dumps(i) + ': (' + json.dumps(t) + ', ' + json.dumps(n) + '),' + s[e:]
open(p, 'w').write(s); subprocess.check_call([sys.executable, p])
