"""claim.py ID TECH NOTE [LEVEL] - replace the property's na=WIP in props_table.py and regenerate"""
import os, subprocess, sys
d = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(d, "props_table.py")
s = open(p).read()
pid, tech, note = sys.argv[1:4]
lv = sys.argv[4] if len(sys.argv) > 4 else "proof"
i = s.index('prop("%s"' % pid)
j = s.index("na=WIP)", i)
assert 'prop("' not in s[i + 5:j]
s = s[:j] + 'level="%s", technique=%s, note=%s)' % (lv, tech, note) + s[j + 7:]
open(p, "w").write(s)
subprocess.check_call([sys.executable, os.path.join(d, "props.py")])
