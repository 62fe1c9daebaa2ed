"""claim PID TECH NOTE: fills the entry of a property in props_table.py and regenerates the metadata."""
import sys, subprocess, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
pid, tech, note = sys.argv[1:4]
s = open('props_table.py').read()
i = s.index(f'P("{pid}"'); j = s.index('na=TODO', i); n = s.find('\nP("', i + 3)
assert n == -1 or j < n, pid
open('props_table.py', 'w').write(s[:j] + f'tech="{tech}",\n  note="{note}"' + s[j+7:])
subprocess.check_call([sys.executable, 'gen_meta.py'])
