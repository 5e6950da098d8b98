#!/usr/bin/env python3
"""show.py Pxx [n]: the last replay of a check"""
import json, sys
for v in json.load(open('/verif/evidence/replay/%s.json' % sys.argv[1]))[:int((sys.argv + [1])[2]) if len(sys.argv) > 2 else 1]:
    print("\n".join(v['script'])); print("--", v['position']); print(*[x[:1500] for x in v['trace'][max(0,v['position'] - 3):v['position'] + 1]], sep="\n"); print(v['tlc'][-700:])
