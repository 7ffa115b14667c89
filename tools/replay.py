#!/usr/bin/env python3
"""replay.py "case ...": runs one recorded case against /repo's current source"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import witness, common, json
if sys.argv[1].startswith('py '):
    rc, o, e = common.run(['python3', os.path.join(common.VERIF, 'tools', 'pysuite.py'), common.REPO, '1', '1', sys.argv[1][3:]])
    print(o or e); sys.exit(0 if o.strip() == 'null' else 1)
if sys.argv[1].startswith('cli '):
    import plan
    b, e = plan.cli_binary()
    rc, o, e = common.run(['python3', os.path.join(common.VERIF, 'tools', 'clisuite.py'), b, '1', '1', sys.argv[1][4:]])
    print(o or e); sys.exit(0 if o.strip() == 'null' else 1)
b, f, e = witness.binary()
r = witness.case(b, sys.argv[1]) if b else 'does not build: ' + e[-1000:]
print(r or 'OK'); sys.exit(1 if r else 0)
