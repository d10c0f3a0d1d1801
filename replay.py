#!/opt/venv/bin/python
"""replay.py FILE: runs the failing input of a replay file again on /repo"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))


def main():
    d = json.load(open(sys.argv[1]))
    if d['kind'] != 'input':
        print(json.dumps(d, indent=1))
        print('no failing input: the obligations above were not discharged')
        return 1
    from pyvc import run
    cs = run.load_contracts(d['property'])
    for c in cs:
        for name, p in c.instances():
            if name == d['instance']:
                st, det, log = run.conc_trial(c, p, d['native']['seed'], d['native']['hints'])
                print(name, st, det)
                print(json.dumps(log, default=str)[:4000])
                return 1 if st == 'fail' else 0
    print('no such contract instance')
    return 2


if __name__ == '__main__':
    sys.exit(main())
