#!/opt/venv/bin/python
"""run.py ID [quick|thorough] | run.py ID --replay FILE"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    pid = sys.argv[1]
    mod = importlib.import_module('checks.' + pid.lower())
    if len(sys.argv) > 2 and sys.argv[2] == '--replay-raw':
        sys.path.insert(0, os.environ['VP_TREE'])
        with open(sys.argv[3]) as f:
            cases = json.load(f)
        out = [list(mod.replay(c)) for c in cases]
        with open(sys.argv[4], 'w') as f:
            json.dump([[bool(a), str(b)] for a, b in out], f)
        return 0
    if len(sys.argv) > 2 and sys.argv[2] == '--replay':
        from vp import harness
        with open(sys.argv[3]) as f:
            case = json.load(f)['case']
        sc = harness.Scratch(getattr(mod, 'BUILD', False), getattr(mod, 'edit_scratch', None))
        try:
            rr, log, rc = harness.replay_cases(pid, [case], sc.ready())
        finally:
            sc.close()
        print(rr, log)
        return 1 if rr and rr[0][0] else 0
    from vp import harness
    tier = sys.argv[2] if len(sys.argv) > 2 else None
    return harness.main(pid, mod, tier)


if __name__ == '__main__':
    sys.exit(main())
