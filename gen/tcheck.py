#!/usr/bin/env python3
"""tcheck.py run ID TIER | tcheck.py eval ID CASE"""
import importlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common


def main():
    cmd, id = sys.argv[1:3]
    m = importlib.import_module(id.lower())
    if cmd == 'run':
        r = common.Run(id, sys.argv[3])
        m.run(r, sys.argv[3] == 'thorough')
        return r.finish()
    case = json.loads(sys.argv[3])
    m.L = common.load()
    getattr(m, 'prepare', lambda c: None)(case)
    nt, bad = common.run_case(m.evaluate, case)
    print('holds' if bad is None else 'broken: ' + bad)
    return 0 if bad is None else 1


sys.exit(main())
