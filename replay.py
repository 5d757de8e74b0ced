#!/usr/bin/env python3
"""replay.py FILE : executes the recorded scenario in a fresh process; exit 1 and the violation if it reproduces."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: re-exec under the right interpreter


def main():
    from sim import core, seams
    rec = json.load(open(sys.argv[1]))
    seams.install()
    mod = importlib.import_module('sim.props.' + rec['property'].lower())
    if hasattr(mod, 'prepare'):
        mod.prepare()
    r = core.run_scenario(mod, rec['scenario'])
    if r['status'] == 'violation':
        print('%s: %s' % (r['kind'], r['detail']))
        print('steps %d faults %s' % (r['steps'], json.dumps(r['counts'], sort_keys=True)))
        print('same kind as recorded: %s' % (r['kind'] == rec['kind']))
        print('VIOLATION property=%s replay=%s' % (rec['property'], os.path.abspath(sys.argv[1])))
        return 1
    print(r['status'], r.get('error', ''), r.get('trace', ''))
    return 0 if r['status'] == 'ok' else 2


if __name__ == '__main__':
    if len(sys.argv) != 2:
        sys.exit('usage: replay.py FILE')
    check.__file__ = os.path.abspath(__file__)
    check.reexec()
    sys.exit(main())
