"""python -m vf.worker TASK: generates and discharges the obligations of one task, prints JSON"""
import importlib
import json
import sys
from . import contracts, task


def load():
    for m in contracts.ALL:
        importlib.import_module('vf.contracts.' + m)


def main():
    load()
    sys.setrecursionlimit(20000)
    t = task.TASKS[sys.argv[1]]
    limit = float(sys.argv[2]) if len(sys.argv) > 2 else 600
    factor = float(sys.argv[3]) if len(sys.argv) > 3 else 1
    r = task.run_task(t, budget=t.opts.get('budget', 10) * factor, tlimit=limit)
    print('RESULT ' + json.dumps(r, default=str))


if __name__ == '__main__':
    main()
