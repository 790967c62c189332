#!/opt/veriftools/pyvenv/bin/python
"""
Usage:
    check.py <property id> [quick|thorough]    decides the property
    check.py --replay <file>   replays a counterexample on the real code
    check.py --evaluate        evaluates a job from standard input
"""
import json
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PACKAGES = '/opt/venv/lib/python3.12/site-packages'
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, ROOT]
sys.path.append(PACKAGES)


def main(argv):
    from geomsym import laws, runner
    if argv == ['--evaluate']:
        job, values = runner.decode_job(json.load(sys.stdin))
        outcome = runner.evaluate_concretely(job, values, laws.Caller())
        json.dump(outcome, sys.stdout)
        return 0
    if argv[0] == '--replay':
        with open(argv[1]) as file:
            data = json.load(file)
        job, values = runner.decode_job(data)
        print(json.dumps(data['readable'], indent=1))
        found = runner.confirm(job, values, False)
        for item in found or ():
            print(' ', item)
        print('reproduced' if found else 'not reproduced')
        return 1 if found else 0
    from geomsym import specs
    property_id, *rest = argv
    tier = rest[0] if rest else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return specs.run(property_id, tier, seed)


if __name__ == '__main__':
    try:
        code = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
