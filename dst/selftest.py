"""Setup: the interpreter starts the simulator, every property has a program, and one seed is one execution, in any process."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check    # noqa: E402
import ruleset  # noqa: E402


def main():
    import subprocess
    full = '--full' in sys.argv
    bad = 0
    for pid in sorted(ruleset.RULES):
        n = 40 if full else 3
        if pid == 'C15':
            n = 1
        runs = []
        jobs = []
        for hashseed, args in ((('0'), (pid, '7', '0', '1')), ('77', (pid, '7', '0', '1'))):
            env = dict(check.ENV, PYTHONHASHSEED=hashseed)
            jobs.append(subprocess.Popen(check.python() + [os.path.join(check.HERE, 'worker.py'), 'run'] + list(args) + [str(n), '200'],
                                         stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, env=env, cwd=check.VERIF))
        for p in jobs:
            out = p.communicate()[0].decode('utf-8', 'replace')
            ev = [json.loads(l) for l in out.splitlines() if l.startswith('{')]
            e = [x for x in ev if x['e'] == 'end']
            runs.append(None if not e else (e[0]['n'], e[0]['steps'], e[0]['sigs'], e[0]['traces'], e[0]['plans'], e[0]['counts'], e[0]['mism']))
        same = runs[0] is not None and runs[0] == runs[1] and runs[0][6] == 0
        print('%s %d runs, twice in fresh processes: %s' % (pid, n, 'identical' if same else 'DIFFERENT'))
        bad += runs[0] is None
        if full:
            bad += not same
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
