"""One interpreter of a C15 run: executes programs (JSON on standard input) and reports the digests of what they produced."""
import hashlib
import json
import locale
import os
import random
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import sim      # noqa: E402
sim.install()
import api      # noqa: E402
import props    # noqa: E402


def main():
    job = json.loads(sys.stdin.read())
    out = []
    if job.get('rs') is not None:
        random.seed(job['rs'])
    if job.get('setlocale'):        # as an application does that follows the user's conventions
        try:
            locale.setlocale(locale.LC_ALL, '')
        except locale.Error:
            pass
    for k, scn in enumerate(job['programs']):
        s = dict(scn)
        s['env'] = dict(scn['env'], **job['env'])
        res = []
        R = props.Run(s)
        R.ses.cwd = job.get('dir', 'run')
        with R:
            for r in api.execute(R.w, R.lib, scn['ops'], R.env):
                v = None
                if r.op['o'] == 'write' and r.st == 'ok':
                    with sim.real_open(os.path.join(R.w.root, r.op['file']), 'rb') as f:
                        b = f.read()
                    v = [hashlib.sha256(b).hexdigest(), len(b)]
                    if job.get('show') == [k, r.i]:
                        v.append(b.decode('utf-8', 'replace'))
                elif r.out and r.st == 'ok':
                    v = hashlib.sha256(repr(r.out).encode('utf-8', 'surrogatepass')).hexdigest()
                res.append([r.st, r.exc[0] if r.exc else None, v])
        out.append(res)
    sys.__stdout__.write(json.dumps(out))


main()
