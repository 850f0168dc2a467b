"""Runs a driver binary over a list of cases; a process that ends or hangs in a case is that case's result."""
import json, os, random, re, subprocess
from concurrent.futures import ThreadPoolExecutor
from common import *

def drive(binary, cases, cwd, crash, key='out', timeout=None, env=None, args=()):
    """-> {tid: recorded}.  crash(text) is the record of a case in which the process ended or gave no answer; cases which
    could not be run after three of those have the record None."""
    got, left, crashes = {}, list(cases), 0
    while left:
        d = cwd
        os.makedirs(d, exist_ok=True)
        fin, fout = '%s/in%d.ndjson' % (d, crashes), '%s/out%d.ndjson' % (d, crashes)
        with open(fin, 'w') as f: f.write(''.join(json.dumps(c) + '\n' for c in left))
        try:
            p = subprocess.run([binary, '-test.run', 'TestDrive', '-test.timeout', '0'] + list(args), cwd=d, capture_output=True, text=True, errors='replace',
                               timeout=timeout or 60 + len(left) * .2,
                               env=dict(os.environ, VERIF_IN=fin, VERIF_OUT=fout, TZ='UTC', GOMEMLIMIT='2GiB', **(env or {})))
            rc, err = p.returncode, (p.stdout[-1500:] + p.stderr)
        except subprocess.TimeoutExpired as e:
            rc, err = -1, 'no answer within the time limit'
        for l in open(fout) if os.path.exists(fout) else ():
            try: x = json.loads(l)
            except ValueError: break
            got[x['tid']] = x[key]
        left = [c for c in left if c['tid'] not in got]
        if not rc and left: rc, err = -1, 'ended early: ' + err[-500:]
        if not rc: break
        if not left or not os.path.exists(fout):      # not even begun
            raise Infra('driver failed: ' + err[-3000:])
        m = re.search(r'(?s)(panic:|fatal error:).*', err)
        got[left[0]['tid']] = crash(m.group(0)[:2000] if m else err[-1500:])
        left = left[1:]
        crashes += 1
        if crashes == 3 or 'stuck' in err or 'no answer' in err:
            for c in left: got[c['tid']] = None
            break
    return got

def drive_parallel(binary, cases, name, crash, n=8, **kw):
    with ThreadPoolExecutor(n) as ex:
        outs = list(ex.map(lambda k: drive(binary, cases[k::n], '%s/%s%d' % (scratch(), name, k), crash, **kw), range(n)))
    got = {}
    for x in outs: got.update(x)
    return got
