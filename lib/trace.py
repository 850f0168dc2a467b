"""Judging recorded traces with a TLA+ trace specification."""
import json, re
from common import *

def outside(r):
    """The trace on which TLC could not evaluate the specification: what the code did is outside its domain.  (Never so on
    code that behaves: every operator is defined on everything it admits.)"""
    if not re.search(r'Attempted to|In evaluation|argument of|was not in the domain|Evaluating|non-enumerable|The error occurred when TLC was evaluating', r.out) \
            or re.search(r'OutOfMemory|StackOverflow|Parsing or semantic|Unknown operator', r.out):
        return None
    m = re.findall(r'\btid = (\d+)', r.out)
    return int(m[-1]) if m else None

def judge(module, lines, timeout=700, workers=8, mem='10g'):
    """lines: list of trace dicts.  Returns (set of rejected indices, TLC result)."""
    path = scratch() + '/traces.%s.ndjson' % module
    with open(path, 'w') as f:
        for l in lines:
            f.write(json.dumps(l, ensure_ascii=True) + '\n')
    r = tlc(module, module + '.cfg', env={'VERIF_TRACE': path}, timeout=timeout, workers=workers, mem=mem)
    if not r.complete:
        k = outside(r)
        if k is None or k > len(lines):
            raise Infra('TLC failed on %s:\n%s' % (module, r.out[-4000:]))
        return [k - 1], r
    done = set(int(x) for x in re.findall(r'<<"DONE", (\d+)>>', r.out))
    return [k for k in range(len(lines)) if k + 1 not in done], r

def explain(module, line):
    """Where the specification stops following one rejected trace."""
    path = scratch() + '/one.%s.ndjson' % module
    with open(path, 'w') as f:
        f.write(json.dumps(line) + '\n')
    r = tlc(module, module + '.cfg', env={'VERIF_TRACE': path, 'VERIF_PROGRESS': '1'}, timeout=300)
    if not r.complete:
        if outside(r) is None:
            raise Infra('TLC failed on %s:\n%s' % (module, r.out[-4000:]))
        m = re.search(r'(?s)(?:Reason:|Error:)\s*(Attempted.{0,500}?|In evaluation.{0,500}?|The (?:first|second) argument.{0,500}?)\n', r.out)
        return 0, 'what was recorded is not even of the shape the specification speaks about: ' + (m.group(1) if m else '')
    if '<<"DONE", 1>>' in r.out:
        raise Infra('a rejected trace was accepted when judged alone')
    best, state = 0, ''
    for m in re.finditer(r'^"AT (\d+) (.*)"$', r.out, re.M):
        if int(m.group(1)) >= best:
            best, state = int(m.group(1)), m.group(2)
    return best, state.strip()[:6000]
