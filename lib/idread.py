"""C36: what identifiers say, and how numbers and times are written."""
import json, random, re, time
from common import *
from drive import drive
import build as B, trace as T, ids

def cfg(name, inv, **c):
    d = dict(BREAK='""', EMIT='FALSE')
    d.update(c)
    p = '%s/idform_%s.cfg' % (scratch(), name)
    with open(p, 'w') as f:
        f.write('SPECIFICATION Spec\nCONSTANTS\n%s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % ('\n'.join('  %s = %s' % kv for kv in d.items()), inv))
    return p

def model(res):
    r = model_check('IdFormMC', cfg('mc', 'RoundTrip InOrder Lossless Digits'), timeout=600)
    res.add_mc('IdFormMC', r)
    n = tlc('IdFormMC', cfg('neg', 'RoundTrip', BREAK='"narrow"'))
    if 'is violated' not in n.out: raise Infra('negative control: ' + n.out[-1500:])
    g = tlc('IdFormMC', cfg('gen', 'Emit', EMIT='TRUE'), timeout=600)
    out = sorted({tuple(int(x) for x in m.split(',')) for m in re.findall(r'^"ID <<(.*)>>"$', g.out, re.M)})
    if not g.complete and 'is violated' not in g.out or not out: raise Infra('stimulus generation: ' + g.out[-1500:])
    return out

def be(x, w): return list(int(x).to_bytes(w, 'big'))
NUM = [0, 1, 9, 10, 99, 100, 255, 256, 999, 65535, 65536, 99999, 100000, 999999, 1000000, 10 ** 9 - 1, 10 ** 9, 1231235959, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]
NUM64 = NUM + [2 ** 32, 10 ** 10, 10 ** 12, 2 ** 53, 2 ** 63 - 1, 10 ** 18, 0x0123456789abcdef]

def moment(rnd, lo=18300):
    """A day since 1970 and a millisecond of it; often just before something turns over."""
    day = rnd.choice([lo, 18320, 18627, 18686, 19782, 19783, 20454, 20819, 22000, rnd.randrange(lo, 24800)])
    ms = rnd.choice([0, 1, 999, 1000, 43199999, 43200000, 43200999, 43201000, 43201001, 50400000, 57600000, 86399000, 86399999, rnd.randrange(86400000), rnd.randrange(86400000)])
    return day, ms

def later(rnd, day, ms, kind):
    unit = 1 if kind == 'sf64' else 1000
    d = rnd.choice([0, 0, unit, unit, -unit, 2 * unit, -3600000, 3600000, -60000, 43199000, 43200000, 43201000, 46800000, 57600000, 82800000, 86399000, 86400000, 86401000, rnd.randrange(-40000000, 200000000)])
    if kind == 'sf32' and d < -43199000: d = -d
    t = day * 86400000 + ms + d
    return t // 86400000, t % 86400000

def cases(tier, rnd, res):
    big = tier == 'thorough'
    out = []
    ids_ = model(res)
    res.extra['model_identifiers'] = len(ids_)
    rnd.shuffle(ids_)
    for k in range(0, len(ids_), 100):
        out.append(dict(kind='', fam='identifiers of the specification', ops=[dict(e='parse', x=list(x)) for x in ids_[k:k + 100]]))
    for _ in range(200 if big else 20):
        xs = []
        for _ in range(50):
            w = rnd.choice([4, 8])
            x = rnd.choice(NUM64) if rnd.random() < .2 else rnd.getrandbits(rnd.choice([8, 17, 31, 41, 63]))
            xs.append(dict(e='parse', x=be(x % (1 << (8 * w - 1)), w)))
        out.append(dict(kind='', fam='any identifier', ops=xs))
    for kind, n, dcs, wks in (('sf64', 4096, 8, 128), ('sf32', 512, 4, 8)):
        for _ in range(1500 if big else 150):
            dc = rnd.choice([0, dcs - 1, rnd.randrange(dcs)]); wk = rnd.choice([0, wks - 1, rnd.randrange(wks)])
            day, ms = moment(rnd, 18300)
            ops = []
            for _ in range(rnd.randrange(1, 7)):
                ops.append(dict(e='draw', day=day, ms=ms, n=rnd.choice([1, 1, 2, 3, 5, 30, n - 1, n, n + 1, n + 3])))
                day, ms = later(rnd, day, ms, kind)
            out.append(dict(kind=kind, dc=dc, wk=wk, fam='draws ' + kind, ops=ops))
    for _ in range(300 if big else 60):
        ops = []
        for _ in range(20):
            day, ms = moment(rnd)
            ops.append(dict(e=rnd.choice(['sgip', 'sgip', 'now', 'fmt']), day=day, ms=ms))
        out.append(dict(kind='', fam='times', ops=ops))
    for _ in range(400 if big else 60):
        ops = []
        for _ in range(40):
            e = rnd.choice(['words', 'hex', 'hex', 'ten', 'fix', 'bcd', 'unbcd'])
            n32 = lambda: rnd.choice(NUM) if rnd.random() < .5 else rnd.getrandbits(rnd.choice([4, 12, 20, 31, 32]))
            n64 = lambda: rnd.choice(NUM64) if rnd.random() < .5 else rnd.getrandbits(rnd.choice([8, 32, 47, 63]))
            if e == 'words': ops.append(dict(e=e, w=[be(n32(), 4) for _ in range(3)]))
            elif e == 'hex': ops.append(dict(e=e, x=be(n32(), 4) if rnd.random() < .5 else be(rnd.choice([n64(), 2 ** 64 - 1, 1 << 63, rnd.getrandbits(64)]), 8)))
            elif e == 'ten': ops.append(dict(e=e, x=be(n32(), 4)))
            elif e == 'fix': ops.append(dict(e=e, x=be(n64(), 8), n=rnd.choice([1, 2, 3, 6, 6, 6, 8, 10, 18, 19, 20])))
            elif e == 'bcd': ops.append(dict(e=e, s=''.join(rnd.choice('0123456789') if rnd.random() < .8 else '0' for _ in range(2 * rnd.choice([0, 1, 2, 3, 4, 10, 25])))))
            else: ops.append(dict(e=e, x=[16 * rnd.choice([0, 9, rnd.randrange(10)]) + rnd.choice([0, 9, rnd.randrange(10)]) for _ in range(rnd.choice([0, 1, 3, 10]))]))
        out.append(dict(kind='', fam='numbers and texts', ops=ops))
    for k, c in enumerate(out):
        c['tid'] = k; c.setdefault('dc', 0); c.setdefault('wk', 0)
    return out

def run(prop, tier, res):
    rnd = random.Random('%s-%d' % (prop, SEED))
    cs = cases(tier, rnd, res)
    binary = B.build(scratch(), 'idread', overlay=ids.overlay())
    t = time.time()
    got = {}
    for k, node in enumerate((3037196688, 1, 4294967295, 12345)):
        got.update(drive(binary, cs[k::4], '%s/idread%d' % (scratch(), k), lambda why: [{'e': 'crash', 'why': why}], env=dict(VERIF_NODE=str(node))))
    tdrive = time.time() - t
    order = [c for c in cs if got.get(c['tid'])]
    lines = [{'ev': got[c['tid']]} for c in order]
    bad, r = T.judge('IdFormTrace', lines, timeout=800)
    res.traces += len(lines); res.states += r.distinct; res.transitions += r.generated
    res.extra['events_judged'] = sum(len(l['ev']) for l in lines)
    res.extra['scenario_families'] = {f: sum(1 for c in order if c['fam'] == f) for f in sorted({c['fam'] for c in order})}
    res.extra['drive_s'], res.extra['judge_s'] = round(tdrive, 1), round(r.wall, 1)
    res.samples += [{'case': json.dumps(order[j])[:600], 'recorded': json.dumps(lines[j]['ev'])[:800]} for j in (0, len(order) // 2, len(order) - 1)]
    res.assumptions += ['package time is replaced by a controlled clock in the packages that draw identifiers; the time zone is UTC',
                        'moments are between 2020 and 2037; 32-bit snowflakes see clocks set back by less than half a day']
    for k in bad[:3]:
        at, why = T.explain('IdFormTrace', lines[k])
        e = lines[k]['ev'][at - 1] if at else {}
        p = write_replay(prop, {'property': prop, 'case': order[k], 'rejected_at': at, 'event': e, 'spec_state_before': why}, '%d-%d' % (SEED, order[k]['tid']))
        res.violation('%s: what the real code says (%s) is not what IdForm.tla says: event %d %s; last time %s' % (prop, order[k]['fam'], at, json.dumps(e)[:500], why[:200]), p)
    res.extra['rejected'] = len(bad)
