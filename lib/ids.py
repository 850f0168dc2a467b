"""C20-C24: the identifier generators."""
import json, os, random, re, shutil, subprocess, time
from common import *
import build as B, trace as T, drive as D

KIND = {'C20': 'sf64', 'C21': 'cyc', 'C22': 'bcd', 'C23': 'sgip', 'C24': 'sf32'}
UNIT = {'sf64': 1, 'sf32': 1000, 'bcd': 60000, 'sgip': 1000, 'cyc': 1000}     # milliseconds
HALF = {'sf64': 2048, 'sf32': 256, 'bcd': 3000, 'sgip': 2000, 'cyc': 3000}
DC = {'sf64': (8, 128), 'sf32': (4, 8), 'cyc': (4, 8), 'bcd': (1, 1), 'sgip': (1, 1)}

# ---- model checking of the algorithms, and stimuli from the model
def algo_cfg(name, rest, **c):
    d = dict(KIND='"flake"', CAP='2', PROCS='{1, 2}', DRAWS='5', CLOCK='3', BACK='TRUE', SAFE='TRUE', LOCKED='TRUE', HIST='0')
    d.update(c)
    p = '%s/ids_%s.cfg' % (scratch(), name)
    with open(p, 'w') as f:
        f.write('SPECIFICATION Spec\nCONSTANTS\n%s\n%s\nCHECK_DEADLOCK FALSE\n' % ('\n'.join('  %s = %s' % kv for kv in d.items()), rest))
    return p

MODEL = {
    'sf64': dict(KIND='"flake"'), 'sf32': dict(KIND='"flake"'),
    'bcd': dict(KIND='"bcd"', CAP='5', BACK='FALSE'),
    'sgip': dict(KIND='"ctr"', CAP='6', CLOCK='2', DRAWS='4'), 'cyc': dict(KIND='"cyc"', CAP='3', CLOCK='1', BACK='FALSE', DRAWS='7'),
}
def check_model(kind, tier, res):
    c = MODEL[kind]
    if tier == 'thorough':
        c = dict(c, PROCS='{1, 2, 3}', DRAWS='6' if kind != 'cyc' else '8', CLOCK='4' if kind != 'cyc' else '1')
        if kind == 'bcd': c['CAP'] = '6'
        if kind == 'sgip': c = dict(c, CLOCK='2', DRAWS='5')
    r = model_check('IdsAlgo', algo_cfg('mc', 'INVARIANTS Unique Order', **c), timeout=1200)
    res.add_mc('IdsAlgo ' + kind, r)
    # negative controls: without its protections the algorithm must break the promises
    for name, off in (('clock', 'SAFE'), ('mutex', 'LOCKED')):
        if off == 'SAFE' and c['KIND'] != '"flake"': continue
        x = tlc('IdsAlgo', algo_cfg('neg' + name, 'INVARIANTS Unique Order', **dict(MODEL[kind], **{off: 'FALSE'})))
        if 'is violated' not in x.out: raise Infra('negative control %s not violated: %s' % (name, x.out[-1500:]))

def stimuli(kind, length):
    c = dict(MODEL[kind], PROCS='{1}', DRAWS='99', CLOCK='99', CAP='2', HIST=str(length))
    r = tlc('IdsAlgo', algo_cfg('gen', 'INVARIANT Emit', **c), timeout=300)
    if not r.complete: raise Infra('stimulus generation: ' + r.out[-2000:])
    return sorted({m for m in re.findall(r'^<<("draw".*|"fwd".*|"back.*)>>$', r.out, re.M)}), r

# ---- scripts
def clock_step(kind, rnd, back=True):
    u = UNIT[kind]
    if kind == 'bcd':
        return rnd.choice([u, u, 3 * u, 60 * u, 1000 * u])
    x = rnd.choice([u, u, 2 * u, 3 * u, 50 * u, 300 * u]) + rnd.choice([0, 0, 1])
    if kind == 'sf64' and rnd.random() < .2: x = rnd.choice([3600000, 86400000])
    return -x if back and rnd.random() < .5 else x

def start(kind, rnd):
    if kind == 'sf32':
        return 1773100800000 + rnd.randrange(-3 * 3600, 3 * 3600) * 1000 + rnd.randrange(1000) + 12 * 3600 * 1000 - 8 * 3600 * 1000
    if kind in ('bcd', 'sgip'):
        base = rnd.choice([1772323199000, 1798732799000, 1709135999000, 1767196740000, 1773100800000, 1791000000000, 1800000000000])
        return base + rnd.randrange(120000)
    return rnd.choice([1577808000000, 1577808000001, 1773100800000, 1773100800000, 1900000000000, 3770000000000]) + 2 * 31 * 86400000 + rnd.randrange(100000)

def config(kind, rnd):
    a, b = DC[kind]
    d = {'dc': rnd.choice([0, a - 1, rnd.randrange(a)]), 'w': rnd.choice([0, b - 1, rnd.randrange(b)])}
    if kind == 'bcd':
        d['code'] = rnd.choice(['000000', '999999', '010203', '%06d' % rnd.randrange(1000000), '1%d' % rnd.randrange(100), '908070'])
    return d

def shifts(kind, rnd, readings, n):
    if kind == 'cyc': return []
    back = kind != 'bcd'
    return sorted([rnd.randrange(1, max(2, readings)), clock_step(kind, rnd, back)] for _ in range(n))

def draw(kind, rnd, total):
    p = rnd.choice([1, 1, 2, 4, 8])
    st = {'op': 'par' if p > 1 else 'seq', 'p': p, 'n': max(1, total // p)}
    if rnd.random() < .5: st['shifts'] = shifts(kind, rnd, total, rnd.randrange(1, 3))
    return st

def script(kind, rnd, fam, steps, **kw):
    d = dict({'kind': kind, 'fam': fam, 'start': start(kind, rnd), 'jitter': rnd.choice([0, 1, 3, 17]), 'steps': steps}, **config(kind, rnd))
    d.update(kw)
    return d

def scripts(kind, tier, rnd, res):
    out, H, U = [], HALF[kind], UNIT[kind]
    big = tier == 'thorough'
    # behaviours of the model, one model draw standing for half a unit's capacity
    L = 6 if big else 5
    if kind != 'cyc':
        hs, r = stimuli(kind, L)
        res.extra['model_behaviours'] = len(hs)
        for h in hs:
            st = []
            for x in re.findall(r'"(\w+)"', h):
                if x == 'draw': st.append(draw(kind, rnd, H + rnd.choice([0, 0, 1, -1])))
                else: st.append({'op': 'clk', 'd': {'fwd': U, 'back': -U, 'back2': -2 * U}[x]})
            if any(s['op'] != 'clk' for s in st):
                out.append(script(kind, rnd, 'model', st))
        rnd.shuffle(out)
        out = out[:2500 if big else 300]
    # random walks, with steps of the clock between any two readings
    for _ in range(600 if big else 60):
        st = []
        for _ in range(rnd.randrange(2, 9)):
            k = rnd.random()
            if k < .3 and kind != 'cyc': st.append({'op': 'clk', 'd': clock_step(kind, rnd, kind != 'bcd')})
            elif k < .45: st.append({'op': 'hist', 'p': rnd.randrange(2, 8), 'n': rnd.randrange(2, 7), 'shifts': shifts(kind, rnd, 15, rnd.randrange(3))})
            else: st.append(draw(kind, rnd, rnd.choice([8, 40, 200, H, 2 * H, 2 * H + 5, 3 * H])))
        if any(s['op'] != 'clk' for s in st): out.append(script(kind, rnd, 'walk', st))
    # concurrent calls logged one by one
    for _ in range(300 if big else 40):
        n = rnd.randrange(3, 12)
        pre = [draw(kind, rnd, rnd.choice([2 * H - 3, H, 7]))] if rnd.random() < .5 else []
        out.append(script(kind, rnd, 'history', pre + [{'op': 'hist', 'p': rnd.randrange(2, 9), 'n': n, 'shifts': shifts(kind, rnd, 4 * n, rnd.randrange(4))}]))
    # the clock steps while a caller waits for the next unit
    if kind in ('sf64', 'sf32'):
        for _ in range(150 if big else 20):
            full = 2 * H
            out.append(script(kind, rnd, 'waiting', [
                {'op': 'seq', 'n': full}, {'op': rnd.choice(['seq', 'par']), 'p': rnd.choice([1, 4]), 'n': rnd.choice([1, 3, full]),
                 'shifts': [[rnd.randrange(1, 6), -U * rnd.choice([1, 2, 70])], [rnd.randrange(6, 12), U * rnd.choice([-1, 1, 2])]]},
                {'op': 'seq', 'n': rnd.choice([1, full + 3])}]))
    if kind == 'sf32':   # the day ends: values start over, repeats are still not allowed
        for _ in range(60 if big else 8):
            st = [draw(kind, rnd, rnd.choice([5, 300, 600])) for _ in range(4)]
            for x in st: x['shifts'] = []
            st.insert(2, {'op': 'clk', 'd': 1000})
            out.append(script(kind, rnd, 'midnight', st, start=1773100800000 - 8 * 3600000 + 86400000 - 1500, day=True))
    if kind == 'bcd':    # a million within one minute
        out.append(script(kind, rnd, 'million', [{'op': 'par', 'p': 4, 'n': 10000}, {'op': 'seq', 'n': 960000, 'p': 1}, {'op': 'clk', 'd': 60000}, {'op': 'seq', 'n': 5000, 'p': 1}], jitter=0, start=1773100800000))
    if kind == 'sgip':
        out.append(script(kind, rnd, 'many in a second', [{'op': 'seq', 'n': 400000, 'p': 1}, {'op': 'par', 'p': 8, 'n': 5000}], jitter=0))
    if kind == 'cyc':
        out.append(script(kind, rnd, 'full cycle', [{'op': 'big', 'n': 1 << 26}]))
        for _ in range(6 if big else 1):
            d = rnd.randrange(100, 9000)
            out.append(script(kind, rnd, 'across the wrap', [{'op': 'skip', 'n': (1 << 26) - d}, {'op': 'par', 'p': 8, 'n': 2500}]))
            out.append(script(kind, rnd, 'across the wrap, logged', [{'op': 'skip', 'n': (1 << 26) - 20}, {'op': 'hist', 'p': 8, 'n': 5}]))
    # more than one caller at full speed
    for _ in range(40 if big else 6):
        out.append(script(kind, rnd, 'race', [{'op': 'par', 'p': 8, 'n': 2500, 'shifts': shifts(kind, rnd, 20000, 6 if kind != 'cyc' else 0)}], jitter=rnd.choice([0, 0, 1, 2])))
    return out

# ---- running the real code
def overlay(subst='time', by='vtime', tops=('utils', 'codec'), name='overlay'):
    """Package time replaced by the controlled clock wherever identifiers are drawn.  subst, by: names, or tuples of them."""
    pairs = [(subst, by)] if isinstance(subst, str) else list(zip(subst, by))
    rep = {}
    d = scratch() + '/' + name
    os.makedirs(d, exist_ok=True)
    for top in tops:
        for root, _, fs in os.walk(REPO + '/' + top):
            for f in fs:
                if not f.endswith('.go') or f.endswith('_test.go'): continue
                src = open(root + '/' + f).read()
                new = src
                for a, b in pairs:
                    new = re.sub(r'(?m)^(\s*(?:import\s+)?)(?:(\w+)\s+)?"%s"' % a, lambda m: '%s%s "verif.local/harness/%s"' % (m.group(1), m.group(2) or a, b), new)
                if new != src:
                    p = '%s/%s' % (d, (root + '/' + f).replace('/', '_'))
                    open(p, 'w').write(new)
                    rep[root + '/' + f] = p
    p = '%s/%s.json' % (scratch(), name)
    json.dump({'Replace': rep}, open(p, 'w'))
    return p

def drive(binary, scr, cwd, **env):
    got = D.drive(binary, scr, cwd, lambda why: [{'e': 'crash', 'why': why}], key='ev', timeout=300 + len(scr) * .5, env=env)
    return {k: v for k, v in got.items() if v is not None}

def gen_of(s):
    g = {'kind': s['kind'], 'dc': s['dc'], 'w': s['w'], 'code': int(s.get('code', '0')), 'hi': s.get('node', 0) >> 16, 'lo': s.get('node', 0) & 0xffff,
         'day': s.get('day', False)}
    return g

def snow(cfg):
    """The generator configuration as written in a config.yaml."""
    m = re.search(r'(?ms)^Snowflake:.*?(?=^\S|\Z)', open(cfg).read()).group(0)
    f = lambda pat: re.search(pat, m, re.S).group(1)
    return {'b64': (int(f(r'B64:.*?DC:\s*(\d+)')), int(f(r'B64:.*?Worker:\s*(\d+)'))), 'b32': (int(f(r'B32:.*?DC:\s*(\d+)')), int(f(r'B32:.*?Worker:\s*(\d+)'))),
            'bcd': f(r'BCD:\s*"?(\d+)'), 'sgip': int(f(r'SGIP:\s*(\d+)'))}

def process_scripts(kind, rnd, s):
    """The generators a running process draws from, as its start-up code made them."""
    k = dict(kind=kind, fam='process', jitter=1)
    a, b = s['b64'] if kind == 'sf64' else s['b32']
    out = [script(kind, rnd, 'process', [draw(kind, rnd, 500), {'op': 'hist', 'p': 4, 'n': 6}], dc=a, w=b, code=s['bcd'], node=s['sgip'], start=1773100800000)]
    return out

def run(prop, tier, res):
    kind = KIND[prop]
    check_model(kind, tier, res)
    rnd = random.Random('%s-%d' % (prop, SEED))
    ov = overlay()
    bins = {k: B.build(scratch(), k, overlay=ov) for k in ['ids'] + ([] if kind == 'sf32' else ['idsrv', 'idcli'])}
    scr = scripts(kind, tier, rnd, res)
    jobs = []
    if kind == 'sgip':
        n = 8
        for k in range(n):
            node = rnd.choice([3037196688, 4294967295, 1, rnd.randrange(1 << 32)])
            worker = rnd.choice([0, 31, rnd.randrange(32), 0xffffffff - rnd.randrange(200000), 0xffffffff])
            part = scr[k::n]
            for s in part: s['node'] = node
            jobs.append(('ids', part, 'ids%d' % k, dict(VERIF_NODE=str(node), VERIF_WORKER=str(worker))))
    else:
        n = 4
        jobs = [('ids', scr[k::n], 'ids%d' % k, {}) for k in range(n)]
    if kind != 'sf32':
        for mod, b in (('msc_server', 'idsrv'), ('msc_client', 'idcli')):
            for v in range(3):
                d = '%s/proc%d/%s' % (scratch(), v, mod)
                os.makedirs(d + '/config', exist_ok=True)
                src = open('%s/%s/config/config.yaml' % (REPO, mod)).read()
                if v:
                    new = 'Snowflake:\n  B64:\n    DC: %d\n    Worker: %d\n  B32:\n    DC: %d\n    Worker: %d\n  BCD: "%06d"\n  SGIP: %d\n\n' % (
                        rnd.randrange(1, 8), rnd.randrange(1, 128), rnd.randrange(1, 4), rnd.randrange(1, 8), rnd.randrange(100000, 1000000), rnd.choice([3037196688, 12345, 2 ** 31 + 7]))
                    src = re.sub(r'(?ms)^Snowflake:.*?(?=^\S|\Z)', new, src)
                with open(d + '/config/config.yaml', 'w') as f: f.write(src)
                ps = process_scripts(kind, rnd, snow(d + '/config/config.yaml'))
                scr += ps
                jobs.append((b, ps, 'proc%d/%s' % (v, mod), {}))
    for k, s in enumerate(scr): s['tid'] = k
    t = time.time()
    got = {}
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for g in ex.map(lambda j: drive(bins[j[0]], j[1], scratch() + '/' + j[2], **j[3]), jobs): got.update(g)
    tdrive = time.time() - t
    order = [s for s in scr if s['tid'] in got]
    lines = [{'g': gen_of(s), 'ev': got[s['tid']]} for s in order]
    bad, r = T.judge('IdsTrace', lines)
    res.traces += len(lines); res.states += r.distinct; res.transitions += r.generated
    cnt = lambda e: sum(x['n'] for x in e['runs']) if e['e'] == 'all' else 0
    res.extra['identifiers_judged'] = sum(cnt(e) for l in lines for e in l['ev'])
    res.extra['scenario_families'] = {f: sum(1 for s in order if s['fam'] == f) for f in sorted({s['fam'] for s in order})}
    res.extra['drive_s'], res.extra['judge_s'] = round(tdrive, 1), round(r.wall, 1)
    res.samples += [{'script': {k: v for k, v in order[j].items()}, 'returned': json.dumps(lines[j]['ev'])[:600]} for j in (0, len(order) - 1)]
    res.assumptions += ['package time is replaced by a controlled clock in the packages that draw identifiers; Sleep may oversleep',
                        'real goroutine interleavings are those the Go scheduler produced (8 cores), widened by yields at clock readings']
    for k in bad[:3]:
        at, state = T.explain('IdsTrace', lines[k])
        ev = lines[k]['ev']
        p = write_replay(prop, {'property': prop, 'script': order[k], 'rejected_at': at, 'spec_state_before': state, 'trace': json.loads(json.dumps(lines[k])[:2000000]) if len(json.dumps(lines[k])) < 2000000 else 'large'}, '%d-%d' % (SEED, order[k]['tid']))
        res.violation('%s: the real generator returned what Ids.tla does not allow: %s (%s), event %d: %s' % (prop, order[k]['fam'], kind, at, json.dumps(ev[at - 1])[:400]), p)
    res.extra['rejected'] = len(bad)
