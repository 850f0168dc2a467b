"""C25: the registry of named events."""
import json, random, re, time
from common import *
from drive import drive_parallel
import build as B, trace as T, ids

HOOKS = 'graceful_shutdown_hooker_'

def cfg(name, inv, **c):
    d = dict(PROCS='{1, 2}', KEYS='{"a", "b"}', CALLS='4', BREAK='""', HIST='0')
    d.update(c)
    p = '%s/ev_%s.cfg' % (scratch(), name)
    with open(p, 'w') as f:
        f.write('SPECIFICATION Spec\nCONSTANTS\n%s\n%s\nCHECK_DEADLOCK FALSE\n' % ('\n'.join('  %s = %s' % kv for kv in d.items()), inv))
    return p

def model(tier, res):
    big = tier == 'thorough'
    r = model_check('EventsMC', cfg('mc', 'INVARIANTS One Known', CALLS='5' if big else '4', PROCS='{1, 2, 3}' if big else '{1, 2}', KEYS='{"a"}' if big else '{"a", "b"}'), timeout=1200)
    res.add_mc('EventsMC', r)
    for b in ('race', 'stale'):
        n = tlc('EventsMC', cfg('neg' + b, 'INVARIANTS One Known', BREAK='"%s"' % b))
        if 'is violated' not in n.out: raise Infra('negative control %s: %s' % (b, n.out[-1500:]))
    g = tlc('EventsMC', cfg('gen', 'INVARIANT Emit', PROCS='{1}', CALLS='4' if big else '3', HIST='1'), timeout=600)
    if not g.complete: raise Infra('stimulus generation: ' + g.out[-2000:])
    return sorted(set(re.findall(r'^"OPS <<(.*)>>"$', g.out, re.M)))

def call(op, p='p_', k='', h=(), a=(), via=''): return {'op': op, 'p': p, 'k': k, 'h': list(h), 'a': list(a), 'via': via}

def rand_call(rnd, n, keys, prefixes, ops):
    op = rnd.choice(ops)
    p = rnd.choice(prefixes)
    k = rnd.choice(keys)
    if op in ('register', 'get', 'call', 'delete') and rnd.random() < .2: k = p + k
    h = ['h%d' % n] if rnd.random() < .7 else ['h%d%s' % (n, x) for x in 'xyz'[:rnd.choice([0, 2, 3])]]
    if op == 'register': return call(op, p, k, h, via='hook' if p == HOOKS and rnd.random() < .5 else '')
    if op == 'hookchan': return call(op, HOOKS, k, h if rnd.random() < .5 else [])
    if op == 'call': return call(op, p, k, a=['a%d%s' % (n, x) for x in 'xyz'[:rnd.choice([0, 1, 1, 2, 3])]], via=rnd.choice(['', '', 'get']))
    if op == 'fuzzy': return call(op, p, via='shutdown' if p == HOOKS and rnd.random() < .5 else '')
    if op == 'poll': return call('poll')
    return call(op, p, k)

def cases(tier, rnd, res):
    big = tier == 'thorough'
    out = []
    hs = model(tier, res)
    res.extra['model_behaviours'] = len(hs)
    for m in hs:
        cs = []
        for n, x in enumerate(re.findall(r'(\w+):(\w*)', m)):
            cs.append(call(x[0], 'p_', x[1], ['h%d' % (n + 1)] if x[0] == 'register' else [], ['a%d' % (n + 1)] if x[0] == 'call' else []))
        out.append(dict(threads=[cs], do={}, fam='behaviours of the specification'))
    seq = ['register'] * 4 + ['get', 'call', 'call', 'delete', 'fuzzy', 'fuzzy']
    for _ in range(2000 if big else 250):
        pf = rnd.choice([['p_'], ['p_', 'p_q'], ['p_', 'p_q', ''], ['p_', 'xp_'], ['p_', 'P_'], [HOOKS, 'p_'], [HOOKS], [HOOKS, 'graceful'], [HOOKS, 'my_' + HOOKS]])
        ops = seq + (['hookchan', 'hookchan', 'poll'] if HOOKS in pf else [])
        keys = rnd.choice([['a'], ['a', 'b'], ['a', 'b', 'qa', 'p_'], ['', 'a'], ['a', 'xp_a', 'a' + pf[0]], ['x' + pf[-1] + 'a', 'a'], ['A', 'a', ' a', 'a ', 'a\x00'], ['p', 'p_p_', 'p_p_a', 'a']])
        long = 'a' * rnd.choice([30, 200])
        if rnd.random() < .25: keys = ['a', 'xp_a'] if rnd.random() < .7 else [long, long + 'b', 'a', long[:-1] + 'c']; pf = ['p_', 'xp_', ''] if 'xp_a' in keys else pf
        out.append(dict(threads=[[rand_call(rnd, n, keys, pf, ops) for n in range(rnd.randrange(4, 14))]], do={}, fam='long sequences'))
    for _ in range(800 if big else 120):
        pf, keys = ['p_'], ['a', 'b', 'c']
        cs = [call('register', 'p_', k, ['h' + k] + (['g' + k] if rnd.random() < .3 else [])) for k in keys[:rnd.randrange(1, 4)]]
        do = {'h' + k: [rand_call(rnd, 50 + j, keys, pf, ['register', 'delete', 'call', 'get', 'fuzzy']) for j in range(rnd.randrange(1, 3))] for k in keys if rnd.random() < .6}
        cs += [rand_call(rnd, n, keys, pf, ['fuzzy', 'call', 'register', 'fuzzy']) for n in range(rnd.randrange(1, 4))]
        out.append(dict(threads=[cs], do=do, fam='handlers that use the registry'))
    for _ in range(300 if big else 60):
        m = rnd.choice([0, 1, 2])
        if m == 0:      # who is first
            th = [[call('register', 'p_', 'a', ['h%d' % t])] + rnd.choice([[], [call('call', 'p_', 'a', a=['a%d' % t])], [call('get', 'p_', 'a')]]) for t in range(rnd.choice([2, 3, 4]))]
        else:
            pf = rnd.choice([['p_'], ['p_', 'p_q']])
            keys = rnd.choice([['a'], ['a', 'b'], ['a', 'qa']])
            ops = ['register', 'register', 'delete', 'call', 'fuzzy', 'get'] if m == 1 else ['register', 'delete', 'fuzzy']
            th = [[rand_call(rnd, 10 * t + n, keys, pf, ops) for n in range(rnd.randrange(1, 4 if len(keys) == 1 else 3))] for t in range(rnd.choice([2, 2, 3]))]
        out.append(dict(threads=th, do={}, rounds=6000 if big else 1500, jitter=rnd.choice([0, 5, 30]), fam='concurrent'))
    for k, c in enumerate(out):
        c['tid'] = k
        c.setdefault('rounds', 1); c.setdefault('jitter', 0)
    return out

def run(prop, tier, res):
    rnd = random.Random('%s-%d' % (prop, SEED))
    cs = cases(tier, rnd, res)
    binary = B.build(scratch(), 'events', overlay=ids.overlay('sync', 'vsync', ('event_manager',), 'ovsync'))
    t = time.time()
    got = drive_parallel(binary, cs, 'ev', lambda why: [[{'t': 'crash', 'why': why}]], timeout=600)
    tdrive = time.time() - t
    lines, src, seen = [], [], set()
    for c in cs:
        for ev in got[c['tid']] or []:
            if len(lines) >= (60000 if tier == 'thorough' else 6000): break
            k = json.dumps(ev)
            if k in seen: continue
            seen.add(k)
            lines.append({'ev': ev}); src.append(c)
    bad, r = T.judge('EventsTrace', lines, timeout=1200)
    res.traces += len(lines); res.states += r.distinct; res.transitions += r.generated
    res.extra['histories_by_family'] = {f: sum(1 for c in src if c['fam'] == f) for f in sorted({c['fam'] for c in cs})}
    res.extra['rounds_run'] = sum(c['rounds'] for c in cs)
    res.extra['drive_s'], res.extra['judge_s'] = round(tdrive, 1), round(r.wall, 1)
    res.samples += [json.dumps(lines[j])[:3000] for j in (0, len(lines) // 2, len(lines) - 1)]
    res.assumptions += ['real interleavings are sampled: those the Go scheduler produced on 8 cores, widened by pauses around the operations of package sync']
    for k in bad[:3]:
        at, why = T.explain('EventsTrace', lines[k])
        p = write_replay(prop, {'property': prop, 'case': src[k], 'history': lines[k]['ev'], 'stops_before_event': at, 'registry': why}, '%d-%d' % (SEED, src[k]['tid']))
        res.violation('%s: a history of the real registry (%s) is not one of Events.tla: event %d %s; registry then: %s' % (
            prop, src[k]['fam'], at, json.dumps(lines[k]['ev'][at - 1] if at else {})[:300], why[:300]), p)
    res.extra['rejected'] = len(bad)
