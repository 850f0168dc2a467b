"""C38: what callers of the client send, octet by octet as the gateways got it."""
import datetime, hashlib, json, random, time
from concurrent.futures import ThreadPoolExecutor
from common import *
from drive import drive
import build as B, trace as T, ids, codec as C

HEAD = {'cmpp': '13', 'sgip': '15', 'smgp': '18', '': '17'}
ORDER = ['cmpp', 'sgip', 'smgp']

def one(rnd, fam):
    now = datetime.datetime(2026, rnd.randrange(1, 13), rnd.randrange(1, 29), rnd.randrange(24), rnd.randrange(60), rnd.randrange(60), rnd.choice([0, 0, 999000]))
    if rnd.random() < .3: now = rnd.choice([datetime.datetime(2026, 12, 31, 23, 59, 59), datetime.datetime(2028, 2, 28, 23, 0, 0), datetime.datetime(2026, 1, 1)])
    ops = {}
    for p in ORDER:
        dur = rnd.choice([0, 1000, 3600000, 7200000, 86400000, 172800000, 1500, rnd.randrange(10 ** 9)])
        ops[p] = dict(v=C.version(rnd, p), dur=dur, ac=C.account(rnd, p), seg=r'^(\+?86)?' + HEAD[p], max=rnd.choice([1, 1, 2, 3]))
        while not ops[p]['ac']['ClientId']: ops[p]['ac'] = C.account(rnd, p)
    used = set()
    def phone(p):
        while True:
            x = rnd.choice(['', '86', '+86']) + HEAD[p] + ''.join(rnd.choice('0123456789') for _ in range(9))
            if x not in used: used.add(x); return C.o(x)
    n, steps = 0, []
    only = rnd.choice([None, None] + ORDER)
    def send(many):
        nonlocal n
        n += 1
        ps = [only or rnd.choice(ORDER + ['cmpp', 'smgp', '']) for _ in range(many if many > 3 else rnd.randrange(1, many + 1))]
        kind = rnd.choice([p for p in ps if p] or ['cmpp'])
        s = dict(phones=[phone(p) for p in ps], text=C.some_text(rnd, kind, rnd.choice([None, None, rnd.randrange(1, 30)]) if many <= 3 else rnd.randrange(1, 20)), opts=C.options(rnd), one=len(ps) == 1 and rnd.random() < .7, same=0)
        if rnd.random() < .1: s['text'] = []
        if rnd.random() < .15:        # blanks at the ends
            b = lambda: [{'c': c, 'g': list(chr(c).encode('gb18030'))} for c in rnd.choices([32, 32, 9, 10, 13, 0x3000], k=rnd.randrange(4))]
            s['text'] = b() + s['text'] + b()
        if n > 1 and rnd.random() < .25: s['same'] = rnd.randrange(1, n)
        return s
    for _ in range(rnd.randrange(1, 6)):
        if fam == 'threads': th = [[send(2) for _ in range(rnd.randrange(1, 4))] for _ in range(rnd.choice([2, 4, 8]))]
        elif fam == 'crowd': th = [[send(rnd.choice([30, 70, 150]))]]
        else: th = [[send(3) for _ in range(rnd.randrange(1, 4))]]
        steps.append(dict(ms=rnd.choice([0, 1, 1000, 61000, 3600000, rnd.randrange(10 ** 7)]), th=th))
        if fam == 'crowd': break
    flat = [s for st in steps for l in st['th'] for s in l]
    for s in flat:                    # what an option said once it says again
        if s['same']:
            k = s['same'] - 1
            s['opts'] = flat[k]['opts']
    return dict(now=C.ms(now), ops=ops, steps=steps, fam=fam)

def cases(tier, rnd):
    big = tier == 'thorough'
    out = [one(rnd, f) for f, n in (('sends', 110), ('threads', 30), ('crowd', 6)) for _ in range(n * (10 if big else 1))]
    for k, c in enumerate(out): c['tid'] = k
    return out

def judged(c, out):
    """lines for the trace specification: every step's packets, every connection's first one"""
    lines = []
    for st, o in zip(c['steps'], out):
        now = datetime.datetime(1970, 1, 1) + datetime.timedelta(milliseconds=o['now'])
        ops = {p: dict(v=x['v'], ac=x['ac'], valid=C.o(C.stamp(now + datetime.timedelta(milliseconds=x['dur'])))) for p, x in c['ops'].items()}
        isp = {h: p for p, h in HEAD.items()}
        which = lambda ph: isp[bytes(ph).decode()[-11:][:2]]
        sends = [dict(p=which(ph), phone=ph, text=s['text'], opts=[{k: v for k, v in e.items() if k != 't'} for e in s['opts']]) for l in st['th'] for s in l for ph in s['phones'] if which(ph)]
        lines.append(dict(k='sent', ops=ops, sends=sends, out=dict(panic=False, pk=[dict(p=x['p'], b=x['b'], w=x['w']) for x in o['pk'] or [] if not x['l']])))
        for x in o['pk'] or []:
            if not x['l']: continue
            a, v, p = c['ops'][x['p']]['ac'], c['ops'][x['p']]['v'], x['p']
            ts = (datetime.datetime(1970, 1, 1) + datetime.timedelta(milliseconds=x['t'])).strftime('%m%d%H%M%S')
            if p == 'sgip': kind, want = 'bind', {'LoginType': [1], 'LoginName': a['ClientId'], 'LoginPassword': a['SharedSecret']}
            else:
                kind = 'connect' if p == 'cmpp' else 'login'
                md5 = hashlib.md5(bytes(a['ClientId']) + bytes(9 if p == 'cmpp' else 7) + bytes(a['SharedSecret']) + ts.encode()).digest()
                want = {'Version': [v], 'Timestamp': C.be(int(ts), 4), 'Auth': list(md5), 'SourceAddr' if p == 'cmpp' else 'ClientID': a['ClientId']}
                if p == 'smgp': want['LoginMode'] = [2]
            lines.append(dict(k='login', p=p, kind=kind, v=v, seq=[], b=x['b'], want=want))
    return lines

def run(prop, tier, res):
    rnd = random.Random('%s-%d' % (prop, SEED))
    C.texts_model(tier, res)
    cs = cases(tier, rnd)
    binary = B.build(scratch(), 'clisend', overlay=ids.overlay(('net', 'sync'), ('vnet', 'vlock'), ('msc_client',), 'ovnet'))
    conf = open(REPO + '/msc_client/config/config.yaml').read()
    def go(c):
        d = '%s/snd%d/msc_client' % (scratch(), c['tid'])
        os.makedirs(d + '/config', exist_ok=True)
        with open(d + '/config/config.yaml', 'w') as f: f.write(conf)
        return drive(binary, [c], d, lambda why: {'panic': True, 'why': why}, timeout=90)[c['tid']]
    t = time.time()
    with ThreadPoolExecutor(8) as ex: got = list(ex.map(go, cs))
    tdrive = time.time() - t
    lines, src = [], []
    for c, o in zip(cs, got):
        l = [dict(k='crash', out=o)] if isinstance(o, dict) else judged(c, o)
        lines += l; src += [c] * len(l)
    bad, r = T.judge('CodecTrace', lines, timeout=1500)
    res.traces += len(lines); res.states += r.distinct; res.transitions += r.generated
    res.extra['cases_by_family'] = {f: sum(1 for c in cs if c['fam'] == f) for f in sorted({c['fam'] for c in cs})}
    res.extra['messages'] = sum(len(l['sends']) for l in lines if l['k'] == 'sent')
    res.extra['packets'] = sum(len(l['out']['pk']) for l in lines if l['k'] == 'sent')
    res.extra['drive_s'], res.extra['judge_s'] = round(tdrive, 1), round(r.wall, 1)
    res.samples += [json.dumps(lines[j])[:3000] for j in (0, len(lines) // 2, len(lines) - 1)]
    res.assumptions += ['the network is stood in for by in-memory connections; time is virtual', 'GB18030 octets and MD5 digests come from Python\'s codecs and hashlib',
                        'the number of an operator is told by its first digits, one expression per operator']
    for k in bad[:3]:
        at, why = T.explain('CodecTrace', lines[k])
        p = write_replay(prop, {'property': prop, 'case': src[k], 'line': lines[k], 'wrong': why}, '%d-%d' % (SEED, src[k]['tid']))
        res.violation('%s: what the gateways got (%s) is not what Codec.tla says of what the callers sent: %s' % (prop, src[k]['fam'], why[:900]), p)
    res.extra['rejected'] = len(bad)
