"""C28, C29, C32, C33, C37: the client's API, its results and its pools of sessions."""
import json, os, random, re, time
from concurrent.futures import ThreadPoolExecutor
from common import *
from drive import drive
import build as B, trace as T, ids

SEG = {'cmpp': r'^1(((3[56789]|47|5[012789]|65|7[28]|8[23478]|9[578])[0-9])|34[0-8]|705)[0-9]{7}$',
       'sgip': r'^1(((3[012]|4[56]|5[56]|6[67]|7[156]|8[56]|9[6])[0-9])|709)[0-9]{7}$',
       'smgp': r'^1(((33|49|53|62|7[347]|8[019]|9[139])[0-9])|349|700)[0-9]{7}$'}
HEADS = {'cmpp': ['135', '139', '147', '198', '1340', '1348', '1705'], 'sgip': ['130', '132', '145', '156', '186', '1709'], 'smgp': ['133', '149', '153', '180', '199', '1349', '1700']}
ACCT = {'cmpp': '901234', 'sgip': '3037196688', 'smgp': '12345678'}
ORDER = ['cmpp', 'sgip', 'smgp']
FAMILIES = {'C28': ['results', 'threads', 'model'], 'C29': ['expiry', 'crowd', 'model'], 'C32': ['routing', 'limits', 'threads'], 'C37': ['idle', 'beats'], 'C33': ['pool', 'even', 'shutdown', 'model']}

def op(o, **k): return dict(dict(o=o, ms=0, th=[], op='', m='', i=0, via=0, st=0, rep='', qid=0, part=0, alt=0), **k)
def adv(ms): return op('adv', ms=ms)
def text(rnd, n):
    if n == 1: return rnd.choice(['', 'a', '中' * 70, '短信' * 20])
    return '中' * (71 if n == 2 else 67 * n)

class Case:
    def __init__(s, rnd, ops=None, **k):
        s.rnd, s.used, s.subs = rnd, set(), 0
        s.c = dict(dict(exp=rnd.choice([10000, 10000, 3000]), chk=1000, hand='yes', auto='', slow=0, jitter=rnd.choice([0, 0, 3, 20]), limit=False, lru=False, steps=[]), **k)
        s.c['ops'] = {o: dict(acct=ACCT[o], ver=rnd.choice({'cmpp': [0x20, 0x30], 'smgp': [0x30, 0x13], 'sgip': [0x12]}[o]), conf=True, addr='192.0.2.%d:7890' % (k + 1), seg=SEG[o], max=rnd.choice([1, 2, 3]),
                               win=1000, thr=rnd.choice([0, 1000]), tick=rnd.choice([1000, 500]), mode='accept') for k, o in enumerate(ORDER)}
        for o, d in (ops or {}).items(): s.c['ops'][o].update(d)
        s.phones, s.nsend = [], 0
    def phone(s, o=None):
        o = o or s.rnd.choice(ORDER)
        while True:
            h = s.rnd.choice(HEADS[o])
            p = h + ''.join(s.rnd.choice('0123456789') for _ in range(11 - len(h)))
            if p not in s.used: s.used.add(p); return p
    def snd(s, phones=None, n=1):
        p = [s.phone()] if phones is None else phones
        s.phones += p
        s.nsend += 1; s.subs += n * len(p)
        return dict(phones=p, n=n, text=text(s.rnd, n), one=len(p) == 1 and s.rnd.random() < .5)
    def send(s, *a, **k): s.add(op('send', th=[[s.snd(*a, **k)]]))
    def add(s, *st): s.c['steps'] += st
    def query(s, i=None): s.add(op('query', i=i if i is not None else s.rnd.randrange(1, s.nsend + 1) if s.nsend else 0, qid=s.rnd.choice([0, 1, -5, 1 << 60])))
    def asks(s):
        for i in range(1, s.nsend + 1): s.query(i)
    def done(s, fam, tail=True):
        if tail:
            s.add(adv(s.c['exp'] or 60000), adv((s.c['chk'] or 1000) + 100), adv((s.c['chk'] or 1000) + 100))
            s.asks()
        c = s.c
        c['fam'] = fam
        w = lambda v, d: v if v > 0 else d
        c['cx'] = {'op': {o: {'conf': x['conf'], 'max': w(x['max'], 2), 'win': w(x['win'], 16), 'ev': 1000000 // x['thr'] if x['thr'] > 0 else 10000, 'tick': w(x['tick'], 1000), 'beats': o != 'sgip'} for o, x in c['ops'].items()},
                   'exp': c['exp'] or 60000, 'chk': c['chk'] or 1000, 'hand': c['hand'], 'slow': c['slow'], 'limit': c['limit'], 'lru': c['lru'],
                   'match': {p: [o for o, x in c['ops'].items() if x['conf'] and re.search(x['seg'], p)] for p in set(s.phones) | {'none'}}}
        c['md'] = {o: x['mode'].replace('slow', 'accept').replace('acceptlogin', 'accept') for o, x in c['ops'].items()}
        return c

def results(rnd, big):
    out = []
    for _ in range(1200 if big else 150):
        s = Case(rnd, auto=rnd.choice(['', '', '', 'now', 'nowrpt', 'rptfirst', 'mix']), exp=rnd.choice([10000, 3000, 600000]))
        todo, done = [], []
        for _ in range(rnd.randrange(1, 6)):
            before = s.subs
            s.send([s.phone(rnd.choice(['cmpp', 'smgp', 'cmpp', 'smgp', 'sgip'])) if rnd.random() < .93 else '10690' for _ in range(rnd.choice([1, 1, 2, 4]))], rnd.choice([1, 1, 2, 3]))
            if not s.c['auto']:
                for k in range(before, s.subs): todo += [('ans', k), ('rpt', k)]
            while todo and rnd.random() < .6:
                a, k = todo.pop(rnd.randrange(len(todo)))
                s.add(op(a, i=k, st=rnd.choice([0, 0, 1, 8, 255]), rep=rnd.choice(['DELIVRD', 'UNDELIV', 'EXPIRED', 'MA:0001']), via=rnd.choice([0, 0, 1, 2]), alt=int(a == 'ans' and rnd.random() < .1)))
            if rnd.random() < .15: s.add(op('stray', op=rnd.choice(['cmpp', 'smgp']), i=rnd.choice([0, 0, 1, 2, 500]), rep=rnd.choice(['DELIVRD', 'ACCEPTD'])))
            if rnd.random() < .3: s.add(adv(rnd.choice([1, 100, 700])))
            if rnd.random() < .6: s.query()
        rnd.shuffle(todo)
        for a, k in todo[:rnd.choice([2, 100])]:
            s.add(op(a, i=k, st=rnd.choice([0, 0, 2]), rep='DELIVRD', via=rnd.choice([0, 1])))
            if rnd.random() < .2: s.query()
        s.query(0); s.asks()
        out.append(s.done('results'))
    return out

def threads(rnd, big):
    out = []
    for _ in range(800 if big else 120):
        s = Case(rnd, auto=rnd.choice(['mix', 'mix', 'now', 'nowrpt', 'rptfirst', '']), jitter=rnd.choice([0, 5, 50]), exp=10000)
        for _ in range(rnd.randrange(1, 4)):
            s.add(op('send', th=[[s.snd([s.phone() for _ in range(rnd.choice([1, 1, 2]))], rnd.choice([1, 2])) for _ in range(rnd.choice([1, 2, 3]))] for _ in range(rnd.choice([2, 4, 8]))]))
            if rnd.random() < .5: s.add(adv(rnd.choice([10, 1000])))
            s.asks()
        if not s.c['auto']:
            l = list(range(s.subs)); rnd.shuffle(l)
            for k in l[:20]: s.add(op('ans', i=k, st=k % 5)); s.add(op('rpt', i=k, rep='DELIVRD', via=1))
            s.asks()
        out.append(s.done('threads'))
    return out

def expiry(rnd, big):
    out = []
    for _ in range(900 if big else 150):
        e, ch = rnd.choice([3000, 10000, 2500, 0]), rnd.choice([1000, 500, 0, 2000])
        s = Case(rnd, auto=rnd.choice(['', 'mix', 'now']), exp=e, chk=ch, hand=rnd.choice(['yes', 'yes', 'yes', 'nil', 'no']))
        e, ch = e or 60000, ch or 1000
        for _ in range(rnd.randrange(1, 5)):
            a = s.subs
            s.send([s.phone() for _ in range(rnd.choice([1, 2, 3]))], rnd.choice([1, 2]))
            for k in range(a, s.subs):
                if s.c['auto'] == '' and rnd.random() < .5: s.add(op('ans', i=k, st=rnd.choice([0, 5])))
                if s.c['auto'] == '' and rnd.random() < .15: s.add(op('ans', i=k, st=2, alt=1))
                if rnd.random() < .15: s.add(op('stray', op=rnd.choice(['cmpp', 'smgp']), i=rnd.choice([0, 0, 1, 2, 3, 500]), rep='REJECTD'))
                if s.c['auto'] == '' and rnd.random() < .4: s.add(op('rpt', i=k, rep='EXPIRED', via=1))
            s.add(adv(rnd.choice([1, 300, 1000, e // 2, e, e + ch + 10])))
            s.asks()
        for d in rnd.choice([(e - 1,), (e,), (e + 1,), (e - 5, 5, 1, 1), (e + ch + 2,)]): s.add(adv(d)); s.asks()
        for _ in range(3): s.add(adv(ch)); s.asks()
        if rnd.random() < .4:                  # a report nobody asked for, and a message with its id when it is forgotten
            o = rnd.choice(['cmpp', 'smgp'])
            s.add(op('stray', op=o, i=0, rep='EXPIRED'), adv(e + rnd.choice([-10, 2 * ch + 2, 2 * ch + 2])))
            s.send([s.phone(o)]); s.add(op('ans', i=s.subs - 1, st=0)); s.asks()
        if rnd.random() < .5:                  # what comes for expired ones
            s.add(adv(2 * ch + e))
            for k in range(min(s.subs, 6)):
                if rnd.random() < .6: s.add(op('rpt', i=k, rep='DELIVRD', via=1))
                if rnd.random() < .3: s.add(adv(e + 2 * ch + 10))
                if rnd.random() < .6: s.add(op('ans', i=k, st=3))
            s.asks()
        out.append(s.done('expiry'))
    return out

def crowd(rnd, big):
    """many results expire together"""
    out = []
    for n in ([5, 63, 64, 65, 70, 127, 128, 129, 150, 200, 300] if not big else list(range(60, 70)) + list(range(120, 135)) + [200, 256, 300, 400]):
        for size in (1, 3):
            s = Case(rnd, auto=rnd.choice(['', 'now', 'mix']), exp=3000)
            for o in s.c['ops'].values(): o['win'] = 5000
            left = n
            while left > 0:
                k = min(size, left)
                s.send([s.phone() for _ in range(k)]); left -= k
            s.query(); s.add(adv(3000)); s.query(); s.add(adv(1001)); s.query()
            out.append(s.done('crowd'))
    return out

def routing(rnd, big):
    out = []
    segs = [SEG['cmpp'], SEG['sgip'], SEG['smgp'], r'^13[0-9]{9}$', r'^1', r'5$', r'8', r'^(13|15)', r'^1[0-9]{10}$', r'^$', r'^86']
    for _ in range(900 if big else 150):
        s = Case(rnd, auto='now')
        for o in ORDER:
            if rnd.random() < .4: s.c['ops'][o]['seg'] = rnd.choice(segs)
            if rnd.random() < .12: s.c['ops'][o]['conf'] = False
            s.c['ops'][o]['max'] = rnd.choice([0, 1, 4])
        for _ in range(rnd.randrange(2, 7)):
            ph = []
            for _ in range(rnd.choice([0, 1, 1, 2, 4, 8])):
                x = rnd.random()
                p = s.phone() if x < .7 else rnd.choice(['', '1', 'abc', '13', '1390000000', '139000000001', '8613900000000', '+8613900000000', '10690000', ' 13900000000', '23900000000'])
                ph.append(p)
                if x < .15: ph.append(p)       # the same number twice
            s.send(ph, rnd.choice([1, 1, 2]))
            if rnd.random() < .3: s.add(adv(rnd.choice([1, 1000])))
        s.asks()
        out.append(s.done('routing'))
    return out

def limits(rnd, big):
    out = []
    for _ in range(700 if big else 120):
        s = Case(rnd, auto='now', limit=True, exp=60000)
        for o in s.c['ops'].values(): o.update(win=rnd.choice([0, 1, 2, 5, 16]), thr=rnd.choice([0, 1, 3, 10, 100, 200, 7, 1000, 300, 700, 2000]))
        for _ in range(rnd.randrange(3, 10)):
            x = rnd.random()
            if x < .5: s.send([s.phone(rnd.choice(['cmpp', 'cmpp', 'smgp', 'sgip'])) for _ in range(rnd.choice([1, 3, 8, 20]))], rnd.choice([1, 1, 2]))
            elif x < .65: s.add(op('send', th=[[s.snd([s.phone('cmpp')])] for _ in range(rnd.choice([3, 10]))]))
            s.add(adv(rnd.choice([1, 5, 9, 10, 11, 99, 100, 500, 1000, 3000])))
        s.asks()
        out.append(s.done('limits'))
    return out

def pool(rnd, big):
    out = []
    for _ in range(900 if big else 150):
        s = Case(rnd, auto='now', exp=60000, slow=rnd.choice([0, 0, 0, 300]))
        os_ = rnd.sample(ORDER, rnd.choice([1, 1, 2]))
        for o in ORDER: s.c['ops'][o].update(max=rnd.choice([0, 1, 2, 4]), tick=rnd.choice([0, 500, 1000, 3000]), mode=rnd.choice(['accept', 'accept', 'accept', 'refuse', 'bad']) if o in os_ else 'accept')
        if rnd.random() < .4:                  # some callers set the pools up by hand, at once
            if s.c['slow'] and rnd.random() < .7:
                for o in os_:
                    if s.c['ops'][o]['mode'] == 'accept': s.c['ops'][o]['mode'] = rnd.choice(['slow', 'slowlogin'])
            for o in os_ + os_[:1]: s.add(op('create', op=o, i=rnd.choice([1, 2, 3])))
            if rnd.random() < .5: s.add(adv(rnd.choice([10, 1000])))
        for o in os_:
            if s.c['ops'][o]['mode'] not in ('accept', 'slow', 'slowlogin'):
                s.send([s.phone(o)])           # waits
                s.add(adv(rnd.choice([10, 2500])), op('mode', op=o, m='accept'), adv(3000))
            else: s.send([s.phone(o)])
        for _ in range(rnd.randrange(3, 12)):
            o, x = rnd.choice(os_), rnd.random()
            if x < .25: s.send([s.phone(o) for _ in range(rnd.choice([1, 1, 3]))], rnd.choice([1, 2]))
            elif x < .5:
                for _ in range(rnd.choice([1, 1, 2, 5])): s.add(op(rnd.choice(['down', 'down', 'bye', 'cut']), op=o, i=rnd.randrange(4)))
                if rnd.random() < .5: s.send([s.phone(o)])
            elif x < .6: s.add(op('mode', op=o, m=rnd.choice(['refuse', 'bad', 'accept']))); 
            elif x < .65 and s.c['slow']: s.add(op('mode', op=o, m=rnd.choice(['slow', 'slowlogin'])))
            elif x < .75: s.add(op('brk', part=rnd.choice([1, 2, 3]))); s.send([s.phone(o), s.phone(o)], rnd.choice([2, 3]))
            s.add(adv(rnd.choice([1, 400, 1000, 3000, 8000, 20000, 130000])))
        for o in os_: s.add(op('mode', op=o, m='accept'))
        for _ in range(3): s.add(adv(7000))
        for o in os_: s.send([s.phone(o)])
        s.asks()
        out.append(s.done('pool', tail=False))
    return out

def even(rnd, big):
    out = []
    for _ in range(200 if big else 40):
        s = Case(rnd, auto='now', exp=60000, lru=True)
        o = rnd.choice(ORDER)
        m = rnd.choice([2, 2, 3, 4])
        for x in ORDER: s.c['ops'][x].update(max=m, tick=1000)
        s.send([s.phone(o)]); s.add(adv(300), adv(9000 + 1000 * m))
        for k in range(rnd.randrange(5, 14)):
            for _ in range(rnd.choice([0, 1, 1, 2, 3])): s.send([s.phone(o) for _ in range(rnd.choice([1, 2]))]); s.add(adv(rnd.choice([0, 50])))
            s.add(adv(0))
            used = sum(x['ms'] for x in s.c['steps'])
            s.add(adv(1000 * rnd.choice([1, 1, 1, 2]) - (used - 300) % 1000))
            if rnd.random() < .1: s.add(op('down', op=o, i=rnd.randrange(m)), adv(12000))
        out.append(s.done('even', tail=False))
    return out

def idle(rnd, big):
    """sessions on which little or nothing is said"""
    out = []
    for _ in range(700 if big else 130):
        s = Case(rnd, auto=rnd.choice(['now', 'now', 'nowrpt', '']), exp=600000, jitter=rnd.choice([0, 0, 5]))
        os_ = rnd.sample(ORDER, rnd.choice([1, 1, 2]))
        for o in ORDER: s.c['ops'][o].update(max=rnd.choice([1, 1, 2, 3]), tick=rnd.choice([0, 500, 1000, 3000]))
        for o in os_: s.send([s.phone(o)])
        s.add(adv(rnd.choice([100, 9000])))
        for _ in range(rnd.randrange(3, 9)):
            o, x = rnd.choice(os_), rnd.random()
            if x < .2: s.send([s.phone(o) for _ in range(rnd.choice([1, 2]))], rnd.choice([1, 2]))
            elif x < .35: s.add(op('ping', op=o, i=rnd.randrange(3)))
            elif x < .45: s.add(op('stray', op=o, i=rnd.choice([0, 500]), rep='DELIVRD') if o != 'sgip' else op('ping', op=o))
            elif x < .55 and s.subs and not s.c['auto']: s.add(op('ans', i=rnd.randrange(s.subs), st=0))
            elif x < .65: s.add(op('quiet', i=rnd.choice([0, 1])))
            elif x < .75: s.add(op('cut', op=o, i=rnd.randrange(3)))
            elif x < .82: s.add(op(rnd.choice(['down', 'bye']), op=o, i=rnd.randrange(3)))
            elif x < .87: s.add(op('cut', op=o, i=0)); s.send([s.phone(o)], rnd.choice([1, 2]))
            s.add(adv(rnd.choice([1, 1000, 20000, 30000, 31000, 58000, 59999, 60000, 60001, 61000, 63100, 65000, 90000, 130000, 200000])))
        if rnd.random() < .3: s.add(op('shut'), adv(70000))
        else: s.add(adv(70000)); [s.send([s.phone(o)]) for o in os_]
        s.asks()
        out.append(s.done('idle', tail=False))
    return out

def shutdown(rnd, big):
    out = []
    for _ in range(500 if big else 90):
        s = Case(rnd, auto='now', exp=60000, slow=rnd.choice([0, 0, 400]))
        o = rnd.choice(ORDER)
        s.c['ops'][o].update(max=rnd.choice([1, 2, 4]), tick=rnd.choice([500, 1000]), mode=rnd.choice(['accept', 'accept', 'refuse', 'bad']))
        s.send([s.phone(o)])
        s.add(adv(rnd.choice([1, 500, 1500, 5000])))
        if s.c['slow']: s.add(op('mode', op=o, m=rnd.choice(['slow', 'slowlogin'])))
        for _ in range(rnd.randrange(0, 3)):
            s.add(op('down', op=o, i=rnd.randrange(4)))
            if rnd.random() < .5: s.send([s.phone(o)])
            s.add(adv(rnd.choice([1, 100, 700, 1200, 2100])))
        s.add(op('shut'))
        if rnd.random() < .5: s.add(op('shut'))
        s.add(adv(rnd.choice([1, 200])), adv(rnd.choice([150, 3000])), op('mode', op=o, m='accept'))
        s.send([s.phone(o)]); s.add(adv(5000)); s.send([s.phone(o)], 2); s.add(adv(5000))
        if rnd.random() < .5: s.add(op('create', op=o, i=2), adv(5000))
        s.add(op('shut'), adv(2000))
        s.asks()
        out.append(s.done('shutdown', tail=False))
    return out

def model_cases(rnd, runs):
    out = []
    for log in runs:
        s = Case(rnd, {o: dict(max=2, tick=1000) for o in ORDER}, exp=3000, chk=1000)
        o = rnd.choice(['cmpp', 'smgp'])
        for x in log:
            a, k = x[0], int(x[1:] or 0)
            if a == 's': s.send([s.phone(o)])
            elif a == 'a': s.add(op('ans', i=k - 1, st=k))
            elif a == 'r': s.add(op('rpt', i=k - 1, rep='R%06d' % k, via=k % 2))
            elif a == 'c': s.add(adv(1000)); s.asks()
            elif a == 'd': s.add(op('down', op=o, i=k))
            elif a == 'm': s.add(op('mode', op=o, m='accept' if k else 'refuse'))
            elif a == 'x': s.add(op('shut'))
        s.add(adv(300)); s.asks()
        out.append(s.done('model'))
    return out

def beat_cases(rnd, runs):
    out = []
    for log in runs:
        s = Case(rnd, {o: dict(max=1, tick=15000) for o in ORDER}, exp=600000, auto='now')
        o = rnd.choice(['cmpp', 'smgp'])
        s.send([s.phone(o)])
        s.add(op('quiet', i=rnd.choice([0, 1])))
        for x in log:
            if x == 't': s.add(adv(15000))
            elif x == 'c': s.add(op('cut', op=o))
            elif x == 'p': s.send([s.phone(o)])
            else: s.add(rnd.choice([op('ping', op=o), op('stray', op=o, i=500, rep='DELIVRD')]))
        s.add(adv(20000)); s.asks()
        out.append(s.done('model', tail=False))
    return out

def cfg(name, inv, c):
    p = '%s/%s.cfg' % (scratch(), name)
    with open(p, 'w') as f:
        f.write('%s\nCONSTANTS %s\n%s\nCHECK_DEADLOCK FALSE\n' % ('INIT Init\nNEXT Next' if 'Show' in inv else 'SPECIFICATION Spec', ' '.join('%s=%s' % (k, v) for k, v in c.items()), inv))
    return p

RES = dict(CALLERS=2, PARTS=1, EXP=1, TIME=4, BREAK='"no"', HIST='FALSE')
POOL = dict(MAX=2, CALLERS=2, EVENTS=3, BREAK='"no"', HIST='FALSE')
BEAT = dict(IDLE=4, TICK=3, TIME=24, BREAK='"no"', HIST='FALSE')
MODELS = {'ResultsMC': dict(inv='INVARIANTS Told Honest Once Kept Gone', breaks=('late', 'lost', 'again', 'keep', 'first'), base=RES, neg=dict(RES, CALLERS=1, PARTS=2),
                            quick=[RES, dict(RES, CALLERS=1, PARTS=2)], big=[dict(RES, TIME=5), dict(RES, CALLERS=1, PARTS=3), dict(RES, CALLERS=1, PARTS=2, EXP=2, TIME=6)],
                            gen=('INVARIANT Show', dict(RES, TIME=3, HIST='TRUE')), gen_big=('INVARIANT Show', dict(RES, TIME=4, HIST='TRUE'))),
          'PoolMC': dict(inv='INVARIANTS Cap One Live Shut Free\nPROPERTIES Fills Returns Ends', breaks=('dial', 'head', 'two', 'wait', 'over', 'leave'), base=POOL, neg=POOL,
                         quick=[POOL], big=[dict(POOL, CALLERS=3), dict(POOL, EVENTS=5), dict(POOL, MAX=3, EVENTS=4)],
                         gen=('INVARIANT Show\nCONSTRAINT Short', dict(POOL, EVENTS=4, CALLERS=3, HIST='TRUE')), gen_big=('INVARIANT Show\nCONSTRAINT Short', dict(POOL, EVENTS=5, CALLERS=3, HIST='TRUE'))),
          'BeatMC': dict(inv='INVARIANTS Asked Found\nPROPERTIES Spared', breaks=('long', 'touch', 'eager', 'deaf'), base=BEAT, neg=BEAT, quick=[BEAT, dict(BEAT, TICK=1)],
                         big=[dict(BEAT, IDLE=6, TICK=5, TIME=60), dict(BEAT, IDLE=5, TICK=1, TIME=60)], gen=('INVARIANT Show', dict(BEAT, TICK=1, TIME=6, HIST='TRUE')), gen_big=('INVARIANT Show', dict(BEAT, TICK=1, TIME=8, HIST='TRUE')))}
def model(module, tier, res, rnd):
    """the algorithm's model: checked, its negative controls, and its behaviours to be played against the real client"""
    m, big = MODELS[module], tier == 'thorough'
    for k, c in enumerate(m['big' if big else 'quick']):
        res.add_mc(module, model_check(module, cfg('%s%d' % (module, k), m['inv'], c), timeout=700))
    def neg(b):
        n = tlc(module, cfg(module + 'neg' + b, m['inv'], dict(m['neg'], BREAK='"%s"' % b)), workers=2)
        if 'violated' not in n.out: raise Infra('negative control %s of %s: %s' % (b, module, n.out[-1500:]))
    with ThreadPoolExecutor(3) as ex: list(ex.map(neg, m['breaks']))
    inv, c = m['gen_big' if big else 'gen']
    g = tlc(module, cfg(module + 'gen', inv, c), timeout=600)
    if not g.complete: raise Infra('generating behaviours of %s: %s' % (module, g.out[-2000:]))
    runs = sorted(set(re.findall(r'^"RUN <<(.*)>>"$', g.out, re.M)))
    runs = [re.findall(r'\w+', x.replace('\\"', '')) for x in runs]
    n = 3000 if big else 300
    res.extra['behaviours_of_' + module] = '%d of %d' % (min(n, len(runs)), len(runs))
    return [runs[j] for j in sorted(rnd.sample(range(len(runs)), min(n, len(runs))))]

def cases(prop, tier, rnd, res):
    big = tier == 'thorough'
    out = []
    for f in FAMILIES[prop]:
        if f == 'beats': out += beat_cases(rnd, model('BeatMC', tier, res, rnd))
        elif f == 'model': out += model_cases(rnd, model('PoolMC' if prop == 'C33' else 'ResultsMC', tier, res, rnd))
        else: out += dict(results=results, threads=threads, expiry=expiry, crowd=crowd, routing=routing, limits=limits, pool=pool, even=even, shutdown=shutdown, idle=idle)[f](rnd, big)
    for k, c in enumerate(out): c['tid'] = k
    return out

def run(prop, tier, res):
    rnd = random.Random('%s-%d' % (prop, SEED))
    cs = cases(prop, tier, rnd, res)
    binary = B.build(scratch(), 'cliapi', overlay=ids.overlay(('net', 'sync'), ('vnet', 'vlock'), ('msc_client',), 'ovnet'))
    conf = open(REPO + '/msc_client/config/config.yaml').read()
    def one(c):
        d = '%s/api%d/msc_client' % (scratch(), c['tid'])
        os.makedirs(d + '/config', exist_ok=True)
        with open(d + '/config/config.yaml', 'w') as f: f.write(conf)
        return drive(binary, [c], d, lambda why: [{'e': 'crash', 'why': why}], key='ev', timeout=60)[c['tid']]
    t = time.time()
    with ThreadPoolExecutor(8) as ex: got = list(ex.map(one, cs))
    tdrive = time.time() - t
    lines = [{'cx': c['cx'], 'mode': c['md'], 'ev': ev} for c, ev in zip(cs, got)]
    bad, r = T.judge('ClientPoolTrace', lines, timeout=1200)
    res.traces += len(lines); res.states += r.distinct; res.transitions += r.generated
    res.extra['cases_by_family'] = {f: sum(1 for c in cs if c['fam'] == f) for f in sorted({c['fam'] for c in cs})}
    res.extra['events'] = sum(len(e) for e in got)
    res.extra['drive_s'], res.extra['judge_s'] = round(tdrive, 1), round(r.wall, 1)
    res.samples += [json.dumps(lines[j])[:3000] for j in (0, len(lines) // 2, len(lines) - 1)]
    res.assumptions += ['the network is stood in for by in-memory connections; time is virtual; no MongoDB: a recording handler stands in for the persistence']
    for k in bad[:3]:
        at, why = T.explain('ClientPoolTrace', lines[k])
        ev = lines[k]['ev']
        p = write_replay(prop, {'property': prop, 'case': cs[k], 'events': ev, 'stops_before_event': at, 'specification': why}, '%d-%d' % (SEED, cs[k]['tid']))
        res.violation('%s: what the real client did (%s) is not a behaviour of ClientPool.tla: event %d %s; specification then: %s' % (
            prop, cs[k]['fam'], at, json.dumps(ev[at - 1] if 0 < at <= len(ev) else ev[-1])[:500], why[:400]), p)
    res.extra['rejected'] = len(bad)
