"""The gateway (C01-C13): scenarios, the driver, and judging its traces with GatewayTrace."""
import json, os, random, re, shutil, subprocess
from common import *
import build as B
import trace as T
import gwmc

US = 1000
PROTOS = ['cmpp', 'smgp', 'sgip']
ID = {'cmpp': ['900001', 'ab12', '900003'], 'smgp': ['70000001', 'ac77', '70000003'], 'sgip': ['sgip_user', 'b', 'sgip0000000003']}

def acct(proto, k=0, **kw):
    a = {'secret': 'pw%d' % k, 'max': 2, 'w': 4, 'tput': 1000, 'ver': 48, 'no': '10690%d' % (k + 1), 'svc': 'SVC%d' % k}
    a.update(kw)
    return a

def colour(d, rnd):
    """accounts of any kind: secrets, numbers and service codes as an operator may set them"""
    for a in d['accounts'].values():
        if rnd.random() < .5:
            a['secret'] = rnd.choice([' lead', 'tail ', ' ', '', 'p w', 'tab\t', '\r\n', '密码', 'Secret', '0', '007', 'it\'s "so"', 'a' * 16, '%s', '\x7f\x01', 'é'] +
                                     ([] if d['proto'] == 'sgip' else ['x' * 17, 'Xy ' * 20]))
        if rnd.random() < .4: a['no'] = rnd.choice(['', '1', '95566', '10690' + '7' * 7, '0', 'ab9', '0' * 12])
        if rnd.random() < .4: a['svc'] = rnd.choice(['', 'S', '0123456789', 'a b', 'svc'])

class S:
    """One scenario."""
    def __init__(self, fam, proto, rnd, **kw):
        n = {'cmpp': 6, 'smgp': 8, 'sgip': 16}[proto]        # ids of any kind
        self.ids = ID[proto] if rnd.random() < .5 else rnd.sample(['x' * n, 'Z', '0' * n, 'a b', 'Ab_c', 'aB_c', '-1', '用户'[:n // 3], '%d', 'a.b', '9' * (n - 1)], 3)
        ver = rnd.choice([48, 48, 48, 32, 33, 49] if proto == 'cmpp' else [48, 48, 49, 19, 32])
        self.d = {'fam': fam, 'proto': proto, 'cap': 50, 'accounts': {self.ids[0]: acct(proto, ver=ver)}, 'dmin': 10, 'dmax': 10,
                  'rdelay': 30, 'rate': 1, 'force': 120000, 'mo': {'enable': False, 'rate': -1, 'contents': ['1_,_hi']},
                  'hold': False, 'timed': False, 'jit': False, 'loops': 0, 'seed': rnd.randrange(1 << 30), 'steps': []}
        self.d.update(kw)
        self.rnd, self.proto = rnd, proto
        # sequence numbers are any 32-bit numbers: small ones, around the sign bit, around the wrap
        self.n = rnd.choice([rnd.randrange(1, 1000000), 0x7FFFFFFF - rnd.randrange(6), rnd.randrange(1 << 31, 1 << 32), 0xFFFFFFFF - rnd.randrange(6)])
        self.nc = 0
    def seq(self):
        self.n = (self.n + 1 + self.rnd.randrange(3)) % (1 << 32)
        if self.proto == 'sgip':
            return '3000037196.%d.%d' % (self.rnd.randrange(101000000, 1231235959), self.n)
        return str(self.n)
    def st(self, **kw):
        self.d['steps'].append(kw)
        return self
    def open(self, n=1, **kw):
        r = []
        for _ in range(n):
            self.st(op='open', c=self.nc, **kw)
            r.append(self.nc)
            self.nc += 1
        return r if n > 1 else r[0]
    def A(self, k=0):
        return self.ids[k]
    def login(self, a=0, bad=False, ver=None, how=None):
        who = a if isinstance(a, str) else self.A(a)
        if ver is None:
            ver = self.d['accounts'].get(who, {}).get('ver', 48)
            if self.rnd.random() < .2: ver = ver & 0xF0 | self.rnd.randrange(16)     # the minor version does not matter
        r = self.rnd
        return {'k': 'login', 'seq': self.seq(), 'acct': who, 'bad': bad, 'how': r.randrange(16) if how is None else how, 'ver': ver,
                'ts': r.choice([r.randrange(1, 1 << 20), r.randrange(101000000, 1231235960), r.randrange(1, 1 << 32)])}
    def submit(self, n=1, ln=None):
        # (the gateway's report names the first recipient)
        p = '861%d' % self.rnd.randrange(10**9, 10**10)
        return {'k': 'submit', 'seq': self.seq(), 'from': '1069%d' % self.rnd.randrange(10**5),
                'to': [p] + ['861%d' % self.rnd.randrange(10**9, 10**10) for _ in range(n - 1)],
                'len': self.rnd.randrange(1, 140) if ln is None else ln, 'any': self.any()}
    def any(self):
        return self.rnd.randrange(1, 1 << 31) if self.rnd.random() < .7 else 0
    def pk(self, k, **kw):
        return dict({'k': k, 'seq': self.seq(), 'any': self.any()}, **kw)
    def data(self, c, *pk, **kw):
        return self.st(op='data', c=c, pk=list(pk), **kw)
    def logged(self, a=0):
        c = self.open()
        self.data(c, self.login(a))
        return c
    def adv(self, ms):
        return self.st(op='adv', ms=ms)

def kinds(proto):
    return ['active', 'aresp', 'term', 'tresp', 'dresp', 'submit'] if proto != 'sgip' else ['term', 'tresp', 'submit']

def some_pk(s, k):
    return s.submit() if k == 'submit' else s.pk(k)

def randcuts(rnd, n, total=400):
    return sorted(rnd.sample(range(1, total), n))

# ---------------------------------------------------------------- families

def c01(rnd, tier):
    out = []
    for p in PROTOS:
        for k in kinds(p):
            s = S('prelogin', p, rnd)
            s.d['accounts'][s.A(1)] = acct(p, 1)
            o = s.logged(1)
            c = s.open()
            s.data(c, some_pk(s, k))
            s.data(o, s.submit())
            out.append(s)
            # pipelined behind a login, accepted or not, in one segment and in two
            for bad in (False, True):
                s = S('pipelined', p, rnd)
                c = s.open()
                s.data(c, s.login(bad=bad), some_pk(s, k), cut=rnd.choice([[], [30], [45]]))
                out.append(s)
                # between the decision and the answer: the answer waits in the loop
                s = S('held', p, rnd, hold=True)
                c = s.open()
                s.data(c, s.login(bad=bad))
                s.data(c, some_pk(s, k))
                s.st(op='run', c=c, n=3)
                s.data(c, some_pk(s, k))
                s.st(op='run', c=c, n=2)
                out.append(s)
                # after a refusal has been written
                s = S('refused', p, rnd, hold=True)
                c = s.open()
                s.data(c, s.login(bad=bad))
                s.st(op='run', c=c, n=1)
                s.data(c, some_pk(s, k))
                s.st(op='run', c=c, n=3)
                out.append(s)
        for bad in ('unknown', 'auth', 'ver', 'limit'):
            if p == 'sgip' and bad == 'ver': continue
            s = S('refusals', p, rnd, rdelay=20, mo={'enable': True, 'rate': 1, 'contents': ['1_,_hi']})
            s.d['accounts'][s.A()]['max'] = 1
            if bad == 'limit': s.logged()
            c = s.open()
            s.data(c, s.login('nobody' if bad == 'unknown' else 0, bad=bad == 'auth', ver=(s.d['accounts'][s.A()]['ver'] ^ 0x10) if bad == 'ver' else None))
            s.data(c, s.submit())
            s.st(op='tick').adv(1500)
            out.append(s)
        # a connection that has not logged in yet, or whose login is being answered, is not probed
        for bad in (None, False, True):
            s = S('anon_idle', p, rnd, force=600000, hold=True, mo={'enable': True, 'rate': 1, 'contents': ['1_,_hi']})
            s.st(op='release')
            c = s.open()
            s.st(op='hold')
            if bad is not None: s.data(c, s.login(bad=bad))
            for _ in range(4):
                s.adv(61000).st(op='tick')
            s.st(op='run', c=c, n=1)
            s.st(op='tick')
            s.st(op='release')
            s.adv(2000)
            out.append(s)
        # a connection that never logs in gets no heartbeat and no message, and is closed in the end
        s = S('anon_tick', p, rnd, force=60000, mo={'enable': True, 'rate': 1, 'contents': ['1_,_hi']})
        c, l = s.open(), s.logged()
        for _ in range(8):
            s.st(op='tick').adv(12000)
        s.data(l, s.submit())
        out.append(s)
    for i in range(20 if tier == 'quick' else 300):
        p = rnd.choice(PROTOS)
        s = S('random', p, rnd, hold=rnd.random() < .6, jit=rnd.random() < .5)
        c = s.open(2)
        for _ in range(rnd.randrange(2, 7)):
            x = rnd.choice(c)
            r = rnd.random()
            if r < .35: s.data(x, s.login(bad=rnd.random() < .4))
            elif r < .8: s.data(x, some_pk(s, rnd.choice(kinds(p))), cut=randcuts(rnd, rnd.randrange(2), 40))
            elif r < .9: s.st(op='tick')
            else: s.st(op='run', c=x, n=rnd.randrange(1, 3))
        out.append(s)
    return out

def c02(rnd, tier):
    out = []
    for p in PROTOS:
        for ver in (48, 32, 49) if p != 'sgip' else (48,):
            for who in ('ok', 'unknown'):
                for bad in (False, True):
                    for sent in (48, 32, 49, 16, 33) if p != 'sgip' else (48,):
                        for full in (False, True):
                            if who == 'unknown' and full: continue
                            s = S('verdict', p, rnd)
                            k = rnd.randrange(3)
                            s.d['accounts'] = {s.A(k): acct(p, k, ver=ver, max=1)}
                            if full: s.logged(k)
                            c = s.open()
                            s.data(c, s.login(k if who == 'ok' else 'zz9', bad=bad, ver=sent))
                            s.data(c, s.submit())
                            out.append(s)
        for how in range(16):        # every way in which credentials can be wrong
            s = S('wrong', p, rnd)
            a, b = s.open(2)
            s.data(a, s.login(bad=True, how=how))
            s.data(b, s.login()); s.data(b, s.submit())
            out.append(s)
        n = s.A()
        near = [n[:-1], n[:-1] + 'x', n[:-1] + 'a', n.swapcase(), n.upper(), n.lower(), n[1:], ' ' + n[:-1], '']
        if len(n) < {'cmpp': 6, 'smgp': 8, 'sgip': 16}[p]: near += [n + '0', n + ' ', ' ' + n]
        for x in near:               # names that only nearly match an account's
            if x == n: continue
            while True:
                s = S('near', p, rnd)
                if s.A() == n: break
            c = s.open()
            s.data(c, s.login(x))
            out.append(s)
        # accounts change while connections come
        s = S('store', p, rnd)
        s.d['accounts'] = {s.A(0): acct(p, 0), s.A(1): acct(p, 1)}
        s.st(op='rm', a=s.A(0))
        a = s.open(); s.data(a, s.login(0))
        b = s.open(); s.data(b, s.login(1))
        s.st(op='add', a=s.A(0))
        d = s.open(); s.data(d, s.login(0))
        s.data(b, s.submit()); s.data(d, s.submit())
        out.append(s)
        # twice on one connection
        for bad in (False, True):
            s = S('twice', p, rnd, hold=bad)
            c = s.open()
            s.data(c, s.login()); s.data(c, s.login(bad=bad))
            out.append(s)
        # a burst of logins from distinct connections: each answered once
        s = S('burst', p, rnd)
        s.d['accounts'][s.A()]['max'] = 10
        cs = s.open(4)
        s.st(op='par', steps=[{'op': 'data', 'c': c, 'pk': [s.login(bad=rnd.random() < .3)]} for c in cs])
        for c in cs: s.data(c, s.submit())
        out.append(s)
    if tier == 'quick':
        keep = [s for s in out if s.d['fam'] != 'verdict']
        v = [s for s in out if s.d['fam'] == 'verdict']
        return keep + v
    for i in range(300):
        p = rnd.choice(PROTOS)
        s = S('random', p, rnd, jit=True, hold=rnd.random() < .3)
        s.d['accounts'] = {s.A(k): acct(p, k, ver=rnd.choice((32, 48)), max=rnd.randrange(1, 3)) for k in range(rnd.randrange(1, 4))}
        for _ in range(rnd.randrange(3, 7)):
            c = s.open()
            s.data(c, s.login(rnd.choice([0, 1, 2, 'zz']), bad=rnd.random() < .25, ver=rnd.choice((None, 32, 48))))
            if rnd.random() < .3: s.st(op='peer', c=c)
            if rnd.random() < .3: s.st(op='run', c=c, n=1)
        out.append(s)
    return out

def c03(rnd, tier):
    out = []
    for i in range(120 if tier == 'quick' else 800):
        p = PROTOS[i % 3]
        mx = rnd.randrange(1, 3)
        s = S('race', p, rnd, jit=rnd.random() < .8, hold=rnd.random() < .5)
        s.d['accounts'] = {s.A(0): acct(p, 0, max=mx), s.A(1): acct(p, 1, max=1)}
        n = rnd.randrange(mx + 1, 5)
        cs = s.open(n)
        s.st(op='par', steps=[{'op': 'data', 'c': c, 'pk': [s.login(0 if rnd.random() < .9 else 1, bad=rnd.random() < .1)]} for c in cs])
        for _ in range(rnd.randrange(1, 6)):
            r = rnd.random()
            x = rnd.choice(cs)
            if r < .3: s.st(op='run', c=x, n=rnd.randrange(1, 3))
            elif r < .5: s.st(op='peer', c=x)
            elif r < .6: s.st(op='wrfail', c=x)
            elif r < .7: s.data(x, s.pk('term'))
            elif r < .9 and s.nc < 7:
                c = s.open()
                s.data(c, s.login(0))
                cs.append(c)
            else: s.st(op='par', steps=[{'op': 'peer', 'c': x}, {'op': 'run', 'c': x, 'n': 2}])
        if rnd.random() < .7:
            s.st(op='release')
            c = s.open(); s.data(c, s.login(0))
        out.append(s)
    for p in PROTOS:   # slots come back: fill, leave in different ways, refill
        for way in ('peer', 'term', 'wrfail', 'dying', 'tresp', 'badcmd'):
            s = S('refill', p, rnd, hold=way == 'dying')
            s.d['accounts'][s.A()]['max'] = 2
            for _ in range(3):
                cs = [s.logged(), s.logged(), s.logged()]
                for c in cs[:2]:
                    if way in ('peer', 'dying'): s.st(op='peer', c=c)
                    elif way == 'badcmd': s.data(c, {'k': 'cmd', 'cmd': 0x77, 'len': 4})
                    elif way == 'wrfail':
                        s.st(op='wrfail', c=c); s.data(c, s.submit()); s.adv(50)
                    else: s.data(c, s.pk(way))
            out.append(s)
    for p in PROTOS: out += terminating(rnd, p)
    return out

def terminating(rnd, p, cap=50):
    """sessions the gateway is taking its leave of - terminated, and still connected for a second - while others come"""
    for why in ('idle', 'unanswered'):
        if why == 'unanswered' and p == 'sgip': continue
        for at in (0, 1, 500, 999, 1001, 2500):
            s = S('terminating', p, rnd, cap=cap, hold=rnd.random() < .4, force=100000 if why == 'idle' else 10**9)
            s.d['accounts'] = {s.A(0): acct(p, 0, max=2), s.A(1): acct(p, 1, max=1)}
            s.st(op='release')
            a, b = s.logged(), s.logged(rnd.choice([0, 1]))
            s.st(op='hold') if s.d['hold'] else None
            for _ in range(4 if why == 'unanswered' else 1):
                s.adv(61000 if why == 'unanswered' else 101000).st(op='tick')
                if s.d['hold']:
                    for c in (a, b): s.st(op='run', c=c, n=1)
            for _ in range(2): s.st(op='tick') if rnd.random() < .5 else s.adv(1)
            if at: s.adv(at)
            for k in (0, 1, 0):
                c = s.open()
                s.data(c, s.login(k))
                s.data(c, s.submit())
            if rnd.random() < .4: s.st(op='peer', c=a)
            if s.d['hold']: s.st(op='release')
            s.adv(3000)
            for k in (0, 1, 0): s.logged(k)
            yield s

def c04(rnd, tier):
    out = []
    for i in range(60 if tier == 'quick' else 500):
        p = PROTOS[i % 3]
        cap = rnd.choice([0, 1, 2, 3, 3])
        s = S('cap', p, rnd, cap=cap, jit=rnd.random() < .7, hold=rnd.random() < .2)
        live = []
        for _ in range(rnd.randrange(3, 9)):
            r = rnd.random()
            if r < .35:
                n = rnd.randrange(1, 4)
                if s.nc + n > 12: continue
                steps = []
                for _ in range(n):
                    steps.append({'op': 'open', 'c': s.nc}); live.append(s.nc); s.nc += 1
                if rnd.random() < .4 and live: steps.insert(0, {'op': 'peer', 'c': live[0]}) if live[0] < s.nc - n else None
                s.st(op='par', steps=steps)
            elif r < .5: live.append(s.open())
            elif live and r < .7: s.st(op='peer', c=rnd.choice(live))
            elif live and r < .85: s.data(rnd.choice(live), s.login(bad=rnd.random() < .4))
            elif live: s.data(rnd.choice(live), {'k': 'cmd', 'cmd': 0x99, 'len': 0})
        out.append(s)
    for p in PROTOS:
        s = S('drift', p, rnd, cap=2)
        for _ in range(4):
            cs = s.open(5)
            for c in cs: s.st(op='peer', c=c)
            a = s.logged()
            s.st(op='peer', c=a)
        out.append(s)
        # a session that stays while very many come and go, at distances of powers of two milliseconds too
        s = S('many', p, rnd, cap=2, timed=True)
        a = s.logged()
        for k in range(270 if tier == 'quick' else 600):
            c = s.open(); s.st(op='peer', c=c)
        b = s.open(); c = s.open()
        s.data(a, s.submit()); s.st(op='peer', c=a)
        out.append(s)
        s = S('apart', p, rnd, cap=40, timed=True, force=10**9)
        for k in range(0, 21 if tier == 'quick' else 26):
            s.open(); s.adv(2 ** k)
        for c in range(0, s.nc, 2): s.st(op='peer', c=c)
        s.open(5)
        out.append(s)
        s = S('refused_data', p, rnd, cap=1)   # a refused connection's bytes and end harm nobody
        a = s.logged()
        b = s.open()
        s.data(b, s.login()); s.st(op='peer', c=b)
        s.data(a, s.submit())
        s.st(op='tick')
        out.append(s)
    for p in PROTOS: out += terminating(rnd, p, 3)
    return out

def c05(rnd, tier):
    out = []
    n = 60 if tier == 'quick' else 500
    for i in range(n):
        p = PROTOS[i % 3]
        s = S('segments', p, rnd, dmin=5, dmax=6)
        s.d['accounts'][s.A()].update(w=12, tput=1000)
        c = s.open()
        pks = [s.login()]
        body = [some_pk(s, rnd.choice([k for k in kinds(p) if k not in ('term', 'tresp')])) for _ in range(rnd.randrange(1, 6))]
        # a one byte at a time, b everything at once, c random cuts
        mode = rnd.randrange(4)
        if mode == 0:
            s.data(c, s.login(), cut=list(range(1, 80)))
            s.data(c, *body[:3], cut=list(range(1, 60 if tier == 'quick' else 600)))
        elif mode == 1:
            s.data(c, s.login()); s.data(c, *body)
        elif mode == 2:
            s.data(c, s.login(), cut=randcuts(rnd, 2, 40)); s.data(c, *body, cut=randcuts(rnd, rnd.randrange(1, 6), 800))
        else:   # the segments of one packet end inside the next one's header
            s.data(c, s.login()); s.data(c, *body, cut=[-rnd.randrange(1, 14), -1] if rnd.random() < .5 else sorted([12 * rnd.randrange(1, 30) + rnd.randrange(-1, 2) for _ in range(3)]))
        s.adv(200)
        if rnd.random() < .5: s.data(c, s.pk('term'), s.submit())
        out.append(s)
    for p in PROTOS:
        for bad in (0, 1, 3, 4, 7, 8, 9, 10, 11, 5121, 6000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 'cmd'):
            for pos in range(2):
                s = S('illegal', p, rnd)
                c = s.open()
                b = {'k': 'len', 'cmd': bad} if bad != 'cmd' else {'k': 'cmd', 'cmd': rnd.choice([0, 10, 0x80000000, 99, 0x40000001, 0xFFFFFFFF, 0x8000000A]), 'len': rnd.randrange(20)}
                s.data(c, s.login())
                if pos: s.data(c, s.submit(), b, s.submit(), cut=randcuts(rnd, rnd.randrange(3), 300))
                else: s.data(c, b, s.submit(), cut=rnd.choice([[], [3], [7], [11], [12]]))
                out.append(s)
        s = S('edges', p, rnd)   # the largest legal packet, and packets without a body
        c = s.open()
        s.data(c, s.login())
        known = {'cmpp': 6, 'smgp': 0x80000006, 'sgip': 0x80000005}[p]
        s.data(c, {'k': 'cmd', 'cmd': known, 'len': 5108}, s.submit(), cut=rnd.choice([[], [11], [2000, 5119], [5120]]))
        s.adv(100)
        s.data(c, {'k': 'cmd', 'cmd': known, 'len': 5109})
        out.append(s)
        for size in (6000, 11000, 40000, 100000):     # very many octets at once, all of them whole packets
            s = S('flood', p, rnd, dmin=1, dmax=2, rdelay=5)
            s.d['accounts'][s.A()].update(w=60, tput=100000)
            a, c = s.logged(), s.logged()
            pks, n = [], 0
            while n < size:
                x = {'k': 'cmd', 'cmd': known, 'len': rnd.choice([0, 8, 300, 2000, 5108])} if len(pks) > 40 or rnd.random() < .6 else s.submit(rnd.choice([1, 1, 20]))
                n += 12 + x['len'] + (200 if x['k'] == 'submit' else 0)
                pks.append(x)
            s.data(c, *pks, s.submit(), cut=rnd.choice([[], [], [5], [size // 2]]))
            s.data(a, s.submit())
            s.adv(300)
            out.append(s)
    # several logged-in connections on one loop, their segments interleaved
    for i in range(12 if tier == 'quick' else 100):
        p = PROTOS[i % 3]
        s = S('interleaved', p, rnd, loops=1)
        s.d['accounts'][s.A()].update(max=5, w=10)
        cs = [s.logged(), s.logged()]
        steps = []
        for c in cs:
            steps.append({'op': 'data', 'c': c, 'pk': [s.submit() for _ in range(3)], 'cut': randcuts(rnd, 4, 500)})
        # alternate cuts by hand: par pushes all segments of one before the other, so use two rounds
        s.st(op='par', steps=steps)
        s.adv(100)
        s.data(cs[0], s.submit(), cut=[5], nw=True)
        s.data(cs[1], s.submit(), cut=[200])
        out.append(s)
    return out

FIXED = {  # body octets before which a packet of this kind cannot be complete (SGIP: after the sequence number)
    'cmpp': {'login': 27, 'submit': 117, 'dresp': 12}, 'smgp': {'login': 30, 'submit': 100, 'dresp': 14},
    'sgip': {'login': 33, 'submit': 100, 'tresp': 8, 'term': 8}}

def c06(rnd, tier):
    out = []
    for p in PROTOS:
        for k, n in FIXED[p].items():
            cuts = sorted(set([0, 1, n // 2, n - 1] + [rnd.randrange(n) for _ in range(2 if tier == 'quick' else 20)]))
            for cut in cuts:
                if p == 'cmpp' and k == 'dresp' and cut < 0: continue
                for pos in (False, True):
                    if k == 'login' and pos: continue
                    if k == 'aresp' and cut >= 1: continue
                    s = S('short', p, rnd)
                    s.d['accounts'][s.A(1)] = acct(p, 1)
                    o = s.logged(1)
                    c = s.open()
                    if k != 'login': s.data(c, s.login())
                    m = dict(s.login() if k == 'login' else some_pk(s, k), k='mal', of=k, cut=cut)
                    s.data(c, m)
                    s.data(o, s.submit())
                    s.adv(100)
                    out.append(s)
    for p in PROTOS:       # counts and lengths that lie, at every place of a body
        ats = [(k, at, w) for k in ('submit', 'dresp') if k in FIXED[p] for at in range(FIXED[p][k] + 60) for w in (True, False)]
        rnd.shuffle(ats)
        step = 8
        for i in range(0, len(ats), step):
            s = S('lies', p, rnd)
            s.d['accounts'][s.A()]['max'] = step
            s.d['accounts'][s.A(1)] = acct(p, 1)
            o = s.logged(1)
            for k, at, w in ats[i:i + step]:
                c = s.logged()
                s.data(c, dict(some_pk(s, k), k='lie', of=k, cut=at, wide=w, seed=rnd.choice([0, rnd.randrange(200)])))
                s.adv(100)
                s.st(op='peer', c=c)
            s.data(o, s.submit())
            s.adv(100)
            out.append(s)
    for p in PROTOS:       # lengths no packet has
        for n in list(range(12)) + [5121, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF]:
            s = S('lengths', p, rnd)
            s.d['accounts'][s.A(1)] = acct(p, 1)
            o = s.logged(1)
            c = s.open()
            if rnd.random() < .6: s.data(c, s.login())
            s.data(c, {'k': 'len', 'cmd': n}, *([s.submit()] if rnd.random() < .5 else []), cut=rnd.choice([[], [11], [12]]))
            s.data(o, s.submit())
            s.adv(100)
            out.append(s)
    for i in range(100 if tier == 'quick' else 1500):
        p = PROTOS[i % 3]
        s = S('fuzz', p, rnd)
        s.d['accounts'][s.A(1)] = acct(p, 1)
        o = s.logged(1)
        c = s.open()
        if rnd.random() < .7: s.data(c, s.login())
        f = [{'k': rnd.choice(['fuzz', 'fuzz', 'noise']), 'seed': rnd.randrange(1 << 40)} for _ in range(rnd.randrange(1, 4))]
        s.data(c, *f, cut=randcuts(rnd, rnd.randrange(3), 200))
        s.data(o, s.submit())
        s.adv(100)
        out.append(s)
    return out

def submits(s, cs, n, gap=None, extra=0):
    rnd = s.rnd
    for _ in range(n):
        c = rnd.choice(cs)
        k = [s.submit(rnd.choice([1, 1, 1, 2, 5])) for _ in range(rnd.choice([1, 1, 2, 3]))]
        if extra and rnd.random() < extra:
            k.insert(rnd.randrange(len(k) + 1), some_pk(s, rnd.choice([x for x in kinds(s.proto) if x not in ('term', 'tresp')])))
        s.data(c, *k)
        s.adv(rnd.choice(gap or [1, 5, 20, 100]))

def c07(rnd, tier):
    out = []
    for i in range(48 if tier == 'quick' else 500):
        p = PROTOS[i % 3]
        rate = rnd.choice([1, 1, -1, 0.5])
        s = S('answers', p, rnd, rate=rate, jit=rnd.random() < .5, dmin=rnd.choice([0, 1, 20]), dmax=rnd.choice([0, 2, 60]), rdelay=rnd.choice([0, 1, 50]))
        if i % 6 == 5: s.d.update(dmin=rnd.choice([1500, 12000]), dmax=rnd.choice([0, 14000]))
        v = rnd.choice([48, 32]) if p == 'cmpp' else 48
        s.d['accounts'][s.A()].update(w=rnd.choice([1, 2, 6]), tput=rnd.choice([50, 1000]), ver=v, max=3)
        cs = [s.logged() for _ in range(rnd.randrange(1, 3))]
        submits(s, cs, rnd.randrange(2, 7), extra=.3)
        if i % 6 == 5: s.adv(400000)
        out.append(s)
    for p in PROTOS:   # the account disappears while its session works
        s = S('account_gone', p, rnd, dmin=20, dmax=21)
        c = s.logged()
        s.data(c, s.submit())
        s.st(op='rm', a=s.A())
        s.data(c, s.submit())
        s.adv(200)
        s.data(c, s.submit())
        s.st(op='tick')
        s.adv(200)
        s.st(op='add', a=s.A())
        s.data(c, s.submit())
        out.append(s)
        # parallel sessions
        s = S('parallel', p, rnd, jit=True)
        s.d['accounts'][s.A()].update(w=6, max=4)
        cs = [s.logged() for _ in range(4)]
        for _ in range(3):
            s.st(op='par', steps=[{'op': 'data', 'c': c, 'pk': [s.submit(), s.submit()]} for c in cs])
            s.adv(60)
        out.append(s)
        # a session's loop is slow: answers wait to be written
        s = S('slowloop', p, rnd, hold=True)
        c = s.logged(); s.st(op='run', c=c, n=1)
        for _ in range(3):
            s.data(c, s.submit(), s.submit())
            s.adv(30)
            s.st(op='run', c=c, n=rnd.randrange(3))
        out.append(s)
    return out

def c08(rnd, tier):
    out = []
    for i in range(48 if tier == 'quick' else 600):
        p = PROTOS[i % 3]
        w = rnd.choice([1, 2, 3, 5])
        tput = rnd.choice([0, 10, 40, 100, 200, 7, 999])
        ev = 10000 if tput == 0 else 1000000 // tput
        # window kept wide open by instantaneous processing: only the bucket decides
        s = S('bucket', p, rnd, dmin=0, dmax=0, rdelay=0, rate=rnd.choice([1, -1]), jit=False)
        s.d['accounts'] = {s.A(0): acct(p, 0, w=w, tput=tput, max=3), s.A(1): acct(p, 1, w=2, tput=50)}
        cs = [s.logged(0) for _ in range(rnd.choice([1, 1, 2]))] + ([s.logged(1)] if rnd.random() < .4 else [])
        for _ in range(rnd.randrange(4, 12)):
            c = rnd.choice(cs)
            k = [s.submit(ln=5) for _ in range(rnd.choice([1, 1, 1, 2, w, w + 2]))]
            if rnd.random() < .3: k.insert(0, some_pk(s, rnd.choice([x for x in kinds(p) if x not in ('term', 'tresp', 'submit')] or ['submit'])))
            s.data(c, *k)
            g = rnd.choice([1, 1, max(1, ev // 1000 - 1), ev // 1000 + 1, 2 * ev // 1000 + 1, w * ev // 1000 + 1, 3])
            s.adv(max(1, g))
        out.append(s)
    for p in PROTOS:
        s = S('steady', p, rnd, dmin=0, dmax=0, rdelay=0)
        s.d['accounts'][s.A()].update(w=3, tput=100)
        c = s.logged()
        for k in range(25):
            s.data(c, s.submit(ln=5))
            s.adv(5 if k < 15 else 10)
        out.append(s)
        s = S('long_idle', p, rnd, dmin=0, dmax=0, rdelay=0)   # the bucket never exceeds its capacity
        s.d['accounts'][s.A()].update(w=2, tput=1000)
        c = s.logged()
        s.adv(30000)
        s.data(c, *[s.submit(ln=5) for _ in range(5)])
        s.adv(1000)
        s.data(c, *[s.submit(ln=5) for _ in range(5)])
        out.append(s)
    return out

def c09(rnd, tier):
    out = []
    for i in range(48 if tier == 'quick' else 500):
        p = PROTOS[i % 3]
        w = rnd.choice([1, 2, 3, 4])
        D = rnd.choice([20, 50, 200])
        rnge = rnd.choice([0, 0, 30])
        R = 0 if p == 'sgip' else rnd.choice([0, 40, 100])
        s = S('window', p, rnd, timed=True, dmin=D, dmax=D + rnge, rdelay=R, rate=rnd.choice([1, 1, -1, .5]) if not R or rnd.random() < .5 else 1)
        if s.d['rate'] == .5 and R: s.d['rate'] = 1
        s.d['accounts'][s.A()].update(w=w, tput=rnd.choice([1000, 1000, 20]), max=2)
        cs = [s.logged() for _ in range(rnd.choice([1, 1, 2]))]
        # at most 2w of a session's requests outstanding
        for _ in range(rnd.randrange(1, 4)):
            for c in cs:
                left = 2 * w - 1 if w > 1 else 1
                first = min(w, left)
                s.data(c, *[s.submit(ln=5) for _ in range(first)])
                left -= first
                s.adv(rnd.choice([2, 5, D // 2]))
                while left > 0:
                    n = rnd.randrange(1, left + 1)
                    x = [s.submit(ln=5) for _ in range(n)]
                    if p != 'sgip' and rnd.random() < .4: x[-1] = s.pk(rnd.choice(['active', 'dresp', 'aresp']))
                    s.data(c, *x)
                    left -= n
                    s.adv(rnd.choice([1, 3, 7]))
            s.adv(3 * (D + rnge + R) + 50)
        out.append(s)
    for i in range(12 if tier == 'quick' else 100):   # more than the pool can hold: the loop waits, nothing is lost
        p = PROTOS[i % 3]
        w = rnd.choice([1, 2])
        s = S('overload', p, rnd, dmin=300, dmax=300, rdelay=0 if p == 'sgip' else rnd.choice([0, 100]))
        s.d['accounts'][s.A()].update(w=w, tput=1000000)
        c = s.logged()
        for _ in range(rnd.randrange(3 * w, 5 * w + 1)):
            s.data(c, s.submit(ln=5))
            s.adv(1)
        if p != 'sgip': s.data(c, s.pk('active'))
        s.adv(6000)
        s.data(c, s.submit(ln=5))
        out.append(s)
    for p in PROTOS:   # nor does any kind of packet keep its place when heartbeats are unanswered, or when refused
        for late in (0, 1, 2):
            for k in kinds(p):
                if k in ('login', 'term', 'tresp'): continue
                s = S('idle_' + k, p, rnd, timed=True, dmin=200, dmax=200, rdelay=0 if p == 'sgip' else 20, force=100000000, rate=rnd.choice([1, 1, -1]))
                w = rnd.choice([1, 2, 3])
                s.d['accounts'][s.A()].update(w=w, tput=rnd.choice([1000, 3]))
                c = s.logged()
                s.adv(61000)
                for _ in range(late): s.st(op='tick'); s.adv(2000)
                for _ in range(w + 1):
                    s.data(c, some_pk(s, k)); s.adv(300)
                s.adv(3000)
                s.data(c, *[s.submit(ln=5) for _ in range(w)])
                s.adv(100)
                out.append(s)
    for p in PROTOS:   # every kind of outcome gives its place in the window back
        s = S('replenish', p, rnd, timed=True, dmin=10, dmax=10, rdelay=0 if p == 'sgip' else 20)
        s.d['accounts'][s.A()].update(w=2, tput=100)
        c = s.logged()
        for k in range(10):
            s.data(c, *[s.submit(ln=5) for _ in range(3)])
            s.adv(rnd.choice([30, 60]))
            if p != 'sgip':
                s.data(c, s.pk(rnd.choice(['active', 'dresp', 'aresp'])))
            s.adv(40)
        s.data(c, *[s.submit(ln=5) for _ in range(2)])
        out.append(s)
    return out

def c10(rnd, tier):
    out = []
    for i in range(40 if tier == 'quick' else 500):
        p = PROTOS[i % 2] if i % 8 else 'sgip'
        s = S('reports', p, rnd, timed=rnd.random() < .5, dmin=rnd.choice([0, 10, 10, 2500]), rdelay=rnd.choice([0, 1, 30, 200, 1000, 3000, 20000, 200000]), rate=rnd.choice([1, 1, 1, -1]),
              jit=False)
        s.d['dmax'] = s.d['dmin']
        w = rnd.choice([2, 4])
        s.d['accounts'][s.A()].update(w=w, tput=1000, ver=rnd.choice([48, 32]) if p == 'cmpp' else 48)
        cs = [s.logged() for _ in range(rnd.choice([1, 2]))]
        for _ in range(rnd.randrange(1, 5)):
            c = rnd.choice(cs)
            s.data(c, *[s.submit(rnd.choice([1, 1, 3])) for _ in range(rnd.randrange(1, w + 1))])
            s.adv(s.d['dmin'] + s.d['rdelay'] + rnd.choice([1, 50]))
        out.append(s)
    for i in range(14 if tier == 'quick' else 100):
        p = PROTOS[i % 2]
        s = S('mixed', p, rnd, dmin=1, dmax=5, rdelay=rnd.choice([1, 50]), rate=rnd.choice([.5, .8, 1]), jit=True)
        s.d['accounts'][s.A()].update(w=6, tput=200, max=3)
        cs = [s.logged() for _ in range(2)]
        submits(s, cs, 6)
        out.append(s)
    for p in ('cmpp', 'smgp'):   # the session goes before its reports
        for way in ('peer', 'term'):
            s = S('gone', p, rnd, rdelay=500)
            s.d['accounts'][s.A()].update(w=4)
            a, b = s.logged(), s.logged()
            s.data(a, s.submit(), s.submit()); s.data(b, s.submit())
            s.adv(100)
            s.st(op='peer', c=a) if way == 'peer' else s.data(a, s.pk('term'))
            s.adv(2000)
            out.append(s)
        # the account goes (and may come back) at any point of a submit that was accepted
        for at in ('before', 'processing', 'answered', 'reported'):
            s = S('account_gone', p, rnd, dmin=20, dmax=20, rdelay=100)
            c = s.logged()
            s.data(c, s.submit())
            if at == 'before':
                s.adv(130); s.st(op='rm', a=s.A()); s.data(c, s.submit())
            elif at == 'processing': s.adv(10); s.st(op='rm', a=s.A())
            elif at == 'answered': s.adv(50); s.st(op='rm', a=s.A())
            else: s.adv(110); s.st(op='rm', a=s.A())
            s.adv(400)
            s.st(op='add', a=s.A())
            s.data(c, s.submit())
            s.adv(400)
            out.append(s)
    # CMPP: many ids, so that the simulator's table of states is walked
    s = S('many', 'cmpp', rnd, dmin=0, dmax=0, rdelay=1)
    s.d['accounts'][s.A()].update(w=10, tput=1000)
    c = s.logged()
    for _ in range(11):
        s.data(c, *[s.submit(ln=5) for _ in range(10)])
        s.adv(20)
    out.append(s)
    return out

def c11(rnd, tier):
    out = []
    for i in range(36 if tier == 'quick' else 300):
        p = PROTOS[i % 3]
        force = rnd.choice([90000, 150000, 400000])
        s = S('ticks', p, rnd, timed=True, force=force, rdelay=20, loops=rnd.choice([0, 0, 1]))
        s.d['accounts'][s.A()].update(max=3)
        if rnd.random() < .3: s.d['mo'] = {'enable': True, 'rate': rnd.choice([1, 1, -1, .5]), 'contents': ['12_,_hi', '_,_a b']}
        cs = [s.logged() for _ in range(rnd.choice([1, 2]))] + ([s.open()] if rnd.random() < .3 else [])
        gap = rnd.choice([10000, 25000, 61000])
        style = rnd.choice(['silent', 'answers', 'mixed', 'uses'])
        t = 0
        while t < force * 1.5 and t < 700000:
            s.st(op='tick')
            s.adv(1500)
            for c in cs:
                if style == 'answers' or style == 'mixed' and rnd.random() < .4:
                    if p != 'sgip': s.data(c, s.pk('aresp'))
                if style == 'uses' or style == 'mixed' and rnd.random() < .2:
                    s.data(c, some_pk(s, rnd.choice(['submit', 'active', 'dresp'] if p != 'sgip' else ['submit'])))
            s.adv(gap - 1500)
            t += gap
        out.append(s)
    for p in PROTOS:   # exact edges around the minute and around the limit
        for at in (59900, 60100, 120100, 119900):
            s = S('edge', p, rnd, timed=True, force=120000)
            c = s.logged()
            s.adv(at)
            s.st(op='tick')
            s.adv(1500)
            s.st(op='tick')
            out.append(s)
        if p == 'sgip': continue
        # three unanswered heartbeats; an answer resets the count
        for answered in (0, 1, 2, 3):
            s = S('unanswered', p, rnd, timed=True, force=100000000)
            c = s.logged()
            s.adv(61000)
            for k in range(6):
                s.st(op='tick')
                if k + 1 == answered:
                    s.data(c, s.pk('aresp'))
                    s.adv(61000)
                else: s.adv(10000)
            out.append(s)
        # heartbeats left unanswered before and after the session was used again: only an answer to one resets the count
        for use in ('submit', 'active', 'aresp', 'dresp', 'refused'):
            for before in (1, 2):
                s = S('again_' + use, p, rnd, timed=True, force=100000000, rdelay=10, rate=-1 if use == 'refused' else 1)
                c = s.logged()
                s.adv(61000)
                for _ in range(before): s.st(op='tick'); s.adv(5000)
                s.data(c, *[s.submit() if use in ('submit', 'refused') else s.pk(use) for _ in range(rnd.choice([1, 2, 5]))])
                s.adv(rnd.choice([61000, 65000]))
                for _ in range(4): s.st(op='tick'); s.adv(5000)
                out.append(s)
        # each kind of use
        for use in ('submit', 'active', 'aresp', 'dresp', 'none', 'refused'):
            s = S('use_' + use, p, rnd, timed=True, force=100000, rdelay=10, rate=-1 if use == 'refused' else 1)
            c = s.logged()
            for _ in range(5):
                s.adv(55000)
                if use in ('submit', 'refused'): s.data(c, s.submit()); s.adv(100)
                elif use != 'none': s.data(c, s.pk(use))
                s.st(op='tick')
                s.adv(1500)
            out.append(s)
        # messages to the phone do not count as use
        s = S('mo_nouse', p, rnd, timed=True, force=100000, mo={'enable': True, 'rate': 1, 'contents': ['1_,_hi', '22_,_\u4f60\u597d']})
        c = s.logged()
        for _ in range(8):
            s.adv(20000); s.st(op='tick'); s.adv(1200)
        out.append(s)
        # the report counts as use
        s = S('use_report', p, rnd, timed=True, force=1000000, dmin=10, dmax=10, rdelay=55000)
        c = s.logged()
        s.data(c, s.submit())
        s.adv(55100)
        s.adv(10000); s.st(op='tick')
        s.adv(49000); s.st(op='tick')
        s.adv(2000); s.st(op='tick')
        out.append(s)
    return out

def c12(rnd, tier):
    out = []
    for i in range(60 if tier == 'quick' else 600):
        p = PROTOS[i % 3]
        s = S('busy', p, rnd, dmin=50, dmax=rnd.choice([50, 90]), rdelay=rnd.choice([0, 40, 300]), jit=rnd.random() < .5, hold=rnd.random() < .25, loops=rnd.choice([0, 1]))
        s.d['accounts'][s.A()].update(w=rnd.choice([1, 2, 4]), tput=1000, max=4)
        cs = [s.logged() for _ in range(rnd.choice([1, 2, 3]))]
        if s.d['hold']:
            for c in cs: s.st(op='run', c=c, n=2)
        for c in cs:
            s.data(c, *[s.submit(ln=5) for _ in range(rnd.randrange(1, 5))])
        s.adv(rnd.choice([1, 20, 49, 51, 70, 95]))
        for c in cs:
            way = rnd.choice(['peer', 'term', 'tresp', 'wrfail', 'badcmd', 'none', 'tick', 'segment'])
            if way == 'peer': s.st(op='peer', c=c)
            elif way in ('term', 'tresp'): s.data(c, s.pk(way))
            elif way == 'segment': s.data(c, s.pk('term'), s.submit(), s.pk('active' if p != 'sgip' else 'term'))
            elif way == 'wrfail': s.st(op='wrfail', c=c)
            elif way == 'badcmd': s.data(c, s.submit(ln=5), {'k': 'cmd', 'cmd': 0x66, 'len': 0})
            elif way == 'tick': s.st(op='tick')
            if rnd.random() < .3: s.adv(rnd.choice([1, 30]))
            if s.d['hold'] and rnd.random() < .5: s.st(op='run', c=c, n=2)
        s.adv(rnd.choice([10, 1000]))
        if s.d['hold']: s.st(op='release')
        s.adv(1000)
        c = s.logged()
        s.data(c, s.submit())
        out.append(s)
    for p in PROTOS:
        s = S('terminate', p, rnd)
        a, b = s.logged(), s.logged()
        s.data(a, s.pk('term'))
        s.data(b, s.pk('tresp'))
        c = s.logged()
        s.data(c, s.submit())
        out.append(s)
        s = S('term_hold', p, rnd, hold=True)
        a = s.logged(); s.st(op='run', c=a, n=1)
        s.data(a, s.pk('term'))
        s.data(a, s.submit())
        s.st(op='run', c=a, n=1)
        s.data(a, s.submit())
        s.st(op='run', c=a, n=5)
        out.append(s)
        # the session waits for a full window when it goes
        for way in ('peer', 'badcmd'):
            s = S('full', p, rnd, dmin=500, dmax=500, rdelay=200)
            s.d['accounts'][s.A()].update(w=1, tput=1000000)
            a = s.logged()
            for _ in range(3): s.data(a, s.submit(ln=5)); s.adv(1)
            s.st(op='peer', c=a) if way == 'peer' else s.data(a, {'k': 'cmd', 'cmd': 0x66, 'len': 0})
            s.adv(5000)
            b = s.logged(); s.data(b, s.submit())
            out.append(s)
    return out

def c13(rnd, tier):
    out = []
    for i in range(45 if tier == 'quick' else 500):
        p = PROTOS[i % 3]
        s = S('counters', p, rnd, rate=rnd.choice([1, .5, -1]), jit=rnd.random() < .5, dmin=1, dmax=5, rdelay=rnd.choice([0, 20]),
              mo={'enable': rnd.random() < .6, 'rate': rnd.choice([1, 1, .5]), 'contents': ['1_,_hi', '_,_xyz', '9_,_\u4e2d']}, force=10000000)
        s.d['accounts'][s.A()].update(w=4, tput=rnd.choice([50, 1000]), max=3)
        cs = [s.logged() for _ in range(rnd.choice([1, 2, 3]))] + ([s.open()] if rnd.random() < .3 else [])
        if len(cs) > 3 or rnd.random() < .1: s.d['accounts'][s.A()]['max'] = 1
        live = cs[:]
        for _ in range(rnd.randrange(3, 8)):
            if not live: break
            c = rnd.choice(live)
            r = rnd.random()
            if r < .55: s.data(c, *[s.submit() for _ in range(rnd.randrange(1, 4))])
            elif r < .75: s.st(op='tick')
            elif r < .85:
                live.remove(c)
                if rnd.random() < .5: s.st(op='peer', c=c)
                else: s.data(c, s.pk('term'))
            s.adv(rnd.choice([1, 10, 60]))
        out.append(s)
    for i in range(24 if tier == 'quick' else 300):
        # the connection goes while answers, reports and messages are due, or wait to be written
        p = PROTOS[i % 3]
        s = S('counters_busy', p, rnd, dmin=20, dmax=rnd.choice([20, 40]), rdelay=rnd.choice([100, 200]), hold=rnd.random() < .5,
              mo={'enable': rnd.random() < .5, 'rate': 1, 'contents': ['1_,_hi']}, force=10000000)
        s.d['accounts'][s.A()].update(w=4, tput=1000, max=3)
        cs = [s.logged() for _ in range(rnd.choice([1, 2]))]
        if s.d['hold']:
            for c in cs: s.st(op='run', c=c, n=1)
        for c in cs:
            s.data(c, *[s.submit(ln=5) for _ in range(rnd.randrange(1, 4))])
        s.adv(rnd.choice([10, 25, 45, 110, 130, 150, 250]))
        for c in cs:
            if s.d['hold']: s.st(op='run', c=c, n=rnd.randrange(3))
            if rnd.random() < .4: s.data(c, s.submit(ln=5)); s.adv(30)
            if rnd.random() < .5: s.st(op='tick')
            if s.d['hold']: s.st(op='run', c=c, n=rnd.randrange(2))
            way = rnd.choice(['peer', 'badcmd', 'wrfail', 'peer'])
            if way == 'badcmd': s.data(c, {'k': 'cmd', 'cmd': 0x66, 'len': 0})
            else: s.st(op=way, c=c)
            if rnd.random() < .5: s.adv(rnd.choice([10, 60]))
        s.adv(500)
        out.append(s)
    return out

def c39(rnd, tier):
    """the gateway's own requests: many at a time, on many connections"""
    out = []
    for i in range(70 if tier == 'quick' else 700):
        p = PROTOS[rnd.choice([0, 0, 1, 1, 2])]
        s = S('own', p, rnd, jit=rnd.random() < .5, loops=rnd.choice([0, 0, 3]), rdelay=rnd.choice([0, 1, 50]), dmin=rnd.choice([0, 5]), dmax=rnd.choice([5, 40]),
              rate=1, force=rnd.choice([120000, 600000, 86400000]),
              mo={'enable': rnd.random() < .8, 'rate': 1, 'contents': ['1_,_hi', '22_,_' + 'x' * 60]})
        s.d['accounts'][s.A()].update(max=9, w=rnd.choice([1, 4, 16]))
        same = i % 3 == 0       # every peer counts for itself: equal numbers on different connections
        cs = [s.logged() for _ in range(rnd.choice([2, 3]) if same else rnd.choice([1, 2, 4]))]
        for _ in range(rnd.randrange(2, 9)):
            w = rnd.random()
            if w < .5 and same:
                base = s.n
                for c in rnd.sample(cs, 2):
                    s.n = base
                    s.data(c, s.submit())
                    s.adv(rnd.choice([0, 1, 30]))
                s.adv(200)
            elif w < .5:
                for c in rnd.sample(cs, min(2, len(cs))):
                    s.data(c, *[s.submit() for _ in range(rnd.randrange(1, 3))])
                    s.adv(rnd.choice([0, 1, 30]))
                s.adv(200)
            elif w < .8: s.adv(rnd.choice([1, 1000, 59999, 61000, 61000, 180000])).st(op='tick')
            else:
                c = rnd.choice(cs)
                s.data(c, some_pk(s, rnd.choice([k for k in kinds(p) if k not in ('term', 'tresp')])))
        s.adv(5000)
        out.append(s)
    for i in range(12 if tier == 'quick' else 120):     # sessions that end side by side
        p = PROTOS[i % 3]
        s = S('own_ends', p, rnd, jit=True, force=1000, loops=rnd.choice([0, 3]))
        s.d['accounts'][s.A()].update(max=9)
        for _ in range(rnd.randrange(2, 6)): s.logged()
        s.adv(1500).st(op='tick').adv(5000)
        out.append(s)
    return out

FAMILIES = {'C39': c39, 'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07, 'C08': c08, 'C09': c09,
            'C10': c10, 'C11': c11, 'C12': c12, 'C13': c13}

# ---------------------------------------------------------------- running

EXACT = ('bucket', 'steady', 'long_idle')

def spec_cfg(d):
    rate = 'ok' if d['rate'] >= 1 else 'fail' if d['rate'] < 0 else 'mix'
    mr = d['mo']['rate']
    return {'proto': d['proto'], 'cap': d['cap'], 'dlo': d['dmin'] * US,
            'dhi': (d['dmax'] - 1 if d['dmax'] > d['dmin'] else d['dmin']) * US, 'rd': d['rdelay'] * US, 'rate': rate,
            'force': min(d['force'] * US, 2000000000), 'idle': 60000000, 'grace': 1000000, 'timed': d['timed'], 'moEnable': d['mo']['enable'],
            'moRate': 'all' if mr >= 1 else 'none' if mr < 0 else 'some',
            'moPhone': '18600001111' if d['proto'] == 'cmpp' else '13300001111',
            'contents': [c.split('_,_') for c in d['mo']['contents']], 'tol': 2,
            'loose': not d['timed'] and d['fam'] not in EXACT}

def spec_accts(d):
    return {i: {'max': a['max'], 'w': a['w'], 'ev': 1000000 // a['tput'] if a['tput'] else 10000,
                'ver': a['ver'] >> 4, 'no': a['no'], 'svc': a['svc']} for i, a in d['accounts'].items()}

def drive(binary, scns, timeout=600, shard=None):
    """Runs scenarios through the real server; returns {tid: [events]} for all of them."""
    sd = '%s/run%s/msc_server' % (scratch(), shard if shard is not None else '')
    os.makedirs(sd + '/config', exist_ok=True)
    shutil.copy(REPO + '/msc_server/config/config.yaml', sd + '/config/config.yaml')
    todo, got = list(scns), {}
    env = dict(os.environ, GOMAXPROCS='4')
    for attempt in range(len(scns) + 2):
        if not todo: return got
        fin, fout = sd + '/in.ndjson', sd + '/out.ndjson'
        with open(fin, 'w') as f:
            f.write(''.join(json.dumps(d) + '\n' for d in todo))
        open(fout, 'w').close()
        env.update(VERIF_IN=fin, VERIF_OUT=fout)
        try:
            p = subprocess.run([binary, '-test.run', 'TestDrive', '-test.timeout', '0'], cwd=sd, env=env, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Infra('driver timed out')
        for l in open(fout):
            o = json.loads(l)
            got[o['tid']] = o['ev']
        rest = [d for d in todo if d['tid'] not in got]
        if p.returncode == 0 and 'DONE' in p.stderr:
            if rest: raise Infra('driver lost scenarios')
            return got
        if p.returncode != 3:
            cur = re.findall(r'^BEGIN (\d+)', p.stderr, re.M)
            if not cur: raise Infra('driver failed: %s %s' % (p.stdout[-500:], p.stderr[-3000:]))
            cur = int(cur[-1])
            if cur in got: raise Infra('driver failed after a scenario: ' + p.stderr[-3000:])
            # the process died, or hung, while running the real server
            what = 'stuck' if p.returncode == 4 else 'crash'
            full = p.stderr
            i = full.rfind('BEGIN %d' % cur)
            txt = full[i:]
            if what == 'crash' and ('panic' not in txt + p.stdout[-20000:] and 'fatal error' not in txt and 'deadlock' not in txt + p.stdout[-20000:]):
                raise Infra('driver died without a Go panic: rc=%d %s' % (p.returncode, txt[-2000:]))
            if 'msc_server' not in txt + p.stdout[-20000:]:
                raise Infra('driver died outside the server: rc=%d %s' % (p.returncode, txt[-3000:]))
            got[cur] = [{'e': what, 't': 0, 'msg': (txt + p.stdout[-6000:])[-6000:]}]
            rest = [d for d in rest if d['tid'] != cur]
        todo = rest
        if sum(1 for e in got.values() if e and e[-1]['e'] in ('crash', 'stuck', 'leak')) >= 5:
            return got   # enough evidence
    return got

def to_trace(d, ev):
    return {'tid': d['tid'], 'fam': d['fam'], 'cfg': spec_cfg(d), 'accts': spec_accts(d), 'ev': ev}

GEN = {  # group -> (constants, length, milliseconds per unit of time, scenario settings)
    'conn': (dict(CONNS='{1, 2, 3}', CAP='2', NSEQ='12', KINDS='{"login", "loginB", "loginU", "submit", "active", "badcmd", "mal"}', PAIRS='TRUE', STORE='TRUE'),
             9, 50, dict(cap=2)),
    'serve': (dict(CONNS='{1, 2}', CAP='2', MAXC='2', W='2', NSEQ='14', TMAX='20', KINDS='{"login", "submit", "active", "aresp", "dresp"}', PAIRS='TRUE'),
              14, 20, dict(cap=2, dmin=20, dmax=20, rdelay=20)),
    'tick': (dict(CONNS='{1, 2}', CAP='2', MAXC='2', W='2', NSEQ='9', TMAX='14', KINDS='{"login", "submit", "active", "aresp"}', TICKS='TRUE', MO='TRUE', FORCE='6'),
             22, 31000, dict(cap=2, timed=True, dmin=0, dmax=0, rdelay=0, force=186000, mo={'enable': True, 'rate': 1, 'contents': ['1_,_hi']})),
    'end': (dict(CONNS='{1, 2}', CAP='2', MAXC='1', W='1', NSEQ='12', TMAX='9', KINDS='{"login", "submit", "term", "tresp", "active", "badcmd"}', PAIRS='TRUE'),
            11, 30, dict(cap=2, dmin=40, dmax=40, rdelay=50)),
}
BIND = {'conn': dict(max=1, w=1), 'serve': dict(max=2, w=2, tput=50), 'tick': dict(max=2, w=2), 'end': dict(max=1, w=1)}

def from_spec(prop, tier, rnd, res):
    """Scenarios generated from the specification itself."""
    g = gwmc.GROUP[prop]
    consts, length, ms, kw = GEN[g]
    out = []
    todo = [(length, False, 60, False), (length, True, 60, False)] if tier == 'quick' else \
           [(length, False, 1500, False), (length, True, 1500, False), (length + 6, False, 500, False), ({'conn': 4, 'serve': 4, 'tick': 5, 'end': 4}[g], False, 0, True)]
    for (ln, hold, num, exhaustive) in todo:
        if hold and kw.get('timed'): hold = False
        hs, r = gwmc.stimuli(consts, ln, hold, num, rnd.randrange(1 << 30), exhaustive)
        res.add_mc('GatewayGen: %s, stimuli of length %d%s' % (g, ln, ' (all of them)' if exhaustive else ''), r)
        if len(hs) > 3000: hs = rnd.sample(hs, 3000)
        if not exhaustive and len(hs) > 3 * num: hs = rnd.sample(hs, 3 * num)
        for h in hs:
            p = rnd.choice(PROTOS)
            s = S('spec_' + g, p, rnd, hold=hold, jit=rnd.random() < .3 and not kw.get('timed'), **kw)
            s.d['accounts'][s.A()].update(BIND[g])
            bind(s, h, ms, rnd)
            out.append(s)
    return out

def bind(s, h, ms, rnd):
    opened = set()
    for x in h:
        op = x['op']
        if op == 'open':
            opened.add(x['c']); s.st(op='open', c=x['c']); s.nc = max(s.nc, x['c'] + 1)
        elif op == 'peer': s.st(op='peer', c=x['c'])
        elif op == 'adv': s.adv(ms)
        elif op == 'tick': s.st(op='tick')
        elif op in ('rm', 'add'): s.st(op=op, a=s.A())
        elif op == 'data':
            pk = []
            for k in x['pk']:
                if k == 'login': pk.append(s.login())
                elif k == 'loginB': pk.append(s.login(bad=True))
                elif k == 'loginV': pk.append(s.login(ver=32))
                elif k == 'loginU': pk.append(s.login('zz9'))
                elif k == 'submit': pk.append(s.submit(ln=rnd.randrange(1, 60)))
                elif k == 'badcmd': pk.append({'k': 'cmd', 'cmd': 0x77, 'len': rnd.randrange(30)})
                elif k == 'mal':
                    of = rnd.choice(list(FIXED[s.proto]))
                    pk.append(dict(s.login() if of == 'login' else some_pk(s, of), k='mal', of=of, cut=rnd.randrange(FIXED[s.proto][of])))
                elif k not in kinds(s.proto): pk.append(s.submit(ln=5))
                else: pk.append(s.pk(k))
            s.data(x['c'], *pk, cut=randcuts(rnd, rnd.randrange(2), 150))
        if s.d['hold'] and opened and rnd.random() < .5:
            s.st(op='run', c=rnd.choice(sorted(opened)), n=rnd.randrange(1, 3))

def run(prop, tier, res):
    gwmc.check_model(prop, tier, res)
    rnd = random.Random('%s-%d' % (prop, SEED))
    scns = [s.d for s in FAMILIES[prop](rnd, tier) + from_spec(prop, tier, rnd, res)]
    for k, d in enumerate(scns):
        d['tid'] = k
        colour(d, rnd)
    res.assumptions += ['gnet delivers connection events on one loop goroutine per connection, in order, and runs AsyncWrite/Close callbacks on that loop (the driver stands in for gnet)',
                        'synctest virtual time stands in for the clock']
    check_scenarios(prop, scns, res)

def parallel_drive(binary, scns, n=6):
    from concurrent.futures import ThreadPoolExecutor
    shards = [scns[k::n] for k in range(n)]
    got = {}
    with ThreadPoolExecutor(n) as ex:
        for g in ex.map(lambda a: drive(binary, a[1], shard=a[0]), [(k, s) for k, s in enumerate(shards) if s]):
            got.update(g)
    return got

def check_scenarios(prop, scns, res):
    binary = B.build(scratch(), 'srv')
    t = time.time()
    got = parallel_drive(binary, scns)
    tdrive = time.time() - t
    order = [d for d in scns if d['tid'] in got]
    lines = [to_trace(d, got[d['tid']]) for d in order]
    bad, r = T.judge('GatewayTrace', lines)
    res.traces += len(lines)
    res.states += r.distinct
    res.transitions += r.generated
    nev = {}
    for l in lines:
        for e in l['ev']:
            k = e['e'] + (':' + e['p']['k'] if e['e'] == 'wr' else '')
            nev[k] = nev.get(k, 0) + 1
    res.extra['events_validated'] = nev
    res.extra['scenario_families'] = {f: sum(1 for d in order if d['fam'] == f) for f in sorted({d['fam'] for d in order})}
    res.extra['drive_s'], res.extra['judge_s'] = round(tdrive, 1), round(r.wall, 1)
    res.samples += [{'scenario': order[k]['fam'], 'proto': order[k]['proto'], 'events': [brief(e) for e in lines[k]['ev'][:25]]} for k in (0, len(lines) // 2)]
    for k in bad[:3]:
        at, state = T.explain('GatewayTrace', lines[k])
        ev = lines[k]['ev']
        e = ev[at - 1] if 0 < at <= len(ev) else None
        p = write_replay(prop, {'property': prop, 'scenario': order[k], 'rejected_at': at, 'event': e, 'spec_state_before': state,
                                'trace': lines[k]}, '%d-%d' % (SEED, order[k]['tid']))
        res.violation('%s: the real server did what Gateway.tla does not allow: scenario %s (%s), event %d: %s' %
                      (prop, order[k]['fam'], order[k]['proto'], at, json.dumps(e)[:400]), p)
    res.extra['rejected'] = len(bad)

def brief(e):
    return ' '.join('%s=%s' % (k, json.dumps(v)) for k, v in e.items())[:200]
