"""C26: the account store."""
import json, os, random, re, time
from common import *
from drive import drive
import build as B, trace as T, ids
from concurrent.futures import ThreadPoolExecutor

def cfg(name, inv, **c):
    d = dict(STEPS='5', BREAK='""', HIST='0')
    d.update(c)
    p = '%s/st_%s.cfg' % (scratch(), name)
    with open(p, 'w') as f:
        f.write('SPECIFICATION Spec\nCONSTANTS\n%s\n%s\nCHECK_DEADLOCK FALSE\n' % ('\n'.join('  %s = %s' % kv for kv in d.items()), inv))
    return p

def model(tier, res):
    big = tier == 'thorough'
    r = model_check('StoreMC', cfg('mc', 'INVARIANT Seen', STEPS='6' if big else '4'), timeout=1200)
    res.add_mc('StoreMC', r)
    for b in ('piecemeal', 'merge'):
        n = tlc('StoreMC', cfg('neg' + b, 'INVARIANT Seen', BREAK='"%s"' % b))
        if 'is violated' not in n.out: raise Infra('negative control %s: %s' % (b, n.out[-1500:]))
    g = tlc('StoreMC', cfg('gen', 'INVARIANT Emit', STEPS='4' if big else '3', HIST='1'), timeout=600)
    if not g.complete: raise Infra('stimulus generation: ' + g.out[-2000:])
    return sorted(set(re.findall(r'^"OPS <<(.*)>>"$', g.out, re.M)))

o = lambda s: list(s.encode())
TEXTS = {'ClientId': 'client-id', 'LoginName': 'login-name', 'SharedSecret': 'shared-secret', 'SmsDisplayNo': 'sms-display-no', 'ServiceId': 'service-id',
         'FeeTerminalId': 'fee-terminal-id', 'FeeType': 'fee-type', 'FeeCode': 'fee-code', 'FixedFee': 'fixed-fee', 'LinkId': 'link-id'}
NUMS = {'Version': ('version', 256), 'NeedReport': ('need-report', 256), 'DefaultMsgLevel': ('default-msg-level', 256), 'FeeUserType': ('fee-user-type', 256),
        'FeeTerminalType': ('fee-terminal-type', 256), 'MaxConns': ('max-conns', 10000), 'MtWindowSize': ('mt-window-size', 10000), 'Throughput': ('throughput', 100000)}
DUR = {'2h': 7200, '90m': 5400, '1s': 1, '24h': 86400, '1h30m5s': 5405}

def contents(rnd, svc):
    """an account file and what it says; svc marks this version"""
    c, ls = {}, []
    for f, y in TEXTS.items():
        k = rnd.random()
        if f == 'ServiceId': v = svc
        elif k < .15: continue
        elif k < .25: ls.append(y + ':'); continue
        else: v = rnd.choice(['05', '0123', '95566', '1e3', '0x10', 'p@ss: word', 'a # b', "it's", ' lead', 'tail ', '密码', '', 'true', 'null', '~', '12:30', '%d' % rnd.randrange(10**9)])
        plain = re.fullmatch(r'\d+', v)
        c[f] = o(v)
        q = rnd.random()
        ls.append('%s: %s' % (y, v if plain and q < .6 else "'%s'" % v.replace("'", "''") if q < .8 else json.dumps(v, ensure_ascii=False)) + rnd.choice(['', '   # 注释']))
    for f, (y, m) in NUMS.items():
        if rnd.random() < .15: continue
        v = rnd.choice([0, 1, m - 1, rnd.randrange(m)])
        c[f] = o(str(v))
        ls.append('%s: %s' % (y, hex(v) if rnd.random() < .2 else v))
    if rnd.random() < .8:
        d = rnd.choice(list(DUR))
        c['MtValidDuration'] = o(str(DUR[d] * 10**9))
        ls.append('mt-valid-duration: ' + d)
    if rnd.random() < .3: ls.append('isp: ' + rnd.choice(['cmpp', 'XXXX', '']))
    if rnd.random() < .3: ls.append('something-else: [1, 2]')
    rnd.shuffle(ls)
    return c, '\n'.join(ls) + rnd.choice(['', '\n'])

BROKEN = ['max-conns: abc\nclient-id: "1"', '- a list', 'client-id: "unterminated', 'a: b: c', '\tclient-id: 1', 'version: 300', 'just text', 'client-id: {x: 1}']
NOISE = ['readme.yaml', 'x.yml', 'cmpp_1.json', 'cmpp_1.yaml.bak', '.yaml', 'a.yml', '_.yaml', '_x.yaml', 'yaml', 'cmpp_1.YAML', 'cm.yaml', 'abc.yml', '.hidden.yaml', 'smgp.yaml', '备注.yaml', 'cmpp_1']
IDS = ['123456', 'AbCdEf', 'abcdef', '1', '3037196688', 'a_b', 'sp-01', 'X.yml', 'ünï', 'ABC', 'a b']
ISPS = ['cmpp', 'smgp', 'sgip']
case_of = lambda rnd, s: rnd.choice([s, s, s.upper(), s.capitalize(), s[:2] + s[2:].upper()])

class Gen:
    def __init__(self, rnd):
        self.rnd, self.v, self.keys, self.ops = rnd, 0, [], []
    def key(self, new=.5):
        if not self.keys or self.rnd.random() < new:
            k = (self.rnd.choice(ISPS), self.rnd.choice(IDS))
            # one file per account: the directory is scanned in no promised order
            if k not in [x[:2] for x in self.keys]: self.keys.append(k + (case_of(self.rnd, k[0]) + '_' + k[1] + self.rnd.choice(['.yaml', '.yml']),))
        return self.rnd.choice(self.keys)
    def put(self, k, how=''):
        self.v += 1
        c, text = contents(self.rnd, 'v%d' % self.v)
        st = 'good'
        if how in ('link', 'fifo'): st = 'odd'
        elif how in ('loop', 'dangling', 'dir'): st, c = 'bad', {}
        elif how == 'broken': st, c, text, how = 'bad', {}, self.rnd.choice(BROKEN), ''
        elif how == 'empty': c, text, how = {}, self.rnd.choice(['', '# nothing\n', '---\n']), ''
        self.ops.append(dict(op='put', f=o(k[2]), st=st, c=c, text=text, how=how))
    def noise(self):
        self.ops.append(dict(op='put', f=o(self.rnd.choice(NOISE)), st='good', c={}, text=self.rnd.choice(BROKEN + ['client-id: "x"']), how=self.rnd.choice(['', '', '', 'dir'])))
    def rm(self, k): self.ops.append(dict(op='rm', f=o(k[2])))
    def ask(self, k, op='find', **kw): return dict(op=op, isp=case_of(self.rnd, k[0]), cid=o(k[1]), **kw)
    def asks(self, n):
        r = []
        for _ in range(n):
            k = self.rnd.choice(self.keys) if self.keys and self.rnd.random() < .9 else (self.rnd.choice(ISPS), self.rnd.choice(IDS))
            if self.rnd.random() < .1: k = (k[0], self.rnd.choice([k[1].upper(), k[1].lower(), k[1] + '.yaml', '', k[0] + '_' + k[1]]))
            r.append(self.ask(k))
        return r
    def load(self, asks=0): self.ops.append(dict(op='load', asks=self.asks(asks)))
    def look(self):
        for k in self.keys: self.ops.append(self.ask(k))
        self.ops += self.asks(2)

def cases(tier, rnd, res):
    big = tier == 'thorough'
    hs = model(tier, res)
    res.extra['model_behaviours'] = len(hs)
    out = []
    for h in hs:
        g = Gen(rnd)
        g.keys = [('cmpp', 'A', 'cmpp_A.yml'), ('sgip', 'b', 'SGIP_b.yaml')]
        K = {'A': g.keys[0], 'B': g.keys[1]}
        g.ops.append(dict(op='new'))
        for x in re.findall(r'(put|bad|rm|load)([AB]?)(\d*)', h):
            if x[0] == 'put': g.put(K[x[1]])
            elif x[0] == 'bad': g.put(K[x[1]], rnd.choice(['broken', 'dir', 'loop', 'dangling']))
            elif x[0] == 'rm': g.rm(K[x[1]])
            else: g.load(); g.look()
        g.load(); g.look()
        out.append(dict(ops=g.ops, fam='behaviours of the specification'))
    for _ in range(1500 if big else 150):
        g = Gen(rnd)
        for _ in range(rnd.randrange(6)): g.put(g.key())
        g.ops.append(dict(op='new')); g.look()
        n, hold = 0, []
        for _ in range(rnd.randrange(3, 12)):
            x = rnd.random()
            if x < .3: g.put(g.key(.4))
            elif x < .4: g.put(g.key(.2), rnd.choice(['broken', 'broken', 'empty', 'loop', 'dangling', 'dir', 'link']))
            elif x < .5: g.noise()
            elif x < .6 and g.keys: g.rm(g.rnd.choice(g.keys))
            elif x < .7 and g.keys:
                n += 1; hold.append('c%d' % n)
                g.ops.append(g.ask(rnd.choice(g.keys), 'hold', h=hold[-1]))
            elif x < .75 and hold: g.ops.append(dict(op='spoil', h=rnd.choice(hold)))
            else:
                g.load(); g.look()
                for h in hold: g.ops.append(dict(op='held', h=h))
        g.load(); g.look()
        for h in hold: g.ops.append(dict(op='held', h=h))
        out.append(dict(ops=g.ops, fam='histories'))
    for _ in range(300 if big else 40):     # a load in the middle of the directory
        g = Gen(rnd)
        for _ in range(rnd.randrange(3, 8)): g.put(g.key(.9))
        g.ops.append(dict(op='new')); g.look()
        for _ in range(rnd.randrange(1, 4)):
            for k in g.keys:
                if rnd.random() < .6: g.put(k)
                elif rnd.random() < .3: g.rm(k)
            g.put(rnd.choice(g.keys), 'fifo')
            g.load(rnd.randrange(2, 8)); g.look()
        out.append(dict(ops=g.ops, fam='lookups in the middle of a load'))
    for _ in range(300 if big else 40):
        g = Gen(rnd)
        for _ in range(rnd.randrange(3, 8)): g.put(g.key(.9))
        g.ops.append(dict(op='new'))
        for _ in range(rnd.randrange(2, 5)):
            for k in g.keys:
                if rnd.random() < .7: g.put(k)
                elif rnd.random() < .4: g.rm(k)
            g.load(rnd.randrange(1, 4)); g.look()
        out.append(dict(ops=g.ops, jitter=rnd.choice([0, 20, 60]), fam='concurrent lookups'))
    for _ in range(30 if big else 6):      # the periodic reload
        g = Gen(rnd)
        for _ in range(2): g.put(g.key(.9))
        g.ops.append(dict(op='new')); g.look()
        for _ in range(7):
            k = rnd.choice(g.keys)
            if rnd.random() < .3 and g.v > 2: g.rm(k); want = ''
            else: g.put(k); want = 'v%d' % g.v
            g.ops.append(dict(op='auto', isp=k[0], cid=o(k[1]), want=want)); g.look()
        out.append(dict(ops=g.ops, every=20, fam='periodic reload'))
    for _ in range(60 if big else 10):     # the directory cannot be read for a while
        g = Gen(rnd)
        for _ in range(3): g.put(g.key(.9))
        g.ops.append(dict(op='new')); g.look()
        g.ops.append(dict(op='away')); g.load(); g.look(); g.ops.append(dict(op='back'))
        g.put(rnd.choice(g.keys)); g.load(); g.look()
        out.append(dict(ops=g.ops, fam='directory away'))
    for j in range(60 if big else 24):     # the periodic reload, in virtual time: every period, and five minutes when none is set
        g = Gen(rnd)
        for _ in range(3): g.put(g.key(.9))
        g.ops.append(dict(op='new')); g.look()
        for _ in range(rnd.choice([4, 12])):
            for _ in range(rnd.randrange(3)):
                if rnd.random() < .3 and g.v > 2: g.rm(rnd.choice(g.keys))
                else: g.put(rnd.choice(g.keys))
            g.ops.append(dict(op='tick')); g.look()
        out.append(dict(ops=g.ops, every=rnd.choice([0, 0, 1000, 30000, 300000, 86400000]), virtual=True, fam='every period'))
    for k, c in enumerate(out):
        c['tid'] = k
        c.setdefault('every', 3600000); c.setdefault('jitter', 0)
        c['dir'] = rnd.choice(['accounts', 'accounts/', 'config/yml_store/'])
    return out

def run(prop, tier, res):
    rnd = random.Random('%s-%d' % (prop, SEED))
    cs = cases(tier, rnd, res)
    ov = ids.overlay('sync', 'vsync', ('auth',), 'ovsync')
    jobs = []
    for v, (pkg, mod) in enumerate((('storesrv', 'msc_server'), ('storecli', 'msc_client'))):
        b = B.build(scratch(), pkg, overlay=ov)
        for k in range(4):
            d = '%s/st%d%d/%s' % (scratch(), v, k, mod)
            os.makedirs(d + '/config', exist_ok=True)
            with open(d + '/config/config.yaml', 'w') as f: f.write(open('%s/%s/config/config.yaml' % (REPO, mod)).read())
            jobs.append((b, cs[2 * k + v::8], d))
    t = time.time()
    got = {}
    with ThreadPoolExecutor(8) as ex:
        for g in ex.map(lambda j: drive(*j, lambda why: [{'e': 'crash', 'why': why}], timeout=700), jobs): got.update(g)
    tdrive = time.time() - t
    src = [c for c in cs if got[c['tid']] is not None]
    lines = [{'ev': got[c['tid']]} for c in src]
    bad, r = T.judge('StoreTrace', lines, timeout=1200)
    res.traces += len(lines); res.states += r.distinct; res.transitions += r.generated
    res.extra['histories_by_family'] = {f: sum(1 for c in src if c['fam'] == f) for f in sorted({c['fam'] for c in cs})}
    res.extra['drive_s'], res.extra['judge_s'] = round(tdrive, 1), round(r.wall, 1)
    res.samples += [json.dumps(lines[j])[:3000] for j in (0, len(lines) // 2, len(lines) - 1)]
    res.assumptions += ['files are changed between loads, by renaming, so that a load never reads half a file', 'the MongoDB store is not covered: there is no MongoDB here']
    for k in bad[:3]:
        at, why = T.explain('StoreTrace', lines[k])
        p = write_replay(prop, {'property': prop, 'case': src[k], 'history': lines[k]['ev'], 'stops_before_event': at, 'state': why}, '%d-%d' % (SEED, src[k]['tid']))
        res.violation('%s: what the real store answered (%s) is not allowed by Store.tla: event %d %s' % (prop, src[k]['fam'], at, json.dumps(lines[k]['ev'][at - 1] if at else {})[:500]), p)
    res.extra['rejected'] = len(bad)
