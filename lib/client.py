"""C27, C30, C31, C34: one session of the client."""
import json, random, re, struct, time
from common import *
from drive import drive_parallel
import build as B, trace as T

VER = {'cmpp': [0x20, 0x30], 'smgp': [0x30, 0x13], 'sgip': [0x12]}
CMD = {'cmpp': dict(hello=1, bye=2, sub=4, dlv=5, beat=8), 'smgp': dict(hello=1, sub=2, dlv=3, beat=4, bye=6),
       'sgip': dict(hello=1, bye=2, sub=3, dlv=4, rpt=5)}
FAMILIES = {'C27': ['login'], 'C30': ['stream', 'model'], 'C31': ['close', 'race', 'model'], 'C34': ['answers', 'model']}

def u32(x): return list(struct.pack('>I', x & 0xffffffff))
def pad(s, n): return (list(s if isinstance(s, bytes) else s.encode()) + [0] * n)[:n]

class Wire:
    def __init__(s, isp, ver, rnd): s.isp, s.ver, s.rnd = isp, ver, rnd
    def three(s): return s.ver >> 4 == 3
    def seq(s):
        r = s.rnd
        one = lambda: r.choice([0, 1, 2, 255, 256, 0x7fffffff, 0x80000000, 0xffffffff, r.randrange(1 << 32)])
        return u32(one()) + (u32(one()) + u32(one()) if s.isp == 'sgip' else [])
    def frame(s, cmd, tail, n=None): return u32(8 + len(tail) if n is None else n) + u32(cmd) + tail
    def pkt(s, kind, body, resp=False, seq=None, cmd=None):
        c = (CMD[s.isp][kind] | (0x80000000 if resp else 0)) if cmd is None else cmd
        return s.frame(c, (seq or s.seq()) + body)
    def num(s, n): return [s.rnd.choice([0, 1, 255, s.rnd.randrange(256)]) for _ in range(n)]
    def hello(s, st=0, extra=()):
        if s.isp == 'sgip': b = [st & 255] + list(extra)
        else: b = ([st & 255] if s.isp == 'cmpp' and not s.three() else u32(st)) + s.num(16) + [s.ver] + list(extra)
        return s.pkt('hello', b, True)
    def beat(s, body=()): return s.pkt('beat', list(body))
    def beatr(s): return s.pkt('beat', [0] if s.isp == 'cmpp' and s.rnd.random() < .8 else [], True)
    def bye(s): return s.pkt('bye', [])
    def byer(s): return s.pkt('bye', [], True)
    def subr(s):
        if s.isp == 'sgip': return s.pkt('sub', [s.rnd.choice([0, 0, 5])] + [0] * 8, True)
        if s.isp == 'smgp': return s.pkt('sub', s.num(10) + u32(s.rnd.choice([0, 0, 9])), True)
        return s.pkt('sub', s.num(8) + (u32(s.rnd.choice([0, 0, 9])) if s.three() else [s.rnd.choice([0, 8])]), True)
    def dlvr(s):
        if s.isp == 'sgip': return s.pkt('dlv', [0] * 9, True)
        return s.pkt('dlv', s.num(14) if s.isp == 'smgp' else s.num(8) + [0] * (4 if s.three() else 1), True)
    def content(s, report):
        r = s.rnd
        if report and r.random() < .8:
            if s.isp == 'cmpp': return s.num(8) + pad(r.choice(['DELIVRD', 'UNDELIV']), 7) + pad('2601010000', 10) + pad('2601010001', 10) + pad('13800000000', 21) + s.num(4)
            return pad(b'id:' + bytes(s.num(10)) + b' sub:001 dlvrd:001 submit date:2601010000 done date:2601010001 stat:DELIVRD err:000 text:', 122)
        return s.num(r.choice([0, 1, 2, 5, 6, 7, 20, 59, 60, 140, r.randrange(256)]))
    def deliver(s):
        r = s.rnd
        rep = r.choice([0, 0, 1, 1, 2])
        fmt = r.choice([0, 8, 15])
        c = s.content(rep == 1)
        if rep != 1 and r.random() < .7:
            c = list(''.join(chr(r.choice([0x41, 0x61, 0x4e2d, 0x6587, 0x20ac, 0x1f600])) for _ in range(r.choice([0, 1, 2, 10, 35]))).encode('utf-16-be' if fmt == 8 and s.isp == 'cmpp' else 'gb18030'))
        if s.isp == 'cmpp':
            b = s.num(8) + pad('10690001', 21) + pad('svc', 10) + [0, r.choice([0, 0, 1]), fmt] + pad('13800000000', 32 if s.three() else 21) \
                + ([0] if s.three() else []) + [rep, len(c)] + c + ([0] * 20 if s.three() else [0] * 8)
        elif s.isp == 'smgp':
            b = s.num(10) + [rep, fmt] + pad('20260101000000', 14) + pad('13300000000', 21) + pad('10690001', 21) + [len(c)] + c + [0] * 8
        else:
            b = pad('13000000000', 21) + pad('10690001', 21) + [0, 0, 8] + u32(len(c)) + c + [0] * 8
        return s.pkt('dlv', b)
    def report(s):
        if s.isp != 'sgip': return s.deliver()
        return s.pkt('rpt', s.num(12) + [0] + pad('13000000000', 21) + [0, 0] + [0] * 8)
    def good(s):
        """a request the client answers, without ending the session"""
        if s.isp == 'sgip': return s.subr()
        return s.rnd.choice([s.beat, s.deliver])()
    def answer(s): return s.rnd.choice([s.subr, s.dlvr, s.hello] + ([s.beatr] if s.isp != 'sgip' else []))()
    def unknown(s):
        r = s.rnd
        c = r.choice([0, 7, 9, 10, 0x10, 0x7fffffff, 0x80000000, 0x80000007, 0x80000009, 0xffffffff, r.randrange(1 << 32)])
        return s.pkt('', s.num(r.choice([0, 1, 8, 30])), cmd=c)
    def odd(s):
        """a known command whose body is cut, stretched or random"""
        r = s.rnd
        p = r.choice([s.beat if s.isp != 'sgip' else s.bye, s.bye, s.byer, s.subr, s.dlvr, s.hello, s.deliver, s.deliver, s.report] + ([s.beatr] if s.isp != 'sgip' else []))()
        m = r.random()
        if m < .5: p = p[:r.randrange(12, len(p) + 1)]
        elif m < .7: p = p + s.num(r.choice([1, 4, 12, 30]))
        elif m < .8: p = p[:12] + s.num(len(p) - 12)
        else:
            q = list(p)
            for _ in range(r.choice([1, 2, 5])):
                if len(q) > 12: q[r.randrange(12, len(q))] = r.choice([0, 255, r.randrange(256)])
            p = q
        return u32(len(p)) + p[4:]
    def illegal(s):
        r = s.rnd
        n = r.choice([0, 1, 4, 8, 11, 5121, 65535, 65536, 0x7fffffff, 0x80000000, 0xffffffff, r.randrange(12), r.randrange(5121, 1 << 32)])
        return u32(n) + u32(r.choice([1, 2, 5, 8, 0x80000004])) + s.seq()[:4]
    def long(s, n): return s.frame(s.rnd.choice([CMD[s.isp]['dlv'], 0x80000004, 0x77, CMD[s.isp]['sub']]), s.num(4) + [0] * (n - 12))

def op(o, **k): return dict(dict(o=o, d=[], to='', text='', n=0, gap=0), **k)
def feed(d): return op('feed', d=d)
def one(*ops): return [list(ops)]
LIVE = one(op('live'))
def phone(rnd): return '1%010d' % rnd.randrange(10 ** 10)
def send(rnd, n=None):
    n = n or rnd.choice([1, 1, 1, 2, 3])
    k = rnd.choice([1, 10, 70]) if n == 1 else 71 if n == 2 else 67 * n
    return op('send', to=phone(rnd), text='中' * k, n=n)

def cut(rnd, d, k=None):
    """in segments"""
    if k is None: k = rnd.choice([1, 2, 3, 5, len(d)])
    if k >= len(d): return [[x] for x in d] or [[]]
    at = sorted(rnd.sample(range(1, len(d)), k - 1)) if k > 1 else []
    return [d[a:b] for a, b in zip([0] + at, at + [len(d)])]

def case(isp, ver, ans, ev, fam, **k):
    return dict(dict(isp=isp, ver=ver, acct={'cmpp': '901234', 'smgp': '12345678', 'sgip': '3037196688'}[isp], secret='pw-secret', ans=ans, patch=True, eof=False,
                     wfail=False, Ev=ev, rounds=1, jitter=0, keep=1, fam=fam), **k)

def protos():
    for isp in VER:
        for v in VER[isp]: yield isp, v

def login_cases(rnd, big):
    out = []
    for isp, v in protos():
        w = Wire(isp, v, rnd)
        after = lambda: [LIVE, one(send(rnd, 1)), one(feed(w.good()))]
        A = lambda a, segs=None, **k: out.append(case(isp, v, [a] if segs is None else segs, after(), 'login', **k))
        ok = w.hello()
        A(ok); A(ok, patch=False); A(ok, eof=True); A(ok, wfail=True)
        if isp == 'sgip': A(w.hello(0, [0] * 8)); A(w.hello(0, [0] * 8), patch=False); A(w.hello(5, [0] * 8))
        for k in range(1, len(ok)): A(ok, [ok[:k], ok[k:]])
        A(ok, [[x] for x in ok])
        for st in [1, 2, 3, 5, 9, 255] + ([256, 65536, 1 << 24, 1 << 31] if isp == 'smgp' or (isp == 'cmpp' and w.three()) else []):
            a = w.hello(st)
            A(a); A(a, cut(rnd, a, 2))
        for k in range(len(ok)): A(ok, [ok[:k]], eof=k % 2 == 0)
        for c in [0, 1, 2, 4, 5, 8, 0x80000002, 0x80000004, 0x80000003, 0x80000000, 0x81000001, 0xffffffff]: A(ok[:4] + u32(c) + ok[8:])
        for n in [0, 11, 12, len(ok) - 1, len(ok) + 1, len(ok) + 4, len(ok) + 8, 5121, 0xffffffff]: A(u32(n) + ok[4:]); A(u32(n) + ok[4:], eof=True)
        for e in (1, 3, 8, 12): A(w.hello(0, [0] * e)); A(w.hello(0, [0] * e)[:-1], eof=True)
        for _ in range(60 if big else 12):          # more comes with the answer
            rest = []
            for _ in range(rnd.randrange(1, 4)): rest += rnd.choice([w.good, w.good, w.answer, w.bye, w.unknown])()
            if rnd.random() < .3: rest = rest[:rnd.randrange(1, len(rest))]
            a = ok + rest
            A(a, cut(rnd, a, rnd.choice([1, 1, 2, 3, 6])), eof=rnd.random() < .3)
        for _ in range(60 if big else 10): a = w.num(rnd.randrange(0, 60)); A(a)
        for _ in range(60 if big else 10):
            a = list(w.hello(rnd.choice([0, 0, 3])))
            for _ in range(rnd.choice([1, 1, 3])): a[rnd.randrange(len(a))] = rnd.choice([0, 1, 128, 255, rnd.randrange(256)])
            A(a, patch=rnd.random() < .5)
        # answers of the other version or protocol
        for isp2, v2 in protos():
            if (isp2, v2) != (isp, v): A(Wire(isp2, v2, rnd).hello()); A(Wire(isp2, v2, rnd).hello(), eof=True)
    return out

def packet(w, rnd):
    x = rnd.random()
    if x < .4: return w.good()
    if x < .6: return w.answer()
    if x < .72: return w.unknown()
    if x < .87: return w.odd()
    if x < .9: return w.long(rnd.choice([12, 13, 300, 5119, 5120]))
    if x < .94: return rnd.choice([w.bye, w.byer])()
    if x < .96: return w.illegal()
    return w.report()

def stream_cases(rnd, big):
    out = []
    for isp, v in protos():
        w = Wire(isp, v, rnd)
        for _ in range(400 if big else 60):
            d = sum((packet(w, rnd) for _ in range(rnd.randrange(1, 9))), [])
            if rnd.random() < .2: d = d[:rnd.randrange(1, len(d))]
            for k in ([1, None, None, len(d) if len(d) < 300 else 40] if rnd.random() < .5 else [None]):     # the same stream in several segmentations
                segs = cut(rnd, d, k)
                ev = []
                if rnd.random() < .5: ev = [one(*[feed(s) for s in segs])]
                else: ev = [one(feed(s)) for s in segs[:12]] + ([one(*[feed(s) for s in segs[12:]])] if len(segs) > 12 else [])
                if rnd.random() < .3: ev.append(one(op('eof')))
                ev += [LIVE, one(feed(w.good())), one(send(rnd))]
                out.append(case(isp, v, [w.hello()], ev, 'stream'))
        for _ in range(60 if big else 12):          # the gateway goes away in the middle of a packet
            p = w.good()
            out.append(case(isp, v, [w.hello()], [one(feed(w.good() + p[:rnd.randrange(1, len(p))]), op('eof')), LIVE, one(send(rnd))], 'stream'))
        for wide in (1, 0):                         # counts and lengths that lie, at every place of a body
            for mk in (w.deliver, w.subr, w.report):
                n = len(mk()) - 12
                for at in range(0, n, 1 if big or isp == 'sgip' or mk == w.deliver else 4):
                    p = mk()
                    x = u32(0xffffffff - rnd.choice([0, rnd.randrange(100)])) if wide else [255]
                    if 12 + at + len(x) > len(p): continue
                    p = p[:12 + at] + x + p[12 + at + len(x):]
                    out.append(case(isp, v, [w.hello()], [one(feed(p)), LIVE, one(feed(w.good()))], 'lies'))
        for n in list(range(12)) + [5121, 70000, 0xffffffff]:
            p = u32(n) + w.good()[4:]
            out.append(case(isp, v, [w.hello()], [one(*[feed(s) for s in cut(rnd, w.good() + p, rnd.choice([1, 3]))]), LIVE, one(feed(w.good())), LIVE], 'stream'))
    return out

def answer_cases(rnd, big):
    out = []
    for isp, v in protos():
        w = Wire(isp, v, rnd)
        for _ in range(300 if big else 60):
            ev = []
            for _ in range(rnd.randrange(2, 10)):
                x = rnd.random()
                p = w.good() if x < .45 else w.answer() if x < .6 else w.deliver() if x < .75 else w.report() if x < .8 else w.bye() if x < .87 else w.byer() if x < .92 else w.odd()
                if rnd.random() < .2: p = p + w.good()
                ev.append(one(*[feed(s) for s in cut(rnd, p, rnd.choice([1, 1, 2]))]))
                if rnd.random() < .15: ev.append(one(send(rnd)))
                if rnd.random() < .08: ev.append(one(op('idle', n=rnd.choice([30000, 70000, 200000]))) if rnd.random() < .5 else one(op('idle', n=61000), op('live')))
            ev += [LIVE]
            out.append(case(isp, v, [w.hello()], ev, 'answers'))
        for _ in range(40 if big else 10):          # writes fail
            out.append(case(isp, v, [w.hello()], [one(feed(w.good())), one(op('brk')), one(feed(rnd.choice([w.good, w.bye, w.answer])())), LIVE, one(send(rnd)), LIVE], 'answers'))
    return out

def close_cases(rnd, big):
    """one thread: everything after (or around) a close"""
    out = []
    for isp, v in protos():
        w = Wire(isp, v, rnd)
        def some():
            return rnd.choice([lambda: op('close'), lambda: op('live'), lambda: send(rnd), lambda: feed(w.good()), lambda: feed(w.answer()), lambda: op('eof'), lambda: op('active'),
                               lambda: feed(w.bye()), lambda: op('brk'), lambda: op('close'), lambda: feed(w.byer())])()
        for _ in range(250 if big else 45):
            ev = [one(*[some() for _ in range(rnd.randrange(1, 4))]) for _ in range(rnd.randrange(1, 5))]
            if rnd.random() < .3: ev.insert(rnd.randrange(len(ev)), one(op('idle', n=rnd.choice([59000, 61000, 120000])), rnd.choice([op('live'), op('active'), op('close')])))
            ev += [LIVE, one(op('close'), op('close')), one(send(rnd)), LIVE, one(op('active')), one(feed(w.good()))]
            out.append(case(isp, v, [w.hello()], ev, 'close'))
    return out

def race_cases(rnd, big):
    out = []
    for isp, v in protos():
        w = Wire(isp, v, rnd)
        for _ in range(50 if big else 14):
            def some():
                return rnd.choice([lambda: op('close'), lambda: op('close'), lambda: op('live'), lambda: send(rnd), lambda: feed(w.good()), lambda: feed(w.good() + w.answer()),
                                   lambda: op('eof'), lambda: op('active'), lambda: feed(w.bye()), lambda: feed(w.byer())])()
            th = [[some() for _ in range(rnd.randrange(1, 4))] for _ in range(rnd.choice([2, 2, 3, 4]))]
            ev = [th]
            if rnd.random() < .3: ev.insert(0, one(feed(w.good())))
            if rnd.random() < .2: ev.insert(0, one(op('idle', n=61000)))
            ev += [LIVE, [[op('close')], [op('close')], [op('close'), op('live')]], one(send(rnd)), LIVE]
            for t in ev:
                for o in sum(t, []): o['gap'] = rnd.choice([0, 1, 10])
            out.append(case(isp, v, [w.hello()], ev, 'race', rounds=1500 if big else 250, jitter=rnd.choice([0, 2, 20, 100]), keep=50 if big else 15))
    return out

def model_cases(rnd, runs):
    """the behaviours of ClientMC: <<length, kind, ...>> in cells, segments in cells"""
    out = []
    for stream, log in runs:
        for isp, v in protos():
            w = Wire(isp, v, rnd)
            cells, d = list(stream), []
            while cells:
                n = cells[0]
                if n < 2 or n > 4 or len(cells) < 2:
                    p = (u32(n if n < 12 else 0x10000) + u32(8) + w.seq()[:4])
                    k = len(cells) if n < 2 or n > 4 else 1
                    if len(cells) < 2: p, k = p[:3], 1
                else:
                    k = min(n, len(cells))
                    kind = cells[1]
                    p = {1: w.good, 2: w.bye, 3: w.answer, 4: w.unknown, 5: w.odd}[kind]()
                    if k < n: p = p[:max(1, len(p) * k // n)]
                at = sorted(rnd.sample(range(1, len(p)), k - 1)) if len(p) > k - 1 else list(range(1, k))
                d += [p[a:b] for a, b in zip([0] + at, at + [len(p)])]
                cells = cells[k:]
            ev, pos = [], 0
            for x in log:
                if x[0] == 'f':
                    k = int(x[1:])
                    ev.append(one(feed(sum(d[pos:pos + k], []))))
                    pos += k
                else: ev.append(one({'c': op('close'), 's': send(rnd, 1), 'h': op('eof')}[x]))
            out.append(case(isp, v, [w.hello()], ev + [LIVE], 'model'))
    return out

def cfg(name, inv, **c):
    d = dict(STREAMS='2', THREADS='2', OPS='2', BREAK='""', HIST='FALSE')
    d.update(c)
    p = '%s/cl_%s.cfg' % (scratch(), name)
    with open(p, 'w') as f:
        f.write('SPECIFICATION Spec\nCONSTANTS\n  HeadLen <- MCHead\n  MaxLen <- MCMax\n  LenOf <- MCLen\n  React <- MCReact\n%s\n%s\nCHECK_DEADLOCK FALSE\n' % (
            '\n'.join('  %s = %s' % kv for kv in d.items()), inv))
    return p

INV = 'INVARIANTS Once Exact Returned\nPROPERTY Silent'
def model(tier, res, rnd):
    big = tier == 'thorough'
    r = model_check('ClientMC', cfg('mc', INV, STREAMS='3' if big else '2', OPS='4' if big else '3'), timeout=1200)
    res.add_mc('ClientMC', r)
    for b in ('segment', 'answer', 'late', 'twice'):
        n = tlc('ClientMC', cfg('neg' + b, INV, BREAK='"%s"' % b, OPS='3'))
        if 'is violated' not in n.out: raise Infra('negative control %s: %s' % (b, n.out[-1500:]))
    g = tlc('ClientMC', cfg('gen', 'INVARIANT Show', THREADS='1', OPS='2', HIST='TRUE'), timeout=600)
    if not g.complete: raise Infra('stimulus generation: ' + g.out[-2000:])
    runs = sorted(set(re.findall(r'^"RUN <<(.*)>> <<(.*)>>"$', g.out, re.M)))
    runs = [([int(x) for x in a.split(',')] if a.strip() else [], re.findall(r'\w+', b)) for a, b in runs]
    k = 2500 if big else 250
    return [runs[j] for j in sorted(rnd.sample(range(len(runs)), min(k, len(runs))))], len(runs)

def cases(prop, tier, rnd, res):
    big = tier == 'thorough'
    out = []
    for f in FAMILIES[prop]:
        if f == 'model':
            runs, total = model(tier, res, rnd)
            res.extra['model_behaviours'] = '%d of %d' % (len(runs), total)
            out += model_cases(rnd, runs)
        else: out += {'login': login_cases, 'stream': stream_cases, 'answers': answer_cases, 'close': close_cases, 'race': race_cases}[f](rnd, big)
    if prop == 'C27':
        model(tier, res, rnd)
    for k, c in enumerate(out): c['tid'] = k
    return out

def run(prop, tier, res):
    rnd = random.Random('%s-%d' % (prop, SEED))
    cs = cases(prop, tier, rnd, res)
    binary = B.build(scratch(), 'clisess')
    t = time.time()
    got = drive_parallel(binary, cs, 'cl', lambda why: [[{'e': 'crash', 'why': why}]], key='ev', timeout=600)
    tdrive = time.time() - t
    lines, src = [], []
    for c in cs:
        for ev in got[c['tid']] or []:
            if len(lines) >= (40000 if tier == 'thorough' else 6000): break
            lines.append({'isp': c['isp'], 'ver': c['ver'], 'acct': c['acct'], 'ev': ev}); src.append(c)
    bad, r = T.judge('ClientTrace', lines, timeout=1200)
    res.traces += len(lines); res.states += r.distinct; res.transitions += r.generated
    res.extra['cases_by_family'] = {f: sum(1 for c in cs if c['fam'] == f) for f in sorted({c['fam'] for c in cs})}
    res.extra['rounds_run'] = sum(c['rounds'] for c in cs)
    res.extra['drive_s'], res.extra['judge_s'] = round(tdrive, 1), round(r.wall, 1)
    res.samples += [json.dumps(lines[j])[:3000] for j in (0, len(lines) // 2, len(lines) - 1)]
    res.assumptions += ['the network is stood in for by an in-memory connection with given segments; real thread interleavings are sampled (8 cores, random pauses)']
    for k in bad[:3]:
        at, why = T.explain('ClientTrace', lines[k])
        ev = lines[k]['ev']
        p = write_replay(prop, {'property': prop, 'case': src[k], 'events': ev, 'stops_before_event': at, 'specification': why}, '%d-%d' % (SEED, src[k]['tid']))
        res.violation('%s: what a real %s session did (%s) is not a behaviour of Client.tla: event %d %s; specification then: %s' % (
            prop, src[k]['isp'], src[k]['fam'], at, json.dumps(ev[at - 1] if 0 < at <= len(ev) else ev[-1])[:400], why[:300]), p)
    res.extra['rejected'] = len(bad)
