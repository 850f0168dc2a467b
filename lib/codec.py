"""C14-C19, C35: packets, long messages, submit options, mobile-originated messages, optional parameters."""
import datetime, hashlib, json, random, re
from concurrent.futures import ThreadPoolExecutor
from common import *
from drive import drive_parallel
import build as B, trace as T, ids

PROTO = {'C14': 'cmpp', 'C15': 'smgp', 'C16': 'sgip'}
REQ = {'cmpp': ['connect', 'submit', 'deliver', 'active_test', 'terminate'], 'smgp': ['login', 'submit', 'deliver', 'active_test', 'exit'],
       'sgip': ['bind', 'submit', 'deliver', 'report', 'unbind']}
SIMPLE = {'cmpp': ['connect', 'active_test', 'terminate'], 'smgp': ['login', 'active_test', 'exit'], 'sgip': ['bind', 'unbind']}

o = lambda s: list(s.encode()) if isinstance(s, str) else list(s)
be = lambda n, w: list(int(n).to_bytes(w, 'big'))

# ---- the specification on itself, and stimuli from it
def cfg(name, consts, inv):
    p = '%s/%s.cfg' % (scratch(), name)
    with open(p, 'w') as f:
        f.write('SPECIFICATION Spec\nCONSTANTS\n%s\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n' % ('\n'.join('  %s = %s' % kv for kv in consts.items()), inv))
    return p

def packets(p, pairs, res):
    """Packets of the specification: every field at its boundary values (two fields at a time when pairs)."""
    c = dict(PAIRS='TRUE' if pairs else 'FALSE', EMIT='TRUE', PROTO='"%s"' % p, BREAK='""')
    r = model_check('CodecMC', cfg('mc' + p, c, 'Holds'), timeout=1500)
    res.add_mc('CodecMC ' + p, r)
    n = tlc('CodecMC', cfg('mcneg' + p, dict(c, PAIRS='FALSE', EMIT='FALSE', BREAK='"offset"'), 'Holds'))
    if 'is violated' not in n.out: raise Infra('negative control: ' + n.out[-1500:])
    return sorted(tuple(map(json.dumps, json.loads(m.replace('\\"', '"')))) for m in set(re.findall(r'^"PKT (.*)"$', r.out, re.M)))

def texts_model(tier, res, ops=0):
    c = dict(MAXLEN='900' if tier == 'thorough' else '500', OPS=str(ops), EMIT='TRUE' if ops else 'FALSE', BREAK='""')
    r = model_check('CodecText', cfg('mt', c, 'SplitOk TextOk TlvOk Emit'), timeout=1500)
    res.add_mc('CodecText', r)
    n = tlc('CodecText', cfg('mtneg', dict(c, MAXLEN='200', OPS='0', EMIT='FALSE', BREAK='"split"'), 'Wrong'))
    if 'is violated' not in n.out: raise Infra('negative control: ' + n.out[-1500:])
    return sorted(set(m.replace('\\"', '"') for m in re.findall(r'^"OPS (.*)"$', r.out, re.M)))

# ---- values
def s(rnd, w, over=True):
    """a string for a field of w octets: empty, short, exactly fitting, too long"""
    n = rnd.choice([0, 1, w - 1, w, w] + ([w + 1, 2 * w + 3] if over else []) + [rnd.randrange(w + 1)])
    k = rnd.random()
    if k < .8: return [rnd.randrange(33, 127) for _ in range(n)]
    if k < .9: return o(''.join(rnd.choice('0123456789') for _ in range(n)))
    return o(''.join(rnd.choice('号码é中Z9') for _ in range(n)))[:max(n, 3)]

def phone(rnd): return o(rnd.choice(['', '86', '+86']) + '1' + ''.join(rnd.choice('0123456789') for _ in range(10)))

POOLS = {'ascii': lambda r: r.randrange(32, 127), 'ctl': lambda r: r.choice([9, 10, 13, 27, 126, 127, 65]), 'han': lambda r: r.randrange(0x4e00, 0x9fa6),
         'latin': lambda r: r.choice([0xe0, 0xe8, 0xe9, 0xfc, 0xd7, 0xf7]), 'kana': lambda r: r.randrange(0x3041, 0x3094), 'cyr': lambda r: r.randrange(0x410, 0x450),
         'hangul': lambda r: r.randrange(0xac00, 0xd7a4), 'emoji': lambda r: r.choice([0x1f600, 0x1f602, 0x20000, 0x2a6d6, 0x1f4a9]),
         'edge': lambda r: r.choice([0x80 + 0x24, 0x7ff + 1, 0x9fa5, 0xfffd, 0xff01, 0x3000, 0x100 + 1])}
def text(rnd, n, kind):
    """n code points"""
    mix = {'mixed': ['ascii', 'han', 'han', 'kana', 'cyr'], 'wide': ['ascii', 'han', 'hangul', 'emoji', 'edge', 'latin']}.get(kind, [kind])
    cs = [POOLS[rnd.choice(mix)](rnd) for _ in range(n)]
    if n and kind in ('han', 'mixed', 'wide') and rnd.random() < .06: cs[0] = 0xfeff      # a byte order mark is a character like any other
    return [{'c': c, 'g': list(chr(c).encode('gb18030'))} for c in cs]

def lens(rnd, limit, unit):
    """text lengths around the limits of one packet and of several parts"""
    one, part = limit // unit, (limit - 6) // unit
    k = rnd.randrange(2, 7)
    return rnd.choice([0, 1, 2, 3, one - 1, one, one + 1, part, part + 1, 2 * part - 1, 2 * part, 2 * part + 1, 3 * part, 3 * part + 1, k * part - 1, k * part, k * part + 1,
                       rnd.randrange(1, one + 1), rnd.randrange(one, 5 * one)])

def some_text(rnd, p, long=None):
    kind = rnd.choice(['ascii', 'ascii', 'han', 'mixed', 'wide', 'ctl', 'latin', 'emoji', 'hangul'])
    if p == 'smgp': lim, unit = 140, {'ascii': 1, 'ctl': 1, 'hangul': 4, 'emoji': 4}.get(kind, 2)
    else: lim, unit = (160, 1) if kind in ('ascii', 'ctl') else (140, 4 if kind == 'emoji' else 2)
    n = long if long is not None else lens(rnd, lim, unit)
    return text(rnd, n, kind)

ACW = dict(ClientId=8, LoginName=16, SharedSecret=16, SmsDisplayNo=20, ServiceId=10, FeeTerminalId=21, FeeType=2, FeeCode=6, FixedFee=6, LinkId=20)
def account(rnd, p):
    a = {n: s(rnd, w) for n, w in ACW.items()}
    a['SmsDisplayNo'] = rnd.choice([o('10658' + ''.join(rnd.choice('0123456789') for _ in range(rnd.randrange(12)))), s(rnd, 20), s(rnd, 21, False)])
    for n, hi in (('NeedReport', 2), ('DefaultMsgLevel', 10), ('FeeUserType', 4), ('FeeTerminalType', 2)): a[n] = [rnd.randrange(hi)]
    if rnd.random() < .1: a['FeeUserType'] = [rnd.randrange(256)]
    return a

def stamp(t): return t.strftime('%y%m%d%H%M%S') + '032+'
def clock(rnd):
    t = rnd.choice([datetime.datetime(2026, 2, 28, 23, 59, 58), datetime.datetime(2026, 12, 31, 23, 59, 59), datetime.datetime(2028, 2, 28, 12, 0, 0),
                    datetime.datetime(2026, 1, 1, 0, 0, 0), datetime.datetime(2026, 6, 15, 9, 5, 3)]) + datetime.timedelta(seconds=rnd.randrange(0, 3))
    return t
ms = lambda t: int((t - datetime.datetime(1970, 1, 1)).total_seconds() * 1000)

def option(rnd):
    n = rnd.choice(['NeedReport', 'MsgLevel', 'FeeUsertype', 'FeeTerminalType', 'ServiceId', 'FeeTerminalId', 'FeeType', 'FeeCode', 'ValidTime', 'AtTime', 'AtTimeStr',
                    'SpSubNo', 'LinkID', 'NeedReport', 'MsgLevel', 'SpSubNo', 'ValidTime', 'AtTime', 'ServiceId'])
    if n in ('NeedReport', 'FeeTerminalType'): return {'o': n, 'v': [rnd.choice([0, 0, 1, 1, 1, 2, 15, 255])]}
    if n == 'MsgLevel': return {'o': n, 'v': [rnd.choice([0, 1, 5, 8, 9, 9, 10, 15, 255])]}
    if n == 'FeeUsertype': return {'o': n, 'v': [rnd.choice([0, 1, 2, 3, 4, 15])]}
    if n == 'FeeType': return {'o': n, 'v': o(rnd.choice(['01', '02', '03', '04', '05', '06', '1', '', '10', '011']))}
    if n == 'AtTime':
        t = clock(rnd)
        return {'o': n, 'v': o(stamp(t)), 't': ms(t)}
    if n == 'AtTimeStr': return {'o': n, 'v': o(rnd.choice(['260102030405', '2601020304051', '991231235959032+', '26010203', '']))}
    if n == 'ValidTime': return {'o': n, 'v': rnd.choice([o(stamp(clock(rnd))), o('000001000000000R'), [], s(rnd, 17)])}
    w = dict(ServiceId=10, FeeTerminalId=32, FeeCode=6, SpSubNo=4, LinkID=20)[n]
    return {'o': n, 'v': s(rnd, w)}

def options(rnd, n=None):
    es = [option(rnd) for _ in range(rnd.choice([0, 1, 1, 2, 3, 5, 12]) if n is None else n)]
    if rnd.random() < .25:
        v = {}
        for e in [option(rnd) for _ in range(rnd.randrange(8))]:
            if e['o'] == 'AtTimeStr': continue
            if e['o'] in ('NeedReport', 'FeeTerminalType', 'MsgLevel', 'FeeUsertype') and e['v'][0] == 15: continue
            v[e['o']] = e['v']
        es.insert(rnd.choice([0, len(es)]), {'o': 'all', 'v': v})
    return es

def version(rnd, p): return rnd.choice([0x20, 0x30, 0x30, 0x20, 0x21, 0x31, 0x12, 0x00]) if p == 'cmpp' else rnd.choice([0x30, 0x20, 0x13])
def seq(rnd): return rnd.choice([be(rnd.randrange(1, 0x5000000), 4), [0, 0, 0, 1], [0xff] * 4, be(rnd.randrange(0x90000000, 0xffffffff), 4)])
def base(rnd, k, p, kind, fam, v=None):
    return {'k': k, 'p': p, 'kind': kind, 'v': version(rnd, p) if v is None else v, 'seq': seq(rnd), 'code': [rnd.choice([0, 0, 1, 8, 127, 255, rnd.randrange(256)])], 'fam': fam,
            'now': ms(datetime.datetime(2026, 6, 15, 9, 5, 3))}

# ---- cases
def constructed(rnd, k, p, fam, **kw):
    t = clock(rnd) + datetime.timedelta(seconds=rnd.randrange(0, 3000))
    dur = rnd.choice([0, 1000, 3600000, 7200000, 86400000, 172800000, 1500, rnd.randrange(10 ** 9)])
    kind = {'submit': 'submit', 'deliver': 'deliver', 'report': 'report' if p == 'sgip' else 'deliver'}[k]
    c = dict(base(rnd, k, p, kind, fam), ac=account(rnd, p), now=ms(t), dur=dur, valid=o(stamp(t + datetime.timedelta(milliseconds=dur))), pre=rnd.choice([0, 0, 1, rnd.randrange(120)]))
    if k == 'submit':
        c.update(phones=[phone(rnd) if rnd.random() < .7 else s(rnd, 21) or [49] for _ in range(rnd.choice([1, 1, 1, 2, 3, 7]))], text=some_text(rnd, p), opts=[])
        if rnd.random() < .03: c['phones'] = [phone(rnd) for _ in range(rnd.choice([99, 100]))]
    elif k == 'deliver':
        c.update(phone=phone(rnd) if rnd.random() < .7 else s(rnd, 21), dest=rnd.choice([[], o('001'), o('12345678'), s(rnd, 6)]), service=rnd.choice([[], s(rnd, 10)]), text=some_text(rnd, p))
        if p == 'sgip' and rnd.random() < .2: c['dest'] = c['ac']['SmsDisplayNo'] + o('77')
        if rnd.random() < .12:      # the account's number somewhere in the sub-number, or part of it in front
            no = c['ac']['SmsDisplayNo'] = o('106%d' % rnd.randrange(1, 9))
            c['dest'] = rnd.choice([o('2') + no, o('2') + no + o('3'), no[:3], no[:3] + o('9'), no + no, no[1:], no])
            if p != 'sgip' and len(c['dest']) + len(no) > 21: c['dest'] = no
    elif k == 'report':
        c['msgid'] = [rnd.randrange(256) for _ in range(10 if p == 'smgp' else 8)]
        if rnd.random() < .3: c['msgid'] = rnd.choice([[255] * len(c['msgid']), [0] * (len(c['msgid']) - 1) + [1], [128] + [0] * (len(c['msgid']) - 1)])
        c.update(mtseq=[rnd.randrange(256) for _ in range(12)], phone=phone(rnd), state=[rnd.choice([0, 1, 2])], errcode=[rnd.randrange(256)], fake=ms(t) // 1000 % 1000 in range(0, 12))
        c['mt'] = mt_body(rnd, p, c['v'])
        if rnd.random() < .7: c['pre'] = rnd.randrange(120)
    c.update(kw)
    return c

def pad(x, w): return (x + [0] * w)[:w]
def mt_body(rnd, p, v):
    """the body of a submit with one or two recipients, as a client would send it"""
    n = rnd.choice([1, 1, 1, 2])
    if p == 'cmpp':
        t = 32 if v >> 4 == 3 else 21
        to = [phone(rnd) if rnd.random() < .7 else s(rnd, 21, False) for _ in range(n)]
        x = [0] * 8 + [1, 1, 1, rnd.randrange(10)] + pad(s(rnd, 10), 10) + [0] * (1 + t) + ([0] if t == 32 else []) + [0, 0, 0] + pad(o('901234'), 6) + o('01') + pad(o('10'), 6) + [0] * 34
        x += pad(rnd.choice([o('10658001'), s(rnd, 21, False)]), 21) + [n] + sum((pad(q, t) for q in to), []) + ([0] if t == 32 else []) + [2, 72, 105] + [0] * (20 if t == 32 else 8)
        return x
    if p == 'smgp':
        return [6, 1, 3] + pad(s(rnd, 10), 10) + o('01') + [0] * 12 + [15] + [0] * 34 + pad(rnd.choice([o('10658001'), s(rnd, 21, False)]), 21) + [0] * 21 + [n] + \
            sum((pad(phone(rnd) if rnd.random() < .7 else s(rnd, 21, False), 21) for _ in range(n)), []) + [2, 72, 105] + [0] * 8
    return []

def simple(rnd, p, kind):
    t = clock(rnd)
    c = dict(base(rnd, 'simple', p, kind, 'constructors'), ac=account(rnd, p), now=ms(t))
    a, ts = c['ac'], t.strftime('%m%d%H%M%S')
    c['want'] = {'Version': [c['v']], 'Timestamp': be(int(ts), 4)} if kind in ('connect', 'login') else {}
    if kind in ('connect', 'login'):
        md5 = hashlib.md5(bytes(a['ClientId']) + bytes(9 if kind == 'connect' else 7) + bytes(a['SharedSecret']) + ts.encode()).digest()
        c['want'].update({'Auth': list(md5), 'SourceAddr' if kind == 'connect' else 'ClientID': a['ClientId']})
        if kind == 'login': c['want']['LoginMode'] = [2]
    if kind == 'bind':
        c['type'] = rnd.choice([1, 2, 255])
        c['want'] = {'LoginType': [c['type']], 'LoginPassword': a['SharedSecret']}
        a['LoginName'] = a['ClientId']
        c['want']['LoginName'] = a['ClientId']
    return c

def decode_cases(rnd, p, pk, tier):
    out = []
    big = tier == 'thorough'
    for kind, v, body in pk:
        c = dict(base(rnd, 'dec', p, json.loads(kind), 'specification packets', json.loads(v)), body=json.loads(body))
        out.append(c)
    rnd.shuffle(out)
    spec = out[:]
    # every length a body can be cut to, and octets behind it
    for c in spec:
        for _ in range(2 if big else 1):
            n = rnd.randrange(len(c['body']) + 1)
            out.append(dict(c, body=c['body'][:n], fam='cut short', seq=seq(rnd)))
        if rnd.random() < .2: out.append(dict(c, body=c['body'] + [rnd.randrange(256) for _ in range(rnd.randrange(1, 9))], fam='octets behind'))
    bykind = {}
    for c in spec: bykind.setdefault((c['kind'], c['v']), c)
    for c in bykind.values():                            # all lengths
        for n in range(len(c['body'])) if big else sorted(rnd.sample(range(len(c['body'])), min(40, len(c['body'])))):
            out.append(dict(c, body=c['body'][:n], fam='every length'))
    # octets changed: counts and lengths that lie
    for c in spec if big else spec[::2]:
        b = c['body'][:]
        if not b: continue
        for _ in range(rnd.randrange(1, 4)): b[rnd.randrange(len(b))] = rnd.choice([0, 1, 2, 255, 254, 128, rnd.randrange(256)])
        out.append(dict(c, body=b, fam='octets changed'))
    for c in bykind.values():                            # four octets that read as a very large length, at every place
        for at in range(0, len(c["body"]) - 3) if big or len(c["body"]) < 250 else sorted(rnd.sample(range(len(c["body"]) - 3), 60)):
            for x in 0xffffffff, rnd.choice([0xffffffff - rnd.randrange(300), 0xffffffff - rnd.randrange(100), 0x7fffffff, 0x80000000]):
                out.append(dict(c, body=c['body'][:at] + be(x, 4) + c['body'][at + 4:], fam='huge lengths'))
    # random octets
    for _ in range(2000 if big else 250):
        kind = rnd.choice(sorted({c['kind'] for c in spec}))
        out.append(dict(base(rnd, 'dec', p, kind, 'random octets'), body=[rnd.choice([0, 0, 1, 3, 8, 255, rnd.randrange(256)]) for _ in range(rnd.choice([0, 1, 8, 14, 27, 60, 90, 130, 200, 400]))]))
    # texts inside: parts of long messages, reports
    for _ in range(1500 if big else 200): out.append(text_packet(rnd, p))
    for c in out:                                        # a transparent response code
        if c['fam'] != 'specification packets': c['code'] = [rnd.randrange(256)]
    return out

COUNTS = [1] * 14 + [2] * 6 + [3, 99, 100, 127, 128, 140]
def text_packet(rnd, p):
    """submits and delivers with real texts, parts of long messages and status reports"""
    v = version(rnd, p)
    t32 = v >> 4 == 3
    k = rnd.choice(['submit', 'submit', 'deliver', 'report'])
    t = some_text(rnd, p, rnd.randrange(0, 34))
    cps = [x['c'] for x in t]
    gb = sum((x['g'] for x in t), [])
    u16 = o(''.join(map(chr, cps)).encode('utf-16-be'))
    fmt = rnd.choice([0, 8, 8, 15])
    content = {0: gb, 8: u16, 15: gb}[fmt] if p != 'smgp' else gb
    udh = rnd.random() < .5
    if udh and k == 'submit': content = [5, 0, 3, rnd.randrange(256), 3, rnd.randrange(1, 4)] + content
    udhi = rnd.choice([1, 1, 0]) if udh else rnd.choice([0, 0, 1, 64])
    c = base(rnd, 'dec', p, 'submit' if k == 'submit' else 'deliver', 'texts', v)
    if p == 'smgp': c['text'] = t
    ph = lambda w: pad(phone(rnd), w)
    if p == 'cmpp':
        tl = 32 if t32 else 21
        if k == 'submit':
            n = rnd.choice(COUNTS)
            c['body'] = [0] * 8 + [3, 1, 1, 5] + pad(s(rnd, 10), 10) + [2] + pad(s(rnd, tl, False), tl) + ([1] if t32 else []) + [0, udhi, fmt] + pad(s(rnd, 6), 6) + o('02') + pad(s(rnd, 6), 6) + \
                pad(s(rnd, 17), 17) + pad(s(rnd, 17), 17) + pad(s(rnd, 21), 21) + [n] + sum((ph(tl) for _ in range(n)), []) + ([0] if t32 else []) + [len(content)] + content + pad(s(rnd, 20), 20 if t32 else 8)
            if not t32: c['body'][-8:] = [0] * 8
        else:
            rep = k == 'report'
            if rep: content = [rnd.randrange(256) for _ in range(8)] + o(rnd.choice(['DELIVRD', 'UNDELIV', 'EXPIRED', 'MA:0001', 'CB', ''])).__add__([0] * 7)[:7] + o('2606150905') + o('2606150906') + ph(21) + [rnd.randrange(256) for _ in range(4)]
            if rep and rnd.random() < .2: content = content[:rnd.randrange(60)]
            c['body'] = [rnd.randrange(256) for _ in range(8)] + pad(s(rnd, 21), 21) + pad(s(rnd, 10), 10) + [0, 0, fmt] + ph(tl) + ([0] if t32 else []) + [1 if rep else rnd.choice([0, 0, 2])] + [len(content)] + content
            c['body'] += pad(s(rnd, 20), 20) if t32 else [0] * 8
    elif p == 'smgp':
        if k == 'submit':
            n = rnd.choice(COUNTS)
            tl = rnd.choice([[], [0, 1, 0, 1, 0, 0, 2, 0, 1, 1, 0, 9, 0, 1, 3, 0, 10, 0, 1, 1], [0, 3, 0, 0], [0, 16, 0, 8] + o('12345678')])
            c['body'] = [6, 1, 3] + pad(s(rnd, 10), 10) + o('01') + pad(s(rnd, 6), 6) + pad(s(rnd, 6), 6) + [15] + pad(s(rnd, 17), 17) + pad(s(rnd, 17), 17) + pad(s(rnd, 21), 21) + pad(s(rnd, 21), 21) + [n] + \
                sum((ph(21) for _ in range(n)), []) + [len(content)] + content + [0] * 8 + tl
            if not udh and content[:3] == [5, 0, 3]: del c['text']
        else:
            rep = k == 'report'
            if rep:
                content = o('id:') + [rnd.randrange(256) for _ in range(10)] + o(' sub:001 dlvrd:001 submit date:2606150905 done date:2606150906 stat:%s err:%s text:' % (rnd.choice(['DELIVRD', 'UNDELIV', 'EXPIRED']), rnd.choice(['000', '003']))) + [0] * 20
                del c['text']
            c['body'] = [rnd.randrange(256) for _ in range(10)] + [1 if rep else rnd.choice([0, 0, 2]), 0 if rep else 15] + o('20260615090503') + ph(21) + pad(s(rnd, 21), 21) + [len(content)] + content + [0] * 8
    else:
        s23 = [rnd.randrange(256) for _ in range(8)]
        if k == 'submit':
            n = rnd.choice(COUNTS)
            c['body'] = s23 + pad(s(rnd, 21), 21) + pad(s(rnd, 21), 21) + [n] + sum((ph(21) for _ in range(n)), []) + pad(s(rnd, 5), 5) + pad(s(rnd, 10), 10) + [1] + pad(s(rnd, 6), 6) + pad(s(rnd, 6), 6) + [0, 2, 9] + \
                pad(s(rnd, 16), 16) + pad(s(rnd, 16), 16) + [1, 0, udhi, fmt, 0] + be(len(content), 4) + content + [0] * 8
        else:
            c['body'] = s23 + ph(21) + pad(s(rnd, 21), 21) + [0, 0, fmt] + be(len(content), 4) + content + [0] * 8
    return c

def by_hand(rnd, n, fields):
    """SGIP packets filled in field by field"""
    out = []
    W = {'SPNumber': 21, 'ChargeNumber': 21, 'CorpId': 5, 'ServiceType': 10, 'FeeValue': 6, 'GivenValue': 6, 'ExpireTime': 16, 'ScheduleTime': 16, 'LoginName': 16, 'LoginPassword': 16, 'UserNumber': 21}
    nums = ['LoginType', 'Status', 'FeeType', 'AgentFlag', 'MorelatetoMTFlag', 'Priority', 'ReportFlag', 'TpPid', 'TpUdhi', 'MessageCoding', 'MessageType', 'ReportType', 'State', 'ErrorCode']
    for _ in range(n):
        kind = rnd.choice(['bind', 'bind_resp', 'submit', 'submit', 'submit', 'submit_resp', 'deliver', 'deliver', 'deliver_resp', 'report', 'report', 'report_resp', 'unbind', 'unbind_resp'])
        c = base(rnd, 'enc', 'sgip', kind, 'by hand')
        r = {k: s(rnd, w) for k, w in W.items()}
        r.update({k: [rnd.choice([0, 1, 255, rnd.randrange(256)])] for k in nums})
        r['Seq23'] = [rnd.randrange(256) for _ in range(8)]
        r['MtSequence'] = [rnd.randrange(256) for _ in range(12)]
        r['MessageContent'] = [rnd.randrange(256) for _ in range(rnd.choice([0, 1, 5, 139, 140, 160, 300]))]
        r['Reserve'] = rnd.choice([[], [], s(rnd, 8, False)]) if kind in ('submit', 'deliver', 'report') else []
        ln = 20 + {'bind': 41, 'bind_resp': 1, 'deliver': 57 + len(r['MessageContent']), 'report': 44, 'unbind': 0, 'unbind_resp': 0}.get(kind, 9)
        if kind == 'submit':
            r['UserNumber'] = [s(rnd, 21) for _ in range(rnd.choice([1, 1, 2, 5]))]
            ln = 143 + 21 * len(r['UserNumber']) + len(r['MessageContent'])
        r['MessageLength'], r['UserCount'] = be(len(r['MessageContent']), 4), [len(r['UserNumber']) % 256]
        c.update(r=r, limit=ln)
        out.append(c)
    return out

def split_cases(rnd, n, big):
    out = []
    for k in range(n):
        lim = rnd.choice([140, 160, 140, 160, 10, 7, 70])
        part = lim - 6
        m = rnd.choice([2, 3, 4, 9, 254, 255] if rnd.random() < .15 else [1, 2, 3, 4])
        ln = max(0, rnd.choice([0, 1, lim - 1, lim, lim + 1, m * part - 1, m * part, min(m * part + 1, 255 * part), rnd.randrange(1, 5 * lim)]))
        if lim == 7: ln = min(ln, 200)
        out.append(dict(base(rnd, 'split', '', '', 'octets'), content=[rnd.choice([0, 5, 3, 255, rnd.randrange(256)]) for _ in range(min(ln, 255 * part))], limit=lim))
    for k in range(n):
        out.append(dict(base(rnd, 'slices', '', '', 'texts'), text=some_text(rnd, rnd.choice(['cmpp', 'sgip']))))
    return out

def tlv_cases(rnd, hists, n):
    out = []
    probe = [{'o': 'len'}, {'o': 'get', 't': [0, 1]}, {'o': 'get', 't': [1, 0]}, {'o': 'all', 't': [0, 1]}, {'o': 'all', 't': [1, 0]}, {'o': 'write'}]
    mk = lambda ops, fam: dict(base(rnd, 'tlv', '', '', fam), ops=[dict({'t': [], 'v': [], 'b': []}, **x) for x in ops])
    for h in hists: out.append(mk(json.loads(h) + probe, 'specification behaviours'))
    val = lambda: [rnd.randrange(256) for _ in range(rnd.choice([0, 1, 1, 2, 8, 21, 255, 256, 300]))]
    enc = lambda os: sum((x['t'] + be(len(x['v']), 2) + x['v'] for x in os), [])
    for _ in range(n):
        tags = [[0, rnd.randrange(1, 20)] for _ in range(3)] + [[255, 255], [rnd.randrange(256), 0]]
        vs = [val() for _ in range(3)]
        ops = []
        for _ in range(rnd.randrange(1, 25)):
            x = {'o': rnd.choice(['add', 'add', 'add', 'addobj', 'get', 'all', 'rm', 'rmobj', 'len', 'write', 'read', 'from', 'to']), 't': rnd.choice(tags), 'v': rnd.choice(vs)}
            if x['o'] in ('read', 'from'):
                b = enc([{'t': rnd.choice(tags), 'v': rnd.choice(vs)} for _ in range(rnd.randrange(5))])
                q = rnd.random()
                if q < .4 and b: b = b[:rnd.randrange(len(b))]
                elif q < .5: b = b + [rnd.randrange(256) for _ in range(rnd.randrange(1, 6))]
                elif q < .6 and b: b[rnd.randrange(len(b))] = rnd.choice([0, 255, 1])
                x['b'] = b
            ops.append(x)
        out.append(mk(ops + [{'o': 'write'}, {'o': 'len'}], 'random scripts'))
    for k, z in enumerate([1023, 1024, 4096, 32767, 32768, 65535][:3 + n // 200]):        # long values
        v, t = [(j * 7 + k) % 251 for j in range(z)], [0, 1 + k]
        b = enc([{'t': t, 'v': v}, {'t': [9, 9], 'v': [1]}])
        ops = rnd.choice([[{'o': 'add', 't': t, 'v': v}, {'o': 'get', 't': t}, {'o': 'rmobj', 't': t, 'v': v[:-1] + [0]}], [{'o': 'to', 't': t, 'v': v}]]) + [{'o': 'read', 'b': b}, {'o': 'get', 't': t}, {'o': 'all', 't': [9, 9]}]
        out.append(mk(ops + [{'o': 'write'}, {'o': 'len'}], 'long values'))
    return out

def cases(prop, tier, rnd, res):
    big = tier == 'thorough'
    out = []
    if prop in PROTO:
        p = PROTO[prop]
        pk = packets(p, big, res)
        if big and len(pk) > 6000: pk = rnd.sample(pk, 6000)
        out += decode_cases(rnd, p, pk, tier)
        for kind in SIMPLE[p]: out += [simple(rnd, p, kind) for _ in range(200 if big else 25)]
        for k, n in (('submit', 120), ('deliver', 60), ('report', 60)):
            out += [constructed(rnd, k, p, 'constructors', **({'opts': options(rnd)} if k == 'submit' else {})) for _ in range(n * (8 if big else 1))]
        if p == 'sgip': out += by_hand(rnd, 3000 if big else 300, None)
    elif prop == 'C17':
        texts_model(tier, res)
        out += split_cases(rnd, 2000 if big else 150, big)
        for p in ('cmpp', 'smgp', 'sgip'):
            out += [constructed(rnd, 'submit', p, 'submits', text=some_text(rnd, p)) for _ in range(1500 if big else 150)]
            for kind, u in (('ascii', 1), ('han', 2)):      # all lengths around the limits
                lim = 140 if p == 'smgp' or kind == 'han' else 160
                one, part = lim // u, (lim - 6) // u
                for n in sorted({one - 1, one, one + 1, 2 * part - 1, 2 * part, 2 * part + 1, 3 * part, 3 * part + 1, 1, 2, 0}):
                    out.append(constructed(rnd, 'submit', p, 'limits', text=text(rnd, n, kind)))
            out.append(constructed(rnd, 'submit', p, 'very long', text=text(rnd, rnd.choice([254, 255]) * 67 - rnd.randrange(67), 'han'), phones=[phone(rnd)]))
    elif prop == 'C18':
        for p in ('cmpp', 'smgp', 'sgip'):
            for _ in range(2500 if big else 220):
                out.append(constructed(rnd, 'submit', p, 'options', opts=options(rnd), text=some_text(rnd, p, rnd.choice([3, 3, 3, 200]))))
            out += [constructed(rnd, 'submit', p, 'defaults', opts=[], text=some_text(rnd, p, 5)) for _ in range(300 if big else 40)]
            out += [constructed(rnd, 'submit', p, 'one option', opts=[option(rnd)], text=some_text(rnd, p, 5)) for _ in range(800 if big else 90)]
    elif prop == 'C19':
        for p in ('cmpp', 'smgp', 'sgip'):
            out += [constructed(rnd, 'deliver', p, 'messages') for _ in range(2500 if big else 220)]
            out += [constructed(rnd, 'report', p, 'reports') for _ in range(2500 if big else 220)]
            for kind, lim in (('ascii', 140 if p == 'smgp' else 160), ('han', 70), ('latin', 70), ('emoji', 35)):
                for n in (0, 1, 2, lim - 1, lim, lim + 1): out.append(constructed(rnd, 'deliver', p, 'limits', text=text(rnd, n, kind)))
    elif prop == 'C35':
        hs = texts_model(tier, res, 4 if big else 3)
        if big and len(hs) > 10000: hs = rnd.sample(hs, 10000)
        res.extra['model_behaviours'] = len(hs)
        out += tlv_cases(rnd, hs, 4000 if big else 500)
    for k, c in enumerate(out): c['tid'] = k
    return out

DROP = ('dur', 'pre', 'type', 'now', 'tid', 'fam')
def run(prop, tier, res):
    rnd = random.Random('%s-%d' % (prop, SEED))
    cs = cases(prop, tier, rnd, res)
    binary = B.build(scratch(), 'codec', overlay=ids.overlay())
    t = time.time()
    got = drive_parallel(binary, cs, 'codec', lambda why: {'panic': True, 'why': why})
    tdrive = time.time() - t
    cs = [c for c in cs if got[c['tid']] is not None]
    lines = [dict({k: v for k, v in c.items() if k not in DROP}, out=got[c['tid']]) for c in cs]
    bad, r = T.judge('CodecTrace', lines, timeout=1500)
    res.traces += len(lines); res.states += r.distinct; res.transitions += r.generated
    res.extra['case_families'] = {f: sum(1 for c in cs if c['fam'] == f) for f in sorted({c['fam'] for c in cs})}
    res.extra['drive_s'], res.extra['judge_s'] = round(tdrive, 1), round(r.wall, 1)
    short = lambda l: json.loads(json.dumps(l)) if len(json.dumps(l)) < 6000 else json.dumps(l)[:6000]
    res.samples += [short(lines[j]) for j in (0, len(lines) // 2, len(lines) - 1)]
    res.assumptions += ['GB18030 octets and MD5 digests come from Python\'s codecs and hashlib', 'package time is replaced by a controlled clock in codec and utils']
    for k in bad[:3]:
        at, why = T.explain('CodecTrace', lines[k])
        p = write_replay(prop, {'property': prop, 'case': cs[k], 'returned': lines[k]['out'], 'wrong': why}, '%d-%d' % (SEED, cs[k]['tid']))
        res.violation('%s: %s %s %s (%s): what the real code returned is not what Codec.tla says: %s' % (prop, cs[k]['p'], cs[k]['kind'], cs[k]['k'], cs[k]['fam'], why[:600]), p)
    res.extra['rejected'] = len(bad)
