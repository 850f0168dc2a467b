"""Model checking of Gateway and generation of stimuli from it."""
import json, re
from common import *

BASE = dict(CONNS='{1, 2}', ACCTS='{"a"}', PROTO='"cmpp"', CAP='2', MAXC='1', W='1', TMAX='0', NSEQ='3', RATE='"ok"',
            KINDS='{"login", "loginB", "active", "badcmd"}', PAIRS='FALSE', TICKS='FALSE', FORCE='4', STORE='FALSE', MO='FALSE')
INV = 'P_C01 P_C03 P_C03b P_C04 P_C07 P_C07b P_C08 P_C09 P_C11 P_C13 P_C12'

MC = {  # group -> tier -> [(name, constants, temporal properties)]
  'conn': {
    'quick': [('three connections, logins', dict(CONNS='{1, 2, 3}', CAP='2', NSEQ='2', KINDS='{"login", "loginB", "badcmd"}', STORE='TRUE'), '')],
    'thorough': [('three connections, segments of two packets', dict(CONNS='{1, 2, 3}', NSEQ='4', PAIRS='TRUE', STORE='TRUE'), ''),
                 ('limit two', dict(CONNS='{1, 2, 3}', CAP='3', MAXC='2', NSEQ='4', KINDS='{"login", "loginV", "loginU", "term"}'), ''),
                 ('liveness', dict(NSEQ='3', PAIRS='TRUE', KINDS='{"login", "loginB", "term", "badcmd"}'), 'L_C12 L_C02')]},
  'serve': {
    'quick': [('window of one', dict(CONNS='{1}', CAP='1', TMAX='4', NSEQ='5', KINDS='{"login", "submit", "active", "aresp"}'), '')],
    'thorough': [('window of one', dict(CONNS='{1}', CAP='1', TMAX='5', NSEQ='6', KINDS='{"login", "submit", "active", "aresp"}'), ''),
                 ('window of two, failures', dict(CONNS='{1}', CAP='1', W='2', TMAX='3', NSEQ='6', RATE='"fail"', KINDS='{"login", "submit", "aresp"}'), ''),
                 ('window of two', dict(CONNS='{1}', CAP='1', W='2', TMAX='3', NSEQ='5', KINDS='{"login", "submit", "active"}'), ''),
                 ('SGIP', dict(PROTO='"sgip"', CONNS='{1, 2}', CAP='2', MAXC='2', W='1', TMAX='2', NSEQ='5', KINDS='{"login", "submit", "term"}'), ''),
                 ('liveness', dict(CONNS='{1}', CAP='1', TMAX='3', NSEQ='4', KINDS='{"login", "submit", "active", "term"}'), 'L_C07 L_C12')]},
  'tick': {
    'quick': [('timer', dict(CONNS='{1}', CAP='1', TMAX='7', NSEQ='3', KINDS='{"login", "aresp"}', TICKS='TRUE', MO='TRUE'), '')],
    'thorough': [('timer, all kinds', dict(CONNS='{1}', CAP='1', TMAX='8', NSEQ='3', KINDS='{"login", "submit", "aresp", "active", "tresp"}', TICKS='TRUE'), ''),
                 ('heartbeats unanswered', dict(CONNS='{1}', CAP='1', TMAX='10', NSEQ='3', FORCE='20', KINDS='{"login", "aresp"}', TICKS='TRUE'), ''),
                 ('liveness', dict(CONNS='{1}', CAP='1', TMAX='7', NSEQ='2', KINDS='{"login", "term"}', TICKS='TRUE'), 'L_C12')]},
  'end': {
    'quick': [('ends', dict(CONNS='{1, 2}', CAP='2', MAXC='2', TMAX='1', NSEQ='4', KINDS='{"login", "submit", "term", "tresp"}'), '')],
    'thorough': [('ends', dict(CONNS='{1, 2}', CAP='2', MAXC='2', TMAX='2', NSEQ='5', KINDS='{"login", "submit", "term", "tresp"}'), ''),
                 ('liveness', dict(CONNS='{1}', CAP='1', TMAX='2', NSEQ='4', KINDS='{"login", "submit", "term", "tresp", "badcmd"}'), 'L_C12')]},
}
GROUP = {'C01': 'conn', 'C02': 'conn', 'C03': 'conn', 'C04': 'conn', 'C05': 'conn', 'C06': 'conn', 'C07': 'serve', 'C08': 'serve', 'C09': 'serve',
         'C10': 'serve', 'C11': 'tick', 'C39': 'tick', 'C12': 'end', 'C13': 'end'}

def cfg_file(name, consts, spec, rest):
    p = '%s/%s.cfg' % (scratch(), name)
    c = dict(BASE); c.update(consts)
    with open(p, 'w') as f:
        f.write('SPECIFICATION %s\nCONSTANTS\n%s\n%s\nCHECK_DEADLOCK FALSE\n' %
                (spec, '\n'.join('  %s = %s' % kv for kv in sorted(c.items())), rest))
    return p

def check_model(prop, tier, res):
    g = GROUP[prop]
    for k, (name, consts, live) in enumerate(MC[g][tier]):
        rest = 'INVARIANTS ' + INV + ('\nPROPERTIES ' + live if live else '')
        r = model_check('GatewayMC', cfg_file('mc_%s_%d' % (g, k), consts, 'MCSpec', rest), timeout=1500 if tier == 'thorough' else 200)
        res.add_mc('GatewayMC: ' + name, r)

def stimuli(consts, length, hold, num, seed, exhaustive=False):
    """Sequences of environment actions that GatewayGen allows."""
    cfg = cfg_file('gen_%d_%s' % (length, hold), dict(consts, LEN=str(length), HOLD='TRUE' if hold else 'FALSE'), 'GSpec',
                   'INVARIANT Emit')
    if exhaustive:
        r = tlc('GatewayGen', cfg, timeout=600)
    else:
        r = tlc('GatewayGen', cfg, args=['-simulate', 'num=%d' % num, '-depth', '400', '-seed', str(seed)], timeout=300, workers=1)
    if 'Error' in r.out.replace('Error: Deadlock', ''):
        raise Infra('stimulus generation failed: ' + r.out[-2000:])
    seen, out = set(), []
    for l in re.findall(r'^"(\[.*\])"$', r.out, re.M):
        if l not in seen:
            seen.add(l)
            out.append(json.loads(l.replace('\\"', '"')))
    return out, r
