"""Shared machinery of the checks: scratch space, TLC, evidence, verdicts."""
import atexit, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
T0 = time.time()

class Infra(Exception):
    """The check could not reach a verdict."""

_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='gosms-verif-')
        if not os.environ.get('VERIF_KEEP'):
            atexit.register(shutil.rmtree, _scratch, True)
        else:
            print('scratch', _scratch)
    return _scratch

class TLCResult:
    pass

def tlc(module, cfg, env=None, args=(), timeout=800, workers=8, mem='6g', spec_dir=None, props=()):
    """Runs TLC on spec/module.tla with configuration cfg (a file name in spec/)."""
    d = spec_dir or VERIF + '/spec'
    meta = tempfile.mkdtemp(prefix='tlc', dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-Xmx' + mem, '-Xss64m', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + meta] + list(props) + \
          ['-cp', JAR, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-noGenerateSpecTE', '-config', cfg] + list(args) + [module]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra('TLC timed out on %s' % module)
    r = TLCResult()
    r.out, r.rc, r.wall = p.stdout + p.stderr, p.returncode, time.time() - t
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.out)
    r.generated, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    m = re.search(r'depth of the complete state graph search is (\d+)', r.out)
    r.depth = int(m.group(1)) if m else 0
    r.complete = 'Model checking completed. No error has been found.' in r.out
    shutil.rmtree(meta, True)
    return r

def model_check(module, cfg, timeout=800, workers=8, mem='8g', args=()):
    """Exhaustive check of the specification itself; the design has to satisfy its properties."""
    r = tlc(module, cfg, timeout=timeout, workers=workers, mem=mem, args=args)
    if not r.complete or r.rc != 0:
        raise Infra('the specification %s/%s does not satisfy its own properties:\n%s' % (module, cfg, r.out[-3000:]))
    return r

class Result:
    """What a check covered and found."""
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.states = self.transitions = self.traces = 0
        self.samples, self.extra, self.violations = [], {}, []
        self.assumptions = []
    def add_mc(self, name, r):
        self.states += r.distinct
        self.transitions += r.generated
        self.extra.setdefault('model_checking_runs', []).append(
            {'spec': name, 'distinct_states': r.distinct, 'states_generated': r.generated, 'depth': r.depth, 'complete': r.complete,
             'wall_s': round(r.wall, 1)})
    def violation(self, what, replay):
        self.violations.append((what, replay))

def write_replay(prop, data, name=None):
    d = VERIF + '/out'
    os.makedirs(d, exist_ok=True)
    p = '%s/%s-%s.json' % (d, prop, name or os.getpid())
    with open(p, 'w') as f:
        json.dump(data, f, indent=1)
    return p

def known_findings():
    """[(property, key)] of recorded, unrepaired defects."""
    r = []
    p = VERIF + '/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m:
                r.append((m.group(1), m.group(2), m.group(3)))
    return r

def finish(res):
    d = VERIF + '/evidence'
    os.makedirs(d, exist_ok=True)
    cov = {'states': res.states, 'transitions': res.transitions,
           'traces_validated_against_impl': res.traces, 'samples': res.samples[:4]}
    cov.update(res.extra)
    ev = {'property': res.prop, 'tier': res.tier, 'seed': SEED, 'level': 'model_checking', 'coverage': cov,
          'assumptions': res.assumptions, 'wall_s': round(time.time() - T0, 2), 'violations': len(res.violations)}
    with open('%s/%s.json' % (d, res.prop), 'w') as f:
        json.dump(ev, f, indent=1)
    if res.violations:
        for what, replay in res.violations[:3]:
            print(what)
            print('VIOLATION property=%s replay=%s' % (res.prop, replay))
        return 1
    for prop, key, what in known_findings():
        if prop == res.prop:
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
    print('OK property=%s tier=%s traces=%d states=%d wall=%.1fs' % (res.prop, res.tier, res.traces, res.states, time.time() - T0))
    return 0
