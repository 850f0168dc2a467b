"""Builds the harness test binaries against /repo's working tree, in a scratch directory."""
import os, re, shutil, subprocess, sys, tempfile, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')

def goenv(scratch):
    e = dict(os.environ)
    e.update(HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='', GOPATH='/root/go',
             GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build', GOWORK=scratch + '/go.work',
             GOSUMDB='off', GOTMPDIR=scratch)
    e['PATH'] = '/opt/veriftools/go1.27.3/bin:' + e['PATH']
    e.pop('GOROOT', None)
    return e

def workspace(scratch):
    """go.work in scratch: the repository's modules plus a copy of the harness module."""
    h = scratch + '/harness'
    if not os.path.isdir(h):
        shutil.copytree(VERIF + '/harness', h)
    mods = [os.path.dirname(p) for p in glob.glob(REPO + '/*/go.mod')]
    # one set of requirements: everything the repository's modules require
    req, sums = {}, set()
    for m in mods:
        txt = open(m + '/go.mod').read()
        for a, v in re.findall(r'^\s*(?:require\s+)?([\w./\-]+\.[\w./\-]+)\s+(v\S+)', txt, re.M):
            if not a.startswith('github.com/hrygo/gosms'):
                req[a] = max(req.get(a, ''), v) if a in req else v
        if os.path.exists(m + '/go.sum'):
            sums |= set(open(m + '/go.sum').read().splitlines())
    if os.path.exists(REPO + '/go.work.sum'):
        sums |= set(open(REPO + '/go.work.sum').read().splitlines())
    with open(h + '/go.mod', 'a') as f:
        f.write('\nrequire (\n' + ''.join('\t%s %s\n' % kv for kv in sorted(req.items())) + ')\n')
    open(h + '/go.sum', 'w').write('\n'.join(sorted(s for s in sums if s)) + '\n')
    with open(scratch + '/go.work', 'w') as f:
        f.write('go 1.25\n\nuse (\n' + ''.join('\t%s\n' % m for m in sorted(mods)) + '\t%s\n)\n' % h)

class BuildError(Exception):
    pass

def build(scratch, pkg, overlay=None, race=False):
    """go test -c of harness package pkg; returns the binary's path."""
    if not os.path.exists(scratch + '/go.work'):
        workspace(scratch)
    out = '%s/%s.test' % (scratch, pkg.replace('/', '_'))
    cmd = ['go', 'test', '-c', '-vet=off', '-o', out]
    if race: cmd.append('-race')
    if overlay: cmd += ['-overlay', overlay]
    cmd.append('verif.local/harness/' + pkg)
    p = subprocess.run(cmd, cwd=scratch + '/harness', env=goenv(scratch), capture_output=True, text=True)
    if p.returncode:
        raise BuildError(p.stderr[-4000:])
    return out
