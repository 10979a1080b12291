import base64, gzip, json, os, re, subprocess, sys
S = os.environ['SCRATCH']
N = [0]
def crate(files, toml=''):
    """a scratch crate with the given source files"""
    N[0] += 1
    d = '%s/crate%d' % (S, N[0])
    os.makedirs(d + '/src')
    open(d + '/Cargo.toml', 'w').write('[package]\nname = "demo%d"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n%s' % (N[0], toml))
    for f, t in files.items():
        os.makedirs(os.path.dirname(d + '/' + f), exist_ok=True)
        open(d + '/' + f, 'w').write(t)
    return d
def run(d, *args, prog='cargo-flowistry', sub='flowistry'):
    e = dict(os.environ); e['CARGO_TARGET_DIR'] = d + '/target'
    r = subprocess.run([prog, sub] + [str(a) for a in args] if sub else [prog] + [str(a) for a in args], cwd=d, env=e, capture_output=True, text=True, timeout=100)
    return r
def flowistry(d, *args):
    r = run(d, *args)
    if r.returncode: raise SystemExit('driver failed: ' + r.stderr[-1500:])
    return json.loads(gzip.decompress(base64.b64decode(r.stdout)))
def text(src, rg):
    ls = src.split('\n'); a, b = rg['start'], rg['end']
    if a['line'] == b['line']: return ls[a['line']][a['column']:b['column']]
    return '\n'.join([ls[a['line']][a['column']:]] + ls[a['line'] + 1:b['line']] + [ls[b['line']][:b['column']]])
def focus(src, fn='main', extra=()):
    d = crate({'src/main.rs': src})
    line = next(i for i, l in enumerate(src.split('\n')) if 'fn ' + fn in l)
    f = d + '/src/main.rs'
    return flowistry(d, *extra, 'focus', f, line, src.split('\n')[line].index('fn ' + fn) + 3)
