"""Runs TLC on a module of the specification in a scratch directory."""
import json, os, re, shutil, subprocess, sys, tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCFailed(Exception):
    pass


def run(module, cfg=None, env=None, workers=8, timeout=800, extra=(), heap='6g'):
    """TLC's output lines and its counts"""
    work = tempfile.mkdtemp(prefix='vtlc')
    try:
        for f in os.listdir(SPEC):
            if f.endswith(('.tla', '.cfg')):
                shutil.copy(os.path.join(SPEC, f), work)
        if cfg is not None:
            with open(os.path.join(work, module + '.cfg'), 'w') as fh:
                fh.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-cp', CP, 'tlc2.TLC', '-workers', str(workers),
               '-noGenerateSpecTE', '-metadir', os.path.join(work, 'meta'), '-config', module + '.cfg'] + list(extra) + [module + '.tla']
        p = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=timeout)
        out = p.stdout
        counts = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
        return {'out': out, 'err': p.stderr, 'rc': p.returncode,
                'generated': int(counts.group(1)) if counts else 0, 'distinct': int(counts.group(2)) if counts else 0}
    finally:
        shutil.rmtree(work, ignore_errors=True)


VERDICT = re.compile(r'<<"V", (\d+), (.*)>>$')


def parse_value(s):
    """a printed TLA+ value made of tuples, sets, strings and integers"""
    s = s.replace('<<', '[').replace('>>', ']').replace('{', '[').replace('}', ']').replace('TRUE', 'true').replace('FALSE', 'false')
    return json.loads(s)


def judge(cases, workers=8, timeout=800, module='JudgeMC'):
    """[(disagreements, decided, unspecified, outcomes)] for recorded cases, and TLC's counts"""
    fd, path = tempfile.mkstemp(prefix='vcases', suffix='.json')
    try:
        with os.fdopen(fd, 'w') as fh:
            json.dump([{'cfgs': c['cfgs'], 'files': c['files'], 'steps': c['steps']} for c in cases], fh)
        r = run(module, env={'CASES': path}, workers=workers, timeout=timeout)
    finally:
        os.unlink(path)
    res = [None] * len(cases)
    text = re.sub(r'\n\s+', ' ', r['out'])       # long values are wrapped
    for m in re.finditer(r'<<\s*"V", (\d+), (.*?)>>(?=\n|$)', text):
        i = int(m.group(1)) - 1
        res[i] = parse_value('<<' + m.group(2) + '>>')
    missing = [i for i, v in enumerate(res) if v is None]
    if missing or 'Model checking completed. No error' not in r['out']:
        raise TLCFailed('TLC gave no verdict on {} of {} cases\n{}\n{}'.format(len(missing), len(cases), r['out'][-3000:], r['err'][-500:]))
    return res, r
