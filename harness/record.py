"""Runs histories on the real calculator and records what it is seen to do.

A history is a list of steps on one or more calculators; the recorded
observations are what spec/Judge.tla compares with the specification.
"""
import contextlib, io, math, os, pickle, resource, shutil, signal, sys, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
sys.set_int_max_str_digits(0)

DEFAULT = dict(cm=35, tm=[10], q=39, es=92, ptr=[64], simp=True,
               pref=['gregorian', 'si', 'us', 'uk', 'asu', 'nautical', 'iec'],
               arr=dict(open=[91], range=[46, 46], step=[115, 116, 101, 112], param=[44], close=[93]))
CALL_SECONDS = 20


def conf(**over):
    c = dict(DEFAULT)
    c.update(over)
    return c


def codes(s):
    return [ord(c) for c in s]


def text(cs):
    return ''.join(chr(c) for c in cs)


class Timeout(BaseException):
    pass


def on_alarm(signum, frame):
    raise Timeout()


# ---------------------------------------------------------------- snapshots
def limbs(n):
    out = []
    n = abs(n)
    while n:
        n, r = divmod(n, 1000)
        out.append(r)
    return out


def certificate(n, d):
    """a, b with n*a = d*b + 1, if n and d have no common factor"""
    n = abs(n)
    if d <= 1 or math.gcd(n, d) != 1:
        return [[], []]
    a = pow(n, -1, d)
    return [limbs(a), limbs((n * a - 1) // d)]


def snap_unit(u):
    if u is None:
        return []
    out = []
    for up in u.list():
        p = up.power
        n, d = int(p.num), int(p.den)
        ok = abs(n) < 1000 and d < 1000
        out.append([codes(up.unit.singular()), n if ok else 0] + ([d] if ok and d != 1 else []))
    return out


def snap(calc, value, unit=None):
    from modularcalculator.objects.number import Number
    from modularcalculator.objects.units import UnitPowerList
    from modularcalculator.objects.items import OperandResult
    from modularcalculator.features.structure.inlinefunctions import InlineFunctionItem
    if value is None:
        return {'k': 'nil'}
    if isinstance(value, Number):
        if value.num != int(value.num) or value.den != int(value.den):
            return {'k': 'odd'}
        n, d = int(value.num), int(value.den)
        if max(abs(n), abs(d)).bit_length() > 10000:
            return {'k': 'long'}
        return {'k': 'num', 's': (n > 0) - (n < 0) if d > 0 else 9, 'n': limbs(n), 'd': limbs(d),
                't': codes(value.to_string(calc)), 'u': snap_unit(unit), 'bz': certificate(n, d)}
    if isinstance(value, bool):
        return {'k': 'bool', 'b': value}
    if isinstance(value, str):
        return {'k': 'str', 't': codes(value)} if len(value) <= 5000 else {'k': 'long'}
    if isinstance(value, list) and len(value) > 2000:
        return {'k': 'long'}
    if isinstance(value, list):
        return {'k': 'arr', 'e': [snap(calc, e.value, e.unit) if hasattr(e, 'value') else {'k': 'odd'} for e in value]}
    if isinstance(value, UnitPowerList):
        return {'k': 'unit', 'u': snap_unit(value)}
    if isinstance(value, Exception):
        from modularcalculator.objects.exceptions import CalculatorException
        return {'k': 'err' if isinstance(value, CalculatorException) else 'odd'}
    if isinstance(value, InlineFunctionItem):
        return {'k': 'fn'}
    return {'k': 'odd'}


def snap_vars(calc, d):
    return [[codes(n), snap(calc, v[0], v[1]) if isinstance(v, tuple) else snap(calc, v.value, v.unit)] for n, v in sorted(d.items())]


def snap_result(calc, r):
    from modularcalculator.objects.items import items_text
    return {'x': codes(r.expression), 'i': codes(items_text(r.items)),
            'v': snap(calc, r.value, r.unit) if r.has_result() else {'k': 'none'},
            'sk': r.has_state(), 's': snap_vars(calc, r.state) if r.has_state() else []}


# ------------------------------------------------------------------- running
def make_calculator(cfg):
    from modularcalculator.modularcalculator import ModularCalculator
    calc = ModularCalculator('Computing')
    configure(calc, cfg)
    return calc


def configure(calc, cfg):
    o = calc.feature_options
    o['nonfunctional.comments']['Symbol'] = chr(cfg['cm'])
    o['structure.terminator']['Symbol'] = text(cfg['tm'])
    o['strings.strings']['Symbol'] = chr(cfg['q'])
    o['strings.strings']['Escape Char'] = chr(cfg['es'])
    o['structure.functionpointers']['Symbol'] = text(cfg['ptr'])
    a = o['arrays.arrays']
    for key, name in (('open', 'Open'), ('range', 'Range'), ('step', 'Step'), ('param', 'Param'), ('close', 'Close')):
        a[name] = text(cfg['arr'][key])
    calc.unit_normaliser.systems_preference = list(cfg['pref'])
    calc.unit_simplification_set(cfg['simp'])


slow_calls = 0


def global_slow():
    global slow_calls
    slow_calls += 1


def call(calc, t, fl):
    """one call of calculate: (observation, results, exception text)"""
    from modularcalculator.objects.exceptions import ParsingException, ExecutionException
    from modularcalculator.objects.items import items_text
    from modularcalculator.services.syntaxhighlighter import SyntaxHighlighter
    flags = {}
    if fl['po']:
        flags['parse_only'] = True
    if fl['sl']:
        flags['stateless'] = True
    if fl['is']:
        flags['include_state'] = True
    s = text(t)
    obs = {'k': 'ok', 'pos': -1, 'pre': [], 'r': [], 'it': [], 'hl': [], 'vars': [], 'same': True, 'why': ''}
    results = []
    try:
        try:
            response = calc.calculate(s, flags) if flags else calc.calculate(s)
            results = response.results
            with contextlib.redirect_stdout(io.StringIO()):
                hl = SyntaxHighlighter().highlight_statements([r.items for r in results])
            obs['it'] = codes(''.join(items_text(r.items) for r in results))
            obs['hl'] = codes(''.join(p[1] for st in hl for p in st))
        except (ParsingException, ExecutionException) as err:
            obs['k'] = 'parse' if isinstance(err, ParsingException) else 'exec'
            obs['pre'] = codes(''.join(items_text(st) for st in err.statements))
            with contextlib.redirect_stdout(io.StringIO()):
                obs['pos'] = err.find_pos(s)
            results = err.response.results if err.has_response() else []
        obs['r'] = [snap_result(calc, r) for r in results]
        obs['vars'] = snap_vars(calc, calc.vars)
    except Timeout:
        global_slow(); obs.update(k='slow', why='no answer within {} s'.format(CALL_SECONDS), r=[])
    except Exception as err:
        obs.update(k='other', why='{}: {}'.format(type(err).__name__, str(err)[:200]), r=[])
        with contextlib.suppress(Exception):
            obs['vars'] = snap_vars(calc, calc.vars)
    return obs, results


def run_case(case, note=None):
    """fills in the observations of a case"""
    signal.signal(signal.SIGALRM, on_alarm)
    here = os.getcwd()
    scratch = tempfile.mkdtemp(prefix='vcase')
    try:
        os.chdir(scratch)
        for name, content in case['files']:
            path = os.path.join(scratch, os.path.basename(text(name)))
            with open(path, 'w', encoding='utf-8', newline='') as fh:
                fh.write(text(content))
        calcs = [make_calculator(c) for c in case['cfgs']]
        kept = []
        for step in case['steps']:
            calc = calcs[step['c'] - 1]
            if step['op'] == 'calc':
                signal.alarm(CALL_SECONDS if slow_calls < 3 else 2)
                try:
                    obs, results = call(calc, step['t'], step['fl'])
                finally:
                    signal.alarm(0)
                step['obs'] = obs
                if note:
                    note(obs)
                kept.append((calc, step, results))
                if obs['why'].startswith('no answer'):
                    break
            elif step['op'] == 'pref':
                calc.unit_normaliser.systems_preference = list(step['pref'])
            elif step['op'] == 'simp':
                calc.unit_simplification_set(step['on'])
            elif step['op'] == 'conf':
                configure(calc, step['cfg'])
        # what was answered must not change afterwards
        for calc, step, results in kept:
            obs = step['obs']
            if obs['k'] not in ('other', 'slow'):
                try:
                    obs['same'] = [snap_result(calc, r) for r in results] == obs['r']
                except Exception:
                    obs['same'] = False
        unseen = [i for i, s in enumerate(case['steps']) if s['op'] == 'calc' and 'obs' not in s]
        if unseen:
            case['steps'] = case['steps'][:unseen[0]]
    finally:
        os.chdir(here)
        shutil.rmtree(scratch, ignore_errors=True)
    return case


KILL_SECONDS = 30       # of processor time in one history


def dead(case, seen, why):
    """the process running this history ended in the call after those seen"""
    for n, s in enumerate(case['steps']):
        if s['op'] == 'calc':
            if seen:
                s['obs'] = seen.pop(0)
                continue
            s['obs'] = {'k': 'slow' if why == 'slow' else 'other', 'pos': -1, 'pre': [], 'r': [], 'it': [], 'hl': [], 'vars': [], 'same': True,
                        'why': 'no answer within {} s'.format(KILL_SECONDS) if why == 'slow' else 'the process died: ' + why}
            case['steps'] = case['steps'][:n + 1]
            break
    return case


def child(batch, out):
    """runs histories in a forked process; each result is written as soon as it is there"""
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    sys.stdout = open(os.devnull, 'w')
    with open(out, 'wb') as fh:
        for i, c in batch:
            signal.setitimer(signal.ITIMER_PROF, KILL_SECONDS)
            done = run_case(c, lambda obs: (pickle.dump((-1, obs), fh), fh.flush()))
            signal.setitimer(signal.ITIMER_PROF, 0)
            pickle.dump((i, done), fh)
            fh.flush()


def load():
    """the code under test, loaded before forking"""
    with contextlib.suppress(Exception):
        import modularcalculator.modularcalculator, modularcalculator.services.syntaxhighlighter
        modularcalculator.modularcalculator.ModularCalculator('Computing')


def record(cases, jobs=8, size=25):
    """records every case, in order; a history that ends its process is marked"""
    load()
    done = [None] * len(cases)
    todo = [[(i, cases[i]) for i in range(k, min(k + size, len(cases)))] for k in range(0, len(cases), size)]
    running = {}
    work = tempfile.mkdtemp(prefix='vrec')
    n = 0
    try:
        while todo or running:
            while todo and len(running) < jobs:
                batch = todo.pop(0)
                n += 1
                out = os.path.join(work, str(n))
                pid = os.fork()
                if pid == 0:
                    code = 1
                    try:
                        child(batch, out)
                        code = 0
                    finally:
                        os._exit(code)
                running[pid] = (batch, out)
            pid, status = os.wait()
            if pid not in running:
                continue
            batch, out = running.pop(pid)
            got, seen = 0, []
            with contextlib.suppress(EOFError, FileNotFoundError, pickle.UnpicklingError), open(out, 'rb') as fh:
                while True:
                    i, c = pickle.load(fh)
                    if i < 0:
                        seen.append(c)
                    else:
                        done[i] = c
                        got, seen = got + 1, []
            if got < len(batch):
                i, c = batch[got]
                slow = os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGPROF
                done[i] = dead(c, seen, 'slow' if slow else 'status {}'.format(status))
                if batch[got + 1:]:
                    todo.append(batch[got + 1:])
            with contextlib.suppress(FileNotFoundError):
                os.unlink(out)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return done
