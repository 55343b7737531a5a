"""P14: installations of features, replayed from the model and recorded from real features, judged by Install.tla."""
import hashlib, json, multiprocessing, os, random, re, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
import tlc, record

EXPRESSIONS = [
    '1+2', '7 % 4 + 2^5', '10 \\ 3', '0b101 + 1', '0o17 + 0', '0x1F', '50%', '1e5 + 1', "'1E5' + 1", "'0x1F' + 1", "'50%' + 1", "'0b11' + 1", "'16zFF' + 1", '36zZZ + 1',
    '5 km to m', '1 inch to cm', '3 gallons to litres', '5 kilograms * 3 m / second^2', '1 gibibyte to megabytes', '10 miles / 2 hours', '1 pint to ml', '90 km/h to m/s',
    '5 A * 2 V', '1 W * 3 s', '3 J / 2 m', '20 C to F', '1 acre to m^2', 'speedoflight', 'cos(0.5)', 'log(100, 10)', 'fact(20)', 'pi', 'e', 'PI * 2',
    '[1, 2, 3] * 3', '1..5', '1..9 step 2', 'sum([1, 2, 3])', 'sort([3, 1, 2])', '{PARAM1 + 1}', 'f = {PARAM1 * 2}\n@f(4)', 'x = 5\nx += 2\nx', 'x ||= 3', 'a = 1; b = 2',
    'true and not false', '1 < 2 then 3 else 4', "'a' +$ 'b'", "'abc' <$ 'abd'", "'Ab' ==~ 'aB'", "upper('abc')", "split('a,b', ',')", "'x12' =~ '[0-9]+'", "'2020-02-28' +% 2 days",
    "dateadd('2020-01-01', 1 hour)", '~0b0101', '6 & 3 | 8', '5 ^^ 1', '1 << 4', '5 as hexadecimal', 'hex(255)', 'bin(5)', 'base(255, 16)', '# nothing\n4', '2 (3 + 4)', '2 3 4', 'round(2.5)',
    'median([1, 2, 9])', '-2 ^ 2', '1 + 2 * 3 == 7 and 2 > 1', '0b0011 + 0b1', '1e3 m to km', 'h', 'gcd(12, 18)', 'dec(0x10)']


def show(calc, v, unit=None):
    if isinstance(v, list):
        return [show(calc, x.value, getattr(x, 'unit', None)) for x in v]
    if isinstance(v, Exception):
        return 'error'
    s = v.to_string(calc) if hasattr(v, 'to_string') else str(v)
    return s + (' ' + unit.symbol() if unit is not None else '')


def answers(calc):
    out = []
    for x in EXPRESSIONS:
        try:
            r = calc.calculate(x).results
            out.append(json.dumps([show(calc, i.value, i.unit) for i in r if i.has_result()]))
        except Exception as err:
            out.append(type(err).__name__)
        getattr(calc, 'vars', {}).clear()
    return out


def contents(calc):
    """what is installed beyond parsers, operators and functions"""
    un = calc.unit_normaliser
    out = {'number types': sorted(getattr(calc, 'number_types', {})), 'constants': sorted(getattr(calc, 'constants', {})),
           'validators': sorted(calc.validators), 'options': {k: str(v) for k, v in sorted(calc.feature_options.items())}}
    if un is not None:
        out['units'] = sorted('{}:{}'.format(d, sorted(str(n) for x in us for n in (x.names() if callable(getattr(x, 'names', None)) else [x]))) if isinstance(us, list) else str(d)
                              for d, us in un.units.items())
        out['systems'] = sorted(un.systems)
        out['preferences'] = [str(s) for s in un.systems_preference]
        out['prefixes'] = sorted(str(getattr(p, 'name', p)) for p in un.prefixes)
    return json.dumps(out, sort_keys=True, default=str)


def replay(job):
    """installs on a fresh calculator; the calls as the judge wants them"""
    from modularcalculator.modularcalculator import ModularCalculator
    kind, g, own, calls, ids, pids, oids, fids, want_answers, nth = job
    calc = ModularCalculator()
    log = []
    if kind == 'synthetic':
        if not os.path.exists(os.path.join(HERE, 'synthetic.py')):
            raise RuntimeError('no synthetic features')
        calc.import_feature_file(os.path.join(HERE, 'synthetic.py'))
        syn = sys.modules['synthetic']
        syn.GRAPH.clear()
        syn.GRAPH.update(g)
        syn.OWN.clear()
        syn.OWN.update(own)
        del syn.LOG[:]
        log = syn.LOG
        for i in range(1, g['n'] + 1):
            if g['subs'][i - 1]:
                calc.feature_list['synthetic.f{}'.format(i)] = syn.META[i]
        for i in range(g['n'] + 1, 7):
            calc.feature_list.pop('synthetic.f{}'.format(i), None)
        names = {'synthetic.f{}'.format(i): i for i in range(1, g['n'] + 1)}
    else:
        names = ids
        for name, cls in list(calc.feature_list.items()):
            def install(c, calculator, cls=cls, name=name):
                cls.install(calculator)
                log.append(names[name])
            calc.feature_list[name] = type(cls.__name__, (cls,), {'install': classmethod(install)})
    back = {i: n for n, i in names.items()}
    out = []
    for req, skip, style in calls:
        asked = [back.get(i, 'synthetic.unknown') for i in req]
        refused = crash = 0
        try:
            if style == 'preset':
                calc.preset_list = dict(calc.preset_list, chosen=asked)
                calc.load_preset('chosen')
            elif style == 'text' and len(asked) == 1:
                calc.install_features(asked[0], skipMissing=bool(skip))
            else:
                calc.install_features(asked, skipMissing=bool(skip))
        except Exception as err:
            refused = 1
            crash = 0 if type(err).__name__ == 'CalculatorException' else 1
            if crash and os.environ.get('VERIF_TRACE'):
                import traceback
                traceback.print_exc()
        out.append({'names': req, 'skip': skip, 'refused': refused, 'crash': crash, 'done': list(log),
                    'installed': sorted(names.get(n, 0) for n in calc.installed_features),
                    'parsers': [pids.get(p['name'], 0) for p in calc.parsers], 'ops': [sorted(oids.get(o, 0) for o in grp) for grp in calc.ops],
                    'funcs': sorted(fids.setdefault(f, 10000 + len(fids)) for f in getattr(calc, 'funcs', {})), 'rest': '', 'answers': []})
    out[-1]['rest'] = hashlib.sha1(contents(calc).encode()).hexdigest()
    if want_answers:
        out[-1]['answers'] = answers(calc)
    return out


def quietly(job):
    sys.setrecursionlimit(3000)
    try:
        return replay(job)
    except Exception as err:
        if os.environ.get('VERIF_TRACE'):
            import traceback
            traceback.print_exc()
        return [{'names': c[0], 'skip': c[1], 'refused': 1, 'crash': 1, 'done': [], 'installed': [], 'parsers': [], 'ops': [], 'funcs': [], 'rest': '', 'answers': [str(err)]} for c in job[3]]


def layout():
    from modularcalculator.features.layout import parser_map, op_map
    pids = {p: i + 1 for i, p in enumerate(parser_map)}
    oids = {}
    for grp in op_map:
        for o in sorted(grp):
            oids[o] = len(oids) + 1
    return parser_map, op_map, pids, oids


class Cases:

    def __init__(self, seed):
        self.r = random.Random(seed)
        self.parser_map, self.op_map, self.pids, self.oids = layout()
        self.fids = {}
        self.cases, self.jobs = [], []

    def common(self, g, own, strict=0):
        return {'strict': strict, 'g': g, 'own': own, 'parsermap': [self.pids[p] for p in self.parser_map], 'opmap': [[self.oids[o] for o in sorted(grp)] for grp in self.op_map], 'runs': []}

    def synthetic(self, g, reqs):
        r = self.r
        n = g['n']
        own, ids = {}, {'parsers': [], 'ops': [], 'funcs': []}
        ops = [o for grp in self.op_map for o in sorted(grp)]
        r.shuffle(ops)
        parsers = list(self.parser_map)
        r.shuffle(parsers)
        rtl = {o for grp in self.op_map for o in grp if '~' in grp}
        for i in range(1, n + 1):
            own[i] = {'parsers': [parsers.pop() for _ in range(r.randint(0, 2))], 'ops': [[o, o in rtl] for o in (ops.pop() for _ in range(r.randint(0, 3)))], 'funcs': ['syn{}'.format(i)]}
            ids['parsers'].append([self.pids[p] for p in own[i]['parsers']])
            ids['ops'].append([self.oids[o] for o, _ in own[i]['ops']])
            ids['funcs'].append([i])
        fids = {'syn{}'.format(i): i for i in range(1, n + 1)}
        calls = [(q, r.choice([0, 0, 0, 1]), r.choice(['list', 'text', 'preset'])) for q in reqs]
        calls = [(q, 0 if st == 'preset' else sk, st) for q, sk, st in calls]
        c = self.common(g, ids, 1)
        self.cases.append(c)
        k = len(self.cases) - 1
        self.jobs.append((k, ('synthetic', g, own, calls, None, self.pids, self.oids, fids, False, 0)))
        # the same request in another order
        first = list(calls[0][0])
        if 0 not in first and len(first) > 1:
            r.shuffle(first)
            c2 = [(first, calls[0][1], 'list')] + calls[1:]
            self.jobs.append((k, ('synthetic', g, own, c2, None, self.pids, self.oids, fids, False, 1)))

    def real(self, graph, ids, own, names, second, perms, want_answers=True):
        c = self.common(graph, own)
        self.cases.append(c)
        k = len(self.cases) - 1
        for j in range(perms):
            o = list(names)
            if j:
                self.r.shuffle(o)
            calls = [(o, 0, 'list' if j != 1 else 'preset')] + [(q, s, 'text' if len(q) == 1 else 'list') for q, s in second]
            self.jobs.append((k, ('real', graph, None, calls, ids, self.pids, self.oids, dict(self.fids), want_answers, j)))

    def run(self, pool):
        res = pool.map(quietly, [j for _, j in self.jobs], chunksize=4)
        for (k, _), out in zip(self.jobs, res):
            self.cases[k]['runs'].append(out)
        return self.cases


def real_graph():
    """the declared graph of the real features, and what each contributes"""
    from modularcalculator.modularcalculator import ModularCalculator
    from modularcalculator.features.feature import MetaFeature
    calc = ModularCalculator()
    names = sorted(calc.feature_list)
    ids = {n: i + 1 for i, n in enumerate(names)}
    fl = calc.feature_list
    pick = lambda xs: [ids.get(x, 0) for x in xs]
    g = {'n': len(names), 'deps': [pick(fl[n].dependencies()) for n in names], 'after': [[i for i in pick(fl[n].after()) if i] for n in names],
         'subs': [pick(fl[n].subfeatures()) if issubclass(fl[n], MetaFeature) else [] for n in names]}
    return names, ids, g


def contributions(names, ids, pids, oids):
    from modularcalculator.modularcalculator import ModularCalculator
    own = {'parsers': [[] for _ in names], 'ops': [[] for _ in names], 'funcs': [[] for _ in names]}
    fids = {}
    depth = []
    for only in names:
        calc = ModularCalculator()
        for name, cls in list(calc.feature_list.items()):
            def install(c, calculator, cls=cls, name=name):
                before = (set(p['name'] for p in calculator.parsers), set(o for grp in calculator.ops for o in grp), set(getattr(calculator, 'funcs', {})))
                nested = len(depth)
                cls.install(calculator)
                depth.append(name)
                if hasattr(cls, 'subfeatures'):
                    return
                i = ids[name] - 1
                own['parsers'][i] = sorted(set(own['parsers'][i]) | {pids.get(p['name'], 0) for p in calculator.parsers if p['name'] not in before[0]})
                own['ops'][i] = sorted(set(own['ops'][i]) | {oids.get(o, 0) for grp in calculator.ops for o in grp if o not in before[1]})
                own['funcs'][i] = sorted(set(own['funcs'][i]) | {fids.setdefault(f, len(fids) + 1) for f in getattr(calculator, 'funcs', {}) if f not in before[2]})
            calc.feature_list[name] = type(cls.__name__, (cls,), {'install': classmethod(install)})
        try:
            calc.install_features([only])
        except Exception:
            pass
    return own, fids


def judge(cases, chunk=1500):
    out, states = [], 0
    for i in range(0, len(cases), chunk):
        part = cases[i:i + chunk]
        fd, path = tempfile.mkstemp(prefix='vinst', suffix='.json')
        try:
            with os.fdopen(fd, 'w') as fh:
                json.dump(part, fh)
            r = tlc.run('JudgeInstall', env={'CASES': path}, timeout=600)
        finally:
            os.unlink(path)
        text = re.sub(r'\n\s+', ' ', r['out'])
        res = [None] * len(part)
        for m in re.finditer(r'<<\s*"V", (\d+), (.*?)>>(?=\n|$)', text):
            res[int(m.group(1)) - 1] = tlc.parse_value(m.group(2))
        if None in res:
            raise RuntimeError('TLC gave no verdict\n' + r['out'][-3000:])
        out.extend(res)
        states += r['distinct']
    return out, states


def spoil(c, r):
    """one recorded fact changed"""
    c = json.loads(json.dumps(c))
    run = r.choice(c['runs'])
    call = run[-1]
    opts = ['refused']
    if len(call['done']) > 1:
        opts += ['swap', 'twice']
    if call['done']:
        opts += ['missing', 'notinstalled']
    if len(call['parsers']) > 1:
        opts += ['parsers']
    if len(call['ops']) > 1:
        opts += ['ops']
    what = r.choice(opts)
    if what == 'refused':
        call['refused'] = 1 - call['refused']
    elif what == 'swap':
        call['done'][0], call['done'][-1] = call['done'][-1], call['done'][0]
    elif what == 'twice':
        call['done'].append(call['done'][0])
    elif what == 'missing':
        call['done'].pop()
    elif what == 'notinstalled':
        call['installed'].pop()
    elif what == 'parsers':
        call['parsers'].reverse()
    elif what == 'ops':
        call['ops'].reverse()
    return c


def main(arg, seed):
    start = time.time()
    if arg == '--replay':
        return replay_file(sys.argv[3])
    quick = arg == 'quick'
    r = random.Random(seed)
    laws, states, transitions, behaviours = [], 0, 0, []
    runs = [('MCOrder', {}), ('MCInstall', {'NODES': '3', 'PART': '1', 'STRIDE': '6' if quick else '1'}),
            ('MCInstall', {'NODES': '4', 'PART': '6000' if quick else '400', 'STRIDE': '11' if quick else '3'})]
    for module, env in runs:
        env['SEED'] = str(seed % 1000)
        m = tlc.run(module, env=env, timeout=600)
        if 'No error has been found' not in m['out']:
            raise RuntimeError('the model breaks its laws\n' + '\n'.join(l for l in m['out'].split('\n') if not l.startswith('"T '))[-3000:])
        states += m['distinct']
        transitions += m['generated']
        lines = [json.loads(json.loads(l)[2:]) for l in m['out'].split('\n') if l.startswith('"T ')]
        r.shuffle(lines)
        keep = lines[:1500 if quick else 6000]
        laws.append({'module': module, 'env': env, 'states': m['distinct'], 'transitions': m['generated'], 'behaviours': len(lines), 'replayed': len(keep),
                     'laws': re.findall(r'^(?:INVARIANT|PROPERTY) (\w+)', open(os.path.join(tlc.SPEC, module + '.cfg')).read(), re.M)})
        behaviours.extend(keep)
    cs = Cases(seed)
    for b in behaviours:
        cs.synthetic(b['g'], b['reqs'])
    nsyn = len(cs.cases)
    names, ids, g = real_graph()
    own, cs.fids = contributions(names, ids, cs.pids, cs.oids)
    everything = list(range(1, len(names) + 1))
    from modularcalculator.features.presets import presets
    cs.real(g, ids, own, everything, [(everything, 0)], 4 if quick else 16)
    for p in presets.values():
        cs.real(g, ids, own, [ids[n] for n in p], [([r.choice(everything)], 0), ([0], r.randint(0, 1)), ([ids[n] for n in p], 0)], 3)
    for n in everything:
        cs.real(g, ids, own, [n], [([n], 0)], 1, want_answers=False)
    for _ in range(60 if quick else 1500):
        k = r.choice([1, 2, 3, 4, 6, 9, 14, 25, 50])
        pick = r.sample(everything, k)
        second = []
        for _ in range(r.randint(0, 2)):
            second.append((r.sample(everything, r.randint(1, 3)) + ([0] if r.random() < 0.3 else []), r.choice([0, 0, 1])))
        if r.random() < 0.1:
            pick.append(r.choice(pick))
        cs.real(g, ids, own, pick, second, 3)
    with multiprocessing.Pool(8) as pool:
        cases = cs.run(pool)
    verdicts, jstates = judge(cases)
    bad = [(c, v) for c, v in zip(cases, verdicts) if v]
    control = [spoil(c, r) for c, v in r.sample(list(zip(cases, verdicts)), 60) if not v and c['runs'][0][-1]['done']]
    rejected = sum(1 for v in judge(control)[0] if v) if control else 0
    shown = [{'graph': c['g'] if c['g']['n'] < 9 else 'the real features', 'requests': [x['names'] if c['g']['n'] < 9 else [names[i - 1] if i else 'unknown' for i in x['names']] for x in c['runs'][0]],
              'installed in order': c['runs'][0][-1]['done'] if c['g']['n'] < 9 else len(c['runs'][0][-1]['done'])} for c in r.sample(cases[:nsyn], 2) + r.sample(cases[nsyn:], 2)]
    ev = {'property': 'P14', 'tier': 'quick' if quick else 'thorough', 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': states, 'transitions': transitions, 'traces_validated_against_impl': sum(len(c['runs']) for c in cases), 'models': laws,
                       'synthetic_graphs_replayed': nsyn, 'real_feature_requests': len(cases) - nsyn, 'expressions_compared_per_permutation': len(EXPRESSIONS),
                       'judge_states': jstates, 'spoilt_recordings': len(control), 'spoilt_recordings_rejected': rejected, 'samples': shown},
          'assumptions': ['TLC evaluates the specification correctly', 'features contribute through add_parser, add_op and funcs'],
          'violations': len(bad), 'wall_s': round(time.time() - start, 2)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, 'evidence', 'P14.json'), 'w'), indent=1)
    if bad:
        bad.sort(key=lambda cv: (cv[0]['g']['n'], sum(len(x['names']) for x in cv[0]['runs'][0])))
        c, v = bad[0]
        jobs = [j for k, j in cs.jobs if cs.cases[k] is c]
        os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
        path = os.path.join(ROOT, 'evidence', 'replay', 'P14-{}.json'.format(hashlib.sha1(json.dumps(c).encode()).hexdigest()[:10]))
        json.dump({'case': dict(c, runs=[]), 'jobs': jobs, 'verdict': v, 'runs': c['runs']}, open(path, 'w'))
        for c, v in bad[:3]:
            print('  ', [x['names'] for x in c['runs'][0]], v)
        print('VIOLATION property=P14 replay={}'.format(path))
        return 1
    if control and rejected * 2 < len(control):
        print('no answer: only {} of {} spoilt recordings were rejected'.format(rejected, len(control)))
        return 2
    print('P14 held: {} model states, {} installations of synthetic and {} of real features, {:.0f} s'.format(states, nsyn, len(cases) - nsyn, time.time() - start))
    return 0


def replay_file(path):
    d = json.load(open(path))
    c = d['case']
    for j in d['jobs']:
        if j[2]:
            j[2] = {int(k): v for k, v in j[2].items()}
        c['runs'].append(quietly(j))
    v = judge([c])[0][0]
    print('disagreements', v)
    if v:
        print('VIOLATION property=P14 replay={}'.format(path))
        return 1
    return 0
