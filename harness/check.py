"""The check of one property: check.py <property> [quick|thorough|--replay FILE]

Exit 0: the property held on everything explored.  Exit 1: a line
"VIOLATION property=<id> replay=<path>".  Exit 2: no answer.
"""
import copy, hashlib, json, os, random, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import gen, record, tlc, models

ANSWER = ['exception', 'outcome', 'kind', 'value', 'hasvalue', 'length']
# which disagreements between specification and calculator break which property
CATS = {
    'P01': ANSWER + ['form', 'count'],
    'P02': ANSWER + ['count'],
    'P03': ANSWER + ['vars', 'count', 'state', 'unit'],
    'P04': ANSWER + ['vars', 'count', 'state', 'expr', 'unit'],
    'P05': ANSWER + ['vars', 'count', 'state', 'unit', 'mutated'],
    'P06': ANSWER + ['unit', 'vars'],
    'P07': ANSWER + ['count', 'unit'],
    'P08': ANSWER + ['unit'],
    'P09': ANSWER + ['unit', 'vars'],
    'P10': ['exception', 'outcome', 'prefix', 'position', 'count', 'vars'],
    'P11': ANSWER + ['items', 'highlight', 'expr', 'count', 'vars'],
    'P12': ANSWER + ['text'],
    'P13': ANSWER + ['text', 'unit'],
    'P15': ANSWER + ['vars', 'count', 'unit', 'text', 'state', 'mutated'],
    'P16': ANSWER + ['unit', 'vars', 'mutated'],
    'P17': ANSWER + ['text'],
    'P23': ANSWER + ['text'],
    'P24': ANSWER + ['text', 'unit'],
    'P18': ANSWER + ['unit'],
    'P19': ANSWER + ['text'],
    'P20': ANSWER + ['count', 'expr', 'items', 'state', 'mutated', 'vars'],
    'P21': ['exception', 'outcome', 'count', 'vars', 'kind', 'length', 'hasvalue'],
    'P22': ANSWER,
}
# random histories in a quick run, and per round of a thorough one
QUICK_N = {'P15': 1000, 'P08': 1200, 'P09': 1200, 'P16': 1200}
THOROUGH_SECONDS = 600
CHUNK = 1200


class NoAnswer(Exception):
    pass


def show(case):
    return [record.text(s['t']) if s['op'] == 'calc' else {k: v for k, v in s.items() if k != 'obs'} for s in case['steps']]


def key_of(case, step):
    """what a violation fails on: the text of the step and its flags"""
    s = case['steps'][step - 1]
    return record.text(s['t']) if s['op'] == 'calc' else s['op']


def known_findings():
    out = []
    path = os.path.join(ROOT, 'known-findings.txt')
    for line in open(path, encoding='utf-8') if os.path.exists(path) else []:
        if line.startswith('known:'):
            out.append(json.loads(line[len('known:'):]))
    return out


def judged(cases, tries=2):
    """verdicts; a batch TLC fails on is judged in parts, to find out where"""
    out = []
    for i in range(0, len(cases), CHUNK):
        part = cases[i:i + CHUNK]
        try:
            out.extend(tlc.judge(part)[0])
        except tlc.TLCFailed as err:
            if len(part) == 1 or tries == 0:
                raise NoAnswer('the specification cannot judge {}\n{}'.format(show(part[0]), err))
            half = (len(part) + 1) // 2
            out.extend(judged(part[:half], tries - 1))
            out.extend(judged(part[half:], tries - 1))
    return out


class Check:

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.cats = set(CATS[pid])
        self.start = time.time()
        self.states = self.transitions = self.traces = self.calls = self.decided = self.unspecified = 0
        self.outcomes, self.sources, self.other, self.samples, self.laws = {}, {}, {}, [], []
        self.violations, self.known = [], []
        self.rejected = self.corrupted = 0
        self.seen = set()
        self.findings = [f for f in known_findings() if f['property'] == pid]

    # ---------------------------------------------------------------- running
    def explore(self, source, cases):
        """replays histories into the calculator and lets the specification judge"""
        fresh = []
        for c in cases:
            h = hashlib.sha1(json.dumps([c['cfgs'], c['files'], c['steps']]).encode()).digest()
            if h not in self.seen:
                self.seen.add(h)
                fresh.append(c)
        bare = copy.deepcopy(fresh)
        done = record.record(fresh)
        verdicts = judged(done)
        tally = self.sources.setdefault(source, {'histories': 0, 'calls': 0, 'decided': 0})
        for raw, c, v in zip(bare, done, verdicts):
            self.traces += 1
            self.calls += v[1] + v[2]
            self.decided += v[1]
            self.unspecified += v[2]
            tally['histories'] += 1
            tally['calls'] += v[1] + v[2]
            tally['decided'] += v[1]
            for o in v[3]:
                self.outcomes[o] = self.outcomes.get(o, 0) + 1
            bad = [d for d in v[0] if d[1] in self.cats]
            for d in v[0]:
                if d[1] not in self.cats:
                    self.other[d[1]] = self.other.get(d[1], 0) + 1
            if bad:
                self.report(raw, c, bad)
        if done and len(self.samples) < 6:
            r = random.Random(self.seed)
            for i in r.sample(range(len(done)), min(2, len(done))):
                self.samples.append({'source': source, 'history': show(done[i]), 'outcomes': verdicts[i][3]})
        return done, verdicts

    def report(self, raw, case, bad):
        for f in self.findings:
            if all(key_of(case, d[0]) == f['text'] for d in bad):
                if f not in self.known:
                    self.known.append(f)
                return
        self.violations.append((raw, case, bad))

    def negative_control(self, done, verdicts, n):
        """recorded answers spoilt in one place have to be rejected"""
        r = random.Random(self.seed + 1)
        spoilt = []
        order = list(range(len(done)))
        r.shuffle(order)
        for i in order:
            if len(spoilt) >= n:
                break
            if verdicts[i][0] or not done[i]['steps']:
                continue
            c = copy.deepcopy(done[i])
            what = spoil(c, verdicts[i][3], r)
            if what:
                spoilt.append(c)
        if spoilt:
            vs = judged(spoilt)
            self.corrupted += len(spoilt)
            self.rejected += sum(1 for v in vs if v[0])

    def model(self, name):
        """model-checks a module of the specification; its behaviours"""
        m = models.run(name, self.tier, self.seed)
        self.states += m['states']
        self.transitions += m['transitions']
        self.laws.append({k: m[k] for k in ('module', 'states', 'transitions', 'laws', 'behaviours', 'replayed')})
        return m['cases']

    # ------------------------------------------------------------- the check
    def run(self):
        pid = self.pid
        for f in self.findings:
            self.explore('known finding', [gen.case([f['text']])])
        quick = self.tier == 'quick'
        first = None
        for name in models.MODELS.get(pid, []):
            out = self.explore('model ' + name, self.model(name))
            if first is None:
                first = out
        self.explore('corpus', models.corpus(pid))
        n = QUICK_N.get(pid, 1600)
        out = self.explore('random', gen.cases(pid, self.seed, n))
        self.negative_control(out[0], out[1], 24)
        if first:
            self.negative_control(first[0], first[1], 16)
        k = 0
        while not quick and not self.violations and time.time() - self.start < THOROUGH_SECONDS:
            k += 1
            self.explore('random', gen.cases(pid, self.seed + 1000 * k, 2 * n))
        return self.finish()

    def minimise(self, raw, bad):
        """fewer steps that still break the property"""
        best, cats = copy.deepcopy(raw), {d[1] for d in bad}
        last = max(d[0] for d in bad)
        best['steps'] = best['steps'][:last]
        for _ in range(3):
            trials = []
            for i in range(len(best['steps'])):
                t = copy.deepcopy(best)
                del t['steps'][i]
                if t['steps']:
                    trials.append(t)
            lines = [(i, record.text(s['t'])) for i, s in enumerate(best['steps']) if s['op'] == 'calc' and 10 in s['t']]
            for i, s in lines:
                parts = s.split('\n')
                for j in range(len(parts)):
                    t = copy.deepcopy(best)
                    t['steps'][i]['t'] = record.codes('\n'.join(parts[:j] + parts[j + 1:]))
                    trials.append(t)
            trials = trials[:60]
            if not trials:
                break
            bare = copy.deepcopy(trials)
            vs = judged(record.record(trials))
            good = [b for b, v in zip(bare, vs) if any(d[1] in cats for d in v[0])]
            if not good:
                break
            best = min(good, key=lambda c: sum(len(s.get('t', [1])) for s in c['steps']))
        return best

    def finish(self):
        replay = None
        if self.violations:
            raw, case, bad = min(self.violations, key=lambda v: sum(len(s.get('t', [1])) for s in v[0]['steps']))
            small = raw
            try:
                small = self.minimise(raw, bad)
            except Exception:
                pass
            os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
            name = hashlib.sha1(json.dumps(small, sort_keys=True).encode()).hexdigest()[:10]
            replay = os.path.join(ROOT, 'evidence', 'replay', '{}-{}.json'.format(self.pid, name))
            with open(replay, 'w') as fh:
                json.dump({'property': self.pid, 'case': small, 'original': raw, 'disagreements': bad, 'shown': show(small)}, fh, indent=1)
        ev = {
            'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
            'coverage': {
                'states': self.states, 'transitions': self.transitions,
                'traces_validated_against_impl': self.traces,
                'calls_validated': self.calls, 'calls_decided_by_the_specification': self.decided,
                'calls_where_the_specification_leaves_the_outcome_open': self.unspecified,
                'outcomes': self.outcomes, 'sources': self.sources, 'models': self.laws,
                'spoilt_recordings': self.corrupted, 'spoilt_recordings_rejected': self.rejected,
                'disagreements_outside_this_property': self.other,
                'judged_categories': sorted(self.cats),
                'samples': self.samples,
            },
            'assumptions': ['TLC evaluates the specification correctly', 'the recorder reports what the public API returned'],
            'violations': len(self.violations), 'wall_s': round(time.time() - self.start, 2),
        }
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        for f in self.known:
            print('KNOWN-FINDING: property={} {}'.format(self.pid, f['what']))
        for raw, case, bad in self.violations[:3]:
            print('  {} {}'.format(show(case), bad))
        if replay:
            print('VIOLATION property={} replay={}'.format(self.pid, replay))
            return 1
        if self.corrupted and self.rejected * 2 < self.corrupted:
            raise NoAnswer('only {} of {} spoilt recordings were rejected'.format(self.rejected, self.corrupted))
        print('{} held: {} model states, {} histories, {} calls ({} decided), {:.0f} s'.format(self.pid, self.states, self.traces, self.calls, self.decided, time.time() - self.start))
        return 0


def spoil(case, outcomes, r):
    """changes one recorded fact of a call the specification decides"""
    calls = [s for s in case['steps'] if s['op'] == 'calc']
    idx = [i for i, o in enumerate(outcomes) if o != 'any']
    if not idx:
        return None
    s = calls[r.choice(idx)]
    o = s['obs']
    opts = []
    if o['k'] == 'ok' and o['r']:
        opts.append('drop')
    if o['k'] in ('parse', 'exec'):
        opts += ['pos', 'kind']
    if o['it']:
        opts.append('item')
    nums = [x for x in o['r'] if x['v']['k'] == 'num' and x['v'].get('n')]
    bools = [x for x in o['r'] if x['v']['k'] == 'bool']
    strs = [x for x in o['r'] if x['v']['k'] == 'str']
    if nums:
        opts += ['num', 'sign']
    if bools:
        opts += ['bool'] * 2
    if strs:
        opts += ['str'] * 2
    what = r.choice(opts) if opts else None
    if what == 'drop':
        o['r'].pop()
    elif what == 'pos':
        o['pos'] += 1
    elif what == 'kind':
        o['k'] = 'ok'
    elif what == 'item':
        o['it'] = o['it'][:-1]
    elif what == 'num':
        v = r.choice(nums)['v']
        v['n'][0] = (v['n'][0] + 1) % 1000 or 1
    elif what == 'sign':
        v = r.choice(nums)['v']
        v['s'] = -v['s']
    elif what == 'bool':
        v = r.choice(bools)['v']
        v['b'] = not v['b']
    elif what == 'str':
        v = r.choice(strs)['v']
        v['t'] = v['t'] + [33]
    return what


def replay(pid, path):
    d = json.load(open(path))
    cases = record.record([d['case']])
    vs = judged(cases)
    bad = [x for x in vs[0][0] if x[1] in set(CATS[pid])]
    for s in cases[0]['steps']:
        if s['op'] == 'calc':
            o = s['obs']
            print(repr(record.text(s['t'])), o['k'], o['pos'], o['why'], [record.text(x['v'].get('t', [])) or x['v'] for x in o['r']])
    print('disagreements', vs[0][0])
    if bad:
        print('VIOLATION property={} replay={}'.format(pid, path))
        return 1
    return 0


def main():
    pid = sys.argv[1]
    arg = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    try:
        if pid == 'P14':
            import install
            return install.main(arg, seed)
        if arg == '--replay':
            return replay(pid, sys.argv[3])
        return Check(pid, arg, seed).run()
    except NoAnswer as err:
        print('no answer:', err)
    except Exception:
        traceback.print_exc()
    return 2


if __name__ == '__main__':
    sys.exit(main())
