"""Model checking the modules of the specification, and the behaviours they yield."""
import json, os, re
import gen, tlc, record

# module: (one of how many items a quick run model-checks, one of how many of those it
# replays, then the same of a thorough run, Deep of a thorough run, further settings)
MODULES = {
    'MCPrec': (200, 4, 10, 8, 0, {}),
    'MCBool': (600, 4, 60, 10, 0, {}),
    'MCHistory': (80, 4, 20, 4, 1, {}),
    'MCLayout': (1500, 2, 60, 4, 0, {}),
    'MCMutate': (40, 8, 4, 16, 0, {}),
    'MCUnits': (700, 5, 60, 10, 0, {}),
    'MCArith': (1500, 2, 100, 4, 0, {}),
    'MCNotation': (3000, 6, 200, 10, 0, {}),
    'MCRound': (300, 3, 30, 6, 0, {}),
    'MCStrings': (3000, 8, 300, 16, 0, {}),
    'MCRegex': (1200, 4, 100, 12, 0, {}),
    'MCFormat': (60, 4, 6, 8, 0, {}),
    'MCQuantity': (30000, 4, 3000, 8, 0, {}),
    'MCSig': (130, 6, 12, 10, 0, {}),
    'MCMath': (40000, 6, 5000, 10, 0, {}),
    'MCBits': (250, 3, 25, 6, 0, {}),
    'MCDates': (300, 4, 30, 8, 0, {}),
    'MCArrays': (160, 2, 12, 6, 0, {}),
    'MCBroadcast': (150, 4, 20, 6, 0, {}),
    'MCHistory/2': (300, 4, 20, 4, 0, {'CALCS': '2'}),
}
# the models whose laws and behaviours decide a property
MODELS = {
    'P01': ['MCArith'],
    'P02': ['MCPrec'],
    'P03': ['MCHistory'],
    'P04': ['MCHistory'],
    'P05': ['MCHistory'],
    'P06': ['MCBroadcast'],
    'P07': ['MCBool'],
    'P08': ['MCUnits'],
    'P09': ['MCQuantity'],
    'P10': ['MCMutate'],
    'P11': ['MCLayout'],
    'P12': ['MCNotation'],
    'P13': ['MCRound'],
    'P15': ['MCHistory/2'],
    'P16': ['MCArrays'],
    'P17': ['MCStrings'],
    'P18': ['MCDates'],
    'P19': ['MCBits'],
    'P20': ['MCHistory'],
    'P21': ['MCSig'],
    'P22': ['MCMath'],
    'P23': ['MCRegex'],
    'P24': ['MCFormat'],
}


class ModelFailed(Exception):
    pass


def run(name, tier, seed):
    """model-checks a module; the programs it prints become histories to replay"""
    q_part, q_stride, t_part, t_stride, deep, more = MODULES[name]
    module = name.split('/')[0]
    quick = tier == 'quick'
    part, stride = (q_part, q_stride) if quick else (t_part, t_stride)
    env = {'SEED': str(seed % 1000), 'PART': str(part), 'STRIDE': str(stride), 'DEEP': str(0 if quick else deep)}
    env.update(more)
    r = tlc.run(module, env=env, timeout=300 if quick else 800)
    if 'Model checking completed. No error' not in r['out']:
        out = '\n'.join(l for l in r['out'].split('\n') if not l.startswith('"T '))
        raise ModelFailed('the model {} breaks one of its own laws, or could not be evaluated:\n{}'.format(name, out[-3000:]))
    cases = []
    for line in r['out'].split('\n'):
        if line.startswith('"T '):
            cases.append(behaviour(json.loads(json.loads(line)[2:])))
    laws = re.findall(r'^INVARIANT (\w+)', open(os.path.join(tlc.SPEC, module + '.cfg')).read(), re.M)
    return {'module': name, 'states': r['distinct'], 'transitions': r['generated'], 'laws': laws,
            'behaviours': r['distinct'], 'replayed': len(cases), 'cases': cases}


def behaviour(b):
    """a printed behaviour: programs for one calculator, or a record of files, the number
    of calculators and steps <<calculator, flags (1 parse_only, 2 stateless, 4 include_state), text>>"""
    if isinstance(b, list):
        return gen.case([record.text(t) for t in b])
    n = b.get('calcs', 1)
    cfgs = [record.conf(**b.get('cfg', {})) for _ in range(n)]
    return {'cfgs': cfgs, 'files': [[list(f[0]), list(f[1])] for f in b.get('files', [])],
            'steps': [gen.step(record.text(t), c, po=bool(f & 1), sl=bool(f & 2), **{'is': bool(f & 4)}) for c, f, t in b['steps']]}


def corpus(pid):
    return []
