"""Feature classes of an arbitrary small feature graph, loaded with import_feature_file."""
from modularcalculator.features.feature import Feature, MetaFeature
from modularcalculator.objects.operators import OperatorDefinition

GRAPH = {}
LOG = []
OWN = {}


def define(i):
    def ident():
        return 'synthetic.f{}'.format(i)

    def names(key):
        return ['synthetic.f{}'.format(h) for h in GRAPH[key][i - 1]]

    def contribute(calculator):
        own = OWN[i]
        for p in own['parsers']:
            calculator.add_parser(p, None)
        for o, rtl in own['ops']:
            calculator.add_op(OperatorDefinition('Synthetic', o, o, None, 0 if rtl else 1, 1, 'number'), {'rtl': True} if rtl else {})
        for f in own['funcs']:
            calculator.funcs = dict(getattr(calculator, 'funcs', {}), **{f: None})
        LOG.append(i)

    def install(cls, calculator):
        contribute(calculator)

    def install_meta(cls, calculator):
        MetaFeature.install.__func__(cls, calculator)
        contribute(calculator)

    common = {'id': ident, 'category': lambda: 'Synthetic', 'title': ident, 'desc': ident,
              'dependencies': lambda: names('deps'), 'after': lambda: names('after')}
    plain = type('F{}'.format(i), (Feature,), dict(common, install=classmethod(install)))
    meta = type('M{}'.format(i), (MetaFeature,), dict(common, install=classmethod(install_meta), subfeatures=lambda: names('subs')))
    return plain, meta


PLAIN, META = {}, {}
for n in range(1, 7):
    PLAIN[n], META[n] = define(n)
    globals()['F{}'.format(n)] = PLAIN[n]
