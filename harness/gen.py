"""Random histories, by property.  Everything is derived from the seed.

The programs are made of tokens; layout() joins them.  What a program means
is decided by the specification alone, so a generator may be careless: it
only chooses what is worth asking about.
"""
import random
from record import conf, codes

FL = dict(po=False, sl=False, **{'is': False})


def fl(**k):
    d = dict(FL)
    d.update(k)
    return d


def step(text, c=1, **flags):
    return {'op': 'calc', 'c': c, 't': codes(text), 'fl': fl(**flags)}


def case(texts, files=(), cfg=None, **flags):
    return {'cfgs': [cfg or conf()], 'files': [[codes(n), codes(t)] for n, t in files],
            'steps': [step(t, **flags) if isinstance(t, str) else t for t in texts]}


ALNUM = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ'


def in_base(n, b):
    if n == 0:
        return '0'
    s = ''
    while n:
        n, r = divmod(n, b)
        s = ALNUM[r] + s
    return s


CMP = ['<', '<=', '>', '>=', '==', '!=']
SCMP = ['<$', '<=$', '>$', '>=$', '==$', '!=$', '<~', '<=~', '>~', '>=~', '==~', '!=~']

# units by dimension: ways to spell them
UNITS = {
    'len': ['m', 'meters', 'km', 'kilometers', 'cm', 'mm', 'miles', 'mile', 'yards', 'ft', 'feet', 'inches', 'inch', 'nm', 'Mm', 'au', 'light years', 'ly', 'parsec', 'nautical miles'],
    'time': ['s', 'seconds', 'second', 'minutes', 'hours', 'hour', 'days', 'day', 'weeks', 'ms', 'nanoseconds', 'year', 'years'],
    'mass': ['g', 'kg', 'grams', 'kilograms', 'mg', 'tonnes', 'pounds', 'lb', 'ounces', 'oz', 'stone'],
    'cur': ['A', 'amps', 'mA', 'kA'],
    'data': ['bits', 'bytes', 'kB', 'MB', 'kibibytes', 'b', 'B', 'GB'],
    'temp': ['K', 'kelvin'],
    'area': ['acres', 'hectares'],
    'vol': ['liters', 'l', 'ml', 'us gallons', 'uk pints', 'uk gallons'],
    'force': ['N', 'newtons', 'kN'], 'energy': ['J', 'joules', 'kJ', 'MJ'], 'power': ['W', 'watts', 'kW'],
    'press': ['Pa', 'kPa', 'bar', 'psi'], 'freq': ['Hz', 'kHz', 'hertz'], 'vel': ['knots', 'kn'],
    'volt': ['V', 'volts', 'mV'], 'charge': ['C', 'coulombs'], 'res': ['ohms', '\u03a9', 'k\u03a9'],
}
LETTERS = 'abcdefghijklmnopqrstuvwxyz'
VARS = ['x', 'y', 'z', 'foo', 'bar_2', 'val', 'Q', '_t']
WORDS = ['', 'a', 'b', 'abc', 'Hello', 'hello', 'x y', ' lead', 'trail ', 'aXbXc', 'aa', 'aaa', 'banana', 'ABC', 'abd', '12', '3.5', '-7', '0b101', '0x1F', '20%', '1E3',
         "it's", 'back\\slash', '\u00e9t\u00e9', '\u00c9T\u00c9', 'stra\u00dfe', '\u0394', '\u4e2d\u6587', '\U0001f600', 'true', '#no', '[1]', 'a,b,c', '; x', 'line\nbreak', '\ttab', '2020-02-29', '  ']


COMMENTS = [' note', ' ) or so', '(', ']', '[1, 2', '{', '}', "'", '"', "it's", '#', ' + ', ' 5 +', '\\', ',', '..', ' then', ' else 3', '@f(', ' x = 9', '\t', ' ', ' \u00e9', '=', '0b1', ' and', ' (2 + ', '))']


class Gen:
    def __init__(self, rng):
        self.r = rng

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def chance(self, p):
        return self.r.random() < p

    def weighted(self, pairs):
        k = self.r.random() * sum(w for w, _ in pairs)
        for w, v in pairs:
            k -= w
            if k < 0:
                return v
        return pairs[-1][1]

    # ------------------------------------------------------------- literals
    def nat(self):
        k = self.r.randrange(10)
        if k < 6:
            return self.r.randrange(13)
        if k < 8:
            return self.r.randrange(1000)
        if k < 9:
            return self.r.randrange(10 ** 9)
        return self.r.randrange(10 ** self.r.randrange(1, 30))

    def small(self, n=10):
        return str(self.r.randrange(n))

    def integer(self):
        s = str(self.nat())
        return '-' + s if self.chance(0.2) else s

    def decimal(self, places=None):
        n = self.nat()
        p = places if places is not None else self.pick([1, 1, 2, 2, 3, 5, 8, 20])
        s = str(self.r.randrange(10 ** p)).zfill(p)
        if self.chance(0.15):
            s += '0' * self.r.randrange(1, 4)
        return ('-' if self.chance(0.2) else '') + str(n) + '.' + s

    def notation(self, signed=True):
        """a literal in some notation other than decimal"""
        n = self.nat() % (10 ** 12)
        sign = '-' if signed and self.chance(0.15) else ''
        if self.chance(0.15):      # below one
            b, p = self.pick([(2, '0b'), (8, '0o'), (16, '0x'), (3, '3z'), (12, '12Z'), (36, '36z')])
            return sign + p + '0' + '.' + ''.join(ALNUM[self.r.randrange(b)] for _ in range(self.r.randrange(1, 5)))
        k = self.r.randrange(7)
        pad = '0' * self.pick([0, 0, 0, 1, 3])
        frac = lambda b: '.' + ''.join(ALNUM[self.r.randrange(b)] for _ in range(self.r.randrange(1, 5))) if self.chance(0.25) else ''
        case_ = lambda s: s.lower() if self.chance(0.3) else s
        if k < 2:
            return sign + self.pick(['0b', '0B', '0b']) + pad + bin(n % 4096)[2:] + (frac(2) if self.chance(0.4) else '')
        if k == 2:
            return sign + self.pick(['0o', '0O']) + pad + oct(n)[2:] + frac(8)
        if k == 3:
            return sign + self.pick(['0x', '0X']) + pad + case_(in_base(n, 16)) + case_(frac(16))
        if k == 4:
            b = self.pick([2, 3, 7, 8, 10, 12, 16, 20, 36, self.r.randrange(2, 37)])
            return sign + str(b) + self.pick(['z', 'Z']) + pad + case_(in_base(n, b)) + case_(frac(b))
        if k == 5:
            return sign + (self.small(300) if self.chance(0.6) else str(self.r.randrange(200)) + '.' + str(self.r.randrange(1000)).zfill(3)) + '%'
        m = str(self.r.randrange(1, 100)) + ('.' + str(self.r.randrange(10000)) if self.chance(0.6) else '')
        return sign + m + self.pick(['E', 'e']) + self.pick(['', '-']) + str(self.r.randrange(0, self.pick([4, 12, 30])))

    def number(self):
        k = self.r.randrange(20)
        return self.integer() if k < 10 else self.decimal() if k < 15 else self.notation()

    def quote(self, s, q="'", e='\\'):
        return q + ''.join(e + c if c in (q, e) else c for c in s) + q

    def word(self):
        if self.chance(0.75):
            return self.pick(WORDS)
        return ''.join(self.pick('abcABC 12.,-_%\\\'#\u00e9\u00df\u0394') for _ in range(self.r.randrange(0, 9)))

    def string(self):
        return self.quote(self.word())

    def boolean(self):
        return self.pick(['true', 'false', 'TRUE', 'False', 'true', 'false'])

    def unit(self, dim=None):
        return self.pick(UNITS[dim or self.pick(list(UNITS))])

    def quantity(self, dim=None):
        n = self.weighted([(5, self.small(50)), (3, self.decimal(2)), (1, self.notation())])
        return [n, self.unit(dim)]

    def date(self):
        y = self.pick([1900, 1999, 2000, 2001, 2004, 2019, 2020, 2100, 1, 9999, self.r.randrange(1, 10000)])
        m = self.r.randrange(1, 13)
        last = [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
        d = self.pick([1, last, self.r.randrange(1, last + 1), self.r.randrange(1, last + 1)])
        s = '{:04d}-{:02d}-{:02d}'.format(y, m, d)
        k = self.r.randrange(4)
        if k >= 2:
            s += 'T{:02d}:{:02d}:{:02d}'.format(self.pick([0, 23, self.r.randrange(24)]), self.pick([0, 59, self.r.randrange(60)]), self.pick([0, 59, self.r.randrange(60)]))
            if k == 3:
                s += '.' + self.pick(['000001', '999999', '500000', '{:06d}'.format(self.r.randrange(10 ** 6))])
        if self.chance(0.25):
            s += self.pick(['+0000', '+0100', '-0500', '+0530', '-1130', '+1400'])
        return s

    # ---------------------------------------------------------- expressions
    # each returns a list of tokens
    def num(self, d, vars=()):
        """numeric expression of depth d"""
        if d <= 0 or self.chance(0.2):
            if vars and self.chance(0.4):
                return [self.pick(vars)]
            return [self.number()]
        k = self.r.randrange(20)
        if k < 9:
            return self.num(d - 1, vars) + [self.pick(['+', '-', '*', '/', '+', '-', '*', '%', '\\'])] + self.num(d - 1, vars)
        if k < 13:
            return ['('] + self.num(d - 1, vars) + [')']
        if k < 14:
            return self.num(d - 1, vars) + ['^', self.pick(['0', '1', '2', '3', '-1', '-2', '5', '(2 + 1)'])]
        if k < 15:
            return ['~', self.pick(['0b1011', '5', '0b000', '12'])]
        if k < 16:
            return self.num(d - 1, vars) + [self.pick(['&', '|', '^^', '<<', '>>'])] + [self.small(9)]
        if k < 18:
            return [self.pick(['abs(', 'round(', 'floor(', 'ceil('])] + self.num(d - 1, vars) + [')']
        if k < 19:
            return self.boolx(d - 1, vars) + ['then'] + self.num(d - 1, vars) + ['else'] + self.num(d - 1, vars)
        return [self.pick(['sum(', 'max(', 'min('])] + self.num(d - 1, vars) + [','] + self.num(d - 1, vars) + [')']

    def boolx(self, d, vars=()):
        if d <= 0 or self.chance(0.2):
            return [self.boolean()]
        k = self.r.randrange(12)
        if k < 5:
            return ['('] + self.num(d - 1, vars) + [self.pick(CMP)] + self.num(d - 1, vars) + [')']
        if k < 7:
            return ['('] + [self.string(), self.pick(SCMP), self.string()] + [')']
        if k < 10:
            return self.boolx(d - 1, vars) + [self.pick(['and', 'or', 'xor'])] + self.boolx(d - 1, vars)
        return ['not'] + self.boolx(d - 1, vars)

    def strx(self, d, vars=()):
        if d <= 0 or self.chance(0.2):
            return [self.string()]
        k = self.r.randrange(10)
        if k < 4:
            return self.strx(d - 1, vars) + ['+$'] + self.strx(d - 1, vars)
        if k < 5:
            return self.strx(d - 1, vars) + ['*$', self.small(4)]
        if k < 8:
            return [self.pick(['upper(', 'lower('])] + self.strx(d - 1, vars) + [')']
        return ['('] + self.strx(d - 1, vars) + [')']

    def arr(self, d, elem=None, n=None):
        elem = elem or (lambda: [self.small(20)])
        k = self.r.randrange(10)
        if n is None and k < 2:
            return ['[', self.small(9), '..', self.small(9), ']']
        n = n if n is not None else self.r.randrange(1, 5)
        out = ['[']
        for i in range(n):
            out += ([','] if i else []) + elem()
        return out + [']']

    def anyx(self, d, vars=()):
        k = self.r.randrange(12)
        if k < 5:
            return self.num(d, vars)
        if k < 6:
            return self.boolx(d, vars)
        if k < 8:
            return self.strx(d, vars)
        if k < 9:
            return self.arr(d)
        if k < 11:
            return self.quantity()
        return [self.pick(list(vars) or VARS)]

    # -------------------------------------------------------------- layout
    def layout(self, toks, mode='plain'):
        """join tokens; inside brackets line breaks are layout too"""
        if mode == 'plain':
            return ' '.join(toks)
        out, depth, inl = '', 0, 0
        for i, t in enumerate(toks):
            if i:
                out += self.gap(out, t, mode, depth > 0)
            out += t
            if t.endswith(('(', '[')) and not t.startswith("'"):
                depth += 1
            elif t in (')', ']'):
                depth -= 1
        return out

    def gap(self, before, after, mode, brackets):
        word = lambda c: c.isalnum() or c in '_.'
        need = word(before[-1]) and (word(after[0]) or after[0] == '%') or (before[-1] in '+-*/%<>=!~|&^\\' and not word(after[0]) and after[0] not in '([\'')
        k = self.r.randrange(12)
        if mode == 'tight':
            return ' ' if need or k < 3 else ''
        if k < 3 and not need:
            return ''
        if k < 7:
            return ' '
        if k < 9:
            return self.pick(['  ', '\t', ' \t '])
        if brackets and k < 11:
            return self.pick(['\n', ' \n ', '\n\n', self.comment() + '\n', self.comment(' ') + '\n\t', '\n' + self.comment() + '\n'])
        return ' '

    def comment(self, lead=''):
        return lead + '#' + ''.join(self.pick(COMMENTS) for _ in range(self.r.randrange(0, 4)))


# ------------------------------------------------------------- by property
def P01(g):
    def q(d):
        if d <= 0:
            k = g.r.randrange(8)
            if k < 3:
                return [g.integer()]
            if k < 5:
                return [g.decimal()]
            if k < 6:
                return ['(', g.integer(), '/', str(g.r.randrange(1, 200)), ')']
            if k < 7:
                return ['(', '-', ')'] if g.chance(0.02) else ['(', g.integer(), '/', g.pick(['3', '7', '9', '11', '13', '0.3', '1.7']), ')']
            return [g.pick(['0', '1', '-1', '0.0', '100', '0.001'])]
        k = g.r.randrange(12)
        op = g.pick(['+', '-', '*', '/', '%', '\\'])
        a = q(d - 1)
        if k < 7:
            return a + [op] + q(d - 1)
        if k < 10:
            return ['('] + a + [op] + q(d - 1) + [')']
        return ['('] + a + [')', '^', g.pick(['2', '3', '-1', '-2', '0', '1', '7', '-5', '20'])]
    k = g.r.randrange(10)
    if k < 6:
        return case([g.layout(q(g.r.randrange(1, 4)))])
    if k < 8:
        return case([g.layout(q(g.r.randrange(0, 2)) + [g.pick(CMP)] + q(g.r.randrange(0, 2)))])
    if g.chance(0.12):   # operands that nearly fill the digits there are
        big = lambda m: str(g.r.randrange(10 ** (m - 1), 10 ** m))
        a, b = g.r.randrange(1, 98), g.r.randrange(1, 50)
        op = g.pick(['+', '-', '*', '/', '%', '\\', '+', '*'])
        x, y = (big(a), big(g.r.randrange(1, 99))) if op in '+-' else (big(g.r.randrange(1, 50)), big(b)) if op == '*' else (big(g.r.randrange(1, 49)), big(b))
        if g.chance(0.3):
            x = x[:len(x) // 2] + '.' + x[len(x) // 2:] if len(x) > 3 else x
        return case(['x = {}{}'.format(g.pick(['', '-']), x), 'y = {}{}'.format(g.pick(['', '-']), y), 'x {} y'.format(op), '(x {} y) {} 7'.format(op, g.pick('+-*/')), 'x {} y'.format(g.pick(CMP))])
    if g.chance(0.05):   # roots
        x = g.pick([g.small(200), g.decimal(), '({}/{})'.format(g.small(50), g.small(50)), '0', '-' + g.small(20), '{}'.format(g.r.randrange(1, 30) ** g.r.randrange(2, 6))])
        e = g.pick(['0.5', '(1/3)', '1.5', '-0.5', '(2/3)', '0.25', '(-1/3)', '50%', '(3/5)', '0.1', '2.5', '({}/{})'.format(g.small(9), g.small(6))])
        return case(['{} ^ {}'.format(x, e), 'x = {}\nx ^ {}'.format(x, e), '[{}, {}] ^ {}'.format(x, g.small(9), e)])
    if k < 9:   # nearly equal
        n, d = g.r.randrange(1, 10 ** 6), g.r.randrange(1, 10 ** 6)
        e = g.pick([0, 1, 5, 20, 40, 70])
        return case(['x = {}/{}'.format(n, d), 'y = x {} 1/10^{}'.format(g.pick('+-'), e or 90), 'x {} {}'.format(g.pick(CMP), g.pick(['x', 'y', '{}/{}'.format(2 * n, 2 * d)]))])
    return case(['x = ' + g.layout(q(1)), 'y = ' + g.layout(q(1)), g.layout(['x', g.pick(['+', '-', '*', '/', '%', '\\']), 'y']), g.layout(['(', 'x', g.pick('+-*/'), 'y', ')', '^', g.pick(['2', '-1', '3'])])])


def P02(g):
    # flat expressions without brackets, every operand of the right type for some reading
    def lv(k):
        """something that may stand as operand of a level-k operator"""
        if k <= 1 or g.chance(0.25):
            return [g.pick(['2', '3', '5', '7', '-2', '0.5', '6', '0b110', '4'])]
        r = g.r.randrange(1, k)
        if r == 1:
            return lv(1) + ['^'] + lv(1)
        if r == 2:
            return ['~', g.pick(['0b1010', '5', '0b1'])]
        if r == 6:
            return [g.small(9), g.pick(['x', 'x', "'3'"])]
        if r == 7:
            return lv(7) + [g.pick(['*', '/', '%', '\\'])] + lv(7)
        if r == 8:
            return lv(8) + [g.pick(['+', '-'])] + lv(8)
        if r == 9:
            return lv(9) + [g.pick(['<<', '>>']), g.small(4)]
        if r == 12:
            return lv(9) + ['&'] + lv(9)
        if r == 13:
            return lv(12) + [g.pick(['|', '^^'])] + lv(12)
        return lv(r)

    def bl():
        k = g.r.randrange(6)
        a = g.r.choice([8, 9, 9])
        if k < 2:
            return lv(a) + [g.pick(CMP)] + lv(a)
        if k < 3:
            return [g.string(), g.pick(['+$']), g.string(), g.pick(SCMP), g.string()]
        if k < 4:
            return ['not'] + ['true' if g.chance(0.5) else 'false']
        if k < 5:
            return lv(a) + [g.pick(['<', '>'])] + lv(a) + [g.pick(['==', '!='])] + lv(a) + [g.pick(['<', '>='])] + lv(a)
        return [g.boolean()]

    k = g.r.randrange(12)
    if k < 5:
        body = lv(14)
    elif k < 7:
        body = bl()
        for _ in range(g.r.randrange(1, 4)):
            body += [g.pick(['and', 'or', 'xor'])] + bl()
    elif k < 8:
        body = bl() + ['then'] + lv(13) + ['else'] + lv(13)
        if g.chance(0.4):
            body += ['as', g.pick(['hexadecimal', 'binary', 'percentage'])]
    elif k < 9:
        d = g.pick(['len', 'time', 'mass'])
        body = lv(7) + [g.unit(d)] + [g.pick(['+', '-'])] + lv(7) + [g.unit(d)] + ['to', g.unit(d)]
    elif k < 10:
        body = [g.small(9), 'm', g.pick(['*', '/']), g.pick(['2', '3 s', 's', 'km', '4 m^2']), g.pick(['/', '*', '+', '^']), g.pick(['2', 's', '5 m', 's^2', 'm'])]
    else:   # any flat soup
        body = []
        for i in range(g.r.randrange(1, 6)):
            body += [g.pick(['2', '3', '-5', 'x', 'true', "'a'", 'm', '0b11', 'y', '[1, 2]'])] if g.chance(0.85) else []
            body += [g.pick(['+', '-', '*', '/', '^', 'not', '~', '%', '\\', '<<', '<', '==', '&', '|', 'and', 'or', 'then', 'else', 'to', 'as', '=', '+=', '++', '+$', '*$', '+%', '^^', 'xor', '||='])]
        body += ['4']
    if g.chance(0.25):
        body = [g.pick(['x', 'z']), g.pick(['=', '||=', '+=', '-=', '*='])] + body
    return case(['x = 3\ny = 0.5', g.layout(body, g.pick(['plain', 'tight', 'plain']))])


def stmt(g, vars, fns=()):
    """a statement over some variables"""
    k = g.r.randrange(24)
    v = g.pick(vars)
    w = g.pick(vars)
    e = lambda d=1: g.num(d, vars) if g.chance(0.8) else g.anyx(d, vars)
    simple = lambda: [g.pick([g.small(20), g.small(20), w, w, '2.5', '0b101', '3 m', '50 cm', "'txt'", 'true', '[1, 2, 3]', '[' + w + ', 4]', '0'])]
    if k < 5:
        return [v, '='] + (e() if g.chance(0.4) else simple())
    if k < 7:
        return [v, '||='] + simple()
    if k < 9:
        return [v, g.pick(['++', '--'])]
    if k < 15:
        return [v, g.pick(['+=', '-=', '*=', '/=', '^=', '%=', '\\='])] + (simple() if g.chance(0.8) else ['(', w, '=', g.small(9), ')'])
    if k < 16:
        return ['delete(', v, ')']
    if k < 17:
        return ['reset(', ')'] if g.chance(0.4) else [v]
    if k < 19:
        return ['('] + [v, '='] + simple() + [')'] + [g.pick(['+', '*', '/', '-'])] + [g.pick([w, '2', '0', '(', "'a'"]) if False else g.pick([w, '2', '0', "'a'", '(' + w + ' = 7)'])]
    if k < 20:
        return ['[', v, ',', '(', w, '=', g.small(9), ')', ',', w, ']']
    if k < 21:
        return ['1', '/', '0'] if g.chance(0.3) else done(g, vars) + [g.pick(['+', '*', '-', ',', 'and'])] + broken(g, vars, g.r.randrange(0, 3)) if g.chance(0.6) else broken(g, vars, 2)
    if k < 22:
        return [w, '+', '(', v, '=', g.small(9), ')', '+', v]
    if k < 23:
        return ['true', 'then', '(', v, '=', g.small(9), ')', 'else', '(', w, '=', g.small(9), ')']
    return e(2)


def done(g, vars):
    """something that completes and assigns"""
    v = g.pick(vars)
    a = ['(', v, g.pick(['=', '=', '||=', '+=', '*=']), g.small(9), ')']
    return g.pick([a, a, ['abs('] + a + [')'], ['['] + a + [']'], ['('] + a + ['*', '2', ')'], ['max(', '3', ','] + a + [')'], ['(', v, '++', ')']])


def broken(g, vars, d):
    """something that fails, at some depth"""
    if d <= 0:
        return g.pick([['1', '/', '0'], ["'a'", '-', '1'], ['nope', '+', '1'], ['fact(', '-1', ')'], ['gcd(', '2.5', ',', '1', ')'], ['true', '+', '1'], ['3 m', '+', '2 s'], ['round(', '1', ',', '2', ',', '3', ')'], ['nofn(', '2', ')']])
    b = broken(g, vars, d - 1)
    v = g.pick(vars)
    return g.pick([['('] + b + [')'], ['abs('] + b + [')'], ['max('] + done(g, vars) + [','] + b + [')'], ['['] + b + [']'], ['['] + done(g, vars) + [','] + b + [']'], ['1', '+', '('] + b + [')'], ['(', v, '='] + b + [')'],
                   ['('] + done(g, vars) + ['+'] + b + [')'], ['sum(', '['] + done(g, vars) + [','] + b + [']', ')'], ['true', 'then', '('] + b + [')', 'else'] + done(g, vars)])


def program(g, vars, n, sep=None):
    out = ''
    for i in range(n):
        out += (g.pick(sep or ['\n', '\n', '\n\n', ' \n', ' # note\n']) if i else '') + g.layout(stmt(g, vars))
    return out


def P03(g):
    vars = g.pick([['x', 'y'], ['a', 'b_1', 'c'], ['x'], ['foo', 'Foo', 'FOO']])
    return case([program(g, vars, g.r.randrange(1, 4)) for _ in range(g.r.randrange(2, 7))])


def P04(g):
    vars = ['x', 'y']
    files = []
    steps = []
    for _ in range(g.r.randrange(3, 8)):
        k = g.r.randrange(10)
        if k < 4:
            t = program(g, vars, g.r.randrange(1, 4))
        elif k < 7:   # operators waiting for an operand across lines
            t = split_lines(g, g.num(2, vars))
        elif k < 9:
            t = split_lines(g, [g.pick(vars), '='] + g.num(1, vars))
        else:
            t = split_lines(g, ['(', 'x', '=', g.small(9), ')'] + [g.pick(['+', '*', 'then', '<', '++'])] + g.num(1, vars))
        mode = g.r.randrange(10)
        steps.append(step(t, po=mode < 3, sl=mode in (2, 3, 4, 5), **{'is': g.chance(0.2)}))
    return {'cfgs': [conf()], 'files': [], 'steps': steps}


def split_lines(g, toks):
    out = ''
    for i, t in enumerate(toks):
        out += ('' if not i else g.pick([' ', ' ', '\n', ' \n', ' # c\n'])) + t
    return out


FILES = [
    ('add', '#INPUT number number\nPARAM1 + PARAM2'),
    ('plain', 'PARAM1 * 2\n'),
    ('vars', 'x = PARAM1\ny = x + 1\nx * y'),
    ('fail', 'x = 5\n1 / 0'),
    ('speed', '#INPUT number:distance number:time\nPARAM1 / PARAM2'),
    ('accel', '#INPUT number:distance,time^-2\nPARAM1 * 2 kg'),
    ('strs', "#INPUT string boolean\nPARAM2 then PARAM1 +$ '!' else 'no'"),
    ('arrs', '#INPUT array[number]\nsum(PARAM1)'),
    ('none', '# nothing\n'),
    ('inner', 'f = {PARAM1 + 1}\n@f(PARAM1) * 2'),
    ('usesx', 'x + PARAM1'),
    ('bad', '5 +* 3 )'),
    ('dates', "#INPUT date number:time\nPARAM1 +% PARAM2"),
    ('assigns', 'PARAM1 = 99\nx = 77\nPARAM1'),
    ('units', '#INPUT number:mass,velocity^2\nPARAM1'),
    ('lines', 'PARAM1 +\nPARAM2\n\n'),
]


def P05(g):
    vars = ['x', 'y']
    bodies = ['PARAM1 + 1', 'x = PARAM1\nx * 2', 'y = 1\nx = y + PARAM1\nx / 0', 'PARAM1 + x', 'PARAM1 / PARAM2', "x = 9\n'a' + 1", 'x\n# done\n', 'PARAM1 = 3\ny = PARAM1\nPARAM1 + x',
              'g = {PARAM1 * 10}\n@g(PARAM1) + PARAM1', 'g = {x = PARAM1\nx / 0}\ntrue then 5 else @g(1)', 'delete(x)\n5', 'reset()\n4', 'x ||= 8\nx + PARAM1', 'x += PARAM1\nx', 'x ++\nx', '[PARAM1, x]',
              'PARAM1 then 1 else 2', '@h(PARAM1)', "h = 'add'\n@h(PARAM1, 2)", '1\n\n2', '', '# c', 'PARAM1 +\nPARAM2', 'z = 5\nz']
    args = lambda: g.pick(['1', '2.5', '3 m', '10 km, 2 s', '1, 2', '3 m, 50 cm', '', "'s'", 'true', "'s', true", '[1, 2]', '[1, 2], 3', '[1, 2], [3, 4]', '[1, 2], [3]', 'x', 'x, y', '5 kg', '1/0', 'zz', '(x = 4)', "'2020-01-01', 1 day", '0b101', '2 m/s', '9 J'])
    steps = ['x = {}\ny = {}'.format(g.pick(['10', '2 km', '[1, 2]', '0b11', "'v'"]), g.pick(['3', 'true', '4 s']))]
    for _ in range(g.r.randrange(2, 6)):
        k = g.r.randrange(8)
        if k < 3:
            steps.append('f = {' + g.pick(bodies) + '}\n@f(' + args() + ')')
        elif k < 5:
            steps.append("f = '{}'\n@f({})".format(g.pick(FILES)[0], args()))
        elif k < 6:
            steps.append('@f({})'.format(args()))
        elif k < 7:
            steps.append('fs = [{{{}}}, {}]\n@fs({})'.format(g.pick(bodies), g.pick(["'add'", "'plain'", '{PARAM1}', "'vars'", '5']), args()))
        else:
            steps.append(g.pick(['x', 'y', '@f({}) + @f({})'.format(args(), args()), 'h = {' + g.pick(bodies) + '}\nf = {' + g.pick(bodies) + '}\n@f(' + args() + ')', 'true or @f(1)', 'x = @f({})\nx'.format(args())]))
        if g.chance(0.25):
            steps.append(steps[-1].split('\n')[-1])
    return case(steps, files=FILES)


def P06(g):
    n = g.r.randrange(1, 4)
    elem = lambda: [g.weighted([(6, g.small(12)), (2, g.decimal(1)), (1, '3 m'), (1, '50 cm'), (1, "'a'"), (1, '0'), (1, '0b101'), (1, 'true')])]
    nested = lambda: g.arr(0, elem, g.r.randrange(1, 3)) if g.chance(0.3) else elem()
    def a():
        return g.weighted([(6, g.arr(0, elem, n)), (2, elem()), (1, g.arr(0, nested, n)), (1, g.arr(0, elem)), (1, ['x'])])
    pre = 'x = ' + g.layout(g.arr(0, elem, n))
    k = g.r.randrange(12)
    if k < 5:
        t = a() + [g.pick(['+', '-', '*', '/', '%', '\\', '^', '<', '==', '>=', '+$', '==$', '<~', '&', '|', '<<', 'and', 'or', '+%'])] + a()
    elif k < 6:
        t = a() + [g.pick(['+', '*', '-'])] + a() + [g.pick(['/', '-', '<', '*'])] + a()
    elif k < 8:
        f = g.pick(['abs', 'round', 'floor', 'length', 'upper', 'hex', 'bin', 'fact', 'gcd', 'lcm', 'strip', 'find', 'replace', 'substr', 'log', 'base', 'round', 'dec'])
        t = [f + '('] + a() + ([','] + a() if f in ('gcd', 'lcm', 'strip', 'find', 'replace', 'substr', 'base') or g.chance(0.2) else []) + ([','] + a() if f == 'replace' else []) + [')']
    elif k < 10:
        f = g.pick(['sum', 'min', 'max', 'mean', 'median', 'mode', 'sort', 'count', 'reverse', 'concat', 'element', 'join', 'filter'])
        t = [f + '('] + a()
        for _ in range(g.r.randrange(0, 3)):
            t += [','] + a()
        t += [')']
    elif k < 11:
        t = ['['] + g.arr(0, lambda: [g.boolean()], n) + [']'] if g.chance(0.2) else g.arr(0, lambda: [g.boolean()], n) + ['then'] + a() + ['else'] + a()
    else:
        t = g.pick([['not'] + g.arr(0, lambda: [g.boolean()], n), ['~'] + g.arr(0, lambda: [g.pick(['0b101', '0b01', '5'])], n), ['x', 'm'], ['2', 'x'], ['x', '+=', '1'], ['x', 'as', 'binary'],
                    g.arr(0, lambda: [g.small(9), 'm'], n) + ['to', 'cm'], ['x', '^=', '2'], ['x', '++']])
    if g.chance(0.3):
        t = ['('] + t + [')', g.pick(['+', '*', '-', '/', '==']), g.pick(['1', 'x', '0', '[1, 2]'])]
    return case([pre, g.layout(t), 'x'])


def P07(g):
    fails = ['1/0', "('a' + 1)", 'nope + 1', '(true + true and 5)', 'fact(-1)', '(3 m + 2 s)', "element([1], 5)", '(1/0)', '(5 and true)', 'min()', '@nofn(1)']
    def b(d):
        if d <= 0:
            return [g.weighted([(4, g.boolean()), (3, g.pick(fails)), (1, '(2 > 1)'), (1, g.pick(['5', "'s'", 'x', '[true, false]']))])]
        k = g.r.randrange(8)
        if k < 5:
            return b(d - 1) + [g.pick(['and', 'or', 'xor'])] + b(d - 1)
        if k < 6:
            return ['not'] + b(d - 1)
        return ['('] + b(d - 1) + [')']

    def v(d):
        if d <= 0:
            return [g.weighted([(4, g.small(9)), (3, g.pick(fails)), (1, g.string()), (1, '[1, 2]'), (1, 'x')])]
        k = g.r.randrange(6)
        if k < 4:
            return b(d - 1) + ['then'] + v(d - 1) + ['else'] + v(d - 1)
        return ['('] + v(d - 1) + [')']
    k = g.r.randrange(10)
    d = g.r.randrange(1, 4)
    t = b(d) if k < 4 else v(d) if k < 8 else v(d) + [g.pick(['+', '*', '<'])] + v(0) if k < 9 else [g.pick(['abs(', 'sum(', 'count('])] + v(d) + [')']
    if g.chance(0.2):
        t = ['y', '='] + t
    return case(['x = true' if g.chance(0.5) else 'x = 5', g.layout(t, g.pick(['plain', 'plain', 'tight'])), 'x'])


PREF = ['gregorian', 'si', 'us', 'uk', 'asu', 'nautical', 'iec']
SINGLE = {
    'len': ['meters', 'm', 'kilometers', 'km', 'inches', 'feet', 'yards', 'miles', 'chains', 'furlongs', 'fathoms', 'nautical miles', 'light years', 'light seconds', 'parsecs', 'astronomical units', 'micrometers', '\u00b5m', 'nanometers', 'picometers', 'cm', 'mm', 'megameters', 'gigameters', 'thou', 'leagues', 'links', 'rods', 'angstroms'],
    'time': ['seconds', 's', 'minutes', 'hours', 'days', 'weeks', 'fortnights', 'months', 'years', 'decades', 'centuries', 'millennia', 'ms', 'ns', 'sidereal days', 'leap years'],
    'mass': ['kilograms', 'g', 'mg', 'kg', 'tonnes', 'pounds', 'ounces', 'stones', 'drachms', 'grains', 'long tons', 'short tons', 'tons', 'quarters'],
    'vol': ['liters', 'ml', 'cl', 'us gallons', 'uk gallons', 'gallons', 'pints', 'uk pints', 'us pints', 'fluid ounces', 'us cups', 'quarts', 'us drams', 'uk gills', 'm^3', 'cm^3', 'inches^3', 'feet^3'],
    'area': ['acres', 'hectares', 'ares', 'm^2', 'km^2', 'feet^2', 'miles^2'],
    'temp': ['kelvin', 'celsius', 'fahrenheit', 'K', '\u00b0C', '\u00b0F', 'mK'],
    'data': ['bits', 'bytes', 'kB', 'kiB', 'kibibytes', 'MiB', 'MB', 'GB', 'terabytes', 'tebibytes', 'Mb', 'megabits', 'YB', 'yobibytes', 'nibbles'],
    'energy': ['joules', 'kJ', 'watt hours', 'kW hours', 'electronvolts', 'N m', 'kg m^2 s^-2', 'calories', 'eV', 'btu'],
    'force': ['newtons', 'kN', 'dynes', 'pounds-force', 'kg m / s^2'],
    'press': ['pascals', 'kPa', 'bar', 'psi', 'atmospheres', 'N / m^2', 'mmHg', 'torr'],
    'vel': ['m / s', 'km / hour', 'miles / hour', 'knots', 'feet / second', 'mph'],
    'power': ['watts', 'kW', 'J / s', 'MW', 'N m s^-1'],
    'angle': ['radians', 'degrees', 'arcminutes', 'arcseconds', 'gradians'],
    'freq': ['hertz', 'kHz', 's^-1', 'minutes^-1', 'MHz', 'becquerels'],
    'charge': ['coulombs', 'A s', 'mA hours', 'kA s'],
    'volt': ['volts', 'W / A', 'mV', 'J / C'],
    'res': ['ohms', 'k\u03a9', 'V / A'],
}


def value(g):
    return g.weighted([(5, g.small(100)), (3, g.decimal(2)), (1, g.decimal(8)), (1, '0'), (1, '-40'), (1, '1E' + str(g.r.randrange(-12, 13))), (1, '(1/3)'), (1, '100'), (1, '0b1011'), (1, '37.5')])


def spell(g, u):
    return g.pick([u, u, u, u.upper() if len(u) > 4 and '^' not in u else u, u.title() if len(u) > 4 and '^' not in u else u])


AMBIGUOUS = [('pint', 'ml'), ('pints', 'litres'), ('pt', 'ml'), ('gallon', 'l'), ('gallons', 'ml'), ('gal', 'ml'), ('fluid ounce', 'ml'), ('floz', 'ml'), ('fl.oz', 'l'), ('fluid ounces', 'pints'), ('ton', 'kg'), ('tons', 'grams'), ('quart', 'l'), ('quarts', 'pints'), ('quart', 'm^3'), ('gallon', 'quarts')]


def P08(g):
    dim = g.pick(list(SINGLE))
    u1, u2, u3 = (g.pick(SINGLE[dim]) for _ in range(3))
    other = g.pick(SINGLE[g.pick(list(SINGLE))])
    cfg = conf(pref=g.r.sample(PREF, 7)) if g.chance(0.3) else None
    k = g.r.randrange(10)
    val = value(g)
    if k < 3:
        ts = ['{} {} to {}'.format(val, spell(g, u1), spell(g, u2)), '{} {} to {} to {}'.format(val, u1, u2, u1)]
    elif k < 5:
        ts = ['x = {} {}'.format(val, u1), 'y = x to {}'.format(u2), 'y to {}'.format(u3), 'y to {}'.format(u1), 'x to {} to {} to {}'.format(u3, u2, u1)]
    elif k < 6:
        ts = ['{} {} to {}'.format(val, u1, other), '{} to {}'.format(val, u1), '{} {} {} {} {}'.format(val, u1, g.pick(CMP), value(g), u2)]
    elif k < 8:   # compound units and powers
        a, b = g.pick(list(SINGLE)), g.pick(list(SINGLE))
        un = lambda s: g.pick([x for x in SINGLE[s] if ' ' not in x and '^' not in x and x not in ('celsius', 'fahrenheit', '\u00b0C', '\u00b0F')])
        p, q = g.pick([1, 1, 2, 3, -1, -2]), g.pick([1, 2, -1, -2])
        f = lambda x, y: '{}{} {}{}'.format(x, '' if p == 1 else '^' + str(p), y, '' if q == 1 else '^' + str(q))
        if a == b:
            ts = ['{} {}^2 to {}^2'.format(val, un(a), un(a))]
        else:
            x1, y1, x2, y2 = un(a), un(b), un(a), un(b)
            ts = ['{} {} to {}'.format(val, f(x1, y1), f(x2, y2)), '({} {} to {}) to {}'.format(val, f(x1, y1), f(x2, y2), f(x1, y1)), '{} {} / {} to {} / {}'.format(val, x1, y1, x2, y2)]
    elif k < 9:   # temperatures
        t = SINGLE['temp']
        a, b = g.pick(t), g.pick(t)
        ts = ['{} {} to {}'.format(val, a, b), '{} {} {} {} {}'.format(val, a, g.pick(CMP), value(g), b), '{} {} {} {} {}'.format(val, a, g.pick(['+', '-']), value(g), b),
              '{} J / {} to J / {}'.format(val, a, b), '{} {} * {}'.format(val, a, value(g))]
    else:
        ts = ['{} {}'.format(val, spell(g, u1)), '{} {}{}'.format(val, u1, g.pick(['s', 'es', 'x', '2', ''])), '{} {} to {}'.format(val, spell(g, u1), spell(g, other))]
    if g.chance(0.25):   # an order of preference that changes between uses of a name several systems share
        a, b = g.pick(AMBIGUOUS)
        ts = [g.pick(['{} {} to {}'.format(val, a, b), '{} {} to {}'.format(val, b, a), '{} {} / s to {} / s'.format(val, a, b), 'x = {} {}\nx to {}'.format(val, a, b), '{} {}'.format(val, a)]) for _ in range(g.r.randrange(1, 4))]
        steps = []
        for t in ts:
            if g.chance(0.7):
                steps.append({'op': 'pref', 'c': 1, 'pref': g.r.sample(PREF, 7)})
            steps += [step(t), *([step('x to ' + g.pick([a, b]))] if t[0] == 'x' else [])]
        steps += [{'op': 'pref', 'c': 1, 'pref': g.r.sample(PREF, 7)}, step(ts[0])]
        return {'cfgs': [cfg or conf()], 'files': [], 'steps': steps}
    return case(ts, cfg=cfg)


def P09(g):
    dims = ['len', 'time', 'mass', 'cur', 'data', 'energy', 'force', 'power', 'press', 'volt', 'charge', 'freq', 'vol', 'area', 'vel']
    def u():
        d = g.pick(dims)
        x = g.pick([z for z in (SINGLE.get(d) or UNITS[d]) if z not in ('celsius', 'fahrenheit')])
        return x
    def q(d):
        if d <= 0:
            k = g.r.randrange(8)
            if k < 6:
                return [value(g), u()] if g.chance(0.8) else [value(g), u(), '^', g.pick(['2', '-1', '3'])] if g.chance(0.3) else [value(g)]
            return [value(g)] if k < 7 else ['x']
        k = g.r.randrange(8)
        if k < 4:
            return q(d - 1) + [g.pick(['*', '/'])] + q(d - 1)
        if k < 5:
            return ['('] + q(d - 1) + [g.pick(['+', '-', '*', '/'])] + q(d - 1) + [')']
        if k < 6:
            return ['('] + q(d - 1) + [')', '^', g.pick(['2', '-1', '3', '-2', '0'])]
        dm = g.pick(list(SINGLE))
        a, b = (g.pick([z for z in SINGLE[dm] if z not in ('celsius', 'fahrenheit', '\u00b0C', '\u00b0F')]) for _ in range(2))
        return ['(', value(g), a, g.pick(['+', '-', '/', '*', '%', '\\']), value(g), b, ')']
    t = g.layout(q(g.r.randrange(1, 4)))
    dm = g.pick(list(SINGLE))
    a, b = (g.pick([z for z in SINGLE[dm] if z not in ('celsius', 'fahrenheit', '\u00b0C', '\u00b0F')]) for _ in range(2))
    steps = ['x = ' + g.pick(['2 km', '3 kg m / s', '5', '0.5 hours^-1', '12 kg m^2 s^-3', '7 N s'])]
    k = g.r.randrange(10)
    if k < 6:
        steps += [t, {'op': 'simp', 'c': 1, 'on': False}, step(t), {'op': 'simp', 'c': 1, 'on': True}, step('y = ' + t + '\ny * 2 m')]
    elif k < 8:
        steps += ['{} {} {} {} {}'.format(value(g), a, g.pick(CMP + ['+', '-', '*', '/']), value(g), b), '{} {} {} {} {}'.format(value(g), a, g.pick(CMP + ['+', '-', '%']), value(g), u())]
    else:
        steps += ['{} {} {} {}'.format(value(g), a, g.pick(CMP + ['+', '-', '%', '\\', '*', '/']), value(g)), '{} {} {} {} {}'.format(value(g), g.pick(['+', '-', '<', '/', '*', '%']), value(g), a, g.pick(['', '^2', '+ 1 ' + b]))]
    return case([s for s in steps])


def program_any(g, n=None):
    vars = ['x', 'y', 'foo']
    out = []
    for i in range(n or g.r.randrange(1, 4)):
        k = g.r.randrange(10)
        e = stmt(g, vars) if k < 4 else g.anyx(2, vars) if k < 8 else P06toks(g) if k < 9 else ['f', '=', '{', 'PARAM1', '+', '1', '}']
        out.append(e)
    return out


def P06toks(g):
    return g.pick([['sum(', '[', '1', ',', '2', ']', ')'], ['[', '1', '..', '5', 'step', '2', ']', '+', '1'], ['@f(', '2', ')'], ['join(', '[', "'a'", ',', "'b'", ']', ',', "'-'", ')'],
                   ['min(', '3', ',', '(', '2', '+', '1', ')', ',', ')'], ['substr(', "'hello'", ',', '1', ',', '3', ')'], ["'2020-01-01'", '+%', '3', 'days'], ['gcd(', '12', ',', 'x', ')']])


def P10(g):
    toks = program_any(g)
    mode = g.pick(['plain', 'tight', 'wild'])
    text = g.pick(['\n', '\n', ' # c\n', '\n\n']).join(g.layout(t, mode) for t in toks)
    k = g.r.randrange(12)
    soup = ['(', ')', '[', ']', '{', '}', ',', '+', '-', '*', '/', "'", '"', '#', '@', '=', '..', 'step', 'to', 'as', 'then', 'else', 'not', '5', 'x', 'm', ' ', '\n', '\\', '.', '%', '$', '!', '?', ':', ';', '&', '|', '~', '`', '1/0',
            '1E99', '0b', '0b2', '0x', '5z7', 'z', 'E', '1E', '1.', '.5', '--', 'true', 'abs(', 'foo(', '@x(', '@zz(1)', 'min(', '\u00e9', '\u03a9', '\u4e2d', '\U0001f600', '\u2028', '\xa0', '\t', '[1..', '[1..2 step', "'a\\", "\\'", '"\\', "'\\\\", "'x' +$ 'b\\'", 'PARAM1', '==', '<', '=~']
    for _ in range(g.pick([0, 1, 1, 1, 2, 3])):
        i = g.r.randrange(len(text) + 1)
        m = g.r.randrange(4)
        if m == 0:
            text = text[:i] + g.pick(soup) + text[i:]
        elif m == 1:
            text = text[:i] + text[i + g.r.randrange(1, 4):]
        elif m == 2:
            text = text[:i] + g.pick(soup) + text[i + 1:]
        elif m == 3 and k < 4:
            text = text[:i]
    if k == 10:
        text = text[:g.r.randrange(len(text) + 1)] + g.pick(soup)
    if k == 11:
        text = ''.join(g.pick(soup) + g.pick(['', '', ' ']) for _ in range(g.r.randrange(1, 8)))
    return case([g.pick(['x = 3', 'x = [1, 2]\ny = 5 m', "f = {PARAM1 / 0}\nx = 'add'", '']), text, 'x'], files=FILES[:2])


SYMBOLS = [dict(), dict(), dict(), dict(cm=59), dict(tm=[59]), dict(q=34), dict(es=33), dict(arr=dict(open=[60, 60, 91], range=[58, 58], step=[98, 121], param=[59], close=[93])), dict(ptr=[64, 64]), dict(cm=96, q=34, tm=[59])]


def P11(g):
    toks = program_any(g)
    seps = ['\n', '\n', '\n\n', ' # c\n', '#x\n', ' \n\t\n']
    texts = []
    for _ in range(3):
        mode = g.pick(['plain', 'tight', 'wild', 'wild', 'wild'])
        texts.append(g.pick(['', '', ' ', '\n', '# first\n']) + g.pick(seps).join(g.layout(t, mode) for t in toks) + g.pick(['', '', ' ', '\n', ' # end', '\n\n']))
    if g.chance(0.5):
        texts.append(split_lines(g, g.anyx(2, ['x', 'y'])))
    cfg = conf(**g.pick(SYMBOLS)) if g.chance(0.3) else None
    if cfg and cfg['tm'] != [10]:
        texts = [t.replace('\n', ' ; ') for t in texts if '#' not in t] or ['1 ; 2']
    if cfg and cfg['q'] == 34:
        texts = [t.replace('"', '').replace("'", '"') for t in texts]
    if cfg and len(cfg['ptr']) > 1:
        texts = [t.replace('@', '@@') for t in texts]
    if cfg and cfg['arr']['param'] != [44]:
        texts = [t.replace('[', '<<[').replace('..', '::').replace('step', 'by') + '\n<<[1 ; 2]' for t in texts]
    return {'cfgs': [cfg or conf()], 'files': [], 'steps': [step(t, po=g.chance(0.15)) for t in ['x = 5\ny = 2.5\nfoo = 1'] + texts]}


def P12(g):
    n = g.notation
    k = g.r.randrange(14)
    anyn = lambda: g.weighted([(6, n()), (3, g.integer()), (2, g.decimal())])
    rep = lambda: g.pick(['decimal', 'scientific', 'percentage', 'binary', 'hexadecimal', 'octal'])
    fn = lambda: g.pick(['hex', 'oct', 'bin', 'dec', 'scientific'])
    if k < 3:
        return case([n()])
    if k < 6:
        return case([anyn() + ' ' + g.pick(['+', '-', '*', '+', '-', '*', '/', '\\', '%']) + ' ' + anyn()])
    if k < 8:
        return case(['x = ' + anyn(), 'x as ' + rep(), '{}(x)'.format(fn()), 'x as {} as {}'.format(rep(), rep()), '{}({}(x) + 1)'.format(fn(), fn())])
    if k < 9:
        return case(['scientific({}, {})'.format(anyn(), g.r.randrange(0, 12)), 'base({}, {})'.format(anyn(), g.r.randrange(1, 38)), '{}({})'.format(fn(), n()), 'abs({})'.format(n())])
    if k < 10:
        return case(['[{}, {}, {}]'.format(n(), n(), n()), 'sum({}, {})'.format(anyn(), anyn()), 'max({}, {})'.format(anyn(), anyn()), '{} + [{}, {}]'.format(anyn(), anyn(), anyn())])
    if k < 11:
        return case(["'{}' + {}".format(n(), anyn()), "'{}' +$ '{}'".format(anyn(), n()), '{} +$ {}'.format(anyn(), anyn())])
    if k < 12:
        m = n()
        return case([m, 'x = ' + m, 'x + 0', 'x - x', '-1 * x' if g.chance(0.5) else 'x * -1', 'x * 2 m', 'x m to cm'])
    if k < 13:
        return case(['x = ' + anyn(), 'x {} {}'.format(g.pick(['+=', '-=', '*=', '=', '||=']), anyn()), 'x', 'x ' + g.pick(['++', '--']), 'x'])
    b = g.r.randrange(2, 37)
    ds = ''.join(g.pick(ALNUM[:min(36, b + 1)]) for _ in range(g.r.randrange(1, 8)))
    return case(['{}z{}'.format(b, ds), '{}Z{}.{}'.format(b, ds.lower(), ds[:3]), '{}z{}'.format(g.pick([0, 1, 37, 100, 99999999999]), ds), g.pick(['0b102', '0o8', '0xG', '0b', '0x', '5%3', '5% 3', '1e', '1E+3', '3E-', '1.5e2.5', '5 %3', '0b1.1', '0x.8', '10%%'])])


def P13(g):
    def lit():
        k = g.r.randrange(8)
        if k < 3:
            p = g.pick([1, 2, 5, 29, 30, 31, 32, 35])
            d = ''.join(g.pick('0123456789') for _ in range(p - 1)) + g.pick('123456789')
            if g.chance(0.4):
                d = d[:max(0, p - 3)] + g.pick(['5', '50', '49', '95', '99', '999', '4999', '05'])
            if g.chance(0.3):
                d = '0' * (len(d) - 2) + d[-2:]
            if g.chance(0.25):   # within a hair of a half at some place, by a run of any length
                run = g.r.randrange(1, 60)
                d = d[:g.pick([0, 1, 2, 29, 30, 30, 30])].ljust(g.pick([0, 1, 30]), g.pick('0019')) + g.pick(['4' + '9' * run + g.pick(['', '5', '6', '9']), '5' + '0' * run + g.pick(['1', '5', '9']), '9' * run + g.pick(['4', '5', '6']), '44' + '9' * run])
            return g.pick(['', '-']) + g.pick(['0', '0', str(g.nat()), '9', '99999999']) + '.' + d
        if k < 4:
            return str(g.r.randrange(10 ** g.r.randrange(1, 66)))
        if k < 6:
            return '{}{}/{}'.format(g.pick(['', '-']), g.r.randrange(1, 10 ** g.pick([1, 3, 8])), g.r.randrange(1, 10 ** g.pick([1, 2, 5, 9])))
        if k < 7:
            return '{}/10^{}'.format(g.r.randrange(1, 2000), g.r.randrange(20, 70))
        return '{}*10^{}'.format(g.r.randrange(1, 2000), g.r.randrange(5, 90))
    k = g.r.randrange(10)
    if k < 4:
        return case([lit(), 'x = ' + lit(), 'x'])
    if k < 9:
        f = g.pick(['round', 'floor', 'ceil'])
        x = g.pick([lit(), lit(), g.decimal(), '{}.5'.format(g.integer()), '{}/8'.format(g.integer()), '-0.5', '0', g.notation()])
        u = g.pick(['', '', '', ' m', ' km', ' hours'])
        if u:
            x = '(' + x + ')'
        return case(['{}({}{})'.format(f, x, u), '{}({}{}, {})'.format(f, x, u, g.r.randrange(0, g.pick([3, 6, 31]))), '{}(-1 * ({}{}))'.format(f, x, u)])
    return case(['({}) +$ \'\''.format(lit()), '({}) m'.format(lit()), '({}) as percentage'.format(lit()), '({}) as scientific'.format(lit())])


def P15(g):
    n = g.r.randrange(2, 4)
    cfgs = [conf()]
    for _ in range(n - 1):
        cfgs.append(conf(**g.pick([dict(), dict(simp=False), dict(cm=59), dict(tm=[59]), dict(q=34), dict(pref=['uk', 'us', 'si', 'gregorian', 'asu', 'nautical', 'iec']), dict(es=33), dict(ptr=[38, 38]),
                                   dict(arr=dict(open=[60, 60, 91], range=[58, 58], step=[98, 121], param=[59], close=[93]))])))
    pool = ['x = 3\ny = x + 1', 'x', 'x + 1', '2 pints to ml', '1 gallon', "'it\\'s'", '"dq"', '[1..4 step 2] + x', '<<[1 ; 2::4]', 'x = 5 km', '10 m * 5 m', '1/0', 'x +=', 'x\n+\n2', 'f = {PARAM1 + x}\n@f(1)', "f = 'add'\n@f(2, 3)", '5 # c', '5 ; 6',
            'delete(x)', 'reset()', 'x = 0b101\nx + 1', "'2020-01-01' +% 1 day", '3 kg m / s^2', '1 + ', 'x ||= 9', 'foo', 'x ++', "'a!'b'", '3 +\n4', '(x = 2) then 1 else 2', '&&f(1)', '2 ^ 100', 'sum(1, 2, x)', '1 ton', 'y / 0', '5 km to miles']
    steps = []
    for _ in range(g.r.randrange(6, 14)):
        c = g.r.randrange(1, n + 1)
        k = g.r.randrange(20)
        if k == 0:
            steps.append({'op': 'pref', 'c': c, 'pref': g.r.sample(PREF, 7)})
        elif k == 1:
            steps.append({'op': 'simp', 'c': c, 'on': g.chance(0.5)})
        elif k == 2:
            steps.append({'op': 'conf', 'c': c, 'cfg': conf(**g.pick(SYMBOLS))})
        else:
            t = g.pick(pool) if g.chance(0.8) else program(g, ['x', 'y'], 2)
            steps.append(step(t, c, po=g.chance(0.05), sl=g.chance(0.05)))
    return {'cfgs': cfgs, 'files': [[codes(a), codes(b)] for a, b in FILES], 'steps': steps}


def P16(g):
    k = g.r.randrange(12)
    u = g.pick(['', '', '', ' m', ' km', ' s'])
    num = lambda: g.weighted([(6, g.small(12)), (2, '-' + g.small(9)), (2, g.small(12) + '.' + g.pick(['5', '25', '1', '9', '0'])), (1, '0b101'), (1, '1/2' if False else '0.5'), (1, '0')])
    mix = lambda: num() + (g.pick([' m', ' cm', ' km', ' inches', ' feet', ' mm']) if u == ' m' else u)
    arr = lambda n=None: '[' + ', '.join(mix() for _ in range(n or g.r.randrange(1, 7))) + ']'
    if k < 3:
        a, b, s = num(), num(), g.pick(['1', '2', '0.5', '-1', '-0.5', '3', '0', '0.3', num(), '1/3', '0.1'])
        ua, ub, us = u, g.pick([u, u, u, ' cm', '']), g.pick([u, u, u, ' cm', ''])
        if us == ' cm':
            s = g.pick(['50', '-50', '30', '-25', '0.2E3', '100', '0']) + ('000' if u == ' km' else '')
        return case(['[{}{} .. {}{} step {}{}]'.format(a, ua, b, ub, s, us), '[{}{}..{}{}]'.format(a, ua, b, ub), '[{}, {}{} .. {}{}, {}]'.format(num(), a, ua, b, ub, num())])
    if k < 4:
        return case(['x = [1, 2, 3]', '[{}..{}]'.format(g.pick(['x', "'2'", 'true', '(1/0)', 'nope', '1 + 1', 'count(x)']), g.pick(['5', "'4'", 'x', 'sum(x)', '1/0'])), '[1 .. 9 step {}]'.format(g.pick(["'2'", 'x', '1/0', '2 m', 'true']))])
    names = ['sum', 'min', 'max', 'mean', 'median', 'mode', 'sort', 'reverse', 'count', 'stdev']
    if k < 9:
        f = g.pick(names)
        return case(['x = ' + arr(), '{}(x)'.format(f), 'x', '{}({})'.format(g.pick(names), arr()), '{}({})'.format(f, ', '.join(mix() for _ in range(g.r.randrange(1, 5)))), 'x'])
    if k < 10:
        n = g.r.randrange(1, 5)
        return case(['x = ' + arr(n), 'filter(x, [{}])'.format(', '.join(g.boolean() for _ in range(n))), 'element(x, {})'.format(g.r.randrange(1, 7)), 'concat(x, {})'.format(arr()), 'filter(x, x > {})'.format(mix()), 'x'])
    if k < 11:
        n = g.r.randrange(1, 6)
        el = lambda: g.pick([g.string(), g.boolean(), num(), '[1, 2]', mix()])
        return case(['x = [' + ', '.join(el() for _ in range(n)) + ']', 'reverse(x)', 'count(x)', 'concat(x, x)', 'element(x, {})'.format(g.r.randrange(1, 7)), '{}(x)'.format(g.pick(names)), 'x'])
    return case(['x = ' + arr(), '{}({}(x))'.format(g.pick(names), g.pick(['sort', 'reverse'])), 'x = sort(x)\nx', 'sum(x) / count(x) - mean(x)', 'element(sort(x), 1) == min(x)', '{}(x, {})'.format(g.pick(names), arr())])


def P17(g):
    s = lambda: g.quote(g.word())
    arg = lambda: g.weighted([(8, s()), (1, g.number()), (1, g.boolean()), (1, 'w')])
    k = g.r.randrange(14)
    i = lambda: str(g.r.randrange(-6, 9))
    if k < 3:
        q, e = g.pick([("'", '\\'), ("'", '\\'), ('"', '\\'), ("'", '!'), ('"', '~')])
        w = g.word() + g.pick(['', "'", '\\', '"', '!', '\\\\', "\\'"]) + g.word()
        lit = g.quote(w, q, e)
        if g.chance(0.2):
            lit = q + ''.join(e + c if c in (q, e) or g.chance(0.2) else c for c in w) + q
        return case(['w = ' + lit, 'length(w)', 'w +$ w', lit + ' ==$ w'], cfg=conf(q=ord(q), es=ord(e)))
    ts = {3: ['{} +$ {}'.format(arg(), arg()), '{} *$ {}'.format(arg(), g.r.randrange(-1, 5))],
          4: ['length({})'.format(arg()), 'upper({})'.format(arg()), 'lower({})'.format(arg())],
          5: ['{}({}, {})'.format(g.pick(['lstrip', 'rstrip', 'strip']), s(), g.pick([s(), "'a'", "' '", "'abc'", '1'])), 'strip(w, {})'.format(s())],
          6: ['find({}, {})'.format(arg(), g.pick([s(), "'a'", "'an'", "''"])), "find(w, 'a')"],
          7: ['replace({}, {}, {})'.format(arg(), g.pick(["'a'", "'an'", "''", s()]), s())],
          8: ['substr({}, {})'.format(arg(), i()), 'substr({}, {}, {})'.format(arg(), i(), i()), 'substr(w, {}, {})'.format(i(), i())],
          9: ['split({}, {})'.format(arg(), g.pick(["','", "'a'", s()])), 'join(split(w, {0}), {0})'.format(g.pick(["','", "'a'", "'an'", s()]))],
          10: ['join([{}], {})'.format(', '.join(arg() for _ in range(g.r.randrange(1, 5))), s()), 'join([{}])'.format(', '.join(arg() for _ in range(g.r.randrange(1, 5)))), 'join({}, {})'.format(g.pick(['[{}, [{}], {}]'.format(s(), s(), s()), '[[{}], {}]'.format(s(), s()), '([1, 2, 3] / [1, 0, 2])', '(split({}, {}) + 1)'.format(s(), s())]), s())]}
    if k in ts:
        return case(['w = ' + s()] + ts[k])
    a, b = g.word(), g.word()
    if g.chance(0.4):
        b = a.swapcase() if g.chance(0.5) else a + g.pick(['', ' ', 'a'])
    return case(['{} {} {}'.format(g.quote(a), g.pick(SCMP), g.quote(b)), '{} {} {}'.format(arg(), g.pick(SCMP), arg()), '{} {} {}'.format(g.quote(a), g.pick(['<$', '>$', '==~', '<~']), g.quote(b))])


def P18(g):
    d, e = g.date(), g.date()
    per = lambda: g.pick(['1 day', '1 second', '0.000001 s', '36 hours', '-1 day', '1 year', '2.5 weeks', '0.0000005 s', '0.0000004 s', '12345678.123456 s', '1/3 s' if False else '0.333333 s', '{} {}'.format(g.decimal(g.pick([1, 3, 6])), g.pick(['seconds', 'minutes', 'hours', 'days', 'ms'])),
                          '{} {}'.format(g.r.randrange(-5000, 5000), g.pick(['seconds', 'minutes', 'hours', 'days', 'weeks', 'years', 'ms'])), '400000 weeks', '59 s', '86399 s', '365 days', '0 s'])
    p = per()
    k = g.r.randrange(10)
    if k < 4:
        op, inv = g.pick([('+%', '-%'), ('-%', '+%')])
        return case(["'{}' {} {}".format(d, op, p), "x = '{}' {} {}\nx {} {}".format(d, op, p, inv, p), "{}('{}', {})".format('dateadd' if op == '+%' else 'datesubtract', d, p)])
    if k < 6:
        return case(["datedifference('{}', '{}')".format(d, e), "datedifference('{}', '{}')".format(e, d), "datedifference('{}', '{}', {})".format(d, e, g.pick(['days', 'hours', 'weeks', 's', 'ms', 'm', 'years', 'minutes']))])
    if k < 7:
        return case(["x = '{}' +% {}".format(d, p), "datedifference(x, '{}')".format(d), "datedifference(x, '{}', {})".format(d, g.pick(['days', 'seconds', 'hours']))])
    if k < 8:
        return case(["'{}' +% {}".format(d, g.pick(['5', '3 m', "'a'", 'true', '1 Hz', '2 m/s', '[1 day, 2 days]', '3 s^2', '5 m s / km', '1 day + 1 hour'])), "{} +% 1 day".format(g.pick(["'hello'", "'2020-13-01'", "'2019-02-29'", '5', "'2020-01-01x'", 'true', "['2020-01-01', '2020-12-31']"]))])
    if k < 9:
        return case(["'{}' +% {} -% {}".format(d, p, per()), "x = '{}'\ny = '{}'\nx +% datedifference(x, y)".format(d, e)])
    return case(["datesubtract('{}', {})".format(d, p), "dateadd(['{}', '{}'], {})".format(d, e, p), "'{}' +% ({} to ms)".format(d, p), "dateadd('{}')".format(d), "datedifference('{}')".format(d)])


def P19(g):
    def b():
        k = g.r.randrange(10)
        sign = '-' if g.chance(0.2) else ''
        if k < 5:
            return sign + '0b' + '0' * g.pick([0, 0, 1, 4]) + bin(g.r.randrange(2 ** g.r.randrange(1, g.pick([4, 8, 33, 90]))))[2:]
        if k < 6:
            return sign + '0x' + in_base(g.r.randrange(16 ** g.r.randrange(1, 20)), 16)
        if k < 7:
            return sign + str(g.r.randrange(10 ** g.r.randrange(1, 60)))
        if k < 8:
            return g.pick(['0', '1', '-1', '2', '255', '256', '-256', '0b0', '0b1', '0o17', '8', '7', '-8'])
        return sign + g.small(300)
    k = g.r.randrange(10)
    if k < 4:
        return case(['{} {} {}'.format(b(), g.pick(['&', '|', '^^']), b()), '({} {} {}) {} {}'.format(b(), g.pick(['&', '|', '^^']), b(), g.pick(['&', '|', '^^', '+']), b())])
    if k < 6:
        return case(['{} {} {}'.format(b(), g.pick(['<<', '>>']), g.pick([g.small(70), g.small(9), '0', '-1', '1.5', '0b11', '100'])), 'x = {}\nx << {}'.format(b(), g.small(40)), 'x >> {}'.format(g.small(40))])
    if k < 9:
        v = b()
        return case(['~{}'.format(v), '~~{}'.format(v), 'x = {}\n~x\n~~x'.format(v), '~({} {} {})'.format(b(), g.pick(['&', '|', '^^']), b().lstrip('-')), '~({} >> {})'.format(b(), g.small(40)), '~x & x', '~x | x'])
    return case(['{} {} {}'.format(g.pick([b(), '1.5', "'5'", "'a'", 'true', '[1, 0b10]']), g.pick(['&', '|', '^^']), g.pick([b(), '2', "'0b11'", '0.5', '[3, 4]'])), '{} {} {}'.format(g.pick([b(), '1.5', "'5'", "'a'", 'true', '[1, 0b10]']), g.pick(['<<', '>>']), g.pick([g.small(40), '2', "'0b11'", '0.5', '[3, 4]', '-0b1'])), '~{}'.format(g.pick(['-5', '1.5', "'0b101'", 'true', '0b1.1', '[0b01, 0b10]', '0']))])


def P20(g):
    vars = ['x', 'y']
    def prog():
        n = g.r.randrange(1, 6)
        out = []
        for _ in range(n):
            k = g.r.randrange(10)
            out.append(g.pick(['', ' ', '# only', '\t', '#']) if k < 2 else g.layout(stmt(g, vars)) if k < 7 else g.layout(g.anyx(1, vars)))
        return '\n'.join(out) + g.pick(['', '', '\n', '\n\n', ' # z'])
    steps = []
    for _ in range(g.r.randrange(1, 4)):
        t = prog()
        steps.append(step(t, **{'is': g.chance(0.6)}))
    if g.chance(0.4):   # the same statements in one call and in several
        t = prog()
        c = {'cfgs': [conf(), conf()], 'files': [], 'steps': [step(t, 1, **{'is': True})] + [step(s, 2, **{'is': True}) for s in t.split('\n')]}
        return c
    return {'cfgs': [conf()], 'files': [], 'steps': steps}


FUNCS = ['abs', 'acos', 'asin', 'atan', 'base', 'bin', 'ceil', 'compact', 'concat', 'cos', 'count', 'dateadd', 'datedifference', 'datesubtract', 'dec', 'delete', 'element', 'exp', 'fact', 'filter', 'find', 'floor', 'gcd', 'hex', 'join', 'lcm',
         'length', 'log', 'lower', 'lstrip', 'max', 'mean', 'median', 'min', 'mode', 'oct', 'replace', 'reset', 'reverse', 'round', 'rstrip', 'scientific', 'sort', 'split', 'strip', 'substr', 'sum', 'tan', 'upper', 'sinh', 'regexget', 'dateformat', 'format']
OPS2 = ['+', '-', '*', '/', '^', '%', '\\', '<', '==', 'and', 'or', 'xor', '+$', '<$', '==~', '*$', '&', '|', '<<', '+%', '-%', 'to', 'as', '=', '+=', '||=', '*=']


def P21(g):
    vals = ['5', '-2', '2.5', '0', '0b101', "'5'", "'abc'", "''", 'true', 'false', '3 m', '2 s', '1 kg', '2 m/s', '[1, 2]', "['a', 'b']", '[true, false]', "'2020-01-01'", 'x', 'y', 'zz', 'm', 's', 'km', 'hours', "'2020-13-45'", '[]', '[1 m, 2 m]', 'arr', 'si', 'hexadecimal', '[[1, 2], [3, 4]]',
            "['a', [1], 'b']", "[1, 'a', 2]", "[true, 1]", "([1, 2] / [0, 1])", '[1, [2], 3]', '[[1], 2]', '[1 m, 2 s]', "['x', 1]", "(['a', 'b'] + 1)", "['2020-01-01', '2021-01-01']", "['2020-01-01', 'b']"]
    k = g.r.randrange(10)
    if k < 5:
        t = '{}({})'.format(g.pick(FUNCS), ', '.join(g.pick(vals) for _ in range(g.pick([0, 1, 1, 2, 2, 3, 4]))))
    elif k < 7:
        t = '{} {} {}'.format(g.pick(vals), g.pick(OPS2), g.pick(vals))
    elif k < 8:
        t = '{} {}'.format(g.pick(['not', '~']), g.pick(vals)) if g.chance(0.5) else '{} {}'.format(g.pick(vals), g.pick(['++', '--', 'm', 'x']))
    else:
        types = ['number', 'string', 'boolean', 'array', 'date', 'array[number]', 'array[string]', 'number:distance', 'number:time', 'number:mass,distance^2', 'number:velocity', 'number:area', 'string', 'number:energy', 'number:distance,time^-1', 'unit', 'number:pressure', 'number:volume', 'number:frequency']
        n = g.r.randrange(1, 4)
        f = ('t', '#INPUT ' + ' '.join(g.pick(types) for _ in range(n)) + '\nx = 1\n' + g.pick(['PARAM1', 'count([1, 2])', '7']))
        a = ', '.join(g.pick(vals) for _ in range(g.pick([n, n, n, n - 1, n + 1])))
        return case(["x = 5\ny = 'str'\nf = 't'", '@f({})'.format(a), 'x', '@f({})'.format(', '.join(g.pick(vals + ['4 m^2', '5 J', '3 Pa', '2 kg m^2', '3 l', '1 Hz']) for _ in range(n)))], files=[f])
    return case(["x = 5\ny = 'str'\narr = [1, 2, 3]", t, 'x', 'y'])


def P22(g):
    k = g.r.randrange(10)
    big = lambda: str(g.r.randrange(10 ** g.r.randrange(1, 40)))
    n = lambda: g.weighted([(4, g.small(100)), (2, big()), (1, '-' + g.small(50)), (1, '0'), (1, g.decimal(1)), (1, '1')])
    if k < 4:
        a, b = n(), n()
        m = g.r.randrange(1, 10 ** 6)
        if g.chance(0.5):
            a, b = str(m * g.r.randrange(1, 10 ** 6)), str(m * g.r.randrange(1, 10 ** 6))
        return case(['gcd({}, {})'.format(a, b), 'lcm({}, {})'.format(a, b)])
    if k < 6:
        return case(['fact({})'.format(g.pick([g.small(30), g.small(70), '-3', '2.5', '0', '1', "'4'"])), 'abs({})'.format(g.number()), 'abs({}/7)'.format(g.integer())])
    x = g.weighted([(5, '{}{}.{}'.format(g.pick(['', '-']), g.r.randrange(20), g.r.randrange(10 ** 6))), (3, '{}0.{}'.format(g.pick(['', '-']), g.r.randrange(10 ** 6))), (2, g.small(20)), (1, '0'), (1, '1'), (1, '-1'), (1, 'pi'), (1, 'pi / 2'), (1, 'e'), (1, '1/3')])
    if k < 9:
        return case(['{}({})'.format(g.pick(['sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'exp']), x), 'exp({})'.format(g.pick([x, '-3', '2.99'])), 'log({})'.format(x)])
    return case(['log({}, {})'.format(x, g.pick(['2', '10', 'e', '0.5', '1', '0', '-2', '3.7'])), 'log(exp({}))'.format(x), 'sin({0}) ^ 2 + cos({0}) ^ 2'.format(x)])


def pattern(g, d=2):
    k = g.r.randrange(14)
    if d <= 0 or k < 5:
        a = g.pick(['a', 'b', 'c', '1', ' ', '.', '[ab]', '[^a]', '[a-c]', '[0-9b]', '[^0-9]', '\\d', '\\w', '\\s', '\\D', '\\W', '\\S', '\\.', '\\+', '\\(', 'ab', '^', '$', '[.]', '[a-]', '[]a]', '[\\d.]', '-', 'A', ',', '@', "'", '\\\\', '\u00e9',
                    '\\b', '\\B', '\\A', '\\Z', '\\n', '\\t', '{', '}', ']', 'a{', 'b{x}', '[[a]', '[a&&b]', '[\\n\\s]', '[\\b]', '[a\\-c]', '[--/]', '[^^]', '\\1', '\\1', '\\2', ''])
    elif k < 8:
        a = pattern(g, d - 1) + pattern(g, d - 1)
    elif k < 11:
        a = g.pick(['(', '(', '(', '(?:', '(?:', '(?:', '(?=', '(?!', '(?<=', '(?<!', '(?>']) + pattern(g, d - 1) + ')'
    else:
        a = pattern(g, d - 1) + '|' + pattern(g, d - 1)
    if g.chance(0.35):
        a += g.pick(['*', '+', '?', '{2}', '{1,2}', '{0,3}', '{2,}', '{,2}', '{,}', '{0}']) + g.pick(['', '', '', '', '', '?', '?', '+'])
    return a


def P23(g):
    def sub():
        k = g.r.randrange(10)
        if k < 6:
            return ''.join(g.pick('aaabbc1 .2A') for _ in range(g.r.randrange(0, g.pick([4, 8, 20]))))
        return g.word() if k < 8 else g.pick(['abc123def', 'a,b;c', 'x@y.com', 'aaa', 'abababab', '2020-01-01', 'a\nb', 'the cat sat', '1.5', 'ab\n', '((a))', "it's", '\u00e9t\u00e9'])
    p = pattern(g, g.pick([0, 1, 2, 2, 3, 4]))
    if g.chance(0.08):
        p = g.pick(['(?i)', '(?i)', '(?s)', '(?m)', '(?im)', '(?ms)']) + p
    if g.chance(0.12):   # damaged
        i = g.r.randrange(len(p) + 1)
        p = p[:i] + g.pick(['(', ')', '[', ']', '*', '+', '\\', '{', '{2,1}', 'z-a', '?', '', '', '[b-a]']) + p[i + g.r.randrange(0, 2):]
    p = g.quote(p)
    s = lambda: g.quote(sub())
    n = lambda: g.pick(['1', '1', '2', '3', '5', '0b1', "'1'"])
    k = g.r.randrange(10)
    if k < 3:
        return case(['{} =~ {}'.format(s(), p), '{} !~ {}'.format(s(), p), "w = {}\nw =~ {} and not w !~ {}".format(s(), p, p), '[{}, {}, {}] {} {}'.format(s(), s(), s(), g.pick(['=~', '!~']), p)])
    if k < 8:
        return case(['w = ' + s(), 'p = ' + p, 'regexget(w, p)', 'regexcount(w, p)', 'regexsplit(w, p)', 'regexget(w, p, {})'.format(n()), 'regexsub(w, p, {})'.format(g.pick(["''", "'-'", s()])),
                     "regexsub(w, p, {}, {})".format(g.quote(g.pick(['#', '#', '\\1', '<\\1>', '\\2\\1', '\\\\', '\\n', '\\.', '\\q', '\\'])), n()), 'join(regexsplit(w, p), {})'.format(s()), 'w'])
    if k < 9:
        return case(['{}({}, {})'.format(g.pick(['regexget', 'regexcount', 'regexsplit']), g.pick([g.number(), g.boolean(), "['ab', 'b']", s()]), p), '{} =~ {}'.format(g.pick([g.number(), g.boolean(), "['ab', '12']"]), g.pick([p, "'1'", "'^[0-9.]+$'", '1'])),
                     'regexsub({}, {}, {})'.format(g.pick([g.number(), s()]), g.pick(["'[0-9]'", p]), g.pick([g.number(), s()]))])
    return case(['count(regexget({0}, {1})) == regexcount({0}, {1})'.format(s(), p), 'x = {}\nx =~ {} then regexget(x, {}, 1) else \'none\''.format(s(), p, p), "regexsub(regexsub({}, 'a', 'b', 1), 'b', 'a')".format(s())])


FORMATTED = {
    'len': ['m', 'meters', 'km', 'cm', 'mm', 'nanometers', 'inches', 'feet', 'yards', 'miles', 'nautical miles', 'lightyears', 'lightdays', 'lightminutes', 'lightweeks', 'astronomical units', 'parsecs', 'kiloparsecs', 'gigaparsecs'],
    'time': ['seconds', 's', 'minutes', 'hours', 'days', 'weeks', 'months', 'years', 'ms', 'ns', 'attoseconds'],
    'mass': ['g', 'kg', 'mg', 'tonnes', 'kilotonnes', 'pounds', 'ounces', 'stone', 'grains', 'long tons', 'short tons', 'tons', 'ton'],
    'vol': ['liters', 'cl', 'us gallons', 'uk gallons', 'gallons', 'pints', 'uk pints', 'us pints', 'fluid ounces', 'us cups', 'quarts', 'us drams', 'uk gills'],
    'area': ['acres', 'hectares'], 'temp': ['kelvin', 'celsius', 'fahrenheit', 'mK', 'kilokelvin'],
    'data': ['bits', 'bytes', 'kB', 'kibibytes', 'MiB', 'MB', 'GB', 'terabytes', 'tebibytes', 'megabits', 'YB', 'yobibytes'],
    'energy': ['joules', 'kJ', 'MJ'], 'force': ['newtons', 'kN'], 'press': ['pascals', 'kPa', 'psi', 'atmospheres'], 'power': ['watts', 'kW', 'MW', 'microwatts'], 'volt': ['V', 'mV'], 'cur': ['A', 'kA'],
    'vel': ['knots'], 'lum': ['candelas'], 'sub': ['moles', 'nanomoles'],
}


def P24(g):
    d = g.pick(['len', 'time', 'mass', 'vol', 'temp', 'data', 'len', 'time', 'mass', 'data'] + list(FORMATTED))
    u = lambda: g.pick(FORMATTED[d])
    def n():
        k = g.r.randrange(12)
        if k < 4:
            return str(g.r.randrange(0, g.pick([3, 70, 2000, 10 ** 6, 10 ** 12])))
        if k < 8:
            return '{}.{}'.format(g.r.randrange(0, g.pick([1, 3, 100, 100000])), ''.join(g.pick('0123456789') for _ in range(g.r.randrange(1, g.pick([2, 4, 12, 32])))))
        if k < 9:
            return '-' + g.pick(['1', '0.5', '30', '459.67', '273.15', '40', '1234.5'])
        if k < 10:
            return g.pick(['0', '1', '0.0', '1000', '60', '3600', '86400', '24', '12', '16', '14', '1024', '1023.999', '0.999999', '1.000000000000000000000000000001'])
        return g.pick(['(1 / 3)', '(22 / 7)', '(x * 2)', 'x', '0x2f', '1E3', '50%', '0b1001', value(g)])
    q = lambda: '{} {}'.format(n(), u())
    sys = lambda: g.pick(['', '', '', ', si', ', us', ', uk', ', gregorian', ', asu', ', iec', ', nautical'])
    def f():
        k = g.r.randrange(10)
        if k < 4:
            return 'format({}{})'.format(q(), sys())
        if k < 6:
            return 'format({} to {}{})'.format(q(), u(), sys())
        if k < 8:
            return 'format({}{})'.format(' + '.join(q() for _ in range(g.r.randrange(2, 4))), sys())
        if k < 9:
            return 'compact({})'.format(q())
        return 'format(compact({}){})'.format(q(), sys())
    steps = ['x = ' + g.pick(['2', '0.75', '61', '1 / 7', '90061.5'])]
    for _ in range(g.r.randrange(2, 6)):
        if g.chance(0.25):
            steps.append({'op': 'pref', 'c': 1, 'pref': g.r.sample(PREF, 7)})
        steps.append(step(f()))
    k = g.r.randrange(8)
    if k < 3:
        a = q()
        b = u()
        steps += ['qq = ' + a, 'w = format(qq)\nw', 'format(qq to {})'.format(b), 'length(format(qq{})) > 5'.format(sys()), 'format([qq, 3 qq]{})'.format(sys())]
    elif k < 5:
        steps += ['format({})'.format(g.pick(['5', "'5 m'", 'true', '5 m / s', '5 m^2', '5 s^-1', '5 gees', '5 m * 3 m', '3 m / 2 m', '5 kg m / s^2', '[1 m, 2]'])), 'format({}, {})'.format(q(), g.pick(['5', "'si'", 'm', 'true', "'xx'", 'x']))]
    return case(steps)


def cases(pid, seed, n):
    rng = random.Random('{}/{}'.format(pid, seed))
    g = Gen(rng)
    f = globals()[pid]
    return [f(g) for _ in range(n)]
