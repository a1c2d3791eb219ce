"""C23: window-convolution coefficients, formulae and multipole labels."""
import itertools
import math
import re
import warnings
from fractions import Fraction
from functools import lru_cache

import mpmath
import numpy as np
from hypothesis import strategies as st

import gen
from core import Violation, Sub, check, close, expect_raises, ok
from props.c27 import exact_3j, reduced_ylm

TARGETS = ['py']
ASSUMPTIONS = [
    'Coefficients are decided for multipoles whose own Wigner 3-j symbols '
    'do not vanish (they are divided by).',
    'The built-in three-point formulae are truncated as in the cited '
    'paper: products in which one factor is a 000 or 110 multipole.',
]


# -- angular momentum ------------------------------------------------------------------

@lru_cache(None)
def three_j0(a, b, c):
    return exact_3j(a, b, c, 0, 0, 0)


@lru_cache(None)
def six_j(a, b, c, d, e, f):
    """Racah's formula."""
    def delta(x, y, z):
        if z > x + y or z < abs(x - y):
            return None
        g = math.factorial
        return Fraction(g(x + y - z)*g(x - y + z)*g(-x + y + z),
                        g(x + y + z + 1))
    square = Fraction(1)
    for t in ((a, b, c), (a, e, f), (d, b, f), (d, e, c)):
        v = delta(*t)
        if v is None:
            return mpmath.mpf(0)
        square *= v
    total = Fraction(0)
    lo = max(a + b + c, a + e + f, d + b + f, d + e + c)
    hi = min(a + b + d + e, b + c + e + f, a + c + d + f)
    g = math.factorial
    for t in range(lo, hi + 1):
        total += Fraction((-1)**t*g(t + 1), (
            g(t - a - b - c)*g(t - a - e - f)*g(t - d - b - f)
            * g(t - d - e - c)*g(a + b + d + e - t)*g(b + c + e + f - t)
            * g(a + c + d + f - t)))
    return mpmath.sqrt(mpmath.mpf(square.numerator)/square.denominator) \
        * mpmath.mpf(total.numerator)/total.denominator


def nine_j(a, b, c, d, e, f, g, h, i):
    total = mpmath.mpf(0)
    for x in range(max(abs(a - i), abs(d - h), abs(b - f)),
                   min(a + i, d + h, b + f) + 1):
        total += (2*x + 1)*six_j(a, b, c, f, i, x)*six_j(d, e, f, b, x, h) \
            * six_j(g, h, i, x, a, d)
    return float(total)


def allowed(m):
    return abs(m[0] - m[1]) <= m[2] <= m[0] + m[1] and sum(m) % 2 == 0


def coefficient(out, q, z):
    """Closed expression of Sugiyama et al."""
    if not allowed(out):
        return 0.
    v = (2*out[0] + 1)*(2*out[1] + 1)*(2*out[2] + 1)*three_j0(*out)
    for k in range(3):
        v *= three_j0(out[k], z[k], q[k])
    if v == 0:
        return 0.
    v /= three_j0(*z)*three_j0(*q)
    return v*nine_j(*q, *z, *out)


def degrees(top):
    return st.tuples(*[st.integers(0, top)]*3).map(list)


@st.composite
def allowed_label(draw, top=4):
    a, b = draw(st.integers(0, top)), draw(st.integers(0, top))
    return [a, b, draw(st.sampled_from(
        list(range(abs(a - b), a + b + 1, 2))))]


@st.composite
def near(draw, q, z, top=99):
    """A multipole that the product of two others may contain."""
    out = []
    for x, y in zip(q, z):
        out.append(draw(st.integers(abs(x - y), min(x + y, top))))
    return out


@st.composite
def coeff_strategy(draw):
    top = draw(gen.scalars(1, 2, 3, 4))
    q = draw(allowed_label(top))
    z = draw(allowed_label(top))
    kind = draw(gen.scalars('near', 'near', 'parity', 'parity', 'free', 'ic'))
    out = draw(degrees(top) if kind == 'free' else near(q, z))
    if kind == 'parity':
        out = [x + (x + y + w) % 2 if x < y + w else x
               for x, y, w in zip(out, q, z)]
    if kind == 'ic':
        z = 'ic'
        if draw(st.booleans()):
            out = list(q)
    return {'out': out, 'q': q, 'z': z, 'symb': draw(st.booleans()),
            'forms': [draw(gen.scalars(*FORMS)) for _ in range(3)]}


FORMS = ('tuple', 'list', 'string', 'commas', 'strings', 'object', 'array',
         'mixed')


def label(m, form):
    from triumvirate.winconv import Multipole
    if m == 'ic':
        return m
    single = all(x < 10 for x in m)
    if form == 'string' and not single:
        form = 'commas'
    if form == 'commas' and len(m) == 1 and not single:
        form = 'tuple'
    return {
        'tuple': lambda: tuple(m), 'list': lambda: list(m),
        'string': lambda: ''.join(map(str, m)),
        'commas': lambda: ','.join(map(str, m)),
        'strings': lambda: tuple(map(str, m)),
        'object': lambda: Multipole(tuple(m)),
        'array': lambda: np.array(m),
        'mixed': lambda: [str(x) if i % 2 else x for i, x in enumerate(m)],
        'int': lambda: m[0], 'digit': lambda: str(m[0]),
    }[form]()


def run_coeff(case):
    from triumvirate.winconv import calc_threept_winconv_coeff
    out, q, z = case['out'], case['q'], case['z']
    args = [label(m, 'tuple' if f == 'array' else f)
            for m, f in zip((out, q, z), case['forms'])]
    got = calc_threept_winconv_coeff(*args, symb=case['symb'])
    if z == 'ic':
        check(got == (-1 if out == q else 0), f'coefficient {got} of ic')
        return ok(out == q, 'ic')
    if not case['symb']:
        check(isinstance(got, float), f'{type(got)} returned')
    want = coefficient(out, q, z)
    close(float(got), want, f'coefficient of {q} {z} in {out}', rtol=1e-11,
          atol=1e-14)
    back = coefficient(out, z, q)
    close(float(calc_threept_winconv_coeff(args[0], args[2], args[1])), back,
          f'coefficient of {z} {q} in {out}', rtol=1e-11, atol=1e-14)
    return ok(want != 0, 'zero' if want == 0 else 'non-zero')


# -- products of basis functions --------------------------------------------------------

@st.composite
def product_strategy(draw):
    top = draw(gen.scalars(1, 2))
    return {'q': draw(allowed_label(top)), 'z': draw(allowed_label(top)),
            'dirs': [[draw(st.floats(-1, 1)), draw(st.floats(0, 6.28))]
                     for _ in range(3)]}


def tripolar(m, dirs):
    total = 0j
    ys = []
    for ell, (mu, phi) in zip(m, dirs):
        s = math.sqrt(1 - mu*mu)
        v = np.array([s*math.cos(phi), s*math.sin(phi), mu])
        ys.append([complex(reduced_ylm(ell, k, v))
                   for k in range(-ell, ell + 1)])
    for m1 in range(-m[0], m[0] + 1):
        for m2 in range(-m[1], m[1] + 1):
            m3 = -m1 - m2
            if abs(m3) <= m[2]:
                total += exact_3j(*m, m1, m2, m3) * ys[0][m1 + m[0]] \
                    * ys[1][m2 + m[1]]*ys[2][m3 + m[2]]
    return total/three_j0(*m)


def run_product(case):
    """The product of two basis functions, expanded in basis functions."""
    from triumvirate.winconv import calc_threept_winconv_coeff
    q, z, dirs = case['q'], case['z'], case['dirs']
    left = tripolar(q, dirs)*tripolar(z, dirs)
    right, terms = 0., 0
    for out in itertools.product(*[
            range(abs(a - b), a + b + 1) for a, b in zip(q, z)]):
        if allowed(out):
            c = calc_threept_winconv_coeff(tuple(out), tuple(q), tuple(z))
            terms += c != 0
            right += c*tripolar(out, dirs)
    close(right, left, f'product of basis functions {q} and {z}',
          rtol=1e-9, scale=abs(left), atol=1e-10)
    return ok(terms > 1, f'{min(terms, 4)} terms')


# -- labels ---------------------------------------------------------------------------------

@st.composite
def label_strategy(draw):
    n = draw(gen.scalars(1, 3, 3, 3, 2))
    top = draw(gen.scalars(1, 2, 9, 12))
    one = st.tuples(*[st.integers(0, top)]*n).map(list)
    forms = FORMS + (('int', 'digit') if n == 1 else ())
    return {
        'n': n,
        'labels': [{'m': draw(one), 'form': draw(gen.scalars(*forms)),
                    'again': draw(gen.scalars(*forms))}
                   for _ in range(draw(st.integers(2, 6)))],
        'other': draw(st.integers(1, 4)),
    }


def run_label(case):
    from triumvirate.winconv import Multipole

    def make(m, form):
        if form == 'digit' and m[0] > 9:
            form = 'int'
        return Multipole(label(m, form))

    objs = []
    for e in case['labels']:
        m = e['m']
        a, b = make(m, e['form']), make(m, e['again'])
        check(a == b and not a != b, f"{m}: {e['form']} != {e['again']}")
        check(hash(a) == hash(b), f'{m}: hashes differ')
        check(a.index == tuple(m) == b.index, f'index {a.index} of {m}')
        check(all(type(x) is int for x in a.index), f'{a.index}')
        check(a.abstr == ''.join(map(str, m)), f'abbreviation {a.abstr}')
        check(str(a) == ','.join(map(str, m)), f'string {a}')
        check(repr(a) == f'Multipole({tuple(m)})', f'{a!r}')
        check(Multipole(a) == a and Multipole(a) is not None, 'copy')
        check([a[i] for i in range(len(m))] == list(m), 'items')
        if case['n'] > 1 or m[0] < 10:
            check(Multipole(str(a)) == a, f'{a} from its string')
        check({a: 1}.get(b) == 1, 'look-up')
        check(a != tuple(m) and a != str(a), 'equal to another type')
        objs.append(a)
    for (a, x), (b, y) in itertools.product(
            zip(objs, case['labels']), repeat=2):
        ka = tuple(x['m'][-1:] + x['m'][:-1])
        kb = tuple(y['m'][-1:] + y['m'][:-1])
        rel = [a < b, a <= b, a == b, a != b, a >= b, a > b]
        want = [ka < kb, ka <= kb, ka == kb, ka != kb, ka >= kb, ka > kb]
        check(rel == want, f'{a} and {b} compare as {rel}')
    for perm in (objs, objs[::-1]):
        check([o.index for o in sorted(perm)] == [
            tuple(m[1:] + m[:1]) for m in sorted(
                e['m'][-1:] + e['m'][:-1] for e in case['labels'])],
            f'order of {objs}')
    if case['other'] != case['n']:
        b = Multipole([0]*case['other'])
        check(objs[0] != b, 'different lengths')
        for f in (lambda: objs[0] < b, lambda: objs[0] > b,
                  lambda: objs[0] <= b, lambda: objs[0] >= b):
            expect_raises(ValueError, f, 'order of different lengths')
    expect_raises(ValueError, lambda: Multipole(None), 'label None')
    expect_raises(ValueError, lambda: Multipole('abc'), 'label abc')
    return ok(len({o.index for o in objs}) > 1, f"{case['n']} degrees")


# -- formulae ----------------------------------------------------------------------------------

COEFFS = [1, -1, 2, '1/3', '-2/7', [3, 5], [-1, 9], .5, -1.25, '4', [-4, 1]]


@st.composite
def formulae_strategy(draw):
    n = draw(gen.scalars(1, 3, 3))
    one = st.tuples(*[st.integers(0, draw(gen.scalars(2, 4, 11)))]*n).map(
        list)
    forms = FORMS + (('int',) if n == 1 else ())
    lab = st.fixed_dictionaries({'m': one, 'form': gen.scalars(*forms)})
    term = st.fixed_dictionaries({
        'q': lab, 'z': lab, 'ic': gen.scalars(False, False, False, True),
        'c': st.sampled_from(COEFFS), 'obj': st.booleans(),
    })
    rows = draw(st.lists(st.tuples(lab, st.lists(term, min_size=1,
                                                 max_size=5)),
                         min_size=1, max_size=5,
                         unique_by=lambda r: tuple(r[0]['m'])))
    return {'n': n, 'rows': [list(r) for r in rows],
            'zero': draw(st.booleans()),
            'symbol': draw(gen.scalars(None, r'\xi', 'Z'))}


def coeff_of(c):
    return Fraction(*c) if isinstance(c, list) else c


def exact(c):
    return Fraction(*c) if isinstance(c, list) else Fraction(c)


def parse_latex(text, symbol):
    """Terms of a typeset formula: (coefficient, Q digits, Z digits)."""
    pattern = re.compile(
        r'\s*([+-]?)\s*(\\frac\{(\d+)\}\{(\d+)\}|[\d.]+)?\s*'
        r'Q_(?:\{(\d+)\}|\\mathrm\{(\w+)\})\s*'
        + re.escape(symbol) + r'_(?:\{(\d+)\}|\\mathrm\{(\w+)\})\s*')
    pos, terms = 0, []
    while pos < len(text):
        m = pattern.match(text, pos)
        check(m is not None, f'typeset formula {text!r} at {pos}')
        if terms:
            check(m.group(1) in '+-' and m.group(1), f'no sign in {text!r}')
        c = Fraction(1)
        if m.group(3):
            c = Fraction(int(m.group(3)), int(m.group(4)))
        elif m.group(2):
            c = Fraction(m.group(2))
        if m.group(1) == '-':
            c = -c
        terms.append((c, m.group(5) or m.group(6), m.group(7) or m.group(8)))
        pos = m.end()
    return terms


def run_formulae(case):
    from triumvirate.winconv import Multipole, WinConvFormulae, WinConvTerm
    source, model = {}, {}
    for head, terms in case['rows']:
        key = label(head['m'], head['form'])
        if isinstance(key, (list, np.ndarray)):
            key = tuple(key)
        made, listed = [], []
        for t in terms:
            q = label(t['q']['m'], t['q']['form'])
            if isinstance(q, np.ndarray):
                q = tuple(q)
            z = label(t['z']['m'], t['z']['form'])
            if isinstance(z, np.ndarray):
                z = tuple(z)
            z = 'ic' if t['ic'] else z
            c = coeff_of(t['c'])
            made.append(WinConvTerm(q, z, c) if t['obj'] else (q, z, c))
            listed.append((tuple(t['q']['m']),
                           'ic' if t['ic'] else tuple(t['z']['m']),
                           exact(t['c'])))
        source[key] = made
        model[tuple(head['m'])] = listed
    f = WinConvFormulae(source)

    def order(ms):
        return sorted(ms, key=lambda m: m[-1:] + m[:-1])
    all_terms = [t for ts in model.values() for t in ts]
    check([m.index for m in f.multipoles] == order(model),
          f'windowed multipoles {f.multipoles}')
    check([m.index for m in f.multipoles_Q]
          == order({t[0] for t in all_terms}),
          f'window multipoles {f.multipoles_Q}')
    want = order({t[1] for t in all_terms if t[1] != 'ic'})
    want += ['ic'] if any(t[1] == 'ic' for t in all_terms) else []
    check([m if m == 'ic' else m.index for m in f.multipoles_Z] == want,
          f'unwindowed multipoles {f.multipoles_Z}')
    for head, terms in case['rows']:
        rows = model[tuple(head['m'])]
        for form in FORMS:
            got = f[label(head['m'], form)]
            check(len(got) == len(rows), f'{len(got)} terms')
        for t, (q, z, c), spec in zip(got, rows, terms):
            check(isinstance(t, WinConvTerm), f'{type(t)}')
            check(t.multipole_Q == Multipole(q) and t.index_Q == q,
                  f'window multipole of {t}')
            check(t.multipole_Z == (z if z == 'ic' else Multipole(z))
                  and t.index_Z == z, f'multipole of {t}')
            check(Fraction(str(t.coeff)) == c, f'coefficient of {t}')
            same = WinConvTerm(','.join(map(str, q)) if len(q) > 1 else q,
                               z, coeff_of(spec['c']))
            check(t == same and not t != same, f'{t!r} and {same!r}')
            check(t != WinConvTerm(q, z, c + 1), 'other coefficient')
            check(t != WinConvTerm(q, 'ic' if z != 'ic' else q, c),
                  'other multipole')
            check(t != WinConvTerm(q[:-1] + (q[-1] + 1,), z, c),
                  'other window multipole')
            check(t != (q, z, c), 'another type')
        kw = {} if case['symbol'] is None else {'symbol': case['symbol']}
        parsed = parse_latex(f.get_latex_expr(tuple(head['m']), **kw),
                             case['symbol'] or r'\zeta')
        check(parsed == [(c, ''.join(map(str, q)),
                          z if z == 'ic' else ''.join(map(str, z)))
                         for q, z, c in rows],
              f'typeset {parsed} of {rows}')
    # a copy that is not tied to the formulae
    d = f.get_dict()
    check(sorted(d) == f.multipoles, f'keys {list(d)}')
    for m in f.multipoles:
        check(d[m] == f[m], f'formula of {m}')
        d[m].append('more')
        d[m][0].coeff = 17
        check(len(f[m]) == len(model[m.index]), 'copy tied to the formulae')
        check(Fraction(str(f[m][0].coeff)) == model[m.index][0][2],
              'terms of the copy tied to the formulae')
    again = WinConvFormulae(f.get_dict())
    check(again.multipoles == f.multipoles and all(
        again[m] == f[m] for m in f.multipoles), 'formulae from their dict')
    absent = [99]*case['n']
    expect_raises(KeyError, lambda: f[tuple(absent)], 'absent multipole')
    if case['zero']:
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter('always')
            t = WinConvTerm((0,)*case['n'], 'ic', 0)
        check(any(w.category is RuntimeWarning for w in caught),
              'no warning of a zero coefficient')
        check(t.get_latex_str() == '', 'typeset zero term')
    return ok(len(all_terms) > 1, f"{case['n']} degrees",
              'ic' if 'ic' in want else 'no ic')


# -- built-in formulae --------------------------------------------------------------------------

def run_named(case):
    from triumvirate.winconv import NAMED_FORMULAE, WinConvBase
    name = case['name']
    check(set(NAMED_FORMULAE) >= {'wilson+16', 'sugiyama+19'},
          f'{list(NAMED_FORMULAE)}')
    x = np.linspace(1, 2, 5)
    two = name == 'wilson+16'
    labels = [(q,) for q in range(0, 13)] if two else [
        m for m in itertools.product(range(4), repeat=3)]
    conv = WinConvBase(name if case['lower'] else name.upper(), x, {
        q: np.ones(5) for q in labels})
    f = conv._formulae
    heads = {m.index for m in f.multipoles}
    check(heads == ({(0,), (2,), (4,)} if two else {
        (0, 0, 0), (1, 1, 0), (2, 0, 2), (1, 1, 2)}), f'{heads}')
    for head in heads:
        got = {}
        for t in f[head]:
            k = t.index_Q, t.index_Z
            check(k not in got, f'{k} listed twice')
            got[k] = float(t.coeff)
        if two:
            want = {((q,), (z,)): (2*head[0] + 1)*three_j0(head[0], q, z)**2
                    for q in range(13) for z in (0, 2, 4)}
        else:
            leading = [(0, 0, 0), (1, 1, 0)]
            more = leading + [(2, 0, 2), (0, 2, 2), (1, 1, 2)]
            want = {(q, z): coefficient(head, q, z)
                    for q in more for z in more
                    if q in leading or z in leading}
            want[head, 'ic'] = -1.
        want = {k: v for k, v in want.items() if abs(v) > 1e-12}
        check(set(got) == set(want), f'{name} {head}: terms '
              f'{set(got) ^ set(want)} missing or not expected')
        for k in want:
            close(got[k], want[k], f'{name} {head}: coefficient of {k}',
                  rtol=1e-12)
    return ok(True, name)


CHECKS = [
    Sub('coeff', coeff_strategy, run_coeff, 800, 20000, shards=2,
        rule='a non-zero coefficient'),
    Sub('product', product_strategy, run_product, 200, 5000,
        shards=2, rule='a product of more than one basis function'),
    Sub('label', label_strategy, run_label, 1500, 50000,
        rule='more than one multipole'),
    Sub('formulae', formulae_strategy, run_formulae, 800, 30000,
        rule='more than one term'),
    Sub('named', lambda: st.fixed_dictionaries({
        'name': gen.scalars('wilson+16', 'sugiyama+19'),
        'lower': st.booleans()}), run_named, 8, 16,
        rule='every case'),
]
