"""C10 the conversion formula is accurate, monotone and never overpays"""
import math

import chain  # noqa: F401  (puts the repository on the path)
from contracts.formula import formula as F
from core import Violation, require
from gen import abs_amount, sampled, st, weighted
from iconservice.base.exception import IconServiceBaseException
from mpmath import mp, mpf
from runner import Test

LEVEL = 'exploration'
RULE = ('a case is non-trivial when the formula was evaluated with a positive input and compared with the exact value '
        '(computed with 130 decimal digits)')
ASSUMPTIONS = ['exact values are computed with mpmath at 130 digits', 'amounts are below 2^129, the documented range',
               'beyond exponents of 16 the formula\'s 33-term series is only required to stay within that series and not '
               'to overpay']
mp.dps = 130
PPM = 1000000
MAX_NUM = 2 ** 129
SPECIAL_X = [mpf('0.5'), mpf('0.25'), mpf('0.125'), mpf(1), mpf('1.0429037814463955'), mpf('1.0876482973551913'), mpf(2),
             mpf(4), mpf(8), mpf(16), mpf('3.2421923783258464'), mpf('17.40237275768306'), mpf('54.1007'),
             mpf('56.42184031987563')]


def magnitude(lo, hi):
    return st.builds(lambda m, e: max(1, m * 10 ** e // 10 ** 6), st.integers(1, 10 ** 7 - 1), st.integers(lo, hi))


number = st.one_of(magnitude(0, 33), magnitude(12, 27), st.integers(1, 2 ** 100), st.integers(1, 50),
                   st.builds(lambda e, d: max(1, 2 ** e + d), st.integers(0, 110), st.integers(-2, 2)),
                   st.builds(lambda e, d: min(MAX_NUM - 1, max(1, 2 ** e + d)), st.integers(100, 129), st.integers(-3, 3)))
weight = st.one_of(st.integers(1, PPM), sampled([1, 2, 10, 1000, 100000, 333333, 500000, 900000, 999999, PPM]),
                   st.integers(1000, PPM))
# how much is traded, relative to the reserve or supply: numerator / 10^k, plus an offset
part = weighted((3, st.tuples(st.just('r'), st.integers(1, 10 ** 6), st.integers(3, 18))),
                (3, st.tuples(st.just('r'), st.integers(1, 10 ** 4), st.integers(1, 5))),
                (1, st.tuples(st.just('m'), st.integers(1, 10 ** 4), st.integers(0, 5))),
                (2, st.tuples(st.just('x'), st.integers(0, len(SPECIAL_X) - 1), st.integers(-3, 3))),
                (1, st.tuples(st.just('a'), st.integers(1, 10 ** 6), st.just(0))),
                (1, st.tuples(st.just('d'), st.integers(0, 60), st.integers(-2, 2))),
                (1, st.tuples(st.just('t'), st.integers(0, 3), st.integers(-1, 3)))).map(list)


def resolve_part(p, base, exponent):
    kind, a, b = p
    if kind == 'r':
        return base * a // 10 ** b
    if kind == 'm':
        return base * a * 10 ** b
    if kind == 'a':
        return a
    if kind == 't':      # up to the end of the range
        return ((MAX_NUM - base) >> a) - b
    if kind == 'd':      # base * 2^-a
        return (base >> a) + b
    # so that ln(1 + n/base) * exponent sits at a branch boundary of the algorithm
    x = SPECIAL_X[a] / exponent
    if x > 80:
        return base
    return int(mp.floor(base * mp.expm1(x))) + b


def call(fn, *args):
    try:
        return fn(*args)
    except IconServiceBaseException:
        return None
    except Exception as e:
        raise Violation(f'{fn.__name__}{args} failed with {type(e).__name__}: {e}')


def series_low(x):
    """e^x is evaluated at least this well: the algorithm's 33-term series with at least 32 bits, and with
    none beyond its table"""
    xq = x - mpf(2) ** -20 if x < 56 else mp.floor(x) - 1
    if xq <= 0:
        return mpf(1)
    total = term = mpf(1)
    for i in range(1, 34):
        term = term * xq / i
        total += term
    return total * (1 - mpf(2) ** -20) - 40


def judge(what, got, exact, x, scale, ratio, floor_low):
    require(got is not None, '{} was refused', what)
    require(isinstance(got, int) and not isinstance(got, bool), '{} returned {!r}', what, got)
    require(got >= 0, '{} returned {}', what, got)
    require(got <= exact, '{} returned {}, more than the exact {}', what, got, mp.nstr(exact, 60))
    if x < 16:
        tolerance = scale * mpf(2) ** -110 * max(1, ratio) + 1
        require(got >= exact - tolerance, '{} returned {}, the exact value is {} (tolerance {})', what, got,
                mp.nstr(exact, 60), mp.nstr(tolerance, 8))
    else:
        require(got >= floor_low - 1, '{} returned {}, less than its series {}', what, got, mp.nstr(floor_low, 60))


# -- purchase ----------------------------------------------------------------------------------------
def purchase_strategy():
    return st.fixed_dictionaries({'S': number, 'b': number, 'w': weight, 'd': part, 'd2': st.integers(0, 10 ** 6)})


def purchase(case, stats):
    S, b, w = case['S'], case['b'], case['w']
    d = max(0, resolve_part(case['d'], b, mpf(w) / PPM))
    got = call(F.calculate_purchase_return, S, b, w, d)
    what = f'calculate_purchase_return({S}, {b}, {w}, {d})'
    if d == 0:
        require(got == 0, '{} returned {}', what, got)
        return False
    if w == PPM:
        require(got == S * d // b, '{} returned {}', what, got)
        stats.label('purchase linear')
        return True
    if b + d >= MAX_NUM:
        require(got is None, '{} is out of range but returned {}', what, got)
        stats.label('purchase out of range')
        return True
    x = mp.log1p(mpf(d) / b) * w / PPM
    judge(what, got, S * mp.expm1(x), x, S * mp.exp(x), mpf(1), S * (series_low(x) - 1) if x >= 16 else 0)
    stats.label(f'purchase exponent {bucket(x)}')
    more = d + 1 + d * case['d2'] // 10 ** 6
    if b + more < MAX_NUM and x < 15:
        got2 = call(F.calculate_purchase_return, S, b, w, more)
        slack = S * mp.exp(x + 1) * mpf(2) ** -110
        require(got2 is not None and got2 >= got - slack, '{} returned {}, but for the larger deposit {} only {}', what,
                got, more, got2)
    return True


def bucket(x):
    for limit in ('1e-20', '1e-10', '1e-3', '0.125', '1', '4', '16', '32', '56.42'):
        if x < mpf(limit):
            return '<' + limit
    return 'above the table'


# -- sale ----------------------------------------------------------------------------------------------
def sale_strategy():
    return st.fixed_dictionaries({
        'S': number, 'b': number, 'w': weight,
        's': weighted((4, part), (1, st.tuples(st.just('c'), st.one_of(st.integers(0, 60), st.integers(60, 130)), st.integers(-1, 3)).map(list)))})


def sale(case, stats):
    S, b, w = case['S'], case['b'], case['w']
    p = case['s']
    if p[0] == 'c':
        s = S - (S >> p[1]) + p[2]
    elif p[0] == 'x':
        x = SPECIAL_X[p[1]] * w / PPM
        s = int(mp.floor(S * -mp.expm1(-x))) + p[2]
    else:
        s = resolve_part(p, S, mpf(PPM) / w)
    s = max(0, s)
    got = call(F.calculate_sale_return, S, b, w, s)
    what = f'calculate_sale_return({S}, {b}, {w}, {s})'
    if s > S:
        require(got is None, '{} sells more than the supply but returned {}', what, got)
        return False
    if s == 0:
        require(got == 0, '{} returned {}', what, got)
        return False
    if s == S:
        require(got == b, '{} returned {}', what, got)
        stats.label('sale of everything')
        return True
    if w == PPM:
        require(got == b * s // S, '{} returned {}', what, got)
        stats.label('sale linear')
        return True
    if S >= MAX_NUM:
        require(got is None, '{} is out of range but returned {}', what, got)
        return False
    x = -mp.log1p(-mpf(s) / S) * PPM / w
    judge(what, got, -b * mp.expm1(-x), x, b, mpf(PPM) / w, b * (1 - 1 / series_low(x)) if x >= 16 else 0)
    require(got <= b, '{} returned {}, more than the balance', what, got)
    stats.label(f'sale exponent {bucket(x)}')
    if s + 1 < S and x < 15:
        more = min(S - 1, s + 1 + s // 7)
        got2 = call(F.calculate_sale_return, S, b, w, more)
        x2 = -mp.log1p(-mpf(more) / S) * PPM / w
        if x2 < 15:
            slack = b * mpf(2) ** -109 * PPM / w
            require(got2 is not None and got2 >= got - slack, '{} returned {}, but for the larger amount {} only {}',
                    what, got, more, got2)
    return True


# -- cross connector -----------------------------------------------------------------------------------
def cross_strategy():
    return st.fixed_dictionaries({'b1': number, 'w1': weight, 'b2': number,
                                  'w2': weighted((5, weight), (1, st.none())), 'a': part})


def cross(case, stats):
    b1, w1, b2 = case['b1'], case['w1'], case['b2']
    w2 = w1 if case['w2'] is None else case['w2']
    a = max(0, resolve_part(case['a'], b1, mpf(w1) / w2))
    got = call(F.calculate_cross_connector_return, b1, w1, b2, w2, a)
    what = f'calculate_cross_connector_return({b1}, {w1}, {b2}, {w2}, {a})'
    if w1 == w2:
        require(got == b2 * a // (b1 + a), '{} returned {}', what, got)
        stats.label('cross linear')
        return a > 0
    if b1 + a >= MAX_NUM:
        require(got is None, '{} is out of range but returned {}', what, got)
        return False
    if a == 0:
        require(got == 0, '{} returned {}', what, got)
        return False
    x = mp.log1p(mpf(a) / b1) * w1 / w2
    judge(what, got, -b2 * mp.expm1(-x), x, b2, mpf(w1) / w2, b2 * (1 - 1 / series_low(x)) if x >= 16 else 0)
    require(got <= b2, '{} returned {}, more than the balance', what, got)
    stats.label(f'cross exponent {bucket(x)}')
    return True


# -- arguments outside the domain ------------------------------------------------------------------------
def domain_strategy():
    bad = sampled([0, -1, -10 ** 18])
    badw = sampled([0, -1, PPM + 1, 2 * PPM, -PPM, 10 ** 18])
    good = number
    return st.one_of(
        st.tuples(st.just('purchase'), bad, good, weight, good), st.tuples(st.just('purchase'), good, bad, weight, good),
        st.tuples(st.just('purchase'), good, good, badw, good),
        st.tuples(st.just('sale'), bad, good, weight, sampled([0, 1])),
        st.tuples(st.just('sale'), good, bad, weight, sampled([0, 1])),
        st.tuples(st.just('sale'), good, good, badw, sampled([0, 1])),
        st.tuples(st.just('sale'), good, good, weight, good),
        st.tuples(st.just('cross'), bad, weight, good, weight, good),
        st.tuples(st.just('cross'), good, badw, good, weight, good),
        st.tuples(st.just('cross'), good, weight, bad, weight, good),
        st.tuples(st.just('cross'), good, weight, good, badw, good),
        st.tuples(st.just('cross'), good, badw, good, badw, good),
    ).map(list)


def domain(case, stats):
    kind, args = case[0], list(case[1:])
    if kind == 'sale' and args[0] > 0 and args[1] > 0 and 0 < args[2] <= PPM and args[3] <= args[0]:
        args[3] += args[0]
    fn = {'purchase': F.calculate_purchase_return, 'sale': F.calculate_sale_return,
          'cross': F.calculate_cross_connector_return}[kind]
    try:
        got = fn(*args)
    except IconServiceBaseException:
        stats.label(f'{kind} rejected')
        return True
    except Exception as e:
        raise Violation(f'{kind}{tuple(args)} failed with {type(e).__name__} instead of being rejected')
    require(False, '{}{} was accepted and returned {}', kind, tuple(args), got)


TESTS = [Test('purchase', purchase_strategy, purchase, quick=20000), Test('sale', sale_strategy, sale, quick=20000),
         Test('cross', cross_strategy, cross, quick=20000), Test('domain', domain_strategy, domain, quick=4000)]
