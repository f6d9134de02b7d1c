"""C24 formula constants and code agree with their generators"""
import ast
import inspect
import os
import re
import shutil
import subprocess
import sys
import tempfile

import mpmath

import guard
from chain import REPO
from core import require
from gen import sampled, st, weighted
from runner import Test

LEVEL = 'exploration'
RULE = ('a case is non-trivial when an argument in the domain was evaluated by generated and deployed code (or by the '
        'overflow-checking evaluation of the generated code); a script case when its output was compared')
ASSUMPTIONS = ['scripts are run as programs from the project root on the import path, with the committed parameters',
               'the formula around the generated parts (general_log, choice of the precision, the three returns) is '
               're-implemented from its documentation in this check']

GEN = os.path.join(REPO, 'contracts', 'formula', 'auto_generate')
LIMIT = 1 << 256
FIXED_1 = 1 << 127
MIN, MAX = 32, 127
mpmath.mp.prec = 600


# -- running the generators --------------------------------------------------------------------------
_OUT = {}


def script(name, cwd='scratch'):
    """standard output of one generator"""
    if (name, cwd) not in _OUT:
        top = tempfile.mkdtemp(prefix='verif-c24-')
        try:
            env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1')
            p = subprocess.run([sys.executable, '-B', os.path.join(os.path.dirname(guard.__file__), 'run_guarded.py'), top,
                                os.path.join(GEN, name + '.py')], cwd=top if cwd == 'scratch' else REPO,
                               capture_output=True, text=True, timeout=300, env=env)
            require('ESCAPE' not in p.stdout, '{} wrote a file: {}', name, p.stdout[-300:])
            require(p.returncode == 0, '{} failed: {}', name, p.stderr[-500:])
            require(os.listdir(top) == [], '{} left files {}', name, os.listdir(top))
        finally:
            shutil.rmtree(top, True)
        _OUT[(name, cwd)] = p.stdout
    return _OUT[(name, cwd)]


def run_python(name, text):
    """executes generated source text"""
    space = {}
    try:
        exec(compile(text, name, 'exec'), space)
    except Exception as e:
        require(False, '{} does not generate Python: {} {}', name, type(e).__name__, e)
    return space


def generated_class():
    """the parts of the formula as the scripts generate them"""
    if 'class' not in _OUT:
        text = 'class G:\n    _ONE = 1\n    _MAX_PRECISION = 127\n'
        for s in ('print_int_scaling_factors', 'print_ln2_scaling_factors', 'print_function_constructor'):
            text += script(s) + '\n'
        text += '    def _general_exp(self, x, precision):\n' + script('print_function_general_exp') + '\n'
        text += '    def _optimal_log(self, x):\n' + script('print_function_optimal_log') + '\n'
        text += '    def _optimal_exp(self, x):\n' + script('print_function_optimal_exp') + '\n'
        _OUT['class'] = run_python('generated formula', text)['G']
    return _OUT['class']


def tables():
    """the tables of print_file_formula_constants"""
    if 'tables' not in _OUT:
        _OUT['tables'] = run_python('print_file_formula_constants', script('print_file_formula_constants'))
    return _OUT['tables']


def deployed():
    from contracts.formula import formula
    return formula


def private(name, params):
    """a helper of the deployed formula, when there is one of that name and shape"""
    f = getattr(deployed(), name, None)
    if f is None or not callable(f):
        return None
    try:
        return f if len(inspect.signature(f).parameters) == params else None
    except (TypeError, ValueError):
        return None


# -- the formula around the generated parts ----------------------------------------------------------
OPT_LOG_MAX = int(mpmath.floor(mpmath.e * FIXED_1))
OPT_EXP_MAX = 16 * FIXED_1


class OutOfDomain(Exception):
    pass


def general_log(g, x):
    res = 0
    if x >= g._FIXED_2:
        count = (x // g._FIXED_1).bit_length() - 1
        x >>= count
        res = count * g._FIXED_1
    if x > g._FIXED_1:
        for i in range(127, 0, -1):
            x = x * x // g._FIXED_1
            if x >= g._FIXED_2:
                x >>= 1
                res += 1 << (i - 1)
    return res * g._LN2_NUMERATOR // g._LN2_DENOMINATOR


def log_times_exp(g, base_n, base_d, exp_n, exp_d):
    base = base_n * g._FIXED_1 // base_d
    log = g._optimal_log(base) if base < OPT_LOG_MAX else general_log(g, base)
    return log * exp_n // exp_d


def power(g, base_n, base_d, exp_n, exp_d):
    if not base_n < g._MAX_NUM:
        raise OutOfDomain
    y = log_times_exp(g, base_n, base_d, exp_n, exp_d)
    if y < OPT_EXP_MAX:
        return g._optimal_exp(y), 127
    fit = [p for p in range(MIN, MAX + 1) if g._max_exp_array[p] >= y]
    if not fit:
        raise OutOfDomain
    return g._general_exp(y >> (127 - fit[-1]), fit[-1]), fit[-1]


def expected(g, kind, a):
    if kind == 'purchase':
        supply, balance, weight, amount = a
        r, p = power(g, amount + balance, balance, weight, 10 ** 6)
        return (supply * r >> p) - supply
    if kind == 'sale':
        supply, balance, weight, amount = a
        r, p = power(g, supply, supply - amount, 10 ** 6, weight)
    else:
        fb, fw, balance, tw, amount = a
        r, p = power(g, fb + amount, fb, fw, tw)
    return (balance * r - (balance << p)) // r


def ask(kind, a):
    f = deployed()
    fn = {'purchase': f.calculate_purchase_return, 'sale': f.calculate_sale_return,
          'cross': f.calculate_cross_connector_return}[kind]
    try:
        return fn(*a)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        require(False, 'the deployed formula fails on {} {}: {}', kind, a, e)


# -- 1. the scripts ----------------------------------------------------------------------------------
SCRIPTS = ['print_max_exp_per_precision', 'print_file_formula_constants', 'print_function_constructor',
           'print_function_general_exp', 'print_function_optimal_exp', 'print_function_optimal_log',
           'print_int_scaling_factors', 'print_ln2_scaling_factors']


def script_cases(tier):
    return [{'script': s} for s in SCRIPTS]


def constants_of(text):
    """{name: value} of the assignments a script printed"""
    return {k: ast.literal_eval(v) for k, v in re.findall(r'^\s*(\w+) = (0x[0-9a-fA-F]+|\d+)\s*$', text, re.M)}


def check_script(case, stats):
    name = case['script']
    text = script(name)
    if name != 'print_max_exp_per_precision':
        require(script(name, 'project') == text, '{} depends on the working directory', name)
    dep = type(deployed())
    g = generated_class()
    if name == 'print_int_scaling_factors':
        require(constants_of(text) == {'_FIXED_1': 1 << 127, '_FIXED_2': 1 << 128, '_MAX_NUM': 1 << 129},
                '{} generates {}', name, text)
    if name == 'print_ln2_scaling_factors':
        n, d = g._LN2_NUMERATOR, g._LN2_DENOMINATOR
        # n / d is just below ln 2 and the product with the largest logarithm fits
        top = int(mpmath.log(mpmath.mpf(2 ** 129 - 1), 2) * 2 ** 127)
        require(n == (LIMIT - 1) // top, 'LN2_NUMERATOR {} is not the largest that cannot overflow', n)
        require(mpmath.mpf(n) / d <= mpmath.log(2) < mpmath.mpf(n) / (d - 1), 'LN2 factors {}/{} are not ln 2', n, d)
    if name in ('print_int_scaling_factors', 'print_ln2_scaling_factors'):
        for k, v in constants_of(text).items():
            if hasattr(dep, k):
                require(getattr(dep, k) == v, 'the deployed {} is {:#x}, generated {:#x}', k, getattr(dep, k), v)
                stats.label('deployed constant')
    t = tables()
    if name == 'print_file_formula_constants':
        require(t['MIN_PRECISION'] == MIN and t['MAX_PRECISION'] == MAX, 'precisions {} {}', t['MIN_PRECISION'], t['MAX_PRECISION'])
        require(len(t['max_exp_array']) == len(t['max_val_array']) == 128, 'a table has not 128 entries')
        for p in range(128):
            v = g()._general_exp(t['max_exp_array'][p], p)
            require(t['max_val_array'][p] == v, 'max_val_array[{}] is {}, not {}', p, t['max_val_array'][p], v)
    if name == 'print_function_constructor':
        shl = [((t['max_exp_array'][p] + 1) << (MAX - p)) - 1 for p in range(128)]
        table = getattr(dep, '_max_exp_array', None)
        require(len(g._max_exp_array) == 128, 'the generated table has {} entries', len(g._max_exp_array))
        for p in range(128):
            require(g._max_exp_array[p] == (shl[p] if p >= MIN else None), 'generated _max_exp_array[{}] = {}', p, g._max_exp_array[p])
            if p >= MIN and isinstance(table, list) and len(table) == 128:
                require(table[p] == shl[p], 'deployed _max_exp_array[{}] = {}, generated {:#x}', p, table[p], shl[p])
        printed = dict(re.findall(r'_max_exp_array\[(\d+)\] = (0x\w+)', text))
        require({int(k): int(v, 16) for k, v in printed.items()} == dict(enumerate(shl)), 'the printed table differs')
    if name in ('print_function_optimal_log', 'print_function_optimal_exp'):
        if hasattr(dep, '_OPT_LOG_MAX_VAL'):
            require(dep._OPT_LOG_MAX_VAL == OPT_LOG_MAX, 'deployed _OPT_LOG_MAX_VAL {:#x}, e is {:#x}', dep._OPT_LOG_MAX_VAL, OPT_LOG_MAX)
        if hasattr(dep, '_OPT_EXP_MAX_VAL'):
            require(dep._OPT_EXP_MAX_VAL == OPT_EXP_MAX, 'deployed _OPT_EXP_MAX_VAL {:#x}', dep._OPT_EXP_MAX_VAL)
    if name == 'print_max_exp_per_precision':
        report(text, t['max_exp_array'], g)
    stats.label(name)
    return True


def report(text, table, g):
    rows = re.findall(r'Precision = +(\d+) \| Max Exp = (0x\w+) +\| Ratio = ([\d.]+)', text)
    require([(int(p), int(v, 16)) for p, v, _ in rows] == list(enumerate(table)), 'the report lists another table')
    for p, v, ratio in rows[1:]:
        want = table[int(p)] / table[int(p) - 1]
        require(abs(float(ratio) - want) < 1e-6, 'ratio {} of precision {}, should be {}', ratio, p, want)
    block = text[text.index('max_exp_array = ['):]
    space = run_python('print_max_exp_per_precision', block[:block.index(']') + 1])
    require(space['max_exp_array'] == table, 'the report prints another max_exp_array')
    factor = int(re.search(r'growth-factor of (0x\w+) >> 127', text).group(1), 16)
    rows = re.findall(r'Precision = +(\d+) \| Theoretical Max Exp = (0x\w+) +\| Practical Max Exp = (0x\w+) +\| Difference = (\d+)', text)
    require([int(r[0]) for r in rows] == list(range(MIN, MAX + 1)), 'the report has no row for some precision')

    def practical(p, f):
        v = table[MIN]
        for _ in range(MIN, p):
            v = v * f >> 127
            if v > table[p] and overflows(v, p):
                return None
        return v
    for p, theory, prac, difference in rows:
        v = practical(int(p), factor)
        require(int(theory, 16) == table[int(p)] and int(prac, 16) == v and int(difference) == table[int(p)] - v,
                'the report states {} for precision {}', (theory, prac, difference), p)
    require(any(practical(p, factor + 1) is None for p in range(MIN, MAX + 1)), 'growth factor {:#x} is not the largest', factor)


# -- 2. the table: largest argument that does not overflow --------------------------------------------
class Word:
    """a 256-bit unsigned integer that fails instead of wrapping"""
    __slots__ = ('v',)

    def __init__(self, v):
        if not 0 <= v < LIMIT:
            raise OverflowError
        self.v = v

    def _o(self, other):
        return other.v if isinstance(other, Word) else other

    def __add__(self, o):
        return Word(self.v + self._o(o))
    __radd__ = __add__

    def __mul__(self, o):
        return Word(self.v * self._o(o))
    __rmul__ = __mul__

    def __floordiv__(self, o):
        return Word(self.v // self._o(o))

    def __rshift__(self, o):
        return Word(self.v >> self._o(o))

    def __lshift__(self, o):
        return Word(self.v << self._o(o))


def overflows(x, precision):
    g = generated_class()()
    g._ONE = Word(1)
    try:
        g._general_exp(Word(x), precision)
        return False
    except OverflowError:
        return True


def near():
    return weighted((3, sampled([-1, 0, 1, 2])), (2, st.integers(-1000, 1000)), (2, st.integers(-(1 << 40), 1 << 40)))


def table_strategy():
    return st.fixed_dictionaries({'p': st.integers(0, 127), 'near': near(), 'fraction': st.none() | st.integers(0, 3 << 64)})


def check_table(case, stats):
    p = case['p']
    top = tables()['max_exp_array'][p]
    if case['fraction'] is None:
        x = top + case['near']
    else:
        x = top * case['fraction'] >> 64
    x = max(x, 0)
    if x >= LIMIT:
        return False
    require(overflows(x, p) == (x > top), 'precision {}: the argument {:#x} {} overflow, the table says {:#x}', p, x,
            'does' if overflows(x, p) else 'does not', top)
    stats.label('above' if x > top else 'at' if x == top else 'below')
    return True


# -- 3. generated functions and deployed helpers -------------------------------------------------------
def number(bits):
    return weighted((3, st.integers(0, (1 << bits) - 1)), (1, st.integers(0, bits).map(lambda k: (1 << bits) >> k)))


def function_strategy():
    return st.fixed_dictionaries({'fn': sampled(['log', 'exp', 'general']), 'p': st.integers(MIN, MAX), 'x': number(128),
                                  'edge': st.none() | st.integers(0, 40), 'near': near()})


EDGES = {'log': [OPT_LOG_MAX, FIXED_1] + [int(mpmath.exp(mpmath.mpf(1) / 2 ** n) * FIXED_1) for n in range(1, 9)],
         'exp': [0, OPT_EXP_MAX] + [(FIXED_1 >> 3) << n for n in range(7)]}


def check_function(case, stats):
    g = generated_class()()
    fn, p = case['fn'], case['p']
    if fn == 'general':
        top = tables()['max_exp_array'][p]
        x = top - abs(case['near']) if case['edge'] is not None else top * case['x'] >> 128
        x = max(0, x)
        got = g._general_exp(x, p)
        dep = private('_general_exp', 2)
        seen = dep(x, p) if dep else None
        # the generated series is below the exponential and close to it where the series has converged
        if x >> p < 8:
            true = mpmath.exp(mpmath.mpf(x) / 2 ** p) * 2 ** p
            require(got <= true, 'generated general_exp({:#x}, {}) is above e^x', x, p)
            cut = 2 * mpmath.power(mpmath.mpf(x) / 2 ** p, 34) / mpmath.factorial(34) * 2 ** p
            require(true - got <= cut + 64 * (1 + true / 2 ** p), 'generated general_exp({:#x}, {}) is not e^x', x, p)
    else:
        lo, hi = (FIXED_1, OPT_LOG_MAX) if fn == 'log' else (0, OPT_EXP_MAX)
        edges = EDGES[fn]
        x = edges[case['edge'] % len(edges)] + case['near'] if case['edge'] is not None else lo + ((hi - lo) * case['x'] >> 128)
        x = min(max(x, lo), hi - 1)
        got = (g._optimal_log if fn == 'log' else g._optimal_exp)(x)
        dep = private('_optimal_log' if fn == 'log' else '_optimal_exp', 1)
        seen = dep(x) if dep else None
        true = (mpmath.log(mpmath.mpf(x) / FIXED_1) if fn == 'log' else mpmath.exp(mpmath.mpf(x) / FIXED_1)) * FIXED_1
        require(got <= true + 16, 'generated optimal_{}({:#x}) = {:#x} is above the true value', fn, x, got)
        require(true - got <= 256 + true * mpmath.mpf(2) ** -110, 'generated optimal_{}({:#x}) = {:#x} is not the function', fn, x, got)
    if dep:
        require(seen == got, 'deployed {}({:#x}, {}) = {}, generated {}', fn, x, p if fn == 'general' else '', seen, got)
    stats.label(fn + (' edge' if case['edge'] is not None else ''))
    return True


# -- 4. the whole deployed formula against the one assembled from generated parts ----------------------
def weight():
    return weighted((3, st.integers(1, 999999)), (2, sampled([1, 2, 10, 1000, 10000, 50000, 100000, 250000, 500000, 999999])),
                    (1, st.integers(1, 20000)))


def formula_strategy():
    return st.fixed_dictionaries({
        'kind': sampled(['purchase', 'sale', 'cross', 'cross']), 'w': weight(), 'w2': weight(),
        # the base: exactly x / 2^127, or a quotient
        'exact': st.booleans(), 'x': number(128), 'd': number(60), 'bits': st.integers(0, 60), 'big': st.integers(60, 300),
        # aim at a boundary of the table
        'aim': st.none() | st.none() | st.integers(MIN, MAX), 'near': sampled([-1, 0, 0, 1])})


def invert(g, target, exp_n, exp_d):
    """a base x / 2^127 whose scaled logarithm is target, when there is one"""
    want = -(-target * exp_d // exp_n)
    lo, hi = FIXED_1, (1 << 129) - 1
    if not 0 <= want <= log_times_exp(g, hi, FIXED_1, 1, 1):
        return None
    while lo < hi:
        mid = (lo + hi) // 2
        if log_times_exp(g, mid, FIXED_1, 1, 1) < want:
            lo = mid + 1
        else:
            hi = mid
    return lo


def check_formula(case, stats):
    g = generated_class()()
    kind, w, w2 = case['kind'], case['w'], case['w2']
    if case['aim'] is not None:     # large exponents
        kind = 'cross' if kind == 'purchase' else kind
        w, w2 = (max(w, w2), min(w, w2) // 8 + 1) if kind == 'cross' else (w // 64 + 1, w2)
    if kind == 'cross' and w == w2:
        w2 = w % 1000000 + 1
    exp_n, exp_d = {'purchase': (w, 10 ** 6), 'sale': (10 ** 6, w), 'cross': (w, w2)}[kind]
    if case['exact'] or case['aim'] is not None:
        base_d = FIXED_1
        base_n = FIXED_1 + 1 + (case['x'] >> (case['bits'] if case['aim'] is None else 0))
        if case['aim'] is not None:
            x = invert(g, g._max_exp_array[case['aim']] + case['near'], exp_n, exp_d)
            if x is None:
                stats.label('skipped: boundary out of reach')
                return False
            base_n = x
            hit = log_times_exp(g, base_n, base_d, exp_n, exp_d) - g._max_exp_array[case['aim']]
            stats.label('table boundary hit exactly' if hit == 0 else 'near a table boundary')
    else:
        base_d = (case['d'] >> case['bits'] % 61) + 1
        base_n = min(base_d + 1 + (case['x'] >> 2 * case['bits']), (1 << 129) - 1)
    if base_n <= base_d:
        stats.label('skipped: base 1')
        return False
    amount = base_n - base_d
    big = 1 << case['big']      # a huge factor exposes every bit of the power
    a = {'purchase': (big, base_d, w, amount), 'sale': (base_n, big, w, amount), 'cross': (base_d, w, big, w2, amount)}[kind]
    try:
        want = expected(g, kind, a)
    except OutOfDomain:
        stats.label('skipped: power out of range')
        return False
    y = log_times_exp(g, base_n, base_d, exp_n, exp_d)
    got = ask(kind, a)
    require(got == want, '{}{}: the deployed formula says {}, the generated parts {}', kind, a, got, want)
    stats.label(kind + (' optimal' if y < OPT_EXP_MAX else ' general') + ' exp')
    stats.label('optimal log' if base_n * FIXED_1 // base_d < OPT_LOG_MAX else 'general log')
    return True


TESTS = [Test('scripts', None, check_script, quick=0, enum=script_cases),
         Test('table', table_strategy, check_table, quick=12000, thorough=400000),
         Test('functions', function_strategy, check_function, quick=12000, thorough=400000),
         Test('formula', formula_strategy, check_formula, quick=8000, thorough=300000)]
