"""C12 the conversion fee is bounded and charged exactly"""
import convs
import drive
import gen
import hist
from chain import score_class
from core import require
from gen import sampled, st, weighted
from runner import Test
from world import CONNECTORS, CONVS, FLEX_OF, make_world

LEVEL = 'exploration'
RULE = ('a case is non-trivial when a fee above zero was charged on a positive fee-free return, or a fee / maximum fee next '
        'to a bound was submitted')
ASSUMPTIONS = ['the fee-free return is what the same converter quotes in the same state with fee 0']
PPM = 10 ** 6


def with_fee(gross, fee, magnitude):
    return gross * (PPM - fee) ** magnitude // PPM ** magnitude


# -- what is charged ------------------------------------------------------------------------------
fee_value = st.one_of(sampled([0, 1, 999999, 1000000, 500000, 10000]), st.integers(0, PPM), st.integers(0, 50000))


def cfg():
    return gen.world_pool(24, active=True, lo=9, hi=20)


def with_max(c):
    c = {k: dict(v) if isinstance(v, dict) else v for k, v in c.items()}
    for v in CONVS:
        c[v]['maxfee'] = PPM
        c[v]['fee'] = 0
    return c


def charge_strategy():
    return st.fixed_dictionaries({
        'cfg': cfg(), 'v': sampled(CONVS), 'pair': st.integers(0, 11), 'fee': fee_value,
        'amt': weighted((4, gen.trade_amount), (1, st.tuples(st.just('a'), st.integers(1, 10 ** 7)).map(list))),
        'before': st.lists(gen.convert_op(paths=gen.PATHS1), max_size=2), 'rulers': hist.rulers()})


def charge(case, stats):
    w = make_world(with_max(case['cfg']))
    owner = hist.settle(w, case['rulers'])
    for op in case['before']:
        gen.run_convert(w, op)
    v = case['v']
    f = FLEX_OF[v]
    toks = CONNECTORS[v] + [f]
    pairs = [(a, b) for a in toks for b in toks if a != b]
    frm, to = pairs[case['pair'] % len(pairs)]
    path = [frm, f, to]
    n = gen.trade_size(w, path, case['amt'], w.bal(frm, 'alice'))
    if n <= 0:
        return False
    free = convs.quote(w, v, frm, to, n)
    fee = case['fee']
    w.must(owner(v), v, 'setConversionFee', fee)
    q = convs.quote(w, v, frm, to, n)
    require((q is None) == (free is None), 'fee {} makes the quote of {} {} to {} {} instead of {}', fee, n, frm, to, q, free)
    if q is None:
        return False
    gross = free['amount']
    m = 1 if f in (frm, to) else 2
    want = with_fee(gross, fee, m)
    what = f'{v}: {n} {frm} to {to} with fee {fee}'
    require(free['fee'] == 0, '{}: a fee of {} is quoted at fee 0', what, free['fee'])
    require(q['amount'] == want and q['fee'] == gross - want, '{}: quoted {}, expected amount {} and fee {}', what, q, want,
            gross - want)
    before = w.bal(to, 'alice') + (w.icx('alice') if to == 'IX' else 0)
    r = w.tx('alice', frm, 'transfer', w.addr['net'], n, gen.path_data(w, path, 1))
    got = w.bal(to, 'alice') + (w.icx('alice') if to == 'IX' else 0) - before
    if not r.ok:
        require(want == 0 or convs.payable(w, v, frm, to, n, want) is not None, '{}: refused: {}', what, r.error)
        return False
    require(got == want, '{}: paid {}, expected {}', what, got, want)
    logged = [e for e in w.events(r) if e[0] == v and e[1] == 'Conversion']
    require(len(logged) == 1 and logged[0][5:] == (n, want, gross - want), '{}: logged {}, expected amount {}, return {}, '
            'fee {}', what, logged, n, want, gross - want)
    stats.label(f'charged, magnitude {m}')
    return fee > 0 and gross > 0


# -- getFinalAmount --------------------------------------------------------------------------------
def final_strategy():
    return st.fixed_dictionaries({'fee': fee_value, 'm': st.integers(1, 2),
                                  'amounts': st.lists(st.one_of(gen.abs_amount, st.integers(0, 2 ** 256), st.integers(0, 100),
                                                                st.builds(lambda k, d: max(0, k * PPM + d),
                                                                          st.integers(0, 10 ** 9), st.integers(-2, 2))),
                                                      min_size=1, max_size=8)})


def final(case, stats):
    w = make_world(with_max({**{k: v for k, v in make_world().cfg.items()}}))
    w.must('owner', 'V1', 'setConversionFee', case['fee'])
    for a in case['amounts']:
        got = w.q('V1', 'getFinalAmount', a, case['m'])
        want = with_fee(a, case['fee'], case['m'])
        require(got == want, 'getFinalAmount({}, {}) with fee {} is {}, expected {}', a, case['m'], case['fee'], got, want)
        require(0 <= got <= a, 'getFinalAmount({}) is {}', a, got)
    return case['fee'] > 0


# -- bounds over histories ------------------------------------------------------------------------
def bounds_ops():
    fee = sampled(CONVS).flatmap(lambda v: st.tuples(
        st.just('call'), sampled(['@owner', '@manager', '@owner', 'mallory', '@newowner']), st.just(v),
        st.just('setConversionFee'), st.tuples(gen.ARG['fee']).map(list)).map(list))
    other = gen.call_op(gen.all_methods(CONVS))
    return weighted((6, fee), (2, other), (1, gen.convert_op()), (1, hist.manager_handover()), (1, hist.token_handover()),
                    (1, st.just(['restart'])))


def monitor(w, x, mem):
    hist.unchanged(x)
    for v in CONVS:
        a, b = x.pre['adm'][v], x.post['adm'][v]
        require(0 <= b['fee'] <= b['maxfee'] <= PPM, '{}: {} has fee {} of at most {}', x, v, b['fee'], b['maxfee'])
        require(b['maxfee'] == a['maxfee'], '{}: maximum fee of {} changed from {} to {}', x, v, a['maxfee'], b['maxfee'])
        if b['fee'] != a['fee']:
            require(x.kind == 'call' and x.method == 'setConversionFee' and x.target == v and x.receipt.ok
                    and x.args[0] == b['fee'], '{}: fee of {} changed from {} to {}', x, v, a['fee'], b['fee'])
    if x.kind == 'call' and x.method == 'setConversionFee':
        a = x.pre['adm'][x.target]
        if x.sender in (a['owner'], a['manager']):
            valid = 0 <= x.args[0] <= a['maxfee']
            require(x.receipt.ok == valid, '{} with maximum {}', x, a['maxfee'])
            if x.receipt.ok:
                require(x.post['adm'][x.target]['fee'] == x.args[0], '{}: the fee is {}', x, x.post['adm'][x.target]['fee'])


def near_bound(x):
    return (x.kind == 'call' and x.method == 'setConversionFee' and
            x.sender in (x.pre['adm'][x.target]['owner'], x.pre['adm'][x.target]['manager']) and
            min(abs(x.args[0]), abs(x.args[0] - x.pre['adm'][x.target]['maxfee'])) <= 2)


bounds_strategy, bounds = hist.history(bounds_ops, monitor, nontrivial=near_bound, min_size=6, max_size=20)


# -- the maximum at deployment ---------------------------------------------------------------------
def deploy_strategy():
    return st.fixed_dictionaries({'max': st.one_of(sampled([-1, 0, 1, 999999, 1000000, 1000001, 2 ** 64, -10 ** 6]),
                                                   st.integers(-10 ** 6, 2 * 10 ** 6)),
                                  'fee': st.lists(st.one_of(st.integers(-2, 2).map(lambda d: ['max', d]),
                                                            st.integers(-10, 11 * 10 ** 5).map(lambda x: ['abs', x])),
                                                  min_size=1, max_size=4)})


def deploy(case, stats):
    w = make_world()
    mx = case['max']
    address, r = w.chain.deploy(score_class('converter'), w.addr['owner'], w.addr['F1'], w.addr['reg'], mx, None, 0,
                                tag='newconv')
    require(r.ok == (0 <= mx <= PPM), 'deploying with maximum fee {} {}', mx, 'worked' if r.ok else 'failed')
    if not r.ok:
        return abs(mx) < 3 or abs(mx - PPM) < 3
    query = lambda m: w.chain.query(address, m)
    require(query('getMaxConversionFee') == mx and query('getConversionFee') == 0, 'maximum {}, fee {} after deploying '
            'with {}', query('getMaxConversionFee'), query('getConversionFee'), mx)
    now = 0
    for kind, x in case['fee']:
        fee = mx + x if kind == 'max' else x
        r = w.chain.call(w.addr['owner'], address, 'setConversionFee', fee)
        require(r.ok == (0 <= fee <= mx), 'fee {} with maximum {}: {}', fee, mx, 'accepted' if r.ok else 'refused')
        now = fee if r.ok else now
        require(query('getConversionFee') == now, 'fee is {} instead of {}', query('getConversionFee'), now)
    return True


TESTS = [Test('charge', charge_strategy, charge, quick=4000), Test('final', final_strategy, final, quick=2000),
         Test('bounds', bounds_strategy, bounds, quick=1000), Test('deploy', deploy_strategy, deploy, quick=2000)]
