"""C08 conversions honour minReturn, pay the beneficiary and leave the network empty"""
import gen
import hist
from core import first_diff, require
from gen import sampled, st, weighted
from runner import Test
from world import CONV_OF, FLEX, TOKENS, make_world

LEVEL = 'exploration'
RULE = ('a case is non-trivial when the conversion can deliver at least 1 with minReturn 1, so that the limits around '
        'the true result are really tested; distinct = distinct (configuration, path, amount, beneficiary, limit)')
ASSUMPTIONS = ['the true result is measured on a copy of the state with minReturn 1',
               'the delivered token is one of the project\'s tokens (a token under attacker control may report anything)']

BENEFICIARY = ['bob', 'fresh', 'alice', 'owner', 'catcher', 'wallet', 'rejecter', 'zero', 'T1', 'net', 'V1', 'IX', 'F2',
               'reg', 'cxnone']


def strategy():
    return st.fixed_dictionaries({
        'cfg': gen.world_pool(30, active=True, lo=14, hi=20),
        'before': st.lists(gen.convert_op(), max_size=2),
        'path': weighted((2, sampled(gen.PATHS1)), (3, sampled(gen.PATHS))),
        'amt': gen.trade_amount,
        'icx': st.booleans(),
        'trader': sampled(['alice', 'alice', 'bob', 'owner', 'wallet']),
        'for': weighted((3, st.none()), (2, sampled(['bob', 'fresh', 'catcher', 'wallet'])), (1, sampled(BENEFICIARY))),
        'limit': weighted((4, st.tuples(st.just('r'), st.integers(-2, 3))),
                          (2, st.tuples(st.just('x'), st.integers(1, 2500))),
                          (1, st.tuples(st.just('a'), st.integers(-2, 2)))).map(list),
        'unregister': sampled([False, False, False, True]), 'switches': hist.circumstances(3),
    })


def submit(w, case, path, n, min_return, icx):
    trader = case['trader']
    if icx:
        if case['for'] is None:
            return go(w, trader, 'net', 'convert', w.path(path), min_return, value=n)
        return go(w, trader, 'net', 'convertFor', w.path(path), min_return, w.addr[case['for']], value=n)
    return go(w, trader, path[0], 'transfer', w.addr['net'], n, gen.path_data(w, path, min_return, case['for']))


def go(w, trader, to, method, *args, value=0):
    """a transaction of the trader; one of a contract is started by somebody else"""
    if trader != 'wallet':
        return w.tx(trader, to, method, *args, value=value)
    wallet = w.actor('wallet')
    wallet.program['execute'] = {'times': 1, 'acts': [
        {'to': w.addr[to], 'm': method, 'a': list(args), 'v': value, 'catch': False}]}
    wallet.answers = []
    receipt = w.tx('manager', 'wallet', 'execute')
    if receipt.ok:
        receipt.ret = [a for m, a in wallet.answers if m == method][-1]
    return receipt


def expected_delta(s, case, path, n, r, icx, who):
    """change of every balance outside of the converters"""
    d = {}

    def add(tok, holder, x):
        d[tok, holder] = d.get((tok, holder), 0) + x
    add('icx' if icx else path[0], case['trader'], -n)
    add('icx' if s['adm']['net']['icx:' + path[-1]] else path[-1], who, r)
    return d


def check_effect(case, x, y, path, n, r, icx, who):
    want = expected_delta(x, case, path, n, r, icx, who)
    inner = {'V1', 'V2', 'V3'}
    for tok in TOKENS + ['icx']:
        a, b = (x['icx'], y['icx']) if tok == 'icx' else (x['bal'][tok], y['bal'][tok])
        for h in a:
            if h in inner or (tok == 'icx' and h == 'IX'):
                continue
            delta = b[h] - a[h]
            require(delta == want.get((tok, h), 0), 'converting {} along {} for {}: {} of {} changed by {}, expected {}',
                    n, path, who, tok, h, delta, want.get((tok, h), 0))


def takes(path_last_icx, who):
    """can the beneficiary receive the result?"""
    if who in ('zero', 'net', 'rejecter', 'cxnone', 'reg', 'T1', 'F2', 'V1'):
        return False
    if who == 'IX':
        return path_last_icx
    return True


def execute(case, stats):
    w = make_world(case['cfg'])
    owner = hist.settled(w, stats, case['switches'])
    for op in case['before']:
        gen.run_convert(w, op)
    if case['unregister']:
        w.must(owner('net'), 'net', 'registerIcxToken', w.addr['IX'], False)
    path, trader = case['path'], case['trader']
    if any(owner(f) != CONV_OF[f] for f in path[1::2]):
        return False
    icx = case['icx'] and path[0] == 'IX' and not case['unregister']
    n = gen.trade_size(w, path, case['amt'], w.icx(trader) // 2 if icx else w.bal(path[0], trader))
    who = case['for'] or trader
    pre = w.observe()
    # the true result, for the sender
    w0 = w.clone()
    plain = dict(case, **{'for': None})
    r0 = submit(w0, plain, path, n, 1, icx)
    if not r0.ok:
        require(pre == w0.observe(), 'a refused conversion changed the state')
        r = submit(w, case, path, n, 2, icx)
        require(not r.ok, 'minReturn 2 is accepted although minReturn 1 was refused: {}', path)
        stats.label('not convertible')
        return False
    post0 = w0.observe()
    last_icx = pre['adm']['net']['icx:' + path[-1]]
    book = lambda s: s['icx'][trader] if last_icx else s['bal'][path[-1]][trader]
    same = ('icx' if icx else path[0]) == ('icx' if last_icx else path[-1])
    result = book(post0) - book(pre) + (n if same else 0)
    require(result >= 1, 'converting {} along {} with minReturn 1 delivered {}', n, path, result)
    check_effect(plain, pre, post0, path, n, result, icx, trader)
    require(not icx or r0.ret == result, 'convert answers {}, {} were delivered', r0.ret, result)
    kind, k = case['limit']
    limit = {'r': result + k, 'x': result * k // 1000, 'a': k}[kind]
    receipt = submit(w, case, path, n, limit, icx)
    post = w.observe()
    can = takes(last_icx, who)
    must = 1 <= limit <= result and can
    stats.label('{} limit, {}'.format('above' if limit > result else 'invalid' if limit < 1 else
                                      'exact' if limit == result else 'below', 'refusing' if not can else
                                      'account' if who in ('alice', 'bob', 'fresh', 'owner') else 'contract'))
    stats.label(f'{len(path) // 2} steps' + (', ICX in' if icx else '') + (', ICX out' if last_icx else ''))
    require(receipt.ok == must, 'converting {} along {} (result {}) with minReturn {} for {}: {}', n, path, result, limit,
            who, 'accepted' if receipt.ok else f'refused ({receipt.error})')
    if receipt.ok:
        require(not icx or receipt.ret == result, 'convert{} answers {}, {} were delivered', '' if case['for'] is None else
                'For', receipt.ret, result)
        if who == 'IX':
            return True      # paying ICX to the ICX token deposits it for the payer
        check_effect(case, pre, post, path, n, result, icx, who)
    else:
        require(pre == post, 'a refused conversion changed the state: {}', first_diff(pre, post))
    return True


# -- paths naming something else than an honest, active converter -----------------------------------
def odd_strategy():
    return st.fixed_dictionaries({
        'cfg': gen.world_pool(8, virtual=False),
        'flex_owner': sampled(['owner', 'alice', 'mallory', 'V1', 'V3', 'wallet', 'net', 'V2']),
        'path': st.one_of(
            sampled([['T1', 'F1', 'F1'], ['IX', 'F1', 'F1'], ['T1', 'F1', 'IX'], ['F1', 'F1', 'T1'],
                     ['IX', 'F1', 'F1', 'F2', 'T2'], ['T2', 'F2', 'F1', 'F1', 'T1'], ['T1', 'F1', 'F1', 'F2', 'F2']]),
            sampled([['T1', 'wallet', 'T2'], ['IX', 'wallet', 'T1'], ['T1', 'wallet', 'F1'], ['F1', 'F1', 'T1'],
                     ['T1', 'F1', 'F1', 'wallet', 'T2'], ['T2', 'wallet', 'T1', 'F1', 'F1'],
                     ['T1', 'wallet', 'IX']]),
            st.lists(sampled(['T1', 'T2', 'IX', 'F1', 'F2', 'wallet', 'V1', 'alice', 'net', 'catcher']), min_size=3,
                     max_size=5).filter(lambda p: len(p) % 2 == 1 and p[0] in TOKENS and p[-1] in TOKENS)),
        'wallet_owner': sampled(['wallet', 'alice', 'mallory', 'V1', 'V2', 'net', 'rejecter']),
        'pays': st.lists(st.tuples(sampled(['T1', 'T2', 'IX']), sampled([0, 1, 5, 10 ** 6, 10 ** 18]),
                                   sampled(['net', 'net', 'net', 'bob'])).map(list), max_size=3),
        'amt': st.one_of(st.integers(1, 10 ** 6), gen.pow10(6, 20)),
        'min': st.one_of(sampled([1, 2, 6, 10 ** 6, 10 ** 18]), st.integers(1, 10 ** 19)),
        'for': sampled([None, 'bob']),
    })


def odd_execute(case, stats):
    w = make_world(case['cfg'])
    owner = case['flex_owner']
    current = w.name(w.q('F1', 'getOwner'))
    if owner != current:
        if current == 'V1':
            w.must('owner', 'V1', 'transferTokenOwnership', w.addr[owner])
        else:
            w.must(current, 'F1', 'transferOwnerShip', w.addr[owner])
        w.must(owner, 'F1', 'acceptOwnerShip')
    wallet = w.actor('wallet')
    wallet.program['getOwner'] = {'ret': w.addr[case['wallet_owner']]}
    wallet.program['tokenFallback'] = {'times': 1, 'acts': [
        {'to': w.addr[t], 'm': 'transfer', 'a': [w.addr[to], n, b'conversionResult'], 'catch': False}
        for t, n, to in case['pays']]}
    path = case['path']
    who = case['for'] or 'alice'
    n = min(case['amt'], w.bal(path[0], 'alice'))
    pre = w.observe()
    r = w.tx('alice', path[0], 'transfer', w.addr['net'], n, gen.path_data(w, path, case['min'], case['for']))
    post = w.observe()
    last_icx = pre['adm']['net']['icx:' + path[-1]]
    if not r.ok:
        require(pre == post, 'a refused conversion changed the state')
        stats.label('refused')
        return False
    book = lambda s: s['icx'][who] if last_icx else s['bal'][path[-1]][who]
    got = book(post) - book(pre)
    if path[-1] == path[0] and who == 'alice' and not last_icx:
        got += n
    require(got >= case['min'] or _direct(case, who),
            'path {} (F1 owned by {}) delivered {} with minReturn {}', path, owner, got, case['min'])
    for t in TOKENS:
        require(post['bal'][t]['net'] >= pre['bal'][t]['net'], 'the conversion along {} took {} {} of the network', path,
                pre['bal'][t]['net'] - post['bal'][t]['net'], t)
    require(post['icx']['net'] == pre['icx']['net'], 'ICX of the network changed')
    sold = pre['bal'][path[0]]['alice'] - post['bal'][path[0]]['alice']
    converts = 'F1' in path[1::2] and owner == 'alice' or 'wallet' in path[1::2] and case['wallet_owner'] == 'alice'
    if (path[-1] != path[0] or who != 'alice' or last_icx) and not converts:    # a converter gets what the network passes on
        require(sold == n, 'the conversion along {} took {} instead of {} {}', path, sold, n, path[0])
    stats.label('accepted through ' + ('a scripted converter' if 'wallet' in path else 'F1 of ' + owner))
    return True


def _direct(case, who):
    """the scripted contract also pays the beneficiary itself, so the delivery cannot be told apart"""
    return any(to == who for _, _, to in case['pays'])


TESTS = [Test('limits', strategy, execute, quick=6000), Test('odd_paths', odd_strategy, odd_execute, quick=3000)]
