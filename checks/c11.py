"""C11 a converter converts only for the registered network and only when allowed"""
import json

import convs
import drive
import gen
import hist
from chain import score_class
from core import first_diff, require
from gen import sampled, st, weighted
from runner import Test
from world import CONNECTORS, CONV_OF, CONVS, FLEX_OF, TOKENS, make_world

LEVEL = 'exploration'
RULE = ('a case is non-trivial when exactly the gate under test decides: the request would be executed if the one condition '
        'that fails held, or all conditions hold and it was executed')
ASSUMPTIONS = ['tokens named in requests are the project\'s own token contracts; converters run with hostile tokens are '
               'covered by C27']

CONDITIONS = ['enabled', 'active', 'purchase', 'network', 'tokens', 'amount', 'min', 'data']


# -- one request against one converter, with one or two conditions broken --------------------------
def gate_strategy():
    request = st.fixed_dictionaries({
        'cfg': gen.world_pool(24, active=True, lo=14, hi=20),
        'v': sampled(CONVS),
        'pair': st.integers(0, 11),
        'amt': gen.trade_amount,
        'break': weighted((2, st.just([])), (5, sampled(CONDITIONS).map(lambda c: [c])),
                          (1, st.lists(sampled(CONDITIONS), min_size=2, max_size=2, unique=True))),
        'how': st.integers(0, 19),
        'limit': sampled(['one', 'quote', 'above']),
        'via': sampled(['wallet', 'wallet', 'net']),
        # a role at the converter is no licence to convert
        'role': weighted((3, st.none()), (1, sampled(['owner', 'manager', 'both']))),
    })
    return request


def tokens_of(v):
    return CONNECTORS[v] + [FLEX_OF[v]]


BAD_DATA = [b'', b'None', b'conversionResult', b'{', b'[]', b'null', b'1', b'"x"', b'{}', b'\xff\xfe', b'{"minReturn": 1}']


def prepare(case):
    w = make_world(case['cfg'])
    v, how, broken = case['v'], case['how'], case['break']
    f = FLEX_OF[v]
    toks = tokens_of(v)
    pairs = [(a, b) for a in toks for b in toks if a != b]
    frm, to = pairs[case['pair'] % len(pairs)]
    via = case['via']
    if via == 'wallet':
        w.must('owner', 'reg', 'registerAddress', 'Network', w.addr['wallet'])
    if 'network' in broken:
        k = how % 4
        if k == 0:
            w.must('owner', 'reg', 'unregisterAddress', 'Network')
        elif k == 1:
            w.must('owner', 'reg', 'registerAddress', 'Network', w.addr['catcher'])
        elif k == 2:    # the converter follows another registry that knows another network
            w.must('owner', 'reg2', 'registerAddress', 'Network', w.addr['catcher'])
            w.must('owner', 'reg', 'registerAddress', 'ScoreRegistry', w.addr['reg2'])
            w.must('mallory', v, 'updateRegistry')
        else:
            w.must('owner', 'reg2', 'unregisterAddress', 'Network')
            w.must('owner', 'reg', 'registerAddress', 'ScoreRegistry', w.addr['reg2'])
            w.must('owner', v, 'updateRegistry')
    elif how % 3 == 0:      # the registered network of the *current* registry counts
        w.must('owner', 'reg2', 'registerAddress', 'Network', w.addr[via])
        w.must('owner', 'reg', 'registerAddress', 'ScoreRegistry', w.addr['reg2'])
        w.must('alice', v, 'updateRegistry')
        w.must('owner', 'reg', 'unregisterAddress', 'Network')
    if 'enabled' in broken:
        w.must('owner', v, 'disableConversions', True)
    if 'active' in broken:
        w.must('owner', v, 'transferTokenOwnership', w.addr['alice'])
        w.must('alice', f, 'acceptOwnerShip')
    if 'purchase' in broken:
        for i, t in enumerate(CONNECTORS[v]):
            if (how >> i) & 1 or t in (frm, to):
                w.must('owner', v, 'disableConnectorPurchases', w.addr[t], True)
    elif how % 2:
        # purchases of connectors that play no part in the request do not matter
        for t in CONNECTORS[v]:
            if t != (frm if to == f else to):
                w.must('owner', v, 'disableConnectorPurchases', w.addr[t], True)
    role = case.get('role')
    if role and 'active' not in broken:     # a funder of the inactive converter is another matter
        if role != 'owner':
            w.must('owner', v, 'transferManagement', w.addr[via])
            w.must(via, v, 'acceptManagement')
        if role != 'manager':
            w.must('owner', v, 'transferOwnerShip', w.addr[via])
            w.must(via, v, 'acceptOwnerShip')
    return w, v, f, frm, to, via


def gate(case, stats):
    w, v, f, frm, to, via = prepare(case)
    how, broken = case['how'], case['break']
    s = w.observe()
    n = gen.trade_size(w, [frm, f, to], case['amt'], w.bal(frm, 'alice'))
    if 'tokens' in broken:
        strangers = [t for t in TOKENS if t not in tokens_of(v)]
        k = how % 3
        if k == 0 or not strangers:
            to = frm
        elif k == 1:
            to = strangers[how % len(strangers)]
        else:
            frm = strangers[how % len(strangers)]
            n = min(n, w.bal(frm, 'alice'))
    if 'amount' in broken:
        n = 0
    # what the quote was before anything was broken decides the limit
    q = convs.quote(make_world(case['cfg']), v, frm, to, n) if n > 0 else None
    result = q['amount'] if q else 1
    limit = {'one': 1, 'quote': max(1, result), 'above': result + 1}[case['limit']]
    if 'min' in broken:
        limit = -(how % 3)
    data = {'toToken': str(w.addr[to]), 'minReturn': limit}
    if 'data' in broken:
        k = how % (len(BAD_DATA) + 6)
        if k < len(BAD_DATA):
            data = BAD_DATA[k]
        else:
            k -= len(BAD_DATA)
            data = [lambda: dict(data, minReturn=str(limit)), lambda: dict(data, minReturn=None),
                    lambda: {'toToken': data['toToken']}, lambda: dict(data, toToken=str(w.addr[to])[:-1]),
                    lambda: dict(data, toToken=None), lambda: dict(data, toToken='x')][k]()
    payload = data if isinstance(data, bytes) else json.dumps(data).encode()
    reason = convs.step_reason(s, v, frm, to)
    if convs.network_of(s, v) != via:
        reason = reason or 'another network is registered'
    if n <= 0:
        reason = reason or 'the amount is not positive'
    if limit <= 0:
        reason = reason or 'minReturn is not positive'
    if 'data' in broken:
        reason = reason or 'malformed request'
    if reason is None and limit > result:
        reason = 'the result is below minReturn'
    if reason is None:
        reason = convs.payable(w, v, frm, to, n, result) if q else 'no quote'
    # hand the tokens to the sender of the request and let it send them to the converter
    if n > 0:
        w.must('alice', frm, 'transfer', w.addr[via], n, b'conversionResult')
    pre = w.observe()
    if via == 'wallet':
        w.actor('wallet').program['execute'] = {'acts': [
            {'to': w.addr[frm], 'm': 'transfer', 'a': [w.addr[v], n, payload], 'catch': False}]}
        r = w.tx('mallory', 'wallet', 'execute')
    else:
        # the real network's address, acting directly: only what the converter checks counts
        r = w.tx('net', frm, 'transfer', w.addr[v], n, payload)
    post = w.observe()
    what = f'{via} sends {n} {frm} to {v} with {payload!r}'
    if reason is None:
        require(r.ok, '{} is refused although every condition holds: {}', what, r.error)
        got = post['bal'][to][via] - pre['bal'][to][via]
        require(got >= limit, '{} returned {}', what, got)
        stats.label('converted: ' + ('purchase' if to == f else 'sale' if frm == f else 'cross'))
        if frm == f and 'purchase' in broken:
            stats.label('sale while purchases are disabled')
        return True
    require(not r.ok, '{} is accepted although {}', what, reason)
    require(pre == post, '{} is refused but changed the state: {}', what, first_diff(pre, post))
    stats.label('refused: ' + reason)
    return len(broken) == 1


# -- forged tokenFallback calls ----------------------------------------------------------------
def forged_strategy():
    call = st.fixed_dictionaries({
        'by': weighted((3, sampled(['mallory', 'alice', 'wallet', 'catcher'])),
                       (2, sampled(['owner', 'manager', 'net', 'net2', 'V1', 'V2', 'V3', 'reg', 'stranger', 'hostile']))),
        'target': sampled(CONVS),
        'frm': weighted((4, st.just('net')), (2, sampled(['owner', 'manager', 'net2'])),
                        (1, sampled(['mallory', 'wallet', 'V1', 'zero']))),
        'value': st.one_of(st.integers(-1, 3), gen.pow10(3, 26)),
        'to': weighted((4, st.integers(0, 3)), (1, st.just(-1))),
        'min': st.integers(-1, 2),
        'data': weighted((5, st.none()), (1, sampled(['', 'None', 'conversionResult', '{}']))),
    })
    return st.fixed_dictionaries({'cfg': gen.world_pool(16), 'calls': st.lists(call, min_size=1, max_size=6),
                                  'direct': st.booleans()})


def forged(case, stats):
    w = make_world(case['cfg'])
    w.addr = dict(w.addr)
    w.names = dict(w.names)
    for name, contract, args in (('net2', 'network', ()), ('stranger', 'irc_token', ('S', 'S', 10 ** 30, 0)),
                                 ('hostile', 'flexible_token', ('H', 'H', 10 ** 30, 0))):
        w._install(name, contract, *args)
        w.names[w.addr[name]] = name
    w.must('owner', 'stranger', 'transfer', w.addr['mallory'], 10 ** 28)
    w.must('owner', 'hostile', 'transfer', w.addr['mallory'], 10 ** 28)
    pre = w.observe()
    for c in case['calls']:
        v = c['target']
        toks = tokens_of(v)
        to = c['by'] if c['to'] < 0 else toks[c['to'] % len(toks)]
        data = c['data'].encode() if c['data'] is not None else json.dumps(
            {'toToken': str(w.addr[to]), 'minReturn': c['min']}).encode()
        if case['direct'] or c['by'] not in ('stranger', 'hostile'):
            r = w.tx(c['by'], v, 'tokenFallback', w.addr[c['frm']], c['value'], data)
            what = f'{c["by"]} calls {v}.tokenFallback({c["frm"]}, {c["value"]}, {data!r})'
        else:
            r = w.tx('mallory', c['by'], 'transfer', w.addr[v], abs(c['value']) % 10 ** 26, data)
            what = f'mallory transfers {c["by"]} to {v} with {data!r}'
        post = w.observe()
        require(not r.ok, '{} was accepted', what)
        require(pre == post, '{} changed the state: {}', what, first_diff(pre, post))
        stats.label('forged by ' + c['by'])
    # a network nobody registered
    for path in (['T1', 'F1', 'F1'], ['F1', 'F1', 'IX']):
        r = w.tx('alice', path[0], 'transfer', w.addr['net2'], 10 ** 6, gen.path_data(w, path, 1))
        require(not r.ok, 'an unregistered network converted along {}', path)
        require(w.observe() == pre, 'an unregistered network changed the state')
    return True


# -- conversions in the middle of administrative histories -----------------------------------------
ADMIN = {'disableConversions', 'disableConnectorPurchases', 'setConversionFee', 'updateRegistry', 'restoreRegistry',
         'disableRegistryUpdate', 'disableTokenTransfers', 'updateConnector'}


def history_ops():
    def reg_op(name):
        return st.tuples(st.just('call'), st.just('@owner'), sampled(['reg', 'reg2']), st.just('registerAddress'),
                         st.tuples(st.just(name), weighted((2, sampled(['net', 'reg', 'reg2'])),
                                                           (1, sampled(['wallet', 'T1'])))).map(list)).map(list)
    move = st.tuples(st.just('seq'),
                     sampled(['reg', 'reg2']).map(lambda r: ['call', '@owner', r, 'registerAddress',
                                                             ['ScoreRegistry', 'reg2' if r == 'reg' else 'reg']]),
                     sampled(CONVS).flatmap(lambda v: sampled(['mallory', '@owner']).map(
                         lambda who: ['call', who, v, 'updateRegistry', []]))).map(list)
    unreg = st.tuples(st.just('call'), st.just('@owner'), sampled(['reg', 'reg2']), st.just('unregisterAddress'),
                      st.tuples(sampled(['Network', 'Network', 'ScoreRegistry'])).map(list)).map(list)
    own = sampled(CONVS).flatmap(lambda v: sampled([
        ['seq', ['call', '@owner', v, 'transferTokenOwnership', ['owner']],
         ['call', '@newowner', FLEX_OF[v], 'acceptOwnerShip', []]],
        ['seq', ['call', '@owner', FLEX_OF[v], 'transferOwnerShip', [v]],
         ['call', '@owner', v, 'acceptTokenOwnership', []]]]))
    flags = gen.call_op(gen.all_methods(CONVS, ADMIN), sampled(['@owner', '@owner', '@owner', 'mallory']))
    buys = sampled([(v, t) for v in CONVS for t in CONNECTORS[v]]).flatmap(lambda vt: st.booleans().map(
        lambda d: ['call', '@owner', vt[0], 'disableConnectorPurchases', [vt[1], d]]))
    return weighted((6, gen.convert_op()), (3, flags), (2, buys), (1, reg_op('Network')), (1, move), (1, unreg), (2, own))


def history_execute(case, stats):
    w = make_world(case['cfg'])
    h = drive.History(w, stats)
    good = False
    for op in hist.flatten(case['ops']):
        before = w.clone() if op[0] == 'conv' else None
        x = h.step(op)
        hist.unchanged(x)
        if x.kind != 'conv':
            continue
        _, sender, path, n, _, _ = x.conv
        never = convs.must_not(x.pre, path)
        if x.receipt.ok:
            require(never is None, '{}: executed although {}', x, never)
            good = True
            stats.label('history: converted')
        elif x.conv[5] == 'icx' and not x.pre['adm']['net']['icx:' + path[0]]:
            stats.label('history: ICX for a token that is not registered')
        else:
            why = convs.path_reason(before, x.pre, path, n)
            require(why is not None, '{} although every condition holds', x)
            stats.label('history: ' + why)
            good = good or never is not None
    return good


TESTS = [Test('gate', gate_strategy, gate, quick=3600), Test('forged', forged_strategy, forged, quick=1000),
         Test('history', lambda: hist.cases(history_ops(), lambda_cfg(), 6, 24), history_execute, quick=1600)]


def lambda_cfg():
    return gen.world_pool(16, lo=14, hi=20)
