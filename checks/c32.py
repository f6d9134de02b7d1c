"""C32 the cost of using the system does not grow with its history"""
import gen
import hist
from chain import eoa
from core import require
from gen import sampled, st, weighted
from runner import Test
from checks.c22 import readonly
from world import CONNECTORS, CONVS, FLEX, FLEX_OF, TOKENS, make_world

LEVEL = 'exploration'
RULE = ('a case is non-trivial when the filling transactions succeeded in both copies, and a transaction that succeeds in both '
        'and uses at least 10 platform operations was measured')
ASSUMPTIONS = ['cost is the number of metered platform operations (calls, storage reads and writes, events, ICX transfers)',
               'the number of connectors of a converter, the length of a path and of the transferred data are not history']

LESS, MORE = 2, 14
SLACK = 6
PEOPLE = ['alice', 'bob', 'mallory', 'owner']


def filler():
    """a transaction anybody or an administrator can repeat; {i} makes it different each time"""
    conv = sampled(CONVS)
    to = weighted((3, st.just('new')), (1, sampled(PEOPLE)))
    return weighted(
        (4, st.tuples(st.just('transfer'), sampled(TOKENS), sampled(['alice', 'bob', 'mallory', 'owner']), to).map(list)),
        (2, st.tuples(st.just('deposit'), sampled(['alice', 'new', 'new']), sampled(['plain', 'method'])).map(list)),
        (2, st.tuples(st.just('withdraw'), sampled(['alice', 'bob', 'new', 'new']), to).map(list)),
        (4, st.tuples(st.just('convert'), sampled(gen.PATHS), weighted((1, st.none()), (2, st.just('new')))).map(list)),
        (2, st.tuples(st.just('visit'), sampled([p for p in gen.PATHS if p[0] == 'IX']), st.booleans()).map(list)),
        (1, st.tuples(st.just('fee'), conv).map(list)), (1, st.tuples(st.just('nominate'), sampled(CONVS + FLEX + ['net', 'IX', 'reg'])).map(list)),
        (1, st.tuples(st.just('handover'), sampled(['net', 'IX', 'reg'] + CONVS)).map(list)),
        (1, st.tuples(st.just('register'), sampled(['reg', 'reg2'])).map(list)),
        (1, st.tuples(st.just('icxtoken'),).map(list)), (1, st.tuples(st.just('connector'), conv).map(list)),
        (1, st.tuples(st.just('pause'), conv).map(list)), (1, st.tuples(st.just('manager'), conv).map(list)),
        (1, st.tuples(st.just('activate'), conv).map(list)), (1, st.tuples(st.just('mint'), conv).map(list)),
        (1, st.tuples(st.just('burn'), sampled(FLEX), sampled(['alice', 'new'])).map(list)), (1, st.tuples(st.just('follow'), conv).map(list)),
        (1, st.tuples(st.just('fail'), sampled(['transfer', 'convert', 'admin'])).map(list)))


def strategy():
    return st.fixed_dictionaries({
        'cfg': gen.world_pool(6, active=True, lo=18), 'fill': st.lists(filler(), min_size=1, max_size=4),
        'probe': st.lists(weighted((3, filler()), (2, st.tuples(st.just('ask'), sampled(CONVS + FLEX + ['IX', 'net', 'reg']), st.integers(0, 9)).map(list))),
                          min_size=1, max_size=4), 'restart': st.booleans()})


def new(w, i):
    name = f'new{i}'
    if name not in w.addr:
        w.addr[name] = eoa(name)
        w.names[w.addr[name]] = name
        w.chain.mint_icx(w.addr[name], 10 ** 12)
    return name


def receiver(w, who, i):
    return w.addr[new(w, i)] if who == 'new' else w.addr[who]


def owner(w, c):
    return w.name(w.q(c, 'getOwner'))


def perform(w, op, i):
    """-> receipts of the transactions"""
    kind = op[0]
    if kind == 'transfer':
        _, t, who, to = op
        return [w.tx(who, t, 'transfer', receiver(w, to, i), 1 + i)]
    if kind == 'deposit':
        who = new(w, i) if op[1] == 'new' else op[1]
        return [w.chain.send_icx(w.addr[who], w.addr['IX'], 5 + i) if op[2] == 'plain' else w.tx(who, 'IX', 'deposit', value=5 + i)]
    if kind == 'withdraw' and op[1] == 'new':
        n = new(w, i)
        return [w.tx(n, 'IX', 'deposit', value=5 + i), w.tx(n, 'IX', 'withdrawTo', 1 + i, receiver(w, op[2], i))]
    if kind == 'withdraw':
        return [w.tx(op[1], 'IX', 'withdrawTo', 1 + i, receiver(w, op[2], i))]
    if kind == 'convert':
        _, path, who_for = op
        name = new(w, i) if who_for == 'new' else None
        return [w.tx('alice', path[0], 'transfer', w.addr['net'], 10 ** 9 + i, gen.path_data(w, path, 1, name))]
    if kind == 'visit':
        # somebody new converts ICX
        _, path, plain = op
        n = new(w, i)
        if plain:
            return [w.tx(n, 'net', 'convert', w.path(path), 1, value=10 ** 9 + i)]
        return [w.tx(n, 'IX', 'deposit', value=10 ** 9 + i),
                w.tx(n, 'IX', 'transfer', w.addr['net'], 10 ** 9 + i, gen.path_data(w, path, 1))]
    if kind == 'fee':
        return [w.tx(owner(w, op[1]), op[1], 'setConversionFee', w.q(op[1], 'getMaxConversionFee') * (i % 7) // 10)]
    if kind == 'nominate':
        f = op[1]
        nominee = w.addr[new(w, i)]
        if f in FLEX:
            v = gen.CONV_OF[f]
            return [w.tx(owner(w, v), v, 'transferTokenOwnership', nominee)]
        return [w.tx(owner(w, f), f, 'transferOwnerShip', nominee)]
    if kind == 'handover':
        c = op[1]
        n = new(w, i)
        o = owner(w, c)
        return [w.tx(o, c, 'transferOwnerShip', w.addr[n]), w.tx(n, c, 'acceptOwnerShip'),
                w.tx(n, c, 'transferOwnerShip', w.addr[o]), w.tx(o, c, 'acceptOwnerShip')]
    if kind == 'manager':
        v = op[1]
        n = new(w, i)
        return [w.tx(owner(w, v), v, 'transferManagement', w.addr[n]), w.tx(n, v, 'acceptManagement')]
    if kind == 'register':
        return [w.tx(owner(w, op[1]), op[1], 'registerAddress', 'Network', w.addr[['T1', 'net'][k]]) for k in (0, 1)]
    if kind == 'icxtoken':
        # registered and removed again: different tokens every time
        t = w.addr[new(w, i)]
        return [w.tx(owner(w, 'net'), 'net', 'registerIcxToken', t, x) for x in (True, False)]
    if kind == 'connector':
        v = op[1]
        t = w.addr[CONNECTORS[v][i % len(CONNECTORS[v])]]
        c = w.q(v, 'getConnector', t)
        return [w.tx(owner(w, v), v, 'updateConnector', t, max(1, c['weight'] - i % 3), c['isVirtualBalanceEnabled'], c['virtualBalance']),
                w.tx(owner(w, v), v, 'disableConnectorPurchases', t, True), w.tx(owner(w, v), v, 'disableConnectorPurchases', t, False)]
    if kind == 'pause':
        return [w.tx(owner(w, op[1]), op[1], m, x) for m in ('disableConversions', 'disableTokenTransfers', 'disableRegistryUpdate')
                for x in (True, False)]
    if kind == 'activate':
        v = op[1]
        f, o = FLEX_OF[v], owner(w, v)
        a = w.addr
        return [w.tx(o, v, 'transferTokenOwnership', a[o]), w.tx(o, f, 'acceptOwnerShip'),
                w.tx(o, CONNECTORS[v][0], 'transfer', a[v], 3 + i), w.tx(o, v, 'withdrawTokens', a[CONNECTORS[v][0]], a[new(w, i)], 2 + i),
                w.tx(o, f, 'transferOwnerShip', a[v]), w.tx(o, v, 'acceptTokenOwnership')]
    if kind == 'mint':
        v = op[1]
        f, o = FLEX_OF[v], owner(w, v)
        return [w.tx(o, v, 'transferTokenOwnership', w.addr[o]), w.tx(o, f, 'acceptOwnerShip'),
                w.tx(o, f, 'issue', w.addr[new(w, i)], 1 + i), w.tx(o, f, 'transferOwnerShip', w.addr[v]), w.tx(o, v, 'acceptTokenOwnership')]
    if kind == 'burn' and op[2] == 'new':
        n = new(w, i)
        return [w.tx('alice', op[1], 'transfer', w.addr[n], 2 + i), w.tx(n, op[1], 'destroy', w.addr[n], 1 + i)]
    if kind == 'burn':
        return [w.tx('alice', op[1], 'destroy', w.addr['alice'], 1 + i)]
    if kind == 'follow':
        v = op[1]
        reg = w.name(w.q(v, 'getRegistry'))
        other = 'reg2' if reg == 'reg' else 'reg'
        return [w.tx(owner(w, reg), reg, 'registerAddress', 'ScoreRegistry', w.addr[other]), w.tx('alice', v, 'updateRegistry'),
                w.tx(owner(w, v), v, 'restoreRegistry'), w.tx(owner(w, v), v, 'disableRegistryUpdate', False)]
    if kind == 'fail':
        # refused attempts of a stranger
        n = new(w, i)
        r = {'transfer': lambda: w.tx(n, 'T1', 'transfer', w.addr['bob'], 10 ** 40),
             'convert': lambda: w.tx('mallory', 'T1', 'transfer', w.addr['net'], 1 + i, b'{"path": "x", "minReturn": 1}'),
             'admin': lambda: w.tx(n, 'V1', 'setConversionFee', 0)}[op[1]]()
        return [] if not r.ok else [r]
    if kind == 'ask':
        _, t, k = op
        a = w.addr
        questions = {
            'net': [('getExpectedReturnByPath', [w.path(gen.PATHS[(k * 37) % len(gen.PATHS)]), 10 ** 9]), ('getIcxTokenRegistered', [a['IX']])],
            'reg': [('getAddress', ['Network']), ('getScoreIds', [])], 'IX': [('balanceOf', [a['alice']]), ('totalSupply', [])]}
        questions.update({f: [('balanceOf', [a['alice']]), ('totalSupply', []), ('getOwner', [])] for f in FLEX})
        questions.update({v: [('getReturn', [a[CONNECTORS[v][0]], a[FLEX_OF[v]], 10 ** 9]), ('getReturn', [a[FLEX_OF[v]], a[CONNECTORS[v][1]], 10 ** 9]),
                              ('getConnector', [a[CONNECTORS[v][0]]]), ('getConnectorBalance', [a[CONNECTORS[v][0]]]), ('getConnectorTokenCount', [])]
                          for v in CONVS})
        m, args = questions[t][k % len(questions[t])]
        return [w.chain.query_receipt(a[t], m, *args)]
    raise ValueError(op)


def questions(w, t):
    """every getter, asked for something that exists"""
    a = w.addr
    known = {'getExpectedReturnByPath': [[w.path(gen.PATHS[k]), 10 ** 9] for k in (0, 77)], 'getIcxTokenRegistered': [[a['IX']]],
             'getAddress': [['Network'], ['ScoreRegistry']], 'balanceOf': [[a['alice']]], 'getFinalAmount': [[10 ** 9, 2]], 'getConnectorAt': [[0], [1]]}
    if t in CONVS:
        f, (x, y) = a[FLEX_OF[t]], (a[CONNECTORS[t][k]] for k in (0, 1))
        known.update({'getReturn': [[x, f, 10 ** 9], [f, y, 10 ** 9], [x, y, 10 ** 9]], 'getConnector': [[x]], 'getConnectorBalance': [[x]]})
    return [(m, args) for m, i in sorted(readonly(t).items()) for args in known.get(m, [[]] if not i['inputs'] else [])]


def filled(case, times):
    w = make_world(case['cfg'])
    w.addr, w.names = dict(w.addr), dict(w.names)
    done = 0
    for i in range(times):
        for op in case['fill']:
            done += sum(r.ok for r in perform(w, op, i)) or (op[0] == 'fail')
    if case['restart']:
        w.chain.restart()
        w.rearm()
    return w, done


def execute(case, stats):
    few, n1 = filled(case, LESS)
    many, n2 = filled(case, MORE)
    useful = False
    for j, op in enumerate(case['probe'] + case['fill']):
        a, b = perform(few, op, 10 ** 6 + j), perform(many, op, 10 ** 6 + j)
        for k, (x, y) in enumerate(zip(a, b)):
            if x.ok and y.ok:
                require(y.steps <= x.steps + SLACK, '{} (part {}) needs {} operations after {} earlier transactions and {} after {}', op, k, x.steps,
                        n1, y.steps, n2)
                useful = useful or x.steps >= 10
        stats.label(f'measured {op[0]}: ' + ('yes' if any(x.ok and y.ok for x, y in zip(a, b)) else 'no'))
    # everything that can be asked
    for t in CONVS + FLEX + ['IX', 'T1', 'net', 'reg', 'reg2']:
        for m, args in questions(few, t):
            x, y = (w.chain.query_receipt(w.addr[t], m, *args) for w in (few, many))
            if x.ok and y.ok:
                require(y.steps <= x.steps + SLACK, '{}.{} needs {} operations after {} earlier transactions and {} after {}', t, m, x.steps,
                        n1, y.steps, n2)
    for op in case['fill']:
        stats.label(f'filled with {op[0]}')
    return n2 > n1 > 0 and useful


TESTS = [Test('growth', strategy, execute, quick=2400)]
