"""C35 what can be observed decides what happens next: no hidden memory of the past"""
import drive
import gen
import hist
from core import first_diff, require
from gen import sampled, st, weighted
from runner import Test
from world import CONNECTORS, CONVS, FLEX, FLEX_OF, OWNED, make_world

LEVEL = 'exploration'
RULE = ('a case is non-trivial when a detour of at least two successful transactions led back to the same observable state and at '
        'least two later transactions succeeded and were compared with those on the copy that took no detour')
ASSUMPTIONS = ['observable state: all getters, balances and quotes, ICX balances',
               'what a registry answers, the pending nominations and the switches are observable']

PEOPLE = ['alice', 'bob', 'mallory', 'manager', 'owner']
ANY_PEOPLE = PEOPLE + ['fresh']


def ops():
    conv = gen.convert_op(who_for=weighted((3, st.none()), (1, sampled(['bob', 'fresh', 'wallet']))))
    use = gen.call_op([(t, m) for t in gen.TOKENS for m in gen.model.methods_of(t)])
    admin = gen.call_op([(t, m) for t in OWNED for m in gen.model.methods_of(t)],
                        senders=weighted((5, st.just('@owner')), (2, st.just('@newowner')), (1, st.just('@manager')), (1, sampled(['alice']))))
    return weighted((5, conv), (2, use), (3, admin), (2, hist.switch_op()), (2, hist.handover(OWNED)), (1, hist.manager_handover()),
                    (1, hist.token_handover()), (1, drive.send_op))


def detour():
    """there and back again; what the way back is depends on the state found"""
    conv = sampled(CONVS)
    few = st.integers(1, 10 ** 9)
    who = sampled(PEOPLE)
    return weighted(
        (2, st.tuples(st.just('lend'), sampled(gen.TOKENS), who, sampled(ANY_PEOPLE), few).map(list)),
        (1, st.tuples(st.just('self'), sampled(gen.TOKENS), who, few).map(list)),
        (2, st.tuples(st.just('deposit'), who, few, st.booleans()).map(list)),
        (1, st.tuples(st.just('redeem'), who).map(list)),
        (1, st.tuples(st.just('lend'), sampled(gen.TOKENS), who, sampled(ANY_PEOPLE), st.none()).map(list)),
        (2, st.tuples(st.just('nominate'), sampled(OWNED), sampled(ANY_PEOPLE)).map(list)),
        (2, st.tuples(st.just('reign'), sampled(OWNED), sampled(ANY_PEOPLE)).map(list)),
        (1, st.tuples(st.just('manage'), conv, sampled(ANY_PEOPLE), st.booleans()).map(list)),
        (2, st.tuples(st.just('fee'), conv, st.lists(st.integers(0, 1000000), min_size=1, max_size=3)).map(list)),
        (2, st.tuples(st.just('switch'), conv, sampled(['disableConversions', 'disableRegistryUpdate', 'disableTokenTransfers'])).map(list)),
        (2, st.tuples(st.just('purchases'), conv, st.integers(0, 2)).map(list)),
        (2, st.tuples(st.just('weights'), conv, st.integers(0, 2), st.integers(1, 1000000), st.booleans(), gen.pow10(0, 24)).map(list)),
        (1, st.tuples(st.just('icxtoken'), sampled(['IX', 'T1', 'alice', 'V1'])).map(list)),
        (2, st.tuples(st.just('registry'), conv).map(list)),
        (1, st.tuples(st.just('registrations'), sampled(['reg', 'reg2']), sampled(['Network', 'ScoreRegistry']), sampled(['T1', 'wallet', 'net'])).map(list)),
        (2, st.tuples(st.just('leave'), conv, sampled(PEOPLE)).map(list)),
        (2, st.tuples(st.just('mint'), conv, sampled(ANY_PEOPLE), few).map(list)),
        (1, st.tuples(st.just('stray'), sampled(['net', 'IX', 'F1', 'V2']), sampled(['T1', 'T2', 'F3']), few).map(list)),
        (2, st.tuples(st.just('refused'), st.integers(0, 7), conv).map(list)),
        (1, st.tuples(st.just('update'), sampled(OWNED)).map(list)))


def strategy():
    return st.fixed_dictionaries({
        'cfg': gen.world_pool(8), 'managed': st.booleans(), 'before': st.lists(ops(), max_size=5), 'detour': st.lists(detour(), min_size=1, max_size=5),
        'again': sampled([1, 1, 2, 4]), 'echo': st.booleans(), 'after': st.lists(weighted((2, ops()), (1, detour().map(lambda d: ['detour', d]))), min_size=3, max_size=8)})


def go(w, d):
    """performs a detour; -> receipts"""
    kind, out = d[0], []
    a, q = w.addr, w.q

    def tx(*args, **kw):
        out.append(w.tx(*args, **kw))
        return out[-1].ok

    def role(c, getter='getOwner'):
        n = w.name(q(c, getter))
        return n if n in a and n != 'zero' else 'mallory'

    if kind == 'lend':
        _, t, x, y, n = d
        n = w.bal(t, x) if n is None else n
        tx(x, t, 'transfer', a[y], n) and tx(y, t, 'transfer', a[x], n)
    elif kind == 'self':
        tx(d[2], d[1], 'transfer', a[d[2]], d[3])
    elif kind == 'deposit':
        _, x, n, plain = d
        r = w.chain.send_icx(a[x], a['IX'], n) if plain else w.tx(x, 'IX', 'deposit', value=n)
        out.append(r)
        r.ok and tx(x, 'IX', 'withdraw', n)
    elif kind == 'redeem':
        n = w.bal('IX', d[1])
        tx(d[1], 'IX', 'withdraw', n) and tx(d[1], 'IX', 'deposit', value=n)
    elif kind == 'nominate':
        pending = q(d[1], 'getNewOwner')
        tx(role(d[1]), d[1], 'transferOwnerShip', a[d[2]]) and tx(role(d[1]), d[1], 'transferOwnerShip', pending)
    elif kind == 'reign':
        _, c, x = d
        old, pending = role(c), q(c, 'getNewOwner')
        if tx(old, c, 'transferOwnerShip', a[x]) and tx(x, c, 'acceptOwnerShip') and tx(x, c, 'transferOwnerShip', a[old]):
            tx(old, c, 'acceptOwnerShip')
            if w.name(pending) != 'zero':
                tx(old, c, 'transferOwnerShip', pending)
    elif kind == 'manage':
        _, v, x, accept = d
        old, pending = q(v, 'getManager'), q(v, 'getNewManager')
        tx(role(v), v, 'transferManagement', a[x])
        if accept and old is not None:
            tx(x, v, 'acceptManagement') and tx(x, v, 'transferManagement', old) and tx(w.name(old), v, 'acceptManagement')
        if pending is not None and q(v, 'getNewManager') != pending:
            tx(role(v), v, 'transferManagement', pending)
    elif kind == 'fee':
        _, v, fees = d
        old, top = q(v, 'getConversionFee'), q(v, 'getMaxConversionFee')
        for f in fees:
            tx(role(v), v, 'setConversionFee', f % (top + 1))
        tx(role(v), v, 'setConversionFee', old)
    elif kind == 'switch':
        _, v, m = d
        now = {'disableConversions': lambda: not q(v, 'isConversionsEnabled'), 'disableRegistryUpdate': lambda: not q(v, 'isAllowRegistryUpdate'),
               'disableTokenTransfers': lambda: not q(FLEX_OF[v], 'getTransferPossibility')}[m]()
        tx(role(v), v, m, not now) and tx(role(v), v, m, now)
    elif kind == 'purchases':
        _, v, i = d
        t = CONNECTORS[v][i % len(CONNECTORS[v])]
        now = q(v, 'getConnector', a[t])['isPurchaseEnabled']
        tx(role(v), v, 'disableConnectorPurchases', a[t], now) and tx(role(v), v, 'disableConnectorPurchases', a[t], not now)
    elif kind == 'weights':
        _, v, i, weight, virtual, balance = d
        t = CONNECTORS[v][i % len(CONNECTORS[v])]
        c = q(v, 'getConnector', a[t])
        weight = 1 + weight % max(1, c['weight'])
        tx(role(v), v, 'updateConnector', a[t], weight, virtual, balance)
        tx(role(v), v, 'updateConnector', a[t], c['weight'], c['isVirtualBalanceEnabled'], c['virtualBalance'])
    elif kind == 'icxtoken':
        now = bool(q('net', 'getIcxTokenRegistered', a[d[1]]))
        tx(role('net'), 'net', 'registerIcxToken', a[d[1]], not now) and tx(role('net'), 'net', 'registerIcxToken', a[d[1]], now)
    elif kind == 'registry':
        v = d[1]
        reg, allowed = w.name(q(v, 'getRegistry')), q(v, 'isAllowRegistryUpdate')
        other = 'reg2' if reg == 'reg' else 'reg'
        if reg in ('reg', 'reg2'):
            old = q(reg, 'getAddress', 'ScoreRegistry')
            if tx(role(reg), reg, 'registerAddress', 'ScoreRegistry', a[other]):
                tx(role(v), v, 'updateRegistry') and tx(role(v), v, 'restoreRegistry')
                tx(role(v), v, 'disableRegistryUpdate', not allowed)
                if w.name(old) == 'zero':
                    tx(role(reg), reg, 'unregisterAddress', 'ScoreRegistry')
                else:
                    tx(role(reg), reg, 'registerAddress', 'ScoreRegistry', old)
    elif kind == 'registrations':
        _, r, name, x = d
        old = q(r, 'getAddress', name)
        tx(role(r), r, 'registerAddress', name, a[x])
        tx(role(r), r, 'unregisterAddress', name)
        if w.name(old) != 'zero':
            tx(role(r), r, 'registerAddress', name, old)
    elif kind == 'leave':
        _, v, x = d
        f = FLEX_OF[v]
        if q(v, 'isActive'):
            if tx(role(v), v, 'transferTokenOwnership', a[x]) and tx(x, f, 'acceptOwnerShip'):
                tx(x, f, 'transferOwnerShip', a[v]) and tx(role(v), v, 'acceptTokenOwnership')
        else:
            old = role(f)
            if tx(old, f, 'transferOwnerShip', a[v]) and tx(role(v), v, 'acceptTokenOwnership'):
                tx(role(v), v, 'transferTokenOwnership', a[old]) and tx(old, f, 'acceptOwnerShip')
    elif kind == 'mint':
        _, v, x, n = d
        f = FLEX_OF[v]
        tx(role(f), f, 'issue', a[x], n) and tx(sorted([x, role(f)])[n % 2], f, 'destroy', a[x], n)
    elif kind == 'stray':
        _, c, t, n = d
        x = 'alice'
        if tx(x, t, 'transfer', a[c], n, b'conversionResult'):
            tx(role(c), c, 'withdrawTokens', a[t], a[x], n)
    elif kind == 'refused':
        _, k, v = d
        f = FLEX_OF[v]
        [lambda: tx('mallory', v, 'setConversionFee', 1), lambda: tx('alice', 'T1', 'transfer', a['bob'], 10 ** 40),
         lambda: tx('alice', f, 'transfer', a['net'], 5, gen.path_data(w, [f, f, 'IX'], 10 ** 50)),
         lambda: tx('mallory', f, 'issue', a['mallory'], 7), lambda: tx('alice', 'T1', 'transfer', a['net'], 5, b'{}'),
         lambda: tx('mallory', 'IX', 'withdraw', 10 ** 40), lambda: tx('mallory', v, 'acceptOwnerShip'),
         lambda: tx('alice', 'T1', 'transfer', a['rejecter'], 3)][k]()
    elif kind == 'update':
        out.append(w.chain.update(a[d[1]]))
    else:
        raise ValueError(d)
    return out


def everything(w):
    w.chain.forget()
    return w.observe(), drive.answers(w)


def execute(case, stats):
    straight = make_world(case['cfg'])
    for v in CONVS:
        if case['managed']:
            straight.must('owner', v, 'transferManagement', straight.addr['manager'])
            straight.must('manager', v, 'acceptManagement')
    h = drive.History(straight, stats, predict=False)
    for op in hist.flatten(case['before']):
        h.step(op)
    before = everything(straight)
    around = straight.clone()
    around.rearm()
    steps = 0
    for d in case['detour'] * case['again']:
        start = around.clone()
        done = go(around, d)
        if everything(around) != before:
            stats.label('no way back: ' + d[0])
            around = start          # that was no detour
            around.rearm()
            continue
        steps += sum(r.ok for r in done)
        stats.label('detour: ' + d[0])
    return compare(case, stats, straight, around, steps)


def compare(case, stats, straight, around, steps):
    """what comes after, with and without the detour"""
    h1, h2 = (drive.History(w, stats, predict=False) for w in (straight, around))
    straight.rearm()
    good = 0
    # the way that was there and back, now also for the first
    echo = [['detour', d] for d in case['detour']] if case['echo'] else []
    for op in echo + case['after']:
        if op[0] == 'detour':
            r1, r2 = go(straight, op[1]), go(around, op[1])
            outcome = [[(r.ok, repr(r.ret), sorted(w.events(r), key=repr)) for r in rs] for w, rs in ((straight, r1), (around, r2))]
            require(outcome[0] == outcome[1], '{}: after a detour {} instead of {}', op, outcome[1], outcome[0])
            h1.state, h2.state = straight.observe(), around.observe()
            require(h1.state == h2.state, '{}: ends differently after a detour: {}', op, first_diff(h1.state, h2.state))
            good += sum(r.ok for r in r1)
            continue
        for single in hist.flatten([op]):
            x, y = h1.step(single), h2.step(single)
            require(x.receipt.ok == y.receipt.ok, '{}: after a detour: {}', x, y)
            require(repr(x.receipt.ret) == repr(y.receipt.ret), '{} answers {}, after a detour {}', x, x.receipt.ret, y.receipt.ret)
            a, b = sorted(x.events, key=repr), sorted(y.events, key=repr)
            require(a == b, '{} logs {}, after a detour {}', x, a, b)
            d = first_diff(x.post, y.post)
            require(d is None, '{} ends differently after a detour: {}', x, d)
            good += x.receipt.ok
    if case['after']:
        d = first_diff(drive.answers(straight), drive.answers(around))
        require(d is None, 'after a detour: {}', d)
    return steps >= 2 and good >= 2


# -- the same detour, many times -----------------------------------------------------------------
def many_strategy():
    return st.fixed_dictionaries({
        'cfg': gen.world_pool(8), 'before': st.lists(ops(), max_size=3), 'detour': detour(),
        'times': sampled([12, 33, 70, 130]),
        'after': st.lists(weighted((2, ops()), (1, detour().map(lambda d: ['detour', d]))), min_size=1, max_size=4)})


def outcomes(w, receipts):
    return [(r.ok, repr(r.ret), sorted(w.events(r), key=repr)) for r in receipts]


def many_execute(case, stats):
    straight = make_world(case['cfg'])
    h = drive.History(straight, stats, predict=False)
    for op in hist.flatten(case['before']):
        h.step(op)
    before = everything(straight)
    around = straight.clone()
    around.rearm()
    d = case['detour']
    first = outcomes(around, go(around, d))
    if everything(around) != before:
        stats.label('no way back: ' + d[0])
        return False
    stats.label('detour: ' + d[0])
    for i in range(case['times']):
        around.rearm()
        got = outcomes(around, go(around, d))
        require(got == first, '{}, taken again for the {}. time: {} instead of {}', d, i + 2, got, first)
    d2 = first_diff(before, everything(around))
    require(d2 is None, '{} leads back to the same state, taken {} times it does not: {}', d, case['times'] + 1, d2)
    return compare(dict(case, detour=[d], echo=True), stats, straight, around, 2) and any(ok for ok, _, _ in first)


TESTS = [Test('detours', strategy, execute, quick=1300), Test('many', many_strategy, many_execute, quick=160)]
