# -*- coding: utf-8 -*-
"""Shape shared by the history checks: a configuration and a list of operations."""
import drive
import gen
from core import require
from gen import st, weighted
from world import CONNECTORS, CONVS, FLEX_OF, make_world


def switch_op():
    """an administrative setting that ordinary use leaves alone, made by whoever may make it"""
    conv = gen.sampled(CONVS)

    def call(who, target, method, *args):
        return st.tuples(st.just('call'), who, target, st.just(method), st.tuples(*args).map(list)).map(list)
    own = st.just('@owner')
    conns = conv.flatmap(lambda v: st.tuples(st.just(v), gen.sampled(CONNECTORS[v])))
    move = st.tuples(conv, st.booleans()).map(lambda p: [
        'seq', ['call', '@owner', 'reg', 'registerAddress', ['ScoreRegistry', 'reg2']], ['call', 'alice', p[0], 'updateRegistry', []]]
        + ([['call', '@owner', p[0], 'restoreRegistry', []]] if p[1] else []))
    appointed = st.tuples(conv, gen.sampled(['manager', 'bob', 'wallet']), st.booleans()).map(lambda p: [
        'seq', ['call', '@owner', p[0], 'transferManagement', [p[1]]]]
        + ([['call', '@newmanager', p[0], 'acceptManagement', []]] if p[2] else []))
    virtual = st.tuples(conns, st.integers(1, 300000), st.booleans(), gen.pow10(9, 22)).map(
        lambda p: ['call', '@owner', p[0][0], 'updateConnector', [p[0][1], *p[1:]]])
    return weighted(
        (2, call(own, conv, 'disableConversions', st.just(True))),
        (2, conns.map(lambda p: ['call', '@owner', p[0], 'disableConnectorPurchases', [p[1], True]])),
        (2, call(own, conv, 'disableTokenTransfers', st.just(True))),
        (1, call(own, conv, 'disableRegistryUpdate', st.just(True))), (1, move), (1, managed()), (2, appointed), (2, virtual),
        (1, call(own, conv, 'setConversionFee', gen.ARG['fee'])),
        (2, call(own, gen.sampled(CONVS + ['net', 'IX']), 'transferOwnerShip', gen.sampled(HANDOVER_ADDR))),
        (2, handover(CONVS + ['net', 'IX'])), (1, ruled()), (1, call(own, conv, 'transferTokenOwnership', gen.sampled(HANDOVER_ADDR))),
        (1, token_handover()),
        (1, call(own, st.just('net'), 'registerIcxToken', st.just('IX'), st.booleans())))


def managed():
    """a converter gets a manager, who then does what managers may do (and some of what they may not)"""
    def of(p):
        v, who = p
        c = gen.sampled(CONNECTORS[v])

        def call(method, *args):
            return st.tuples(st.just('call'), gen.sampled(['@manager', '@manager', '@manager', '@owner']), st.just(v), st.just(method),
                             st.tuples(*args).map(list)).map(list)
        flag = st.booleans()
        act = weighted((2, call('disableConversions', flag)), (1, call('disableConnectorPurchases', c, flag)),
                       (1, call('setConversionFee', gen.ARG['fee'])), (1, call('disableRegistryUpdate', flag)), (1, call('restoreRegistry')),
                       (1, call('disableTokenTransfers', flag)), (1, call('updateRegistry')),
                       (1, call('updateConnector', c, st.integers(1, 300000), flag, gen.pow10(9, 22))),
                       (1, call('withdrawTokens', gen.ARG['tok'], gen.sampled(['owner', who, 'bob']), gen.amount)),
                       (1, call('transferTokenOwnership', gen.sampled(HANDOVER_ADDR))), (1, call('transferManagement', gen.sampled(HANDOVER_ADDR))))
        appoint = [['call', '@owner', v, 'transferManagement', [who]], ['call', who, v, 'acceptManagement', []]]
        return st.lists(act, min_size=1, max_size=4).map(lambda acts: ['seq'] + appoint + acts)
    return st.tuples(gen.sampled(CONVS), gen.sampled(['manager', 'bob', 'wallet', 'alice'])).flatmap(of)


def undone(targets):
    """a contract that owns one of the targets changes its settings and then fails, so that nothing happened"""
    def of(t):
        own = [['call', '@owner', t, 'transferOwnerShip', ['wallet']], ['call', 'wallet', t, 'acceptOwnerShip', []]]
        calls = gen.call_op(gen.all_methods([t]), st.just('wallet'))
        if t == 'net':
            calls = weighted((1, calls), (2, st.booleans().map(lambda b: ['call', 'wallet', 'net', 'registerIcxToken', ['IX', b]])))
        act = calls.map(lambda op: [op[2], op[3], op[4], ['a', 0], False])
        fail = ['T1', 'transfer', ['owner', ['o', 1], None], ['a', 0], False]
        both = st.tuples(st.lists(act, min_size=1, max_size=3), st.booleans()).map(
            lambda p: ['exec', 'alice', 'wallet', p[0] + ([fail] if p[1] else [])])
        return st.lists(both, min_size=1, max_size=3).map(lambda xs: ['seq'] + own + xs)
    return gen.sampled(targets).flatmap(of)


def configured():
    """one converter with several settings out of the ordinary at once"""
    def of(v):
        f, t = FLEX_OF[v], CONNECTORS[v][-1]

        def o(target, method, *args):
            return ['call', '@owner', target, method, list(args)]
        fee = gen.ARG['fee'].map(lambda n: o(v, 'setConversionFee', n))
        virtual = st.tuples(gen.sampled(CONNECTORS[v]), st.integers(1, 300000), st.booleans(), gen.pow10(9, 22)).map(
            lambda p: o(v, 'updateConnector', *p))
        move = [o('reg', 'registerAddress', 'ScoreRegistry', 'reg2'), o(v, 'updateRegistry')]
        one = st.one_of(gen.sampled([
            o(v, 'disableConversions', True), o(v, 'disableConversions', True), o(v, 'disableRegistryUpdate', True), ['seq'] + move,
            ['seq'] + move + [o(v, 'restoreRegistry')], o(v, 'restoreRegistry'), o(v, 'disableConnectorPurchases', t, True),
            o(v, 'disableConnectorPurchases', CONNECTORS[v][0], True), o(v, 'disableTokenTransfers', True),
            ['seq', o(v, 'transferTokenOwnership', 'alice'), ['call', 'alice', f, 'acceptOwnerShip', []]],
            ['seq', o(v, 'transferTokenOwnership', 'owner'), ['call', 'owner', f, 'acceptOwnerShip', []]],
            o(v, 'transferTokenOwnership', 'bob'), o(v, 'transferOwnerShip', 'bob'),
            ['seq', o(v, 'transferOwnerShip', 'bob'), ['call', 'bob', v, 'acceptOwnerShip', []]],
            o(v, 'transferManagement', 'manager'),
            ['seq', o(v, 'transferManagement', 'manager'), ['call', 'manager', v, 'acceptManagement', []]]]), fee, virtual)
        return st.lists(one, min_size=2, max_size=7).map(lambda ops: ['seq'] + ops)
    return gen.sampled(CONVS).flatmap(of)


def ruled(by=('wallet', 'wallet', 'catcher', 'alice')):
    """several contracts have another owner (and manager) than the account that deployed them, a contract mostly"""
    def of(p):
        who, targets, managed_too = p
        out = ['seq']
        for t in targets:
            out += [['call', '@owner', t, 'transferOwnerShip', [who]], ['call', who, t, 'acceptOwnerShip', []]]
            if managed_too and t in CONVS:
                out += [['call', '@owner', t, 'transferManagement', [who]], ['call', who, t, 'acceptManagement', []]]
        return out
    return st.tuples(gen.sampled(by), st.lists(gen.sampled(['net', 'net', 'IX', 'reg', *CONVS, *CONVS]), min_size=1, max_size=4, unique=True),
                     st.booleans()).map(of)


def rulers():
    """for checks that start from one state: who rules the contracts in it"""
    return weighted((2, st.none()), (1, ruled()))


def settle(w, op):
    """hands the contracts over; -> the account that owns a contract then"""
    def owner(t):
        return w.name(w.q(t, 'getOwner'))
    for _, who, t, method, args in flatten([op] if op else []):
        w.must(owner(t) if who == '@owner' else who, t, method, *[w.addr[a] for a in args])
    return owner


def settled(w, stats, ops):
    """performs circumstances; -> the account that owns a contract then"""
    if ops:
        prepared(w, drive.History(w, stats, predict=False), ops)
    return lambda t: w.name(w.q(t, 'getOwner'))


def circumstances(max_size=4):
    """what the administrators did before: often nothing"""
    return weighted((5, st.just([])), (3, st.lists(switch_op(), min_size=1, max_size=max_size)), (1, configured().map(lambda op: [op])),
                    (1, ruled().map(lambda op: [op])))


def prepared(w, h, ops):
    """perform the circumstances; the world stays usable whatever they were"""
    for op in flatten(ops):
        h.step(op)


def cases(ops, cfg=None, min_size=4, max_size=24):
    return st.fixed_dictionaries({
        'cfg': gen.world_pool() if cfg is None else cfg,
        'ops': st.tuples(circumstances(), st.lists(ops, min_size=min_size, max_size=max_size)).map(lambda p: p[0] + p[1])})


def history(ops, monitor, cfg=None, min_size=4, max_size=24, nontrivial=None, finish=None, start=None):
    """-> (strategy factory, execute) for a Test.  monitor(world, step, memory) runs after every
    transaction; a case is non-trivial when `nontrivial(step)` held for some step"""
    def strategy():
        o = ops() if callable(ops) else ops
        c = cfg() if callable(cfg) else cfg
        return cases(o, c, min_size, max_size)

    def execute(case, stats):
        w = make_world(case['cfg'])
        mem = {}
        if start:
            start(w, mem)
        h = drive.History(w, stats)
        good = False
        for op in flatten(case['ops']):
            x = h.step(op)
            if x is None:
                continue
            if nontrivial is None or nontrivial(x):
                good = True
            label(stats, x)
            monitor(w, x, mem)
        if finish:
            finish(w, mem, stats)
        return good
    return strategy, execute


def flatten(ops):
    """['seq', op, op, ...] is a macro: several operations generated together"""
    for op in ops:
        if op[0] == 'seq':
            yield from flatten(op[1:])
        else:
            yield op


def label(stats, x):
    what = x.method if x.kind == 'call' else x.kind
    stats.label(f'{what}:{"ok" if x.receipt.ok else "rejected"}')


def unchanged(x, why='it failed'):
    """a failed transaction has no effect"""
    if not x.receipt.ok:
        require(x.post == x.pre, '{} although {} changed the state: {}', x, why, drive.first_diff(x.pre, x.post))


HANDOVER_ADDR = ['alice', 'bob', 'mallory', 'manager', 'owner', 'V1', 'V2', 'V3', 'wallet', 'fresh']


def handover(targets):
    """the two steps of an ownership handover, with the nominee accepting (mostly)"""
    def of(t):
        return st.tuples(
            st.just('seq'),
            st.tuples(st.just('call'), st.just('@owner'), st.just(t), st.just('transferOwnerShip'),
                      st.tuples(gen.sampled(HANDOVER_ADDR)).map(list)).map(list),
            st.tuples(st.just('call'), gen.sampled(['@newowner', '@newowner', '@newowner', 'mallory', '@owner']),
                      st.just(t), st.just('acceptOwnerShip'), st.just([])).map(list)).map(list)
    return gen.sampled(targets).flatmap(of)


def reentrant(tokens):
    """a receiver that moves the same token again while it is being told of a payment, the payer a contract
    itself more often than not; ICX tokens are also redeemed and deposited on the way"""
    amt = weighted((3, st.tuples(st.just('f'), gen.sampled([1, 10, 300, 500, 999, 1000])).map(list)),
                   (1, gen.sampled([['a', 1], ['a', 0], ['o', 0], ['o', -1], ['a', 5]])))
    catch = gen.sampled([True, True, True, False])

    def of(p):
        t, payer, getter = p
        who = gen.sampled([payer, payer, payer, getter, 'bob', 'IX' if t != 'IX' else 'net', 'zero', 'catcher', 'wallet'])
        zero = st.just(['a', 0])
        send = st.tuples(st.just(t), st.just('transfer'), st.tuples(who, amt, st.just(None)).map(list), zero, catch).map(list)
        acts = [(6, send)]
        if t == 'IX':
            acts += [(2, st.tuples(st.just(t), st.just('withdraw'), st.tuples(amt).map(list), zero, catch).map(list)),
                     (1, st.tuples(st.just(t), st.just('withdrawTo'), st.tuples(amt, who).map(list), zero, catch).map(list)),
                     (2, st.tuples(st.just(t), st.just('deposit'), st.just([]), amt, catch).map(list)),
                     (1, st.tuples(st.just('IX'), st.none(), st.just([]), amt, catch).map(list))]
        elif t[0] == 'F':
            acts += [(1, st.tuples(st.just(t), st.just('destroy'), st.tuples(st.just(getter), amt).map(list), zero, catch).map(list))]
        acts = st.lists(weighted(*acts), min_size=1, max_size=3)
        prog = st.tuples(st.just('prog'), st.just(getter), st.just('tokenFallback'), acts, st.integers(1, 2)).map(list)
        pay = st.tuples(st.just('call'), st.just(payer), st.just(t), st.just('transfer'),
                        st.tuples(st.just(getter), amt, st.just(None)).map(list)).map(list)
        if t == 'IX':
            # redeemed to a contract that acts when the ICX arrives
            prog = st.one_of(prog, st.tuples(st.just('prog'), st.just(getter), st.just('fallback'), acts, st.integers(1, 2)).map(list))
            pay = st.one_of(pay, st.tuples(st.just('call'), st.just(payer), st.just(t), st.just('withdrawTo'),
                                           st.tuples(amt, st.just(getter)).map(list)).map(list))
        fill = st.just(['call', 'alice', t, 'transfer', [payer, ['f', 100], None]])
        return st.tuples(st.just('seq'), fill, prog, pay).map(list)
    return st.tuples(gen.sampled(tokens), gen.sampled(['wallet', 'catcher', 'wallet', 'alice', 'V1', 'net', 'IX', 'F2']),
                     gen.sampled(['catcher', 'wallet'])).filter(lambda p: p[0] != p[1]).flatmap(of)


def manager_handover():
    def of(t):
        return st.tuples(
            st.just('seq'),
            st.tuples(st.just('call'), gen.sampled(['@owner', '@manager']), st.just(t), st.just('transferManagement'),
                      st.tuples(gen.sampled(HANDOVER_ADDR)).map(list)).map(list),
            st.tuples(st.just('call'), gen.sampled(['@newmanager', '@newmanager', '@newmanager', 'mallory', '@manager']),
                      st.just(t), st.just('acceptManagement'), st.just([])).map(list)).map(list)
    return gen.sampled(['V1', 'V2', 'V3']).flatmap(of)


def token_handover():
    """ownership of a flexible token moves between its owner, its converter and others"""
    def of(v):
        f = FLEX_OF[v]
        nominate = gen.sampled([
            ['call', '@owner', v, 'transferTokenOwnership', ['owner']],
            ['call', '@owner', v, 'transferTokenOwnership', ['alice']],
            ['call', '@owner', v, 'transferTokenOwnership', ['V1']],
            ['call', '@owner', f, 'transferOwnerShip', [v]],
            ['call', '@owner', f, 'transferOwnerShip', ['alice']],
            ['call', '@owner', f, 'transferOwnerShip', ['owner']],
        ])
        accept = gen.sampled([
            ['call', '@newowner', f, 'acceptOwnerShip', []],
            ['call', '@newowner', f, 'acceptOwnerShip', []],
            ['call', '@owner', v, 'acceptTokenOwnership', []],
            ['call', 'mallory', v, 'acceptTokenOwnership', []],
        ])
        back = ['seq', ['call', '@owner', f, 'transferOwnerShip', [v]], ['call', '@owner', v, 'acceptTokenOwnership', []]]
        away = ['seq', ['call', '@owner', v, 'transferTokenOwnership', ['alice']], ['call', '@newowner', f, 'acceptOwnerShip', []]]
        return weighted((3, st.tuples(st.just('seq'), nominate, accept).map(list)), (1, st.just(back)), (1, st.just(away)),
                        (1, st.just(['seq', away, back])))
    return gen.sampled(['V1', 'V2', 'V3']).flatmap(of)


def set_active(w, v, active):
    """bring a converter into the given state, whoever owns its token now"""
    f = FLEX_OF[v]
    if w.q(v, 'isActive') == active:
        return
    if active:
        w.must(w.name(w.q(f, 'getOwner')), f, 'transferOwnerShip', w.addr[v])
        w.must(w.name(w.q(v, 'getOwner')), v, 'acceptTokenOwnership')
    else:
        w.must(w.name(w.q(v, 'getOwner')), v, 'transferTokenOwnership', w.addr['alice'])
        w.must('alice', f, 'acceptOwnerShip')
