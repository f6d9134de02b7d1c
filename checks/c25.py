"""C25 converter life cycle: fund, activate, upgrade without losing reserves"""
import drive
import gen
import hist
from chain import QueryFailed, score_class
from core import require
from gen import sampled, st, weighted
from runner import Test
from world import CONV_OF, CONVS, EOAS, FLEX_OF, TOKENS, make_world

LEVEL = 'exploration'
RULE = ('a history is non-trivial when a converter was activated, deactivated or funded; an upgrade when the successor took '
        'over at least one non-empty reserve and was compared by at least one accepted quote')
ASSUMPTIONS = ['a successor is deployed with the same connectors in the same order, the same weights, virtual balances, fee '
               'and purchase flags as the old converter']


# -- life cycle histories -----------------------------------------------------------------------------
def ops():
    conv = sampled(CONVS)
    anyone = ['@owner', '@owner', '@owner', '@manager', '@manager', 'alice', 'mallory', 'owner', 'wallet', 'catcher', '@newowner']

    def fund(p):
        v, who, tok, amt, data, idle = p
        op = ['call', who, tok, 'transfer', [v, amt, data]]
        return ['seq', ['call', '@owner', v, 'transferTokenOwnership', ['owner']],
                ['call', '@newowner', FLEX_OF[v], 'acceptOwnerShip', []], op] if idle else op
    from world import CONNECTORS
    funding = sampled(CONVS).flatmap(lambda v: st.tuples(
        st.just(v), sampled(['owner', 'owner', 'manager', 'alice', 'mallory', 'wallet', 'bob']),
        weighted((4, sampled(CONNECTORS[v])), (1, sampled(TOKENS))),
        weighted((3, st.tuples(st.just('f'), st.integers(1, 300)).map(list)), (1, gen.amount)),
        sampled([None, None, 'conversionResult', 'x', '{"toToken":"cx0","minReturn":1}']), sampled([True, False, False])).map(fund))

    def act(p):
        v, nominee, by, accept, order = p
        f = FLEX_OF[v]
        a = ['call', '@owner', f, 'transferOwnerShip', [nominee]]
        b = ['call', by, v, accept, []] if accept == 'acceptTokenOwnership' else ['call', by, f, accept, []]
        return ['seq', a, b] if order else ['seq', b, a]
    activate = conv.flatmap(lambda v: st.tuples(
        st.just(v), weighted((4, st.just(v)), (1, sampled(CONVS + ['alice', 'owner']))),
        weighted((4, st.just('@owner')), (1, sampled(['mallory', '@manager', '@newowner', 'alice', 'owner']))),
        weighted((4, st.just('acceptTokenOwnership')), (1, st.just('acceptOwnerShip'))),
        sampled([True, True, True, False])).map(act))

    def deact(p):
        v, who, to, by = p
        return ['seq', ['call', who, v, 'transferTokenOwnership', [to]], ['call', by, FLEX_OF[v], 'acceptOwnerShip', []]]
    deactivate = st.tuples(conv, weighted((4, st.just('@owner')), (1, sampled(['mallory', '@manager']))),
                           sampled(['owner', 'alice', 'bob', 'mallory', 'V1', 'V2']),
                           weighted((4, st.just('@newowner')), (1, sampled(['mallory', 'alice', 'owner', '@owner'])))).map(deact)
    single = gen.call_op(gen.all_methods(CONVS, {'transferTokenOwnership', 'acceptTokenOwnership', 'addConnector'}),
                         senders=sampled(anyone))
    withdraw = sampled(CONVS).flatmap(lambda v: st.tuples(
        st.just('call'), st.just('@owner'), st.just(v), sampled(['withdrawTokens', 'withdrawTokens', 'withdrawFromToken']),
        st.tuples(weighted((4, sampled(CONNECTORS[v])), (1, sampled(TOKENS))), sampled(EOAS + ['wallet', 'V1']),
                  gen.amount).map(list)).map(list))
    token = gen.call_op(gen.all_methods(['F1', 'F2', 'F3'], {'transferOwnerShip', 'acceptOwnerShip', 'issue', 'destroy'}))
    return weighted((6, funding), (4, activate), (4, deactivate), (2, single), (2, withdraw), (1, token),
                    (3, gen.convert_op(paths=gen.PATHS1)), (1, hist.manager_handover()), (1, hist.handover(CONVS)),
                    (1, st.just(['restart'])))


PAIRS = {}


def quotes(w, v, conns, amounts):
    """every quote of a converter: a number, or None when it is refused"""
    toks = [FLEX_OF[v]] + [c for c in conns if c in w.addr] if v in FLEX_OF else list(conns)
    out = {}
    for a in toks:
        for b in toks:
            if a != b:
                for n in amounts:
                    try:
                        r = w.chain.query(w.addr[v], 'getReturn', w.addr[a], w.addr[b], n)
                        out[(a, b, n)] = (r['amount'], r['fee']) if isinstance(r, dict) else r
                    except QueryFailed:
                        out[(a, b, n)] = None
    return out


def monitor(w, x, mem):
    hist.unchanged(x)
    pre, post = x.pre['adm'], x.post['adm']
    for v in CONVS:
        f = FLEX_OF[v]
        a = post[v]
        require(a['active'] == (post[f]['owner'] == v), '{}: {} {} active although {} belongs to {}', x, v,
                'is' if a['active'] else 'is not', f, post[f]['owner'])
        if a['active'] and not pre[v]['active']:
            own = x.target == v and x.method == 'acceptTokenOwnership' and x.sender == pre[v]['owner']
            # (the harness also lets the contract's account call the token itself)
            own = own or (x.target == f and x.method == 'acceptOwnerShip' and x.sender == v)
            require(x.kind == 'call' and own and pre[f]['newowner'] == v,
                    '{}: activated {} (owner {}, nominated for {}: {})', x, v, pre[v]['owner'], f, pre[f]['newowner'])
            mem['stats'].label('activated')
        if pre[v]['active'] and not a['active']:
            require(x.kind == 'call' and post[f]['owner'] == pre[f]['newowner'] and
                    (x.sender == pre[f]['newowner'] or x.method == 'acceptTokenOwnership'),
                    '{}: took {} away from {}; nominated was {}', x, f, v, pre[f]['newowner'])
            mem['stats'].label('deactivated')
    # tokens sent to a converter from outside
    if x.kind == 'call' and x.method == 'transfer' and x.args[0] in CONVS:
        v, tok, n = x.args[0], x.target, x.args[1]
        c = pre[v]
        fundable = (not c['active'] and x.sender in (c['owner'], c['manager']) and tok in c['conns'] and n > 0)
        possible = 0 < n <= x.pre['bal'][tok][x.sender] and (tok not in FLEX_OF.values() or pre[tok]['xfer'])
        network = x.sender == pre[c['registry']].get('=Network') if c['registry'] in pre else True
        if not network:
            require(x.receipt.ok == (fundable and possible), '{}: {} ({}, owner {}, manager {}, connectors {}), but it must {}', x, v,
                    'active' if c['active'] else 'inactive', c['owner'], c['manager'], c['order'],
                    'succeed' if fundable and possible else 'fail')
            mem['stats'].label('funding ' + ('accepted' if x.receipt.ok else 'refused')
                               + (' (manager)' if x.sender == c['manager'] and x.sender != c['owner'] else ''))
    drive.agree(x, 'life cycle')
    if x.kind == 'conv':
        path = x.conv[2]
        owners = [pre[f]['owner'] for f in path[1::2]]
        idle = [f for f, o in zip(path[1::2], owners) if o not in CONVS]
        if idle:
            require(not x.receipt.ok, '{}: converted although {} is not governed by a converter', x, idle)
    # no quotes while inactive
    for v in CONVS:
        if not post[v]['active']:
            n = max(1, x.post['sup'][FLEX_OF[v]] // 100)
            got = {k: r for k, r in quotes(w, v, post[v]['order'][:3], [n]).items() if r is not None}
            require(not got, '{}: inactive {} quotes {}', x, v, got)


def interesting(x):
    if not x.receipt.ok:
        return False
    if any(x.pre['adm'][v]['active'] != x.post['adm'][v]['active'] for v in CONVS):
        return True
    return x.kind == 'call' and x.method == 'transfer' and x.args[0] in CONVS


_s, _e = hist.history(ops, monitor, nontrivial=interesting, min_size=6, max_size=24, cfg=lambda: gen.world_pool(16),
                      start=None)


def histories(case, stats):
    def start(w, mem):
        mem['stats'] = stats
        for v in CONVS:     # somebody to tell apart from the owner
            w.must('owner', v, 'transferManagement', w.addr['manager'])
            w.must('manager', v, 'acceptManagement')
    s, e = hist.history(ops, monitor, nontrivial=interesting, start=start)
    return e(case, stats)


# -- upgrades ----------------------------------------------------------------------------------------------
def upgrade_strategy():
    before = weighted(
        (3, gen.convert_op(paths=gen.PATHS1)),
        (2, gen.call_op(gen.all_methods(CONVS, {'updateConnector', 'setConversionFee', 'disableConnectorPurchases'}),
                        senders=st.just('@owner'))),
        (1, st.tuples(st.just('call'), st.just('@owner'), sampled(CONVS), st.just('transferOwnerShip'),
                      st.tuples(sampled(EOAS)).map(list)).map(list).map(
            lambda c: ['seq', c, ['call', '@newowner', c[2], 'acceptOwnerShip', []]])),
        (2, hist.switch_op()), (1, st.just(['restart'])))
    return st.fixed_dictionaries({
        'cfg': gen.world_pool(16), 'v': sampled(CONVS), 'before': st.lists(before, max_size=6),
        'route': sampled(['owner', 'owner', 'direct', 'nominee']), 'funder': sampled(['owner', 'owner', 'manager']),
        'withdraw': sampled(['whole', 'halves', 'crumbs']), 'amounts': st.lists(st.integers(1, 400), min_size=1, max_size=3),
        'attacks': st.lists(st.tuples(st.integers(0, 7), st.integers(0, 9)).map(list), max_size=4)})


def upgrade(case, stats):
    w = make_world(case['cfg'])
    w.addr = dict(w.addr)
    h = drive.History(w, stats, predict=False)
    for op in hist.flatten(case['before']):
        h.step(op)
    v = case['v']
    f = FLEX_OF[v]
    for t in FLEX_OF.values():
        if t != f and not w.q(t, 'getTransferPossibility'):     # a connector that cannot be moved cannot be handed over
            hist.set_active(w, CONV_OF[t], True)
            w.must(w.name(w.q(CONV_OF[t], 'getOwner')), CONV_OF[t], 'disableTokenTransfers', False)
    hist.set_active(w, v, True)
    keeper = w.name(w.q(v, 'getOwner'))
    if keeper not in EOAS:
        w.must(keeper, v, 'transferOwnerShip', w.addr['bob'])
        w.must('bob', v, 'acceptOwnerShip')
    s = w.observe()
    old = s['adm'][v]
    owner = old['owner']
    order = old['order']
    sup = s['sup'][f]
    amounts = sorted({max(1, sup * n // 1000) for n in case['amounts']} |
                     {max(1, w.q(v, 'getConnectorBalance', w.addr[order[0]]) * case['amounts'][0] // 1000)})
    before = quotes(w, v, order, amounts)
    reserves = {t: s['bal'][t][v] for t in order}

    # the successor
    cls = score_class('converter')
    conns = old['conns']
    address, r = w.chain.deploy(cls, w.addr[owner], w.addr[f], w.addr[old['registry']], old['maxfee'], w.addr[order[0]],
                                conns[order[0]]['weight'], tag='successor')
    require(r.ok, 'deploying the successor of {} failed: {}', v, r.error)
    w.addr['W'] = address
    w.names = {a: n for n, a in w.addr.items()}
    w.holders = list(w.holders) + ['W']
    for t in order[1:]:
        w.must(owner, 'W', 'addConnector', w.addr[t], conns[t]['weight'], conns[t]['isVirtualBalanceEnabled'])
    for t in order:
        w.must(owner, 'W', 'updateConnector', w.addr[t], conns[t]['weight'], conns[t]['isVirtualBalanceEnabled'],
               conns[t]['virtualBalance'])
        if not conns[t]['isPurchaseEnabled']:
            w.must(owner, 'W', 'disableConnectorPurchases', w.addr[t], True)
    if old['fee']:
        w.must(owner, 'W', 'setConversionFee', old['fee'])
    funder = owner
    if case['funder'] == 'manager':
        funder = 'bob' if owner != 'bob' else 'alice'
        w.must(owner, 'W', 'transferManagement', w.addr[funder])
        w.must(funder, 'W', 'acceptManagement')
    require(not w.q('W', 'isActive'), 'the successor is active right after deployment')

    stranger = next(n for n in ('mallory', 'alice', 'bob') if n not in (owner, funder))
    hostile = [
        lambda: w.tx(stranger, f, 'acceptOwnerShip'), lambda: w.tx(stranger, 'W', 'acceptTokenOwnership'),
        lambda: w.tx(stranger, v, 'acceptTokenOwnership'), lambda: w.tx(stranger, v, 'transferTokenOwnership', w.addr[stranger]),
        lambda: w.tx(stranger, 'W', 'transferTokenOwnership', w.addr[stranger]),
        lambda: w.tx(stranger, v, 'withdrawTokens', w.addr[order[0]], w.addr[stranger], 1),
        lambda: w.tx(stranger, 'W', 'withdrawTokens', w.addr[order[0]], w.addr[stranger], 1),
        lambda: w.tx(stranger, order[0], 'transfer', w.addr['W'], 1), lambda: w.tx(stranger, order[0], 'transfer', w.addr[v], 1),
        lambda: w.tx(stranger, f, 'transferOwnerShip', w.addr[stranger])]
    stage = [0]

    def at_stage():
        for i, k in case['attacks']:
            if i == stage[0]:
                one = {n: w.observe_tokens() for n in 'x'}, w.q(f, 'getOwner')
                r = hostile[k]()
                require(not r.ok, 'stage {}: {} succeeded with hostile call {}', stage[0], stranger, k)
                require(({n: w.observe_tokens() for n in 'x'}, w.q(f, 'getOwner')) == one, 'a refused call changed balances')
        stage[0] += 1

    def active(v_on, w_on, what):
        for c, on in ((v, v_on), ('W', w_on)):
            require(w.q(c, 'isActive') == on, 'after {}: {} is {}', what, 'the old converter' if c == v else 'the successor',
                    'active' if not on else 'inactive')
        at_stage()

    def withdraw_all():
        for t in order:
            left = reserves[t]
            parts = {'whole': [left], 'halves': [left // 2, left - left // 2], 'crumbs': [1, left - 1]}[case['withdraw']]
            had = w.bal(t, funder)
            for n in [p for p in parts if p > 0]:
                r = w.tx(owner, v, 'withdrawTokens', w.addr[t], w.addr[funder], n)
                require(r.ok, 'the inactive converter keeps {} of its {} {}: {}', n, left, t, r.error)
            require(w.bal(t, v) == 0 and w.bal(t, funder) == had + left, '{} {} were withdrawn, the funder got {}', left, t,
                    w.bal(t, funder) - had)

    def fund(ok=True):
        for t in order:
            if reserves[t]:
                had = w.bal(t, 'W')
                r = w.tx(funder, t, 'transfer', w.addr['W'], reserves[t])
                require(r.ok == ok, '{} {} funding of the {} successor with {}', 'refused' if ok else 'accepted', case['funder'],
                        'inactive' if ok else 'active', t)
                require(w.bal(t, 'W') == had + (reserves[t] if ok else 0), 'funding with {} moved {}', t, w.bal(t, 'W') - had)

    def refuse_early():
        for t in order:
            if reserves[t]:
                r = w.tx(owner, v, 'withdrawTokens', w.addr[t], w.addr[owner], 1)
                require(not r.ok, 'reserves were withdrawn from an active converter')
                return
    active(True, False, 'deployment')
    refuse_early()
    if case['route'] == 'owner':
        # back to the owner, then to the funded successor
        w.must(owner, v, 'transferTokenOwnership', w.addr[owner])
        active(True, False, 'nominating the owner')
        require(quotes(w, v, order, amounts) == before, 'nominating an owner changed the quotes')
        w.must(owner, f, 'acceptOwnerShip')
        active(False, False, 'returning the token')
        withdraw_all()
        fund()
        active(False, False, 'funding')
        w.must(owner, f, 'transferOwnerShip', w.addr['W'])
        active(False, False, 'nominating the successor')
        w.must(owner, 'W', 'acceptTokenOwnership')
    elif case['route'] == 'nominee':
        # the nomination is changed before anybody accepts
        w.must(owner, v, 'transferTokenOwnership', w.addr[stranger])
        w.must(owner, v, 'transferTokenOwnership', w.addr[owner])
        r = w.tx(stranger, f, 'acceptOwnerShip')
        require(not r.ok, 'an outdated nominee took the token')
        active(True, False, 'changing the nomination')
        w.must(owner, f, 'acceptOwnerShip')
        active(False, False, 'returning the token')
        w.must(owner, f, 'transferOwnerShip', w.addr['W'])
        withdraw_all()
        fund()
        active(False, False, 'funding a nominated successor')
        w.must(owner, 'W', 'acceptTokenOwnership')
    else:
        # straight to the successor: it must be deactivated again to be funded
        w.must(owner, v, 'transferTokenOwnership', w.addr['W'])
        active(True, False, 'nominating the successor')
        require(quotes(w, v, order, amounts) == before, 'nominating an owner changed the quotes')
        w.must(owner, 'W', 'acceptTokenOwnership')
        active(False, True, 'the direct handover')
        withdraw_all()
        fund(ok=False)
        w.must(owner, 'W', 'transferTokenOwnership', w.addr[owner])
        w.must(owner, f, 'acceptOwnerShip')
        active(False, False, 'taking the token back')
        fund()
        w.must(owner, f, 'transferOwnerShip', w.addr['W'])
        w.must(owner, 'W', 'acceptTokenOwnership')
    active(False, True, 'the upgrade')

    # the old converter has no power over the token any more
    for m, a in (('transferTokenOwnership', [w.addr[owner]]), ('acceptTokenOwnership', []), ('disableTokenTransfers', [True]),
                 ('withdrawFromToken', [w.addr[f], w.addr[owner], 1])):
        r = w.tx(owner, v, m, *a)
        require(not r.ok, 'after the upgrade the old converter still performs {}', m)
    got = {k: r for k, r in quotes(w, v, order, amounts).items() if r is not None}
    require(not got, 'the old converter still quotes {}', got)

    # the successor quotes and trades like the old one
    after = {}
    for (a, b, n), _ in before.items():
        try:
            r = w.chain.query(w.addr['W'], 'getReturn', w.addr[a], w.addr[b], n)
            after[(a, b, n)] = (r['amount'], r['fee']) if isinstance(r, dict) else r
        except QueryFailed:
            after[(a, b, n)] = None
    diff = [(k, before[k], after[k]) for k in before if before[k] != after[k]]
    require(not diff, 'the successor quotes differently: {}', diff[:3])
    if not w.q(f, 'getTransferPossibility'):
        w.must(owner, 'W', 'disableTokenTransfers', False)
    good = [k for k in before if before[k] is not None]
    traded = False
    for a, b, n in good[:4]:
        have = w.bal(a, 'alice')
        if before[(a, b, n)][0] <= 0 or have < n or (b != f and before[(a, b, n)][0] >= w.bal(b, 'W')):
            continue
        had = w.bal(b, 'alice'), w.icx('alice')
        r = w.tx('alice', a, 'transfer', w.addr['net'], n, gen.path_data(w, [a, f, b], 1))
        if not w.q('W', 'isConversionsEnabled'):
            continue
        require(r.ok, 'the successor does not convert {} {} to {}: {}', n, a, b, r.error)
        paid = w.bal(b, 'alice') - had[0] + w.icx('alice') - had[1]
        require(paid == before[(a, b, n)][0], 'converted {} {} to {} {}, quoted {}', n, a, paid, b, before[(a, b, n)][0])
        traded = True
        break
    stats.label(f'route {case["route"]}')
    stats.label(f'funded by {case["funder"]}')
    if traded:
        stats.label('traded with the successor')
    return bool(good) and any(reserves.values())


TESTS = [Test('histories', _s, histories, quick=3000), Test('upgrade', upgrade_strategy, upgrade, quick=1600)]
