"""C29 no reachable state locks funds or roles in"""
import drive
import gen
import hist
from convs import frozen
from core import require
from gen import sampled, st, weighted
from runner import Test
from world import CONNECTORS, CONV_OF, CONVS, EOAS, FLEX, FLEX_OF, OWNED, TOKENS

LEVEL = 'exploration'
RULE = ('a case is non-trivial when the history changed a role, a switch or a connector, or traded, and at least one exit '
        'that moves a positive amount was taken from the state it led to')
ASSUMPTIONS = ['a role held by a contract of the system is exercised from that contract\'s address',
               'connector tokens are the tokens of the system (a token that refuses to move is not the converter\'s doing)']

PEOPLE = EOAS + ['fresh', 'wallet', 'catcher']


def redeem():
    """somebody parts with all he has, and comes back"""
    who = sampled(['alice', 'bob', 'mallory', 'owner', 'wallet'])
    icx = who.map(lambda x: ['seq', ['call', x, 'IX', 'withdraw', [['o', 0]]], ['call', x, 'IX', 'deposit', []]])
    tokens = st.tuples(who, sampled(TOKENS), sampled(['fresh', 'bob', 'owner'])).map(
        lambda p: ['seq', ['call', p[0], p[1], 'transfer', [p[2], ['o', 0], None]], ['call', p[2], p[1], 'transfer', [p[0], ['f', 500], None]]])
    return st.one_of(icx, tokens)


def ops():
    admin = [(t, m) for t in CONVS + ['net', 'IX'] for m in
             ('transferOwnerShip', 'acceptOwnerShip', 'withdrawTokens')] + \
            [(v, m) for v in CONVS for m in ('addConnector', 'updateConnector', 'disableConnectorPurchases', 'setConversionFee',
                                             'disableConversions', 'disableTokenTransfers', 'updateRegistry', 'restoreRegistry',
                                             'disableRegistryUpdate', 'transferManagement', 'acceptManagement',
                                             'transferTokenOwnership', 'acceptTokenOwnership', 'withdrawFromToken')] + \
            [(r, m) for r in ('reg', 'reg2') for m in ('registerAddress', 'unregisterAddress')] + [('net', 'registerIcxToken')]
    use = gen.call_op([(t, 'transfer') for t in TOKENS] + [('IX', 'deposit'), ('IX', 'withdraw'), ('IX', 'withdrawTo')] +
                      [(f, m) for f in FLEX for m in ('issue', 'destroy', 'disableTransfer')])
    return weighted((4, hist.switch_op()), (4, gen.call_op(admin, senders=weighted((6, st.just('@owner')), (1, st.just('alice'))))),
                    (3, gen.convert_op()), (2, use), (2, hist.handover(OWNED)), (2, hist.token_handover()),
                    (1, hist.manager_handover()), (1, redeem()), (1, st.just(['restart'])))


EXITS = ['liquidation', 'liquidation', 'tokens', 'icx', 'flexible', 'burn', 'reserves', 'reserves', 'service', 'service', 'roles', 'strays', 'issued', 'managers',
         'registry']


def strategy():
    return st.fixed_dictionaries({
        'cfg': gen.world_pool(16), 'ops': st.lists(ops(), min_size=2, max_size=20),
        'exits': st.lists(st.tuples(sampled(EXITS), sampled(CONVS), st.integers(0, 9)).map(list), min_size=2, max_size=4,
                          unique_by=lambda e: (e[0], e[1]))})


def owner(w, c):
    return w.name(w.q(c, 'getOwner'))


def ok(w, who, sender, to, method, *args, value=0):
    """an exit: it must be possible"""
    real = [w.addr[a] if isinstance(a, str) and a in w.addr else a for a in args]
    r = w.tx(sender, to, method, *real, value=value)
    require(r.ok, '{}: {} -> {}.{}{} is refused: {}', who, sender, to, method, args, r.error)
    return r


def able(w, name):
    """an account whose transactions exist outside of the harness as well"""
    return name in EOAS or name in ('fresh', 'wallet', 'catcher')


def thaw(w, f, why):
    """whoever governs the flexible token allows its transfers again; False when nobody can act"""
    if w.q(f, 'getTransferPossibility'):
        return True
    o = owner(w, f)
    if o == CONV_OF[f]:
        return able(w, owner(w, o)) and bool(ok(w, why, owner(w, o), o, 'disableTokenTransfers', False))
    return able(w, o) and bool(ok(w, why, o, f, 'disableTransfer', False))


def exit_tokens(w, v, k):
    moved = 0
    for t in ('T1', 'T2'):
        for h in PEOPLE:
            n = w.q(t, 'balanceOf', w.addr[h])
            if n and h != 'fresh':
                had = w.q(t, 'balanceOf', w.addr['fresh'])
                ok(w, 'a holder moves its tokens', h, t, 'transfer', 'fresh', n)
                require(w.q(t, 'balanceOf', w.addr[h]) == 0 and w.q(t, 'balanceOf', w.addr['fresh']) == had + n,
                        '{} moved {} {}', h, n, t)
                moved += n
    return moved


def exit_icx(w, v, k):
    moved = 0
    for i, h in enumerate(PEOPLE):
        n = w.q('IX', 'balanceOf', w.addr[h])
        if not n:
            continue
        to = h if (i + k) % 2 else 'fresh'
        had = w.icx(to)
        if to == h and k % 3:
            ok(w, 'a holder redeems its ICX tokens', h, 'IX', 'withdraw', n)
        else:
            ok(w, 'a holder redeems its ICX tokens', h, 'IX', 'withdrawTo', n, to)
        require(w.icx(to) == had + n and w.q('IX', 'balanceOf', w.addr[h]) == 0, '{} redeemed {}, {} got {}', h, n, to,
                w.icx(to) - had)
        moved += n
    return moved


def exit_flexible(w, v, k):
    f = FLEX_OF[v]
    if not thaw(w, f, 'the owner allows transfers again'):
        return 0
    moved = 0
    for h in PEOPLE:
        n = w.q(f, 'balanceOf', w.addr[h])
        if n and h != 'fresh':
            ok(w, 'a holder moves its flexible tokens', h, f, 'transfer', 'fresh', n)
            moved += n
    require(w.q(f, 'balanceOf', w.addr['fresh']) >= moved, 'the tokens moved did not arrive')
    return moved


def exit_burn(w, v, k):
    f = FLEX_OF[v]
    moved = 0
    for h in PEOPLE:
        n = w.q(f, 'balanceOf', w.addr[h])
        if n:
            ok(w, 'a holder burns its flexible tokens', h, f, 'destroy', h, n)
            moved += n
    return moved


def release(w, v):
    """the converter's owner takes the token back; -> who owns it now"""
    f = FLEX_OF[v]
    boss = owner(w, v)
    if owner(w, f) == v:
        ok(w, 'the owner takes the token back', boss, v, 'transferTokenOwnership', boss)
        ok(w, 'the owner takes the token back', boss, f, 'acceptOwnerShip')
        require(owner(w, f) == boss and w.q(v, 'isActive') is False, '{} was not handed over', f)
    return owner(w, f)


def exit_reserves(w, v, k):
    boss = owner(w, v)
    if not able(w, boss):
        return 0
    release(w, v)
    moved = 0
    for i in range(w.q(v, 'getConnectorTokenCount')):
        t = w.name(w.q(v, 'getConnectorAt', i))
        if t not in TOKENS or (t in FLEX and not thaw(w, t, 'the owner allows transfers again')):
            continue
        n = w.q(t, 'balanceOf', w.addr[v])
        if not n:
            continue
        to = ['bob', 'fresh', boss][k % 3]
        had = w.q(t, 'balanceOf', w.addr[to])
        for part in ([n], [n - n // 2, n // 2], [1, n - 1])[k % 3 if n > 2 else 0]:
            ok(w, 'the owner withdraws the reserves', boss, v, 'withdrawTokens', t, to, part)
        require(w.q(t, 'balanceOf', w.addr[v]) == 0 and w.q(t, 'balanceOf', w.addr[to]) == had + n,
                '{} {} were withdrawn from {}, {} got {}', n, t, v, to, w.q(t, 'balanceOf', w.addr[to]) - had)
        moved += n
    return moved


def exit_strays(w, v, k):
    moved = 0
    for c in ('net', 'IX', FLEX_OF[v], v):
        boss = owner(w, c)
        via = boss == v and c == FLEX_OF[v]
        if via:
            boss = owner(w, v)
        if not able(w, boss):
            continue
        mine = [w.name(w.q(v, 'getConnectorAt', i)) for i in range(w.q(v, 'getConnectorTokenCount'))] if c == v else []
        for t in TOKENS:
            n = w.q(t, 'balanceOf', w.addr[c])
            if not n or (t in FLEX and not w.q(t, 'getTransferPossibility')) or (t in mine and w.q(v, 'isActive')):
                continue
            to = 'bob' if boss != 'bob' else 'fresh'
            had = w.q(t, 'balanceOf', w.addr[to])
            if via:
                ok(w, 'strayed tokens are recovered', boss, v, 'withdrawFromToken', t, to, n)
            else:
                ok(w, 'strayed tokens are recovered', boss, c, 'withdrawTokens', t, to, n)
            require(w.q(t, 'balanceOf', w.addr[to]) == had + n and w.q(t, 'balanceOf', w.addr[c]) == 0,
                    '{} {} strayed into {} and {} arrived', n, t, c, w.q(t, 'balanceOf', w.addr[to]) - had)
            moved += n
    return moved


def exit_issued(w, v, k):
    """another flexible token strayed into the converter, which is the only way a foreign token gets there"""
    g = 'F3' if v != 'V3' else ['F1', 'F2'][k % 2]
    c, boss = CONV_OF[g], owner(w, v)
    if not able(w, boss) or not able(w, owner(w, c)):
        return 0
    keeper = release(w, c)
    if not able(w, keeper) or not thaw(w, g, 'the owner allows transfers again'):
        return 0
    ok(w, 'the owner issues', keeper, g, 'issue', v, 1000 + k)
    to = ['bob', 'fresh', boss][k % 3]
    had, n = w.q(g, 'balanceOf', w.addr[to]), w.q(g, 'balanceOf', w.addr[v])
    ok(w, 'strayed tokens are recovered', boss, v, 'withdrawTokens', g, to, n)
    require(w.q(g, 'balanceOf', w.addr[to]) == had + n and w.q(g, 'balanceOf', w.addr[v]) == 0, '{} {} strayed into {} and {} arrived', n, g, v,
            w.q(g, 'balanceOf', w.addr[to]) - had)
    return n


def exit_liquidation(w, v, k):
    """everything is wound up: the reserves come back, strayed tokens are recovered, and every ICX token is redeemed"""
    for c in CONVS:
        exit_strays(w, c, k)
        exit_reserves(w, c, k)
    exit_strays(w, 'V1', k)
    moved = exit_icx(w, v, 1 + k % 2)
    left = {h: w.q('IX', 'balanceOf', w.addr[h]) for h in w.holders}
    require(sum(left.values()) == w.q('IX', 'totalSupply') == w.icx('IX'), '{} ICX tokens are left, {} supply, {} ICX', left,
            w.q('IX', 'totalSupply'), w.icx('IX'))
    return moved if not any(left.values()) else 0


def exit_roles(w, v, k):
    done = 0
    for c in ['net', 'IX', 'reg', 'reg2', v, FLEX_OF[v]]:
        boss = owner(w, c)
        if boss in CONVS:
            continue
        new = next(n for n in ('bob', 'fresh', 'alice')[k % 3:] + ('bob', 'fresh') if n != boss)
        ok(w, 'an owner hands over', boss, c, 'transferOwnerShip', new)
        ok(w, 'an owner hands over', new, c, 'acceptOwnerShip')
        require(owner(w, c) == new, '{} did not become the owner of {}', new, c)
        ok(w, 'an owner hands back', new, c, 'transferOwnerShip', boss)
        ok(w, 'an owner hands back', boss, c, 'acceptOwnerShip')
        require(owner(w, c) == boss, '{} did not become the owner of {} again', boss, c)
        done += 1
    return done


def exit_managers(w, v, k):
    boss = owner(w, v)
    was = w.name(w.q(v, 'getManager'))
    new = next(n for n in ('bob', 'fresh', 'manager') if n != was)
    ok(w, 'the owner names another manager', boss, v, 'transferManagement', new)
    ok(w, 'the manager accepts', new, v, 'acceptManagement')
    require(w.name(w.q(v, 'getManager')) == new, '{} did not become manager', new)
    fee = w.q(v, 'getMaxConversionFee') // 2
    ok(w, 'the new manager sets the fee', new, v, 'setConversionFee', fee)
    require(w.q(v, 'getConversionFee') == fee, 'the fee was not set')
    return 1


def exit_registry(w, v, k):
    """a converter can always be led back to a registry that works"""
    boss = owner(w, v)
    cur = w.name(w.q(v, 'getRegistry'))
    if cur not in ('reg', 'reg2'):
        ok(w, 'the owner returns to the previous registry', boss, v, 'restoreRegistry')
        cur = w.name(w.q(v, 'getRegistry'))
        if cur not in ('reg', 'reg2'):
            return 0
    other = 'reg2' if cur == 'reg' else 'reg'
    ok(w, 'the registry names its successor', owner(w, cur), cur, 'registerAddress', 'ScoreRegistry', other)
    ok(w, 'the owner moves on', boss, v, 'updateRegistry')
    require(w.name(w.q(v, 'getRegistry')) == other, 'the converter did not move to {}', other)
    ok(w, 'the owner returns', boss, v, 'restoreRegistry')
    require(w.name(w.q(v, 'getRegistry')) == cur, 'the converter did not return to {}', cur)
    return 1


def exit_service(w, v, k):
    """whatever was switched off: the administrators can bring the converter back into service, and then everybody can leave"""
    f = FLEX_OF[v]
    boss = owner(w, v)
    keeper = owner(w, f)
    if keeper != v:
        if keeper in CONVS:
            return 0
        ok(w, 'the converter is activated', keeper, f, 'transferOwnerShip', v)
        ok(w, 'the converter is activated', boss, v, 'acceptTokenOwnership')
    reg = w.name(w.q(v, 'getRegistry'))
    if reg not in ('reg', 'reg2'):
        ok(w, 'the owner returns to the previous registry', boss, v, 'restoreRegistry')
        reg = w.name(w.q(v, 'getRegistry'))
        if reg not in ('reg', 'reg2'):
            return 0
    ok(w, 'the network is registered', owner(w, reg), reg, 'registerAddress', 'Network', 'net')
    ok(w, 'conversions are enabled', boss, v, 'disableConversions', False)
    ok(w, 'transfers are enabled', boss, v, 'disableTokenTransfers', False)
    require(w.q(v, 'isActive') and w.q(v, 'isConversionsEnabled') and w.q(f, 'getTransferPossibility'), 'not back in service')
    moved = 0
    for i in range(w.q(v, 'getConnectorTokenCount')):
        t = w.name(w.q(v, 'getConnectorAt', i))
        if t not in TOKENS or (t in FLEX and not thaw(w, t, 'the owner allows transfers again')):
            continue
        have = w.q(f, 'balanceOf', w.addr['alice'])
        n = have * (k + 1) // 40
        quote = w.chain.query_receipt(w.addr[v], 'getReturn', w.addr[f], w.addr[t], n) if n else None
        if quote is None or not quote.ok:
            require(n == 0 or w.q(v, 'getConnectorBalance', w.addr[t]) == 0, 'the sale of {} {} for {} has no quote: {}', n, f, t,
                    n and quote.error)
            continue
        got = quote.ret['amount']
        if not 0 < got <= w.q(t, 'balanceOf', w.addr[v]) or got >= w.q(v, 'getConnectorBalance', w.addr[t]):
            continue
        payout = 'IX' if t == 'IX' and w.q('net', 'getIcxTokenRegistered', w.addr['IX']) else None
        had = w.icx('alice') if payout else w.q(t, 'balanceOf', w.addr['alice'])
        ok(w, 'a holder sells', 'alice', f, 'transfer', 'net', n, gen.path_data(w, [f, f, t], 1))
        paid = (w.icx('alice') if payout else w.q(t, 'balanceOf', w.addr['alice'])) - had
        require(paid == got, 'sold {} {} for {} {}, quoted {}', n, f, paid, t, got)
        moved += 1
    return moved


TAKE = {n[5:]: g for n, g in list(globals().items()) if n.startswith('exit_')}


def execute(case, stats):
    w = gen_world(case['cfg'])
    h = drive.History(w, stats, predict=False)
    changed = False
    for op in hist.flatten(case['ops']):
        x = h.step(op)
        if x is not None and x.receipt.ok:
            hist.label(stats, x)
            changed = changed or x.pre['adm'] != x.post['adm'] or x.kind == 'conv'
    moved = 0
    for name, v, k in case['exits']:
        c = w.clone()
        n = TAKE[name](c, v, k)
        stats.label(f'exit {name}: ' + ('taken' if n else 'nothing to take'))
        moved += bool(n)
    s = h.state['adm']
    for v in CONVS:
        stats.label('state: ' + ('inactive ' if not s[v]['active'] else '') + ('paused ' if not s[v]['enabled'] else '')
                    + ('frozen' if not s[FLEX_OF[v]]['xfer'] else ''))
    return changed and moved > 0


def gen_world(cfg):
    from world import make_world
    return make_world(cfg)


TESTS = [Test('exits', strategy, execute, quick=4800)]
