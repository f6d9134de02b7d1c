"""C14 registry resolution behaves like a map and converters follow it safely"""
import drive
import gen
import hist
from chain import score_class
from core import require
from gen import sampled, st, weighted
from runner import Test
from world import CONVS, REGS, make_world

LEVEL = 'exploration'
RULE = ('a history is non-trivial when a registration changed what a name resolves to after it had been set before, or a '
        'converter moved to another registry or back')
ASSUMPTIONS = ['the known names are ScoreRegistry and Network (getScoreIds)']

ADDR = weighted((5, sampled(['net', 'reg', 'reg2', 'T1', 'V1', 'wallet'])), (1, sampled(gen.ADDRS)), (1, st.none()))
NAME = weighted((3, st.just('ScoreRegistry')), (3, st.just('Network')),
                (1, sampled(['', 'Other', 'network', 'NETWORK', 'Network ', ' Network', 'ScoreRegistry\x00', 'Networks',
                             'scoreregistry', 'é', '네트워크', 'Converter', '0', 'Net'])),
                (1, st.text(max_size=12)))


def ops():
    who = sampled(['@owner', '@owner', '@owner', '@owner', 'mallory', '@newowner', 'V1'])
    reg = weighted((3, st.just('reg')), (1, st.just('reg2')))

    def call(t, m, a, w=who):
        return st.tuples(st.just('call'), w, t, st.just(m), a).map(list)
    register = call(reg, 'registerAddress', st.tuples(NAME, ADDR).map(list))
    unregister = call(reg, 'unregisterAddress', st.tuples(NAME).map(list))
    point = st.tuples(sampled(REGS), weighted((4, sampled(REGS)), (1, sampled(['T1', 'net', 'wallet'])))).map(
        lambda p: ['call', '@owner', p[0], 'registerAddress', ['ScoreRegistry', p[1]]])
    conv = sampled(CONVS)
    nobody = st.just([])
    update = call(conv, 'updateRegistry', nobody, sampled(['mallory', 'alice', '@owner', '@manager', 'wallet', 'wallet']))
    restore = call(conv, 'restoreRegistry', nobody, sampled(['@owner', '@manager', 'mallory', '@newowner', 'wallet']))
    allow = call(conv, 'disableRegistryUpdate', st.tuples(st.booleans()).map(list),
                 sampled(['@owner', '@manager', 'mallory']))
    move = st.tuples(sampled(REGS), conv, sampled(['mallory', 'alice', '@owner'])).map(
        lambda p: ['seq', ['call', '@owner', p[0], 'registerAddress', ['ScoreRegistry', 'reg2' if p[0] == 'reg' else 'reg']],
                   ['call', p[2], p[1], 'updateRegistry', []]])
    return weighted((4, register), (2, unregister), (2, point), (4, update), (2, restore), (2, allow), (3, move),
                    (1, hist.handover(REGS + ['V1'])), (1, hist.manager_handover()), (1, st.just(['restart'])),
                    (1, gen.convert_op(paths=gen.PATHS1)))


def start(w, mem):
    # the checker's own map
    mem['map'] = {r: {n: w.q(r, 'getAddress', n) for n in ('ScoreRegistry', 'Network')} for r in REGS}
    for r in REGS:
        require(mem['map'][r] == {'ScoreRegistry': w.addr[r], 'Network': w.addr['net']}, '{} resolves {} after deployment',
                r, mem['map'][r])
    ids = w.q('reg', 'getScoreIds')
    require(sorted(ids) == ['Network', 'ScoreRegistry'], 'known names are {}', ids)
    mem['names'] = {'ScoreRegistry', 'Network', 'Other', '', 'network'}
    mem['conv'] = {v: {'reg': 'reg', 'prev': 'reg', 'allow': True} for v in CONVS}


def monitor(w, x, mem):
    hist.unchanged(x)
    if x.kind == 'call' and x.target in REGS and x.method in ('registerAddress', 'unregisterAddress'):
        name = x.args[0]
        mem['names'].add(name)
        own = x.sender == x.pre['adm'][x.target]['owner']
        m = mem['map'][x.target]
        if x.method == 'registerAddress':
            a = w.a(x.args[1])
            valid = own and a is not None and a != w.addr['zero'] and a.is_contract and name in ('ScoreRegistry', 'Network')
            new = a
        else:
            valid = own and name in m and m[name] != w.addr['zero']
            new = w.addr['zero']
        require(x.receipt.ok == valid, '{}, but it must {}', x, 'succeed' if valid else 'fail')
        if valid:
            m[name] = new
        want = [(x.target, 'AddressUpdate', name, w.name(new))] if valid else []
        require(x.events == want, '{}: logged {}, expected {}', x, x.events, want)
    else:
        require(not [e for e in x.events if e[1] == 'AddressUpdate'], '{}: logged {}', x, x.events)
    for r in REGS:
        for name in mem['names']:
            got = w.oq(r, 'getAddress', name)
            want = mem['map'][r].get(name, w.addr['zero'])
            require(got == want, '{}: {} resolves {!r} to {}, expected {}', x, r, name, w.name(got), w.name(want))
    # converters
    if x.kind == 'call' and x.target in CONVS:
        a = x.pre['adm'][x.target]
        c = mem['conv'][x.target]
        if x.method == 'updateRegistry':
            known = mem['map'].get(c['reg'])
            new = w.name(known['ScoreRegistry']) if known else 'zero'
            valid = (c['allow'] or x.sender == a['owner']) and known is not None and new != 'zero' and new != c['reg']
            require(x.receipt.ok == valid, '{} (registry {} names {}, updates {}), but it must {}', x, c['reg'], new,
                    'allowed' if c['allow'] else 'disabled', 'succeed' if valid else 'fail')
            if valid:
                c['prev'], c['reg'] = c['reg'], new
        elif x.method == 'restoreRegistry':
            valid = x.sender in (a['owner'], a['manager'])
            require(x.receipt.ok == valid, '{}', x)
            if valid:
                c['reg'], c['allow'] = c['prev'], False
        elif x.method == 'disableRegistryUpdate':
            valid = x.sender in (a['owner'], a['manager'])
            require(x.receipt.ok == valid, '{}', x)
            if valid:
                c['allow'] = not x.args[0]
    for v in CONVS:
        b = x.post['adm'][v]
        got = {'reg': b['registry'], 'prev': b['prev'], 'allow': b['allow']}
        require(got == mem['conv'][v], '{}: {} has registry settings {}, expected {}', x, v, got, mem['conv'][v])


def interesting(x):
    if x.kind != 'call' or not x.receipt.ok:
        return False
    return x.method in ('updateRegistry', 'restoreRegistry', 'registerAddress', 'unregisterAddress') and x.pre != x.post


strategy, execute = hist.history(ops, monitor, nontrivial=interesting, min_size=8, max_size=30, start=start,
                                 cfg=lambda: gen.world_pool(12))
TESTS = [Test('registries', strategy, execute, quick=4000)]
