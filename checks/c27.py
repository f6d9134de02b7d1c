"""C27 hostile contracts cannot take other parties' funds"""
import collections
import json

import drive
import gen
import hist
import model
from chain import score_class
from actors import Actor
from checks.c09 import check_k, reserves
from core import first_diff, require
from gen import sampled, st, weighted
from runner import Test
from world import CONNECTORS, CONV_OF, CONVS, EOAS, FLEX, FLEX_OF, TOKENS, make_world

LEVEL = 'exploration'
RULE = ('a case is non-trivial when, in a transaction of the attacker, code of an attacker contract was called '
        'by a contract of the system or called the system')
ASSUMPTIONS = ['the attacker controls an account, scripted contracts that pose as token, converter, flexible token, ICX token, '
               'registry or receiver, and its own deployments of the real contracts; it holds no role of the honest contracts',
               'honest converters have honest connectors (which tokens are connectors is the owner\'s decision)']

EVIL = ['wallet', 'catcher', 'EV', 'EW']                 # scripted contracts of the attacker
OWN = ['mallory'] + EVIL + ['FM', 'VM', 'netM', 'regM']   # everything the attacker controls
_READY = collections.OrderedDict()
BUDGET = 25


def prepare(cfg, inactive, extra_icx=10 ** 24):
    """the usual world with V<inactive> not owning its token, and the attacker's contracts next to it"""
    key = json.dumps([cfg, inactive], sort_keys=True)
    w = _READY.get(key)
    if w is None:
        w = make_world(cfg)
        w.addr = dict(w.addr)
        o, m, c = w.addr['owner'], w.addr['mallory'], w.chain
        for n in ('EV', 'EW'):
            w.addr[n] = c.install(Actor, m, tag=n)
            c.mint_icx(w.addr[n], extra_icx)
        w.addr['FM'] = c.install(score_class('flexible_token'), m, 'M', 'M', 10 ** 22, 0, tag='FM')
        w.addr['regM'] = c.install(score_class('score_registry'), m, tag='regM')
        w.addr['netM'] = c.install(score_class('network'), m, tag='netM')
        w.addr['VM'] = c.install(score_class('converter'), m, w.addr['FM'], w.addr['reg'], 1000000, w.addr['T1'], 400000,
                                 tag='VM')
        for t in ('IX', 'EV'):
            w.must('mallory', 'VM', 'addConnector', w.addr[t], 300000, t == 'EV')
        w.must('mallory', 'VM', 'updateConnector', w.addr['EV'], 300000, True, 10 ** 20)
        for t in ('T1', 'IX'):
            w.must('mallory', t, 'transfer', w.addr['VM'], 10 ** 20)
        w.must('mallory', 'FM', 'transferOwnerShip', w.addr['VM'])
        w.must('mallory', 'VM', 'acceptTokenOwnership')
        for n in EVIL:
            for t in TOKENS:
                have = w.bal(t, 'mallory') // 8
                if have:
                    w.must('mallory', t, 'transfer', w.addr[n], have)
        w.must('alice', 'T1', 'transfer', w.addr['netM'], 10 ** 18, b'conversionResult')
        w.names = {a: n for n, a in w.addr.items()}
        w.holders = [n for n in w.addr]
        if inactive:
            hist.set_active(w, inactive, False)
            # its token is held by an honest account in the meantime
            f = FLEX_OF[inactive]
            current = w.name(w.q(f, 'getOwner'))
            if current != 'owner':
                w.must(current, f, 'transferOwnerShip', o)
                w.must('owner', f, 'acceptOwnerShip')
        observe(w)
        _READY[key] = w
        if len(_READY) > 60:
            _READY.popitem(last=False)
    else:
        _READY.move_to_end(key)
    return w.clone()


def observe(w):
    s = w.observe_tokens()
    s['icx'] = w.observe_icx()
    s['adm'] = w.observe_admin()
    return s


# -- what the attacker may do ---------------------------------------------------------------------------
ANY = ['alice', 'bob', 'owner', 'net', 'V1', 'V2', 'V3', 'mallory', 'wallet', 'EV', 'EW', 'F1', 'IX', 'T1', 'VM', 'FM', 'fresh']
TARGETS = ['net', 'V1', 'V2', 'V3', 'F1', 'F2', 'F3', 'IX', 'T1', 'T2', 'reg', 'VM', 'netM', 'EV']


def attack_path():
    def mutate(path, changes):
        path = list(path)
        for at, n in changes:
            path[at % len(path)] = n
        return path
    pieces = sampled(['EV', 'EW', 'wallet', 'FM', 'EV', 'EV', 'T1', 'T2', 'IX', 'F1', 'F2', 'V1', 'VM', 'net'])
    mutated = st.builds(mutate, sampled(gen.PATHS), st.lists(st.tuples(st.integers(0, 6), pieces), max_size=3))
    # hop by hop: an honest or hostile flexible token between any tokens
    hop = st.tuples(sampled(['EV', 'EW', 'FM', 'F1', 'F2', 'F3', 'EV']), sampled(['T1', 'T2', 'IX', 'EV', 'F1', 'F2', 'FM']))
    chained = st.tuples(sampled(['T1', 'T2', 'IX', 'EV', 'F1']), st.lists(hop, min_size=1, max_size=3)).map(
        lambda x: [x[0]] + [n for h in x[1] for n in h])
    useful = sampled([['T1', 'EV', 'T2'], ['IX', 'EV', 'T1'], ['IX', 'EV', 'IX'], ['T1', 'EV', 'EW', 'F1', 'F1'], ['T1', 'EV', 'F1'],
                      ['T1', 'F1', 'F1', 'EV', 'T2'], ['EV', 'EW', 'T1'], ['EV', 'FM', 'T1'], ['T1', 'FM', 'FM'], ['FM', 'FM', 'IX'],
                      ['T1', 'FM', 'EV'], ['EV', 'EW', 'IX', 'F1', 'F1'], ['T2', 'EV', 'IX'], ['F1', 'EV', 'T1'], ['T1', 'EV', 'F2']])
    return weighted((2, mutated), (2, chained), (5, useful))


def size():
    return weighted((4, st.integers(1, 10 ** 9)), (4, gen.pow10(3, 20)), (2, sampled(['all', 'half', 'victim', 'over'])),
                    (1, st.integers(-2, 2)))


def least():
    return weighted((6, st.just(1)), (1, st.integers(0, 3)))


def request():
    return st.builds(lambda p, m, f: ['path', p, m, f], attack_path(), least(),
                     weighted((3, st.none()), (1, sampled(['mallory', 'wallet', 'EV'])), (1, sampled(ANY))))


def to_token():
    return st.tuples(st.just('to'), sampled(TOKENS + ['EV', 'FM']), least()).map(list)


def garbage():
    return weighted((3, sampled([['raw', 'conversionResult'], ['raw', ''], ['raw', 'None'], ['none']])),
                    (1, st.text(max_size=8).map(lambda t: ['raw', t])))


def move():
    """['send', token, to, amount, data]: tokens move to somebody with a payload"""
    convert = st.tuples(st.just('send'), sampled(TOKENS), st.just('net'), size(), request()).map(list)
    other = st.tuples(st.just('send'), sampled(TOKENS + ['FM']), sampled(ANY), size(), weighted((2, to_token()), (3, garbage()))).map(list)
    return weighted((3, convert), (1, other))


def forged():
    """['forge', target, from, amount, data]: pretends that a token was sent"""
    return weighted(
        (1, st.tuples(st.just('forge'), sampled(['net', 'net', 'netM']), sampled(ANY), size(), request()).map(list)),
        (2, st.tuples(st.just('forge'), sampled(['V1', 'V2', 'V3', 'VM']), sampled(['net', 'net', 'net', 'netM', 'owner', 'EV', 'alice']),
                      size(), to_token()).map(list)),
        (1, st.tuples(st.just('forge'), sampled(['net', 'V1', 'V2', 'V3', 'VM']), sampled(ANY), size(), garbage()).map(list)))


def buy():
    def icx_first(p, *rest):
        return ['icx', ['IX'] + p[1:]] + list(rest)
    return st.builds(icx_first, attack_path(), least(), weighted((2, sampled(['mallory', 'EV', 'wallet'])), (1, sampled(ANY))), size())


def _direct():
    honest = [t for t in TARGETS if t not in ('VM', 'netM', 'EV')]
    admin = [(t, m) for t in honest for m in sorted(model.methods_of(t))]
    plain = [(t, m) for t in TOKENS for m in ('transfer', 'withdraw', 'withdrawTo', 'deposit', 'destroy') if m in model.methods_of(t)]
    return weighted((1, drive.action(admin)), (2, drive.action(plain))).map(lambda a: ['act', a])


def burn():
    return st.tuples(st.just('burn'), size(), weighted((2, sampled(['mallory', 'EV', 'wallet', 'IX'])), (1, sampled(ANY)))).map(list)


def go():
    return st.tuples(st.just('run'), sampled(EVIL)).map(list)


def act():
    """[kind, ...]: one thing the attacker's code does"""
    return weighted((4, move()), (3, forged()), (2, buy()), (1, burn()), (2, _direct()), (1, go()))


def again():
    """spends from inside of a callback what is being spent already"""
    whole = sampled(['all', 'all', 'half', 'over'])
    who = sampled(['mallory', 'wallet', 'EV'])
    return weighted(
        (3, st.tuples(st.just('burn'), whole, who).map(list)),
        (2, st.tuples(st.just('send'), sampled(TOKENS), who, whole, st.just(['none'])).map(list)),
        (1, st.tuples(st.just('send'), sampled(TOKENS), st.just('net'), whole, request()).map(list)))


def start():
    """what the attacker's transaction does"""
    return weighted((6, move()), (1, forged()), (4, buy()), (1, burn()), (1, again()), (1, _direct()), (2, go()))


def acts(n, least=0):
    return st.lists(st.tuples(act(), weighted((4, st.just(True)), (1, st.just(False)))).map(list), min_size=least, max_size=n)


def number():
    return weighted((3, st.integers(0, 10)), (3, gen.pow10(0, 24)), (1, sampled([10 ** 30, 2 ** 255, -1])))


def behaviour():
    """[contract, method, behaviour]: what one scripted contract does when one of its methods is called"""
    who = sampled(['EV', 'EV', 'EW', 'wallet', 'catcher'])
    times = sampled([1, 1, 2, 3])

    def of(methods, **kw):
        return st.tuples(who, sampled(methods), st.fixed_dictionaries(dict(kw, times=times))).map(list)
    pay = st.tuples(st.integers(1, 10 ** 6), acts(1), acts(1)).map(lambda x: x[1] + [[['deliver', x[0]], True]] + x[2])
    return weighted(
        (5, of(['tokenFallback'], acts=pay)),
        (3, of(['tokenFallback', 'fallback', 'transfer', 'execute'], acts=acts(3, 1), fail=weighted((9, st.just(False)), (1, st.just(True))))),
        (2, of(['fallback', 'fallback', 'tokenFallback'], acts=st.lists(st.tuples(again(), st.just(True)).map(list), min_size=1, max_size=2))),
        (3, of(['balanceOf', 'totalSupply'], ret=number(), rets=st.lists(number(), max_size=3), acts=acts(1))),
        (2, of(['getOwner', 'getAddress'], ret=sampled(ANY + ['EV', 'EW', 'VM', 'V1', 'V2', 'zero']).map(lambda n: ['name', n]), acts=acts(1))),
        (1, of(['getReturn'], ret=number().map(lambda n: ['quote', n]), acts=acts(1))),
        (1, of(['deposit', 'withdrawTo', 'issue', 'destroy'], acts=acts(2))))


def attack():
    return st.fixed_dictionaries({'who': sampled(['mallory', 'mallory', 'mallory', 'EV', 'wallet']), 'do': start(),
                                  'deliver': sampled([0, 5, 10 ** 6, 10 ** 18]), 'grow': sampled([0, 1, 1000, 10 ** 18]),
                                  'scripts': st.lists(behaviour(), max_size=5)})


def strategy():
    return st.fixed_dictionaries({
        'cfg': gen.world_pool(10, lo=14, hi=21), 'inactive': sampled([None, 'V3', 'V3', 'V1']),
        'icx_token': weighted((5, st.none()), (1, sampled(['EV', 'T1']))),
        'ops': st.lists(weighted((6, attack()), (1, gen.convert_op(senders=('alice', 'bob')))), min_size=1, max_size=5)})


# -- resolution -------------------------------------------------------------------------------------------
def amount(w, s, k, token, holder, victim=None):
    if isinstance(k, int):
        return k
    have = s['icx'][holder] if token == 'icx' else s['bal'].get(token, {}).get(holder, 10 ** 18)
    if k == 'victim':
        return s['bal'].get(token, {}).get(victim or 'alice', 10 ** 18)
    return {'all': have, 'half': have // 2, 'over': have + 1}[k]


def data_of(w, p):
    if p[0] == 'none':
        return None
    if p[0] == 'raw':
        return p[1].encode()
    if p[0] == 'to':
        return json.dumps({'toToken': str(w.addr[p[1]]), 'minReturn': p[2]}).encode()
    return gen.path_data(w, p[1], p[2], p[3])


def lower(w, s, a, actor):
    """an act as a call: {'to','m','a','v'} with real addresses"""
    kind = a[0]
    if kind == 'send':
        _, tok, to, k, p = a
        first = p[1][0] if p[0] == 'path' else None
        if first in w.addr and first in TOKENS + ['FM'] and to == 'net':
            tok = first
        return {'to': w.addr[tok], 'm': 'transfer', 'a': [w.addr[to], amount(w, s, k, tok, actor, to), data_of(w, p)]}
    if kind == 'forge':
        _, to, frm, k, p = a
        return {'to': w.addr[to], 'm': 'tokenFallback', 'a': [w.addr[frm], amount(w, s, k, 'T1', frm, frm), data_of(w, p)]}
    if kind == 'icx':
        _, path, least, who, k = a
        v = max(0, amount(w, s, k, 'icx', actor, 'alice'))
        return {'to': w.addr['net'], 'm': 'convertFor', 'a': [w.path(path), least, w.addr[who]], 'v': min(v, s['icx'][actor])}
    if kind == 'burn':
        _, k, who = a
        return {'to': w.addr['IX'], 'm': 'withdrawTo', 'a': [amount(w, s, k, 'IX', actor, who), w.addr[who]]}
    if kind == 'run':
        return {'to': w.addr[a[1]], 'm': 'execute', 'a': []}
    d = drive.decode_actions(w, s, actor, [a[1]])[0]
    return drive.real_actions(w, [d])[0]


def value_of(w, x):
    if isinstance(x, list) and x[0] == 'name':
        return w.addr[x[1]]
    if isinstance(x, list) and x[0] == 'quote':
        return {'amount': x[1], 'fee': 0}
    return x


def arm(w, s, scripts, deliver=0, grow=0):
    for n in EVIL:
        a = w.actor(n)
        a.budget = BUDGET
        a.calls = []
        a.program = {}
        if deliver:
            a.program['tokenFallback'] = {'acts': [{'deliver': deliver}]}
        if grow:
            a.program['balanceOf'] = {'rets': [i * grow for i in range(10)], 'ret': 10 * grow}
    for n, method, e in scripts:
        w.actor(n).program[method] = {
            'ret': value_of(w, e.get('ret')), 'rets': [value_of(w, x) for x in e.get('rets', [])],
            'acts': [{'deliver': x[1]} if x[0] == 'deliver' else dict(lower(w, s, x, n), catch=c) for x, c in e.get('acts', [])],
            'fail': e.get('fail', False), 'times': e['times']}


# -- the oracle -------------------------------------------------------------------------------------------
def monitor(w, x, y, receipt, what):
    if not receipt.ok:
        require(x == y, 'the refused {} changed the state: {}', what, first_diff(x, y))
        return
    active = [v for v in CONVS if x['adm'][v]['active']]
    for h in w.holders:
        if h in OWN:
            continue
        for t in TOKENS:
            if h in active and t != FLEX_OF[h] or (h in active and t in x['adm'][h]['conns']):
                continue        # trades: judged below
            require(y['bal'][t][h] >= x['bal'][t][h], 'in {} {} lost {} {}', what, h, x['bal'][t][h] - y['bal'][t][h], t)
        if h != 'IX':
            require(y['icx'][h] >= x['icx'][h], 'in {} {} lost {} ICX', what, h, x['icx'][h] - y['icx'][h])
    require(y['icx']['IX'] == y['sup']['IX'], 'after {} the ICX token holds {} ICX for {} tokens', what, y['icx']['IX'], y['sup']['IX'])
    for t in TOKENS:
        for h in OWN:
            require(y['bal'][t][h] >= 0, 'in {} {} spent {} more than it had of {}', what, h, -y['bal'][t][h], t)
        require(sum(y['bal'][t].values()) - y['sup'][t] == sum(x['bal'][t].values()) - x['sup'][t],
                'after {} the balances of {} do not add up', what, t)
    # what an honest converter paid out, it paid in conversions at its price
    paid = {}
    for e in w.events(receipt):
        if e[1].split('(')[0] == 'Conversion' and e[0] in CONVS:
            v, _, frm, to, trader, n, got = e[:7]
            require(trader == 'net', '{}: {} converted for {}', what, v, trader)
            paid[v, frm] = paid.get((v, frm), 0) + n
            paid[v, to] = paid.get((v, to), 0) - got
    for v in active:
        for t in TOKENS:
            if t == FLEX_OF[v]:
                continue
            require(y['bal'][t][v] - x['bal'][t][v] >= paid.get((v, t), 0), 'in {} {} got {} {} less than its conversions say',
                    what, v, paid.get((v, t), 0) - (y['bal'][t][v] - x['bal'][t][v]), t)
    for f in FLEX:
        require(y['sup'][f] - x['sup'][f] <= -paid.get((CONV_OF[f], f), 0), 'in {} the supply of {} grew by {}', what, f,
                y['sup'][f] - x['sup'][f])
    # no role, no configuration
    a, b = x['adm'], y['adm']
    for c in b:
        for key in b[c]:
            if c in CONVS and key in ('registry', 'prev', 'conns'):
                continue        # updateRegistry is open to everybody; virtual balances follow conversions
            require(a[c][key] == b[c][key], 'in {} {} of {} went from {} to {}', what, key, c, a[c][key], b[c][key])
    for v in CONVS:
        for t, d in b[v]['conns'].items():
            for key in d:
                if key == 'virtualBalance' and (v, t) in paid:
                    continue
                require(a[v]['conns'][t][key] == d[key], 'in {} {} of connector {} of {} went from {} to {}', what, key, t, v,
                        a[v]['conns'][t][key], d[key])


def execute(case, stats, before=None):
    w = prepare(case['cfg'], case['inactive'])
    if before:
        before(w)
    if case['icx_token']:
        w.must('owner', 'net', 'registerIcxToken', w.addr[case['icx_token']], True)
    s = observe(w)
    ratio = {v: reserves(w, v) for v in CONVS}
    good = False
    for op in case['ops']:
        if isinstance(op, list):
            arm(w, s, [])
            gen.run_convert(w, op)
            s = observe(w)
            ratio = {v: reserves(w, v) for v in CONVS}
            continue
        arm(w, s, op['scripts'], op['deliver'], op['grow'])
        c = lower(w, s, op['do'], op['who'])
        value = c.get('v', 0)
        w.chain.calls = []
        try:
            if c['m'] is None:
                r = w.chain.send_icx(w.addr[op['who']], c['to'], min(value, w.icx(op['who'])))
            else:
                r = w.chain.call(w.addr[op['who']], c['to'], c['m'], *c['a'], value=value)
        finally:
            calls, w.chain.calls = w.chain.calls, None
        t = observe(w)
        what = f'the attack {op["who"]} -> {w.name(c["to"])}.{c["m"]}({", ".join(map(str, c["a"]))})'
        monitor(w, s, t, r, what)
        new = {v: reserves(w, v) for v in CONVS}
        for v in CONVS:
            if s['adm'][v]['active']:
                check_k(ratio[v], new[v], f'{v} in {what}')
        s, ratio = t, new
        inner = [(w.name(a), w.name(b), m) for a, b, m in calls]
        hostile = [i for i in inner if i[1] in EVIL and i[0] not in EVIL]
        entered = [i for i in inner if i[0] in EVIL and i[1] not in EVIL]
        good |= bool(hostile or entered)
        stats.label('{}: {}'.format(op['do'][0], 'succeeded' if r.ok else 'failed'))
        if r.ok:
            for i in {i[2] for i in hostile}:
                stats.label(f'hostile {i} called')
            for i in {(i[1] if i[1] in ('net', 'IX') else i[1][0] + '*', i[2]) for i in entered}:
                stats.label(f'hostile contract calls {i[0]}.{i[1]}')
            if any(e[1].split('(')[0] == 'Conversion' and e[0] in CONVS for e in w.events(r)):
                stats.label('with a conversion by an honest converter')
    return good


# -- requests that pretend to come from somebody else -------------------------------------------------------
HOLDERS = ['net', 'V1', 'V2', 'V3', 'reg', 'IX', 'F1']


def pretended():
    paths = weighted((5, sampled(gen.PATHS)), (1, attack_path()))
    few = weighted((4, st.integers(1, 10 ** 6)), (1, size()))
    req = st.builds(lambda p, m, f: ['path', p, m, f], paths, st.just(1), weighted((2, st.none()), (1, sampled(ANY))))
    names = sampled(['owner', 'owner', 'net', 'mallory', 'EV', 'alice', 'V1', 'F1', 'IX', 'T1', 'reg', 'fresh', 'zero'])
    to = st.tuples(st.just('to'), sampled(TOKENS), st.just(1)).map(list)
    return weighted((3, st.tuples(st.just('forge'), st.just('net'), names, few, req).map(list)),
                    (2, st.tuples(st.just('forge'), sampled(CONVS), names, few, to).map(list)))


def disguised():
    """the transaction, or the code of a contract the system calls in it"""
    direct = st.tuples(sampled(['mallory', 'mallory', 'EV', 'wallet']), pretended()).map(
        lambda x: {'who': x[0], 'do': x[1], 'deliver': 0, 'grow': 0, 'scripts': []})
    inner = st.tuples(sampled(EVIL), pretended(), sampled(['T1', 'T2', 'F1'])).map(
        lambda x: {'who': 'mallory', 'do': ['send', x[2], x[0], 1, ['none']], 'deliver': 0, 'grow': 0,
                   'scripts': [[x[0], 'tokenFallback', {'acts': [[x[1], True]], 'times': 1}]]})
    called = sampled(EVIL).flatmap(lambda n: pretended().map(
        lambda p: {'who': 'mallory', 'do': ['run', n], 'deliver': 0, 'grow': 0,
                   'scripts': [[n, 'execute', {'acts': [[p, True]], 'times': 1}]]}))
    return weighted((2, direct), (1, inner), (2, called))


def disguise_strategy():
    return st.fixed_dictionaries({
        'cfg': gen.world_pool(10, lo=14, hi=21), 'inactive': sampled([None, None, 'V3']), 'icx_token': st.none(),
        'stray': st.lists(st.tuples(sampled(HOLDERS), sampled(TOKENS), st.integers(1, 10 ** 7)).map(list), max_size=3),
        'rich': st.booleans(),
        'ops': st.lists(disguised(), min_size=1, max_size=8)})


def disguise(case, stats):
    """forged notices of payments to contracts that hold tokens, which the honest contracts must not spend"""
    def before(w):
        stray = [['net', t, 10 ** 7] for t in TOKENS] if case['rich'] else []
        for n, t, k in stray + case['stray']:
            w.tx('owner' if t in ('T1', 'T2') else 'alice', t, 'transfer', w.addr[n], k, b'conversionResult')
    return execute(case, stats, before)


TESTS = [Test('attacks', strategy, execute, quick=5000),
         Test('pretended payments', disguise_strategy, disguise, quick=4000)]
