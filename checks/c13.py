"""C13 connector configuration stays consistent and follows conversions"""
import drive
import gen
import hist
import shape
from core import require
from gen import sampled, st, weighted
from runner import Test
from world import CONNECTORS, CONV_OF, CONVS, FLEX, FLEX_OF, TOKENS, make_world

LEVEL = 'exploration'
RULE = ('a history is non-trivial when a connector was added or updated, or a conversion went through a connector with '
        'virtual balance')
ASSUMPTIONS = ['a virtual balance set by the owner is taken as given, whatever its value']
CONFIG = {'addConnector', 'updateConnector', 'disableConnectorPurchases'}


def free_cfg():
    """configurations that leave room for more connectors"""
    def shrink(c, k):
        c = {key: dict(v) for key, v in c.items()}
        for v in CONVS:
            c[v]['w'] = [max(1, x // k) for x in c[v]['w']]
        return c
    return gen.world_pool(20).flatmap(lambda c: sampled([1, 4]).map(lambda k: shrink(c, k)))


def ops():
    who = sampled(['@owner', '@owner', '@owner', '@owner', 'mallory', '@manager'])
    weight = weighted((2, gen.ARG['weight']), (2, st.integers(1, 250000)),
                      (1, st.integers(-2, 2).map(lambda d: ['room', d])))
    vbal = weighted((1, gen.ARG['vbal']), (2, gen.pow10(12, 22)))

    def of(v):
        new = [t for t in TOKENS + ['wallet', 'catcher'] if t not in CONNECTORS[v] + [FLEX_OF[v]]]
        add = st.tuples(weighted((6, sampled(new)), (1, sampled(TOKENS)), (1, gen.ARG['addr'])), weight,
                        st.booleans()).map(list)
        conn = weighted((6, sampled(CONNECTORS[v])), (2, sampled(TOKENS)), (1, sampled(gen.ADDRS)))
        upd = st.tuples(conn, weight, st.booleans(), vbal).map(list)
        dis = st.tuples(conn, st.booleans()).map(list)

        def call(m, a):
            return st.tuples(st.just('call'), who, st.just(v), st.just(m), a).map(list)
        return weighted((3, call('addConnector', add)), (4, call('updateConnector', upd)),
                        (1, call('disableConnectorPurchases', dis)))
    config = sampled(CONVS).flatmap(of)
    own = sampled(CONVS).flatmap(lambda v: sampled([
        ['seq', ['call', '@owner', v, 'transferTokenOwnership', ['owner']],
         ['call', '@newowner', FLEX_OF[v], 'acceptOwnerShip', []]],
        ['seq', ['call', '@owner', FLEX_OF[v], 'transferOwnerShip', [v]],
         ['call', '@owner', v, 'acceptTokenOwnership', []]]]))
    other = gen.call_op(gen.all_methods(CONVS, {'withdrawTokens', 'transferTokenOwnership', 'setConversionFee',
                                                'disableConversions', 'restoreRegistry'}))
    give = sampled(CONVS).flatmap(lambda v: sampled(CONNECTORS[v]).flatmap(lambda t: gen.amount.map(
        lambda a: ['call', 'owner', t, 'transfer', [v, a, None]])))
    take = sampled(CONVS).flatmap(lambda v: st.tuples(sampled(CONNECTORS[v]), sampled(['alice', 'bob', 'wallet']), gen.amount).map(
        lambda a: ['call', '@owner', v, 'withdrawTokens', list(a)]))
    return weighted((6, config), (6, gen.convert_op()), (2, own), (1, other), (1, give), (2, take), (1, st.just(['restart'])))


def room(s, op):
    """['room', d]: d away from what the weights of the other connectors leave"""
    if op[0] != 'call' or op[3] not in CONFIG:
        return op
    v, args = op[2], list(op[4])
    if len(args) > 1 and isinstance(args[1], list):
        a = s['adm'][v]
        left = 10 ** 6 - sum(c['weight'] for t, c in a['conns'].items() if not (op[3] == 'updateConnector' and t == args[0]))
        args[1] = left + args[1][1]
    return op[:4] + [args]


def check_config(w, x):
    for v in CONVS:
        a = x.post['adm'][v]
        require(len(set(a['order'])) == len(a['order']), '{}: {} lists a connector twice: {}', x, v, a['order'])
        require(sorted(a['order']) == sorted(a['conns']), '{}: {} lists {}, knows {}', x, v, a['order'], a['conns'])
        for t in a['order']:
            require(t not in (a['token'], v, 'zero', None), '{}: {} has connector {}', x, v, t)
            c = a['conns'][t]
            require(bool(c) and c['isSet'] is True, '{}: connector {} of {} is {}', x, t, v, c)
            require(1 <= c['weight'] <= 10 ** 6, '{}: connector {} of {} has weight {}', x, t, v, c['weight'])
        total = sum(c['weight'] for c in a['conns'].values())
        require(total <= 10 ** 6, '{}: weights of {} add up to {}', x, v, total)
        for t in gen.ADDRS:
            if t not in a['conns'] and t in w.addr:
                require(w.oq(v, 'getConnector', w.addr[t]) == {}, '{}: {} knows {} which is not listed', x, v, t)
                if t in TOKENS:
                    r = w.chain.query_receipt(w.addr[v], 'getConnectorBalance', w.addr[t])
                    require(not r.ok, '{}: {} reports a connector balance of {} in {} which is no connector', x, v, r.ret, t)
        for t in a['order']:
            if t not in TOKENS:
                continue
            c = a['conns'][t]
            shown = w.oq(v, 'getConnectorBalance', w.addr[t])
            want = c['virtualBalance'] if c['isVirtualBalanceEnabled'] else x.post['bal'][t][v]
            require(shown == want, '{}: getConnectorBalance({}) of {} is {}, expected {}', x, t, v, shown, want)


def check_step(x, stats):
    good = False
    for v in CONVS:
        a, b = x.pre['adm'][v], x.post['adm'][v]
        mine = x.kind == 'call' and x.target == v and x.receipt.ok and x.method in CONFIG
        added = [t for t in b['order'] if t not in a['order']]
        gone = [t for t in a['order'] if t not in b['order']]
        require(not gone, '{}: connector {} of {} is gone', x, gone, v)
        if added:
            require(mine and x.method == 'addConnector' and added == [x.args[0]], '{}: {} got connector {}', x, v, added)
            require(x.pre['adm'][a['token']]['owner'] != v, '{}: connector added to an active converter', x)
            c = b['conns'][added[0]]
            require((c['weight'], c['isVirtualBalanceEnabled'], c['isPurchaseEnabled'], c['virtualBalance']) ==
                    (x.args[1], x.args[2], True, 0), '{}: connector is {}', x, c)
            stats.label('connector added')
            good = True
        for t in a['order']:
            ca, cb = a['conns'][t], b['conns'][t]
            if x.kind == 'conv' and x.receipt.ok and t in TOKENS and ca['isVirtualBalanceEnabled']:
                real = x.post['bal'][t][v] - x.pre['bal'][t][v]
                moved = cb['virtualBalance'] - ca['virtualBalance']
                require(moved == real, '{}: the virtual balance of {} in {} moved by {}, the real one by {}', x, t, v, moved,
                        real)
                if real:
                    stats.label('virtual balance ' + ('in' if real > 0 else 'out'))
                    good = True
                require({**ca, 'virtualBalance': 0} == {**cb, 'virtualBalance': 0}, '{}: connector {} changed from {} to {}',
                        x, t, ca, cb)
            elif ca != cb:
                require(mine and x.args[0] == t, '{}: connector {} of {} changed from {} to {}', x, t, v, ca, cb)
                good = good or x.method == 'updateConnector'
                stats.label('connector ' + x.method)
    return good


def execute(case, stats):
    w = make_world(case['cfg'])
    h = drive.History(w, stats)
    good = False
    for op in case['release'] + list(hist.flatten(case['ops'])):
        x = h.step(room(h.state, op))
        if x is None:
            continue
        hist.label(stats, x)
        hist.unchanged(x)
        check_config(w, x)
        good = check_step(x, stats) or good
        if x.kind == 'call' and x.method in CONFIG:
            drive.agree(x)
    return good


def strategy():
    def release(vs):
        return [op for v in vs for op in (['call', '@owner', v, 'transferTokenOwnership', ['owner']],
                                          ['call', '@newowner', FLEX_OF[v], 'acceptOwnerShip', []])]
    return st.fixed_dictionaries({
        'cfg': free_cfg(), 'release': st.lists(sampled(CONVS), max_size=2, unique=True).map(release),
        'ops': st.tuples(hist.circumstances(2), st.lists(ops(), min_size=6, max_size=24)).map(lambda p: p[0] + p[1])})


# -- converters of any shape ------------------------------------------------------------
def shape_strategy():
    return st.fixed_dictionaries({'cfg': shape.cfgs(), 'trades': shape.trade_ops()})


def shape_execute(case, stats):
    w = shape.make_shape(case['cfg'])
    pairs = w.pairs()
    done = False
    state = w.reserves()
    for who, i, amt in case['trades']:
        frm, to = pairs[i % len(pairs)]
        n = w.size(frm, amt, who)
        r, got = w.trade(who, frm, to, n)
        new = w.reserves()
        what = f'{who} converts {n} {frm} to {to}'
        if not r.ok:
            require(new == state, '{} (refused): reserves from {} to {}', what, state, new)
            continue
        supply = state[0] + (got if to == 'G' else 0) - (n if frm == 'G' else 0)
        require(new[0] == supply, '{}: the supply is {}, expected {}', what, new[0], supply)
        for t, (shown, weight, real, virt), a in zip(w.tokens, new[1], state[1]):
            moved = n if t == frm else -got if t == to else 0
            require(real - a[2] == moved, '{}: the balance of {} moved by {}, expected {}', what, t, real - a[2], moved)
            require(weight == a[1] and (virt is None) == (a[3] is None), '{}: connector {} from {} to {}', what, t, a, new[1])
            if virt is not None:
                require(virt - a[3] == moved, '{}: the virtual balance of {} moved by {}, the real one by {}', what, t, virt - a[3],
                        moved)
                if moved:
                    done = True
                    stats.label('virtual balance ' + ('in' if moved > 0 else 'out'))
            require(shown == (real if virt is None else virt), '{}: {} is shown as {}', what, t, shown)
        state = new
    return done


TESTS = [Test('any_shape', shape_strategy, shape_execute, quick=1000), Test('connectors', strategy, execute, quick=1600)]
