"""C19 tokens held by a contract leave it only by authorised withdrawal"""
import drive
import gen
import hist
import model
from core import first_diff, require
from gen import sampled, st, weighted
from runner import Test
from world import CONNECTORS, CONV_OF, CONVS, EOAS, FLEX, FLEX_OF, TOKENS, make_world

LEVEL = 'exploration'
RULE = ('a history is non-trivial when a withdrawal of a positive amount was accepted or was refused although the contract '
        'held the tokens; a single withdrawal is non-trivial when the contract held enough of the token')
ASSUMPTIONS = ['transactions are sent by users and by scripted contracts; contracts of the system act only when called']

HOLDERS = FLEX + ['IX', 'net'] + CONVS          # have withdrawTokens
KEEPERS = HOLDERS + ['T1', 'T2', 'reg', 'reg2']  # anything that can hold tokens
USERS = EOAS + ['fresh', 'wallet']


def who():
    return weighted((8, st.just('@owner')), (2, st.just('@manager')), (2, sampled(USERS)))


def part():
    return weighted((4, st.tuples(st.just('f'), st.integers(1, 1000))), (1, st.just(('f', 1000))),
                    (1, st.tuples(st.just('o'), st.integers(-1, 1))), (1, st.tuples(st.just('a'), st.integers(-2, 2))),
                    (1, gen.near_constant)).map(list)


def receiver():
    return weighted((4, sampled(EOAS + ['catcher', 'wallet'])), (1, gen.ARG['addr']))


def withdraw_op():
    direct = sampled(HOLDERS).flatmap(lambda c: st.tuples(
        st.just('call'), who(), st.just(c), st.just('withdrawTokens'),
        st.tuples(weighted((6, sampled(CONNECTORS[c] + ['IX'] if c in CONVS else TOKENS)), (3, sampled(TOKENS)),
                           (1, gen.ARG['tok'])), receiver(), part()).map(list)).map(list))
    via = sampled(CONVS).flatmap(lambda v: st.tuples(
        st.just('call'), who(), st.just(v), st.just('withdrawFromToken'),
        st.tuples(weighted((6, sampled([f for f in FLEX if f != FLEX_OF[v]])), (1, gen.ARG['tok'])), receiver(),
                  part()).map(list)).map(list))
    return weighted((3, direct), (1, via))


def ops():
    conv = gen.convert_op(who_for=weighted((3, st.none()), (1, sampled(['bob', 'wallet', 'V1', 'net', 'F1']))))
    give = st.tuples(st.just('call'), sampled(['alice', 'bob', 'owner']), sampled(TOKENS), st.just('transfer'),
                     st.tuples(sampled(KEEPERS), gen.amount, st.sampled_from([None, 'conversionResult'])).map(list)).map(list)
    burn = gen.call_op([(f, m) for f in FLEX for m in ('issue', 'destroy')], weighted((4, st.just('@owner')), (1, sampled(USERS))))
    conn = sampled(CONVS).flatmap(lambda v: st.tuples(
        st.just('call'), st.just('@owner'), st.just(v), st.just('addConnector'),
        st.tuples(sampled(TOKENS), st.integers(1, 300000), st.booleans()).map(list)).map(list))
    own = hist.handover(['net', 'IX'] + CONVS)
    return weighted((6, withdraw_op()), (3, conv), (2, give), (1, burn), (2, hist.token_handover()), (1, conn), (1, own), (1, hist.managed()),
                    (1, drive.execute_op(ACTIONS)), (1, drive.program_op(ACTIONS)))


ACTIONS = drive.TOKEN_ACTIONS + [(c, 'withdrawTokens') for c in ('net', 'IX', 'V1', 'F1')] + [('V1', 'withdrawFromToken')] * 2


def authorised(x, keeper, t):
    """why `keeper` may hold less of t afterwards: None or the amount it may lose (True: any)"""
    adm = x.pre['adm']
    if x.sender == keeper:
        return True
    if x.kind == 'conv':
        path = x.conv[2]
        users = {adm[f]['owner'] for f in path[1::2]}
        return True if keeper in users and keeper in CONVS else None
    if x.kind == 'exec':
        a = x.target
        return True if a in (adm.get(keeper, {}).get('owner'), adm.get(t, {}).get('owner')) or (
            keeper in FLEX and adm[adm[keeper]['owner']]['owner'] == a
            if keeper in FLEX and adm[keeper]['owner'] in CONVS else False) else None
    if x.kind != 'call':
        return None
    if x.method == 'withdrawTokens' and x.target == keeper and x.sender == adm[keeper]['owner'] and x.args[0] == t:
        if keeper in CONVS and adm[keeper]['active'] and t in adm[keeper]['conns']:
            return None
        return x.args[2]
    if x.method == 'withdrawFromToken' and x.sender == adm[x.target]['owner'] and adm[x.target]['token'] == keeper \
            and x.args[0] == t:
        return x.args[2]
    if x.method == 'destroy' and x.target == t and x.args[0] == keeper and x.sender == adm[t]['owner']:
        return x.args[1]
    return None


def scripted(w):
    """some contract runs harness code when it is called"""
    return any(w.actor(a).program for a in ('catcher', 'wallet'))


def monitor(w, x):
    if x.kind == 'call' and x.method in ('withdrawTokens', 'withdrawFromToken'):
        drive.agree(x)
    for t in TOKENS:
        for keeper in KEEPERS:
            lost = x.pre['bal'][t][keeper] - x.post['bal'][t][keeper]
            if lost <= 0:
                continue
            require(x.receipt.ok, '{}: {} of {} lost by {} in a failed transaction', x, lost, t, keeper)
            may = authorised(x, keeper, t)
            if may is None and (x.kind == 'exec' or scripted(w)):
                # what the scripted contract did on the way is judged by the reference model
                require(x.pred is None or x.pred.ok is None or first_diff(x.pred.post['bal'], x.post['bal']) is None,
                        '{}: {} lost {} of {}', x, keeper, lost, t)
                if x.pred is not None and x.pred.ok:
                    continue
                adm = x.pre['adm']
                owners = {adm.get(c, {}).get('owner') for c in (keeper, t)}
                if keeper in FLEX and adm[keeper]['owner'] in CONVS:
                    owners.add(adm[adm[keeper]['owner']]['owner'])      # may use withdrawFromToken
                if owners & {'wallet', 'catcher'}:
                    continue
            require(may is not None, '{}: {} lost {} of {} without an authorised withdrawal', x, keeper, lost, t)
            if may is not True and not scripted(w):
                require(lost == may, '{}: {} lost {} of {}', x, keeper, lost, t)


def execute(case, stats):
    w = make_world(case['cfg'])
    h = drive.History(w, stats)
    good = False
    for op in hist.flatten(case['ops']):
        x = h.step(op)
        if x is None:
            continue
        hist.label(stats, x)
        monitor(w, x)
        if x.kind == 'call' and x.method in ('withdrawTokens', 'withdrawFromToken'):
            if x.receipt.ok:
                good = True
                stats.label('withdrawn from ' + ('an active converter' if x.target in CONVS and x.pre['adm'][x.target]['active']
                                                 else x.target[0] + '*'))
            elif x.args[0] in x.pre['bal'] and 0 < x.args[2] <= x.pre['bal'][x.args[0]].get(x.target, 0):
                good = True
                stats.label('refused although held')
        elif x.kind in ('conv', 'exec') and x.receipt.ok:
            good = True
    return good


# -- one withdrawal, every combination -------------------------------------------------------------
def single_strategy():
    return st.fixed_dictionaries({
        'cfg': gen.world_pool(24, lo=12, hi=27), 'active': st.booleans(), 'extra': st.booleans(),
        'switches': hist.circumstances(3), 'op': withdraw_op(), 'give': sampled([None] + FLEX), 'act': sampled([None, 'again', 'again', 'spend'])})


def single(case, stats):
    w = make_world(case['cfg'])
    _, sender, c, method, args = case['op']
    v = c if c in CONVS else None
    if v:
        if case['extra']:
            # a connector the converter got later is locked just the same
            hist.set_active(w, v, False)
            left = 1000000 - sum(w.q(v, 'getConnector', w.addr[k])['weight'] for k in CONNECTORS[v])
            new = [t for t in TOKENS if t not in CONNECTORS[v] + [FLEX_OF[v]]]
            if left > 0:
                w.must('owner', v, 'addConnector', w.addr[new[left % len(new)]], 1, False)
        hist.set_active(w, v, case['active'])
    if case['give'] is not None:
        # a token that is not a connector reaches the contract
        f = case['give']
        was = w.q(CONV_OF[f], 'isActive')
        hist.set_active(w, CONV_OF[f], False)
        w.must(w.name(w.q(f, 'getOwner')), f, 'issue', w.addr[c if c != f else 'net'], 10 ** (15 + 4 * (len(args[1] or '') % 4)))
        hist.set_active(w, CONV_OF[f], was)
    h = drive.History(w, stats)
    hist.prepared(w, h, case['switches'])
    tok = args[0]
    keeper = FLEX_OF[v] if method == 'withdrawFromToken' else c
    if case['act'] and args[1] in ('catcher', 'wallet'):
        # the receiver uses the callback
        act = {'to': c, 'm': method, 'a': [tok, 'mallory', 1], 'v': 0, 'catch': True} if case['act'] == 'again' else \
            {'to': tok if tok in TOKENS else 'T1', 'm': 'transfer', 'a': ['bob', 1, None], 'v': 0, 'catch': True}
        h.prog(args[1], 'tokenFallback', [act], 1)
    x = h.step(case['op'])
    held = x.pre['bal'].get(x.args[0], {}).get(keeper, 0)
    drive.agree(x, events=True)
    monitor(w, x)
    if x.pred.ok is None and x.args[0] in ('wallet', 'catcher'):
        calls = [k for k in w.actor(x.args[0]).calls if k[0] == 'transfer']
        if x.receipt.ok:
            require(len(calls) == 1 and calls[0][1] == w.addr[keeper] and list(calls[0][3][:2]) == [w.a(x.args[1]), x.args[2]],
                    '{}: the token received {}', x, calls)
    hist.label(stats, x)
    stats.label('{} {}'.format('withdrawn' if x.receipt.ok else 'refused', 'active' if v and x.pre['adm'][v]['active'] else ''))
    return 0 < x.args[2] <= held


TESTS = [Test('histories', lambda: hist.cases(ops(), gen.world_pool(20, lo=13, hi=22), 6, 22), execute, quick=1300),
         Test('single', single_strategy, single, quick=2600)]
