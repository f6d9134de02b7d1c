"""C18 event logs report exactly what happened"""
import json

import convs
import drive
import gen
import hist
import model
from core import require
from gen import sampled, st, weighted
from runner import Test
from world import CONVS, FLEX, FLEX_OF, CONV_OF, OWNED, REGS, TOKENS, make_world

LEVEL = 'exploration'
RULE = ('a history is non-trivial when a transaction that logs at least one event succeeded and all its logs were compared '
        'with the state change; distinct = distinct histories')
ASSUMPTIONS = ['events are compared as a multiset; their order within a transaction is not specified',
               'data of the inner transfer to a converter is compared after parsing it']


def ops():
    conv = gen.convert_op(who_for=weighted((3, st.none()), (2, sampled(['bob', 'fresh', 'wallet', 'catcher', 'owner']))))
    token = gen.call_op(gen.all_methods(TOKENS, {'transfer', 'withdraw', 'withdrawTo', 'issue', 'destroy', 'deposit'}))
    admin = gen.call_op(gen.all_methods(OWNED))
    fee = sampled(CONVS).flatmap(lambda v: st.integers(0, 40000).map(lambda f: ['call', '@owner', v, 'setConversionFee', [f]]))
    sw = sampled(CONVS).flatmap(lambda v: st.booleans().map(lambda f: ['call', '@owner', v, 'disableConversions', [f]]))
    reg = st.tuples(sampled(REGS), sampled(['Network', 'ScoreRegistry']), sampled(['net', 'reg', 'reg2', 'T1'])).map(
        lambda p: ['call', '@owner', p[0], 'registerAddress', [p[1], p[2]]])
    own = sampled(CONVS).flatmap(lambda v: sampled([
        ['seq', ['call', '@owner', v, 'transferTokenOwnership', ['owner']],
         ['call', '@newowner', FLEX_OF[v], 'acceptOwnerShip', []]],
        ['seq', ['call', '@owner', FLEX_OF[v], 'transferOwnerShip', [v]],
         ['call', '@owner', v, 'acceptTokenOwnership', []]]]))
    return weighted((6, conv), (3, token), (2, admin), (1, fee), (1, sw), (1, reg), (1, own), (1, hist.handover(OWNED)),
                    (1, hist.manager_handover()), (1, hist.managed()), (1, hist.undone(OWNED)), (1, drive.send_op), (1, drive.program_op()), (1, drive.execute_op()))


def norm(e):
    """event with converter request data parsed"""
    if e[1] == 'Transfer' and isinstance(e[-1], bytes) and b'toToken' in e[-1]:
        d = json.loads(e[-1])
        return e[:-1] + (tuple(sorted((k, str(v)) for k, v in d.items())),)
    return e


def expected_conversion(w, before, x):
    """the events of a successful conversion, from the states around it"""
    _, sender, path, n, who, mode = x.conv
    pre, post = x.pre, x.post
    out = []
    if mode == 'icx':
        out += [('net', 'ICXTransfer', 'net', 'IX', n), ('IX', 'Issuance', n), ('IX', 'Transfer', 'IX', 'net', n, b'None')]
    else:
        out.append((path[0], 'Transfer', sender, 'net', n, None))
    amount = n
    for i in range(1, len(path), 2):
        frm, flex, to = path[i - 1:i + 2]
        v = pre['adm'][flex]['owner']
        flex = pre['adm'][v]['token']
        q = convs.quote(before, v, frm, to, amount)
        require(q is not None, '{} succeeded but step {} has no quote', x, i)
        got, fee = q['amount'], q['fee']
        data = tuple(sorted({'toToken': str(w.addr[to]), 'minReturn': '1'}.items()))
        out.append((frm, 'Transfer', 'net', v, amount, data))
        if to == flex:
            out += [(flex, 'Issuance', got), (flex, 'Transfer', flex, 'net', got, b'None')]
        else:
            if frm == flex:
                out += [(flex, 'Destruction', amount), (flex, 'Transfer', v, flex, amount, b'None')]
            out.append((to, 'Transfer', v, 'net', got, b'conversionResult'))
        out.append((v, 'Conversion', frm, to, 'net', amount, got, fee))
        # the price after this step: the converter is used once, so what it is at the end
        for t in ([frm] if to == flex else [to] if frm == flex else [frm, to]):
            c = post['adm'][v]['conns'][t]
            balance = c['virtualBalance'] if c['isVirtualBalanceEnabled'] else post['bal'][t][v]
            out.append((v, 'PriceDataUpdate', t, post['sup'][flex], balance, c['weight']))
        amount = got
    last = path[-1]
    if pre['adm']['net']['icx:' + last]:
        out.append((last, 'Destruction', amount))
        if amount > 0:
            out.append((last, 'ICXTransfer', last, who, amount))
    else:
        out.append((last, 'Transfer', 'net', who, amount, b'None'))
    return out


def check_conversion(w, before, x):
    _, sender, path, n, who, mode = x.conv
    through = [x.pre['adm'][f]['owner'] for f in path[1::2]]
    if not set(through) <= set(CONVS) or len(set(through)) < len(through):
        return      # one converter twice (it owns two tokens): the price after each use is not observable from outside
    want = expected_conversion(w, before, x)
    if mode != 'icx':
        # the payload the sender attached
        data = [e for e in x.events if e[:5] == (path[0], 'Transfer', sender, 'net', n)]
        require(len(data) == 1 and b'path' in data[0][5], '{}: transfer to the network logged as {}', x, data)
        sent = json.loads(data[0][5])
        require(sent['path'] == w.path(path), '{}: logged payload {}', x, sent)
        want[0] = want[0][:-1] + (data[0][5],)
    got = [norm(e) for e in x.events]
    require(sorted(got, key=repr) == sorted(want, key=repr), '{}: logged {}, expected {}', x,
            [e for e in got if e not in want] or got, [e for e in want if e not in got] or want)


def execute(case, stats):
    w = make_world(case['cfg'])
    h = drive.History(w, stats)
    good = False
    for op in hist.flatten(case['ops']):
        if op[0] == 'conv' and op[5] in ('wallet', 'catcher'):
            w.actor(op[5]).program = {}     # a beneficiary that just takes the result
            h.programs.pop(op[5], None)
        before = w.clone() if op[0] == 'conv' else None
        x = h.step(op)
        if x is None:
            continue
        if not x.receipt.ok:
            require(not x.events, '{}: a failed transaction logged {}', x, x.events)
            continue
        if x.kind == 'conv':
            check_conversion(w, before, x)
            stats.label('conversion logs compared')
            good = True
        elif x.pred is not None and x.pred.ok:
            drive.agree(x, state=False, events=True)
            for e in x.events:
                stats.label('event ' + e[1])
                good = True
        replay_balances(x)
    return good


def replay_balances(x):
    """the Transfer / Issuance / Destruction logs alone explain every change of balance and supply"""
    for t in TOKENS:
        move = {}
        supply = 0
        for e in x.events:
            if e[0] != t:
                continue
            if e[1] == 'Issuance':
                supply += e[2]
            elif e[1] == 'Destruction':
                supply -= e[2]
        require(x.post['sup'][t] - x.pre['sup'][t] == supply, '{}: supply of {} changed by {}, logged {}', x, t,
                x.post['sup'][t] - x.pre['sup'][t], supply)
        minted = [e[2] for e in x.events if e[0] == t and e[1] == 'Issuance']
        burnt = [e[2] for e in x.events if e[0] == t and e[1] == 'Destruction']
        for e in x.events:
            if e[0] == t and e[1] == 'Transfer':
                frm, to, n = e[2], e[3], e[4]
                # a mint (burn) is logged as a transfer from (to) the token's own address
                if frm == t and n in minted:
                    minted.remove(n)
                else:
                    move[frm] = move.get(frm, 0) - n
                if to == t and n in burnt:
                    burnt.remove(n)
                else:
                    move[to] = move.get(to, 0) + n
        if t == 'IX':
            # a withdrawal is logged as Destruction and the ICX transfer it pays
            paid = [e for e in x.events if e[0] == 'IX' and e[1] == 'ICXTransfer']
            require(sum(e[4] for e in paid) == sum(e[2] for e in x.events if e[0] == 'IX' and e[1] == 'Destruction'),
                    '{}: ICX paid {} and destroyed amounts differ', x, paid)
            continue
        for holder in x.pre['bal'][t]:
            delta = x.post['bal'][t][holder] - x.pre['bal'][t][holder]
            require(delta == move.get(holder, 0), '{}: {} of {} changed by {}, logged {}', x, t, holder, delta,
                    move.get(holder, 0))


# -- configuration calls that change nothing --------------------------------------------------------
def quiet_strategy():
    return st.fixed_dictionaries({'cfg': gen.world_pool(8), 'v': sampled(CONVS),
                                  'flags': st.lists(st.booleans(), min_size=2, max_size=8)})


def quiet(case, stats):
    w = make_world(case['cfg'])
    v = case['v']
    now = True
    for disable in case['flags']:
        r = w.must('owner', v, 'disableConversions', disable)
        want = [] if now == (not disable) else [(v, 'ConversionsEnable', not disable)]
        require(w.events(r) == want, 'disableConversions({}) while enabled={} logged {}', disable, now, w.events(r))
        now = not disable
        require(w.q(v, 'isConversionsEnabled') == now, 'isConversionsEnabled is wrong after disableConversions({})', disable)
        for name, args in (('disableRegistryUpdate', (disable,)), ('disableTokenTransfers', (disable,))):
            if name == 'disableTokenTransfers' and not w.q(v, 'isActive'):
                continue
            r = w.must('owner', v, name, *args)
            require(w.events(r) == [], '{} logged {}', name, w.events(r))
    return True


TESTS = [Test('histories', lambda: hist.cases(ops(), gen.world_pool(20, lo=13, hi=20), 6, 22), execute, quick=1800),
         Test('switches', quiet_strategy, quiet, quick=300)]
