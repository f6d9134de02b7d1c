"""C22 read-only methods are pure"""
import checks.c16 as c16
import drive
import gen
import hist
import model
from chain import score_class
from core import first_diff, require
from gen import sampled, st, weighted
from runner import Test
from world import ACTORS, CONNECTORS, CONVS, FLEX, FLEX_OF, REGS, TOKENS, make_world

LEVEL = 'exploration'
RULE = ('a case is non-trivial when at least three read-only calls answered (rather than refused their arguments) in a state '
        'reached by at least one successful transaction, each asked repeatedly, by different callers, as query, as transaction '
        'and from a contract')
ASSUMPTIONS = ['token contracts named in the arguments are those of the system (a hostile contract asked for a balance can do '
               'what it likes with its own state)', 'the magnitude argument of getFinalAmount is between 0 and 6 (documented: 1 or 2)']

KIND = {**{t: 'irc_token' for t in ('T1', 'T2')}, 'IX': 'icx_token', **{f: 'flexible_token' for f in FLEX}, 'net': 'network',
        **{v: 'converter' for v in CONVS}, **{r: 'score_registry' for r in REGS}}

# what README and the docstrings offer to be read
OWNED = ['getOwner', 'getNewOwner']
IRC = ['name', 'symbol', 'decimals', 'totalSupply', 'balanceOf']
GETTERS = {
    'irc_token': IRC, 'icx_token': IRC + OWNED, 'flexible_token': IRC + OWNED + ['getFlexibleTokenVersion', 'getTransferPossibility'],
    'network': OWNED + ['getExpectedReturnByPath', 'getIcxTokenRegistered'], 'score_registry': OWNED + ['getAddress', 'getScoreIds'],
    'converter': OWNED + ['getManager', 'getNewManager', 'getToken', 'isActive', 'isAllowRegistryUpdate', 'getPreviousRegistry',
                          'getRegistry', 'getConnectorTokenCount', 'getMaxConversionFee', 'getConversionFee', 'isConversionsEnabled',
                          'getConnectorAt', 'getConnector', 'getConnectorBalance', 'getReturn', 'getFinalAmount']}
QUOTES = ['getReturn', 'getReturn', 'getExpectedReturnByPath', 'getConnectorBalance', 'getFinalAmount', 'balanceOf']


def api(contract):
    return {x['name']: x for x in score_class(KIND[contract]).get_api() if x['type'] == 'function'}


def readonly(contract):
    return {n: x for n, x in api(contract).items() if x.get('readonly')}


def call_strategy(contract, method, inputs):
    size = weighted((3, st.integers(1, 10 ** 6)), (3, gen.pow10(6, 22)), (1, st.integers(-3, 3)), (1, st.integers(0, 2 ** 200)))
    args = []
    own = CONNECTORS.get(contract, []) + ([FLEX_OF[contract]] if contract in CONVS else [])
    for i in inputs:
        t = i['type']
        if t == 'Address':
            args.append(weighted((5, sampled(own)), (1, sampled(gen.ADDRS))) if own else sampled(gen.ADDRS))
        elif t == 'str' and method == 'getExpectedReturnByPath':
            args.append(weighted((6, sampled(gen.PATHS).map(lambda p: ['path'] + p)), (1, sampled(['', 'x', 'cx0,cx1,cx2']))))
        elif t == 'str':
            args.append(sampled(['Network', 'ScoreRegistry', 'Other', '']))
        elif t == 'int' and i['name'] == '_index':
            args.append(st.integers(-1, 3))
        elif t == 'int' and i['name'] == '_magnitude':
            args.append(st.integers(0, 6))
        elif t == 'int':
            args.append(size)
        elif t == 'bool':
            args.append(st.booleans())
        else:
            args.append(sampled(['', 'x']).map(lambda x: ['bytes', x]))
    return st.tuples(st.just(contract), st.just(method), st.tuples(*args).map(list)).map(list)


def reads():
    table = [(c, m, x['inputs']) for c in KIND for m, x in sorted(readonly(c).items())]
    quotes = [e for e in table if e[1] in QUOTES]
    by = {(c, m): call_strategy(c, m, i) for c, m, i in table}
    return weighted((1, sampled(table)), (1, sampled(quotes or table))).flatmap(lambda e: by[(e[0], e[1])])


def ops():
    return weighted((5, gen.convert_op()), (3, gen.call_op(gen.all_methods(CONVS))),
                    (2, gen.call_op(gen.all_methods(TOKENS + ['net'] + REGS))), (1, hist.token_handover()),
                    (1, hist.handover(CONVS + FLEX)), (1, hist.switch_op()), (1, hist.managed()), (1, drive.send_op))


def strategy():
    return st.fixed_dictionaries({
        'cfg': gen.world_pool(20, lo=13, hi=20), 'before': st.lists(ops(), max_size=5),
        'reads': st.lists(reads(), min_size=3, max_size=10), 'inside': weighted((1, st.none()), (2, gen.convert_op())),
        'asker': sampled(['@owner', '@manager', 'alice', 'owner', 'manager', 'mallory', 'fresh', 'V1', 'net', 'F1', 'zero']),
        'after': st.lists(ops(), max_size=4)})


def plain(x):
    if isinstance(x, dict):
        return ('dict', tuple(sorted((k, plain(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return ('list', tuple(plain(v) for v in x))
    return type(x).__name__, str(x)


def args_of(w, args):
    out = []
    for x in args:
        if isinstance(x, list):
            out.append(w.path(x[1:]) if x[0] == 'path' else x[1].encode())
        else:
            out.append(w.addr[x] if isinstance(x, str) and x in w.addr else x)
    return out


def answer(r):
    return ('answer', plain(r.ret)) if r.ok else ('refused',)


def execute(case, stats):
    w = make_world(case['cfg'])
    h = drive.History(w, stats, predict=False)
    moved = False
    for op in hist.flatten(case['before']):
        x = h.step(op)
        moved = moved or (x is not None and x.receipt.ok)
    twin = w.clone()
    state = w.observe()
    data = w.chain.dump()
    c = w.chain
    answered = 0
    calls = [(w.addr[t], m, args_of(w, a), f'{t}.{m}{tuple(a)}') for t, m, a in case['reads']]
    contract_of = {f'{t}.{m}{tuple(a)}': t for t, m, a in case['reads']}

    def same(what):
        require(c.dump() == data, '{} changed the stored state', what)

    for to, m, args, what in calls:
        first = c.query_receipt(to, m, *args)
        a = answer(first)
        require(not first.logs, '{} as a query logged {}', what, first.logs)
        for asker in (case['asker'], 'bob', None):
            if asker and asker[0] == '@':
                roles = state['adm'].get(contract_of[what], {})
                asker = roles.get(asker[1:]) or roles.get('owner')
                asker = asker if asker in w.addr else 'owner'
            b = answer(c.query_receipt(to, m, *args, sender=w.addr[asker] if asker else None))
            require(b == a, '{} answers {} to {}, {} to another caller', what, b, asker, a)
        same(what)
        r = c.call(w.addr['bob'], to, m, *args)
        require(answer(r) == a, '{} answers {} in a transaction, {} as a query', what, answer(r), a)
        require(not r.logs, '{} in a transaction logged {}', what, r.logs)
        same(what)
        if a[0] == 'answer':
            answered += 1
        stats.label(f'{m}:{a[0]}')
    # from a contract, several times and around each other, within one transaction
    got = {}

    def inside(score, method, _):
        if method != 'execute':
            return
        for turn in range(2):
            for k, (to, m, args, what) in enumerate(calls):
                try:
                    ret = score._context.internal_call.other_external_call(score.address, to, m, tuple(args), {}, 0)
                    got.setdefault(k, []).append(('answer', plain(ret)))
                except drive_failures():
                    got.setdefault(k, []).append(('refused',))
    w.actor('wallet').on_call = inside
    try:
        r = w.tx('alice', 'wallet', 'execute')
    finally:
        w.actor('wallet').on_call = None
    require(r.ok and not r.logs, 'asking from a contract: {} {}', r.error, r.logs)
    same('asking from a contract')
    for k, (to, m, args, what) in enumerate(calls):
        a = answer(c.query_receipt(to, m, *args))
        require(got[k] == [a, a], '{} answers {} to a contract, {} as a query', what, got[k], a)
    if case['inside'] is not None:
        around(w, case['inside'], calls, stats)
        before_and_after(w, case['inside'], calls, stats)
    # the observable state is the same and so is everything that follows
    c.forget()
    require(w.observe() == state, 'reading changed the state: {}', first_diff(state, w.observe()))
    h1, h2 = drive.History(w, stats, predict=False), drive.History(twin, stats, predict=False)
    programs = {n: {} for n in ACTORS}
    programs['rejecter'] = {'tokenFallback': {'fail': True}, 'fallback': {'fail': True}}
    for op in hist.flatten(case['after']):
        c16.arm(w, programs)
        c16.arm(twin, programs)
        go = c16.resolved(twin, h2, op)
        a, b = go(w, None), go(twin, None)
        require((a.ok, plain(a.ret), w.events(a)) == (b.ok, plain(b.ret), twin.events(b)),
                '{} after read-only calls: {}, without them: {}', op, a, b)
        h1.state, h2.state = w.observe(), twin.observe()
        require(h1.state == h2.state, '{} after read-only calls: {}', op, first_diff(h2.state, h1.state))
        for to, m, args, what in calls:
            a, b = answer(c.query_receipt(to, m, *args)), answer(twin.chain.query_receipt(to, m, *args))
            require(a == b, '{} answers {} after an earlier answer was given, {} when asked for the first time', what, a, b)
    return moved and answered >= 3


def drive_failures():
    from iconservice.base.exception import IconServiceBaseException
    return (IconServiceBaseException, Exception)


def around(w, op, calls, stats):
    """a transaction during which a contract asks: the answers are those of that moment"""
    v = w.clone()
    got = []
    plain_twin = w.clone()

    def ask(score, method, _):
        if method != 'tokenFallback':
            return
        now = []
        for to, m, args, what in calls:
            try:
                now.append(('answer', plain(score._context.internal_call.other_external_call(
                    score.address, to, m, tuple(args), {}, 0))))
            except drive_failures():
                now.append(('refused',))
        got.append(now)
    op = op[:5] + ['wallet', 'token']       # the asking contract receives the result at the very end
    v.actor('wallet').on_call = ask
    r = gen.run_convert(v, op)[0]
    v.actor('wallet').on_call = None
    q = gen.run_convert(plain_twin, op)[0]
    require((r.ok, v.events(r)) == (q.ok, plain_twin.events(q)), '{} with read-only calls during it: {}, without: {}', op, r, q)
    if not r.ok or not got:
        return
    require(v.observe() == plain_twin.observe(), '{} with read-only calls during it: {}', op,
            first_diff(plain_twin.observe(), v.observe()))
    require(len(got) == 1, '{}: the beneficiary was called {} times', op, len(got))
    for (to, m, args, what), a in zip(calls, got[0]):
        b = answer(plain_twin.chain.query_receipt(to, m, *args))
        require(a == b, '{} answers {} at the end of a conversion and {} right after it', what, a, b)
    stats.label('asked during a conversion')


def before_and_after(w, op, calls, stats):
    """one transaction asks, converts and asks again: both answers are those of the moment"""
    path = op[2]
    if path[0] not in ('T1', 'T2', 'IX'):
        return
    v = w.clone()
    n = gen.trade_size(v, path, op[3], v.bal(path[0], 'wallet'))
    first = [answer(v.chain.query_receipt(to, m, *args)) for to, m, args, _ in calls]
    got = []

    def call(score, to, m, args):
        return score._context.internal_call.other_external_call(score.address, to, m, tuple(args), {}, 0)

    def ask(score):
        now = []
        for to, m, args, what in calls:
            try:
                now.append(('answer', plain(call(score, to, m, args))))
            except drive_failures():
                now.append(('refused',))
        got.append(now)

    def run(score, method, _):
        if method == 'execute':
            ask(score)
            call(score, v.addr[path[0]], 'transfer', (v.addr['net'], n, gen.path_data(v, path, 1)))
            ask(score)
    v.actor('wallet').on_call = run
    r = v.tx('alice', 'wallet', 'execute')
    v.actor('wallet').on_call = None
    if not r.ok:
        return
    last = [answer(v.chain.query_receipt(to, m, *args)) for to, m, args, _ in calls]
    for k, (_, _, _, what) in enumerate(calls):
        require(got[0][k] == first[k], '{} answers {} in a transaction, {} before it', what, got[0][k], first[k])
        require(got[1][k] == last[k], '{} answers {} after a conversion in the same transaction, {} after the transaction', what,
                got[1][k], last[k])
        if first[k] != last[k]:
            stats.label('answer changed within a transaction')


# -- everything documented can be read -------------------------------------------------------------
def documented(_tier):
    return [[c, m] for c in KIND for m in GETTERS[KIND[c]]]


def callable_as_query(case, stats):
    c, m = case
    a = api(c)
    require(m in a, '{} has no method {}', c, m)
    require(a[m].get('readonly'), '{}.{} is not declared read-only', c, m)
    w = make_world(None)
    f = FLEX_OF.get(c)
    named = {'_owner': w.addr['alice'], '_path': w.path(['T1', 'F1', 'IX']), '_icxToken': w.addr['IX'], '_scoreName': 'Network',
             '_index': 0, '_address': w.addr['IX'], '_connectorToken': w.addr[CONNECTORS.get(c, ['IX'])[0]], '_magnitude': 2,
             '_fromToken': w.addr[CONNECTORS.get(c, ['IX'])[0]], '_toToken': w.addr[f or 'F1'], '_amount': 10 ** 12}
    args = []
    for i in a[m]['inputs']:
        if i['name'] not in named:
            return False        # another parameter: nothing to ask with
        args.append(named[i['name']])
    for sender in (None, 'alice', 'owner'):
        r = w.chain.query_receipt(w.addr[c], m, *args, sender=w.addr[sender] if sender else None)
        require(r.ok, 'the query {}.{} failed: {}', c, m, r.error)
    return True


TESTS = [Test('generated', strategy, execute, quick=2800),
         Test('documented', None, callable_as_query, quick=0, enum=documented)]
