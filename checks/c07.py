"""C07 a conversion executes at the quoted price"""
import drive
import gen
import hist
import ladder
import shape
from core import Violation, require
from gen import sampled, st, weighted
from runner import Test
from world import CONV_OF, CONNECTORS, FLEX, make_world

LEVEL = 'exploration'
RULE = ('a case is non-trivial when a conversion with a positive quote was executed and its delivery compared with the '
        'quote; distinct = distinct (configuration, earlier trades, path, amount)')
ASSUMPTIONS = ['a quoted conversion may only be refused because a step returns 0, would deplete a connector, or the real '
               'balance behind a virtual one is too small (all stated in the converter documentation)']


def virtual_cfg():
    return gen.st.one_of(gen.world_pool(24, active=True), gen.world_pool(24, active=True, lo=14, hi=20))


def strategy():
    return st.fixed_dictionaries({
        'cfg': virtual_cfg(),
        'before': st.lists(gen.convert_op(), max_size=4), 'switches': hist.circumstances(3),
        'path': weighted((2, sampled(gen.PATHS1)), (3, sampled(gen.PATHS))),
        'amt': gen.trade_amount,
        'icx': st.booleans(), 'who': sampled(['alice', 'alice', 'owner', 'bob']),
        'fees': st.lists(st.integers(0, 1000), min_size=3, max_size=3),
    })


def query(w, to, method, *args, sender=None):
    return w.chain.query_receipt(w.addr[to], method, *args, sender=sender)


def quote(w, path, n):
    r = query(w, 'net', 'getExpectedReturnByPath', w.path(path), n)
    return r.ret if r.ok else None


def holding(w, token, who):
    """what counts as receiving `token`: the network pays ICX for a registered ICX token"""
    return w.bal(token, who) + (w.icx(who) if token == 'IX' else 0)


def convert(w, sender, path, n, icx):
    before = holding(w, path[-1], sender) - (n if path[-1] == path[0] else 0)
    if icx and path[0] == 'IX':
        r = w.tx(sender, 'net', 'convert', w.path(path), 1, value=n)
    else:
        if path[0] == 'IX' and w.bal('IX', sender) < n:
            w.must(sender, 'IX', 'deposit', value=n)
        r = w.tx(sender, path[0], 'transfer', w.addr['net'], n, gen.path_data(w, path, 1))
    got = holding(w, path[-1], sender) - before
    if path[-1] == 'IX' == path[0]:
        got = holding(w, 'IX', sender) - before
    return r, got


def owners_moved(w, path):
    """a token of the path is not controlled by its converter now"""
    return any(w.name(w.q(f, 'getOwner')) != CONV_OF[f] for f in path[1::2])


def refusal_explained(w, path, n, icx):
    """why a quoted conversion may be refused"""
    amount = n
    if icx and not w.q('net', 'getIcxTokenRegistered', w.addr['IX']):
        return 'the network ICX token not registered'
    if any(t in CONV_OF and not w.q(t, 'getTransferPossibility') for t in path[0::2]):
        return 'a token cannot be transferred'
    if any(not w.q(CONV_OF[f], 'isConversionsEnabled') for f in path[1::2]):
        return 'a converter is switched off'
    for i in range(1, len(path), 2):
        frm, flex, to = path[i - 1], path[i], path[i + 1]
        v = CONV_OF[flex]
        r = query(w, v, 'getReturn', w.addr[frm], w.addr[to], amount)
        if not r.ok:
            return f'step {i} has no quote'
        got = r.ret['amount']
        if got < 1:
            return f'step {i} returns nothing'
        if to != flex:
            balance = w.q(v, 'getConnectorBalance', w.addr[to])
            virtual = w.q(v, 'getConnector', w.addr[to])['isVirtualBalanceEnabled']
            if frm == flex:
                if not (got < balance or (got == balance and amount == w.q(flex, 'totalSupply'))):
                    return f'step {i} depletes the connector'
            elif got >= (balance - got if virtual else balance):
                return f'step {i} depletes the connector'
            if w.bal(to, v) < got:
                return f'step {i} exceeds the real balance'
        amount = got
    return None


def execute(case, stats):
    w = make_world(case['cfg'])
    trader = case['who']
    if trader == 'bob':     # manager of every converter
        for v in ('V1', 'V2', 'V3'):
            w.must('owner', v, 'transferManagement', w.addr['bob'])
            w.must('bob', v, 'acceptManagement')
    if case['switches']:
        hist.prepared(w, drive.History(w, stats, predict=False), case['switches'])
    for v, f in zip(('V1', 'V2', 'V3'), case['fees']):
        fee = case['cfg'][v]['maxfee'] * f // 1000
        if w.q(v, 'getConversionFee') != fee:
            w.tx(w.name(w.q(v, 'getOwner')), v, 'setConversionFee', fee)
    for op in case['before']:
        gen.run_convert(w, op)
    path = case['path']
    if owners_moved(w, path):
        return False
    icx = case['icx'] and path[0] == 'IX'
    ref = w.icx(trader) // 2 if icx else w.bal(path[0], trader)
    n = gen.trade_size(w, path, case['amt'], ref)
    kind = f'{len(path) // 2} steps'
    q = quote(w, path, n)
    # the same for everyone who asks
    for who in ('bob', 'net', 'owner', trader):
        r = query(w, 'net', 'getExpectedReturnByPath', w.path(path), n, sender=w.addr[who])
        require((r.ret if r.ok else None) == q, 'quote for {} along {} is {} for {}', n, path, r.ret, who)
    if len(path) == 3:
        r = query(w, CONV_OF[path[1]], 'getReturn', w.addr[path[0]], w.addr[path[2]], n)
        require((r.ret['amount'] if r.ok else None) == q or n == 0, 'getReturn says {}, the network {} for {} along {}',
                r.ret, q, n, path)
    w1 = w.clone()
    receipt, got = convert(w1, trader, path, n, icx)
    if not receipt.ok:
        stats.label(kind + ' refused')
        if q is not None and q > 0 and n > 0:
            why = refusal_explained(w, path, n, icx)
            require(why is not None, 'converting {} along {} was quoted {} but refused: {}', n, path, q, receipt.error)
            stats.label('refused: ' + why.split(' ', 2)[2])
        return False
    require(n > 0 and q is not None, 'converting {} along {} succeeded (delivering {}) without a quote', n, path, got)
    require(got == q, 'converting {} along {} delivered {}, quoted {}', n, path, got, q)
    require(not icx or receipt.ret == q, 'convert answers {}, quoted {}', receipt.ret, q)
    stats.label(kind + ' delivered')
    for i in range(1, len(path), 2):
        v, to = CONV_OF[path[i]], path[i + 1]
        virt = case['cfg'][v]['virt']
        conns = CONNECTORS[v]
        if any(virt[conns.index(t)] is not None for t in (path[i - 1], to) if t in conns):
            stats.label('virtual connector involved')
            break
    # independent of who converts
    w2 = w.clone()
    if holding(w2, path[0], 'bob') >= n and (path[0] != 'IX' or icx) and (icx or w2.bal(path[0], 'bob') >= n):
        r2, got2 = convert(w2, 'bob', path, n, icx)
        require(r2.ok and got2 == got, 'the same conversion by bob delivered {} instead of {} ({})', got2, got, r2.error)
    # step by step
    if len(path) > 3:
        w3 = w.clone()
        registered = w.q('net', 'getIcxTokenRegistered', w.addr['IX'])
        amount = n
        for i in range(1, len(path), 2):
            r3, amount = convert(w3, trader, path[i - 1:i + 2], amount, icx if i == 1 else path[i - 1] == 'IX' and registered)
            require(r3.ok, 'step {} of {} alone was refused: {}', i, path, r3.error)
        require(amount == got, 'step by step {} along {} delivers {}, at once {}', n, path, amount, got)
    return q > 0


# -- long chains ---------------------------------------------------------------------
def ladder_strategy():
    return st.fixed_dictionaries({
        'cfg': ladder.cfgs(),
        'start': st.integers(0, 5),
        'hops': st.integers(4, 10),
        'last': sampled(['x', 'b']),
        'form': sampled(['straight', 'wander', 'wander', 'closed']),
        'turns': st.lists(st.integers(0, 20), min_size=1, max_size=10),
        'amt': st.one_of(st.integers(1, 1000), gen.pow10(6, 22)),
    })


def ladder_execute(case, stats):
    w = ladder.make_ladder(case['cfg'])
    hops = min(case['hops'], w.n - case['start'])
    path = {'straight': lambda: ladder.walk(case['start'], 'x' * (hops - 1) + case['last']),
            'wander': lambda: ladder.wander(case['start'], case['hops'], case['turns']),
            'closed': lambda: ladder.closed(case['start'], hops)}[case['form']]()
    n = case['amt']
    r = query(w, 'net', 'getExpectedReturnByPath', w.path(path), n)
    q = r.ret if r.ok else None
    w1 = w.clone()
    before = w1.bal(path[-1], 'alice')
    receipt = w1.tx('alice', path[0], 'transfer', w1.addr['net'], n, gen.path_data(w1, path, 1))
    got = w1.bal(path[-1], 'alice') - before + (n if path[0] == path[-1] else 0)
    # step by step
    w2 = w.clone()
    amount = n
    for i in range(1, len(path), 2):
        b = w2.bal(path[i + 1], 'alice')
        step = w2.tx('alice', path[i - 1], 'transfer', w2.addr['net'], amount, gen.path_data(w2, path[i - 1:i + 2], 1))
        if not step.ok:
            amount = None
            break
        amount = w2.bal(path[i + 1], 'alice') - b
    require((got if receipt.ok else None) == amount, '{} along {} delivers {} at once, {} step by step ({})', n, path,
            got if receipt.ok else None, amount, receipt.error)
    if receipt.ok:
        require(got == q, '{} along {} delivered {}, quoted {}', n, path, got, q)
        stats.label(f'{len(path) // 2} hops')
    return receipt.ok


# -- converters of any shape ------------------------------------------------------------
def shape_strategy():
    return st.fixed_dictionaries({'cfg': shape.cfgs(), 'trades': shape.trade_ops()})


def shape_execute(case, stats):
    w = shape.make_shape(case['cfg'])
    pairs = w.pairs()
    done = False
    for who, i, amt in case['trades']:
        frm, to = pairs[i % len(pairs)]
        n = w.size(frm, amt, who)
        quote = w.quote(frm, to, n)
        seen = query(w, 'net', 'getExpectedReturnByPath', w.path([frm, 'G', to]), n)
        if quote is not None and n > 0:
            require(seen.ok and seen.ret == quote[0], 'getReturn quotes {} for {} {} to {}, the network {}', quote, n, frm, to,
                    seen.ret)
        why = None if quote is None else w.why_not(frm, to, n)
        r, got = w.trade(who, frm, to, n)
        what = f'{n} {frm} to {to}'
        if not r.ok:
            require(n == 0 or quote is None or why is not None, '{} was quoted {} but refused: {}', what, quote, r.error)
            continue
        require(n > 0 and quote is not None, '{} delivered {} without a quote', what, got)
        require(got == quote[0], '{} delivered {}, quoted {}', what, got, quote)
        done = True
        stats.label(f'{len(w.tokens)} connectors' + (', 100 %' if case['cfg']['conns'][0]['w'] == 10 ** 6 else ''))
    return done


TESTS = [Test('any_shape', shape_strategy, shape_execute, quick=1200), Test('quote', strategy, execute, quick=7000), Test('long_paths', ladder_strategy, ladder_execute, quick=1200)]
