"""C30 ICX sent to any contract is credited or refused"""
import drive
import gen
import hist
import model
from core import require
from gen import sampled, st, weighted
from runner import Test
from world import ACTORS, CONVS, FLEX, TOKENS, make_world

LEVEL = 'exploration'
RULE = ('a case is non-trivial when a positive amount of ICX was attached to a call of a contract of the system in at least '
        'three transactions or inner calls, at least one of which would succeed without the ICX')
ASSUMPTIONS = ['ICX is only moved by transactions and contract calls (block rewards, staking etc. do not exist here)']

CONTRACTS = TOKENS + CONVS + ['net', 'reg', 'reg2']
TAKES = {('IX', None), ('IX', 'deposit'), ('net', 'convert'), ('net', 'convertFor')}
READ = {'IX': ['totalSupply', 'name', 'getOwner'], 'net': ['getOwner', 'getNewOwner'], 'reg': ['getOwner', 'getScoreIds'],
        'reg2': ['getOwner'], 'T1': ['totalSupply', 'symbol'], 'T2': ['decimals']}
READ.update({f: ['totalSupply', 'getTransferPossibility', 'getOwner'] for f in FLEX})
READ.update({v: ['getToken', 'isActive', 'getConversionFee', 'getManager'] for v in CONVS})
CALLS = [(t, m) for t in CONTRACTS for m in sorted(model.methods_of(t))]
VALUE = weighted((3, st.integers(1, 10)), (2, gen.pow10(0, 22)), (1, st.just(0)))


def ops():
    # the method is called as it is called in earnest: ["pay", call, value]
    call = gen.call_op(CALLS, senders=weighted((5, st.just('@owner')), (3, sampled(['alice', 'bob', 'manager'])), (1, st.just('wallet')),
                                               (1, st.just('@newowner'))))
    pay = st.tuples(st.just('pay'), call, VALUE).map(list)
    plain = st.tuples(st.just('plain'), sampled(['alice', 'bob', 'wallet', 'owner']), sampled(CONTRACTS + ['IX', 'net'] * 3), VALUE).map(list)
    read = sampled(sorted((t, m) for t in READ for m in READ[t])).flatmap(
        lambda p: st.tuples(st.just('read'), sampled(['alice', 'wallet']), st.just(p[0]), st.just(p[1]), VALUE).map(list))
    deep = st.tuples(st.just('deep'), weighted((3, call), (1, plain)), VALUE).map(list)
    fallback = st.tuples(st.just('fallback'), sampled(['alice', 'wallet']), sampled(['net'] + CONVS), st.integers(0, 10 ** 9),
                         sampled(['conversionResult', '', 'x']), VALUE).map(list)
    icx = st.tuples(st.just('icx'), sampled(['alice', 'bob', 'owner']), weighted((5, sampled([p for p in gen.PATHS1 if p[0] == 'IX'])), (3, sampled([p for p in gen.PATHS if p[0] == 'IX'])), (1, sampled(gen.PATHS))),
                    weighted((6, st.tuples(st.just('p'), st.integers(1, 3000)).map(list)), (1, VALUE)),
                    weighted((3, st.none()), (2, sampled(['bob', 'fresh', 'catcher', 'rejecter', 'V1', 'IX', 'net']))),
                    sampled([1, 1, 1, 1, 1, 0, 10 ** 40]), sampled([False, False, True])).map(list)
    return weighted((5, pay), (2, plain), (1, read), (3, deep), (1, fallback), (3, icx), (1, hist.switch_op()),
                    (1, gen.convert_op()), (1, hist.handover(['net', 'IX', 'F1', 'V1'])))


def strategy():
    return hist.cases(ops(), cfg=gen.world_pool(8), min_size=4, max_size=16)


def holdings(w):
    return {h: w.icx(h) for h in w.holders}


def judge(w, before, supply, r, sender, what, value, takes):
    after = holdings(w)
    total = sum(after.values()) - sum(before.values())
    require(total == 0, '{}: {} ICX {}', what, abs(total), 'appeared' if total > 0 else 'disappeared')
    for c in CONTRACTS:
        if c != 'IX':
            require(after[c] == 0, '{}: {} holds {} ICX now', what, c, after[c])
    sup = w.q('IX', 'totalSupply')
    require(after['IX'] == sup, '{}: IX holds {} ICX for a supply of {}', what, after['IX'], sup)
    if not r.ok:
        require(after == before, '{}: failed, but ICX moved', what)
        require(sup == supply, '{}: failed, but the supply moved', what)
    elif value and not takes:
        require(False, '{}: took {} ICX', what, value)


def execute(case, stats):
    w = make_world(case['cfg'])
    h = drive.History(w, stats, predict=False)
    n = useful = 0
    for op in hist.flatten(case['ops']):
        before, supply = holdings(w), w.q('IX', 'totalSupply')
        kind = op[0]
        if kind == 'pay' or (kind == 'deep' and op[1][0] == 'call'):
            call, value = op[1], op[2]
            sender, t, m, args, _ = gen.resolve_call(w, h.state, call)
            if kind == 'deep':
                sender = 'wallet'
            real = gen.real_args(w, t, m, args)
            value = min(value, w.icx(sender))
            without = w.clone().tx(sender, t, m, *real)
            if kind == 'pay':
                r = w.tx(sender, t, m, *real, value=value)
                judge(w, before, supply, r, sender, f'{sender} -> {t}.{m}{tuple(args)} with {value} ICX', value, (t, m) in TAKES)
            else:
                r = through(w, t, m, real, value)
                judge(w, before, supply, r, 'alice', f'a contract calls {t}.{m}{tuple(args)} with {value} ICX', value, (t, m) in TAKES)
            if (t, m) == ('IX', 'deposit') and r.ok:
                who = sender
                require(w.q('IX', 'balanceOf', w.addr[who]) - h.state['bal']['IX'][who] == value,
                        '{} deposited {}, credited {}', who, value, w.q('IX', 'balanceOf', w.addr[who]) - h.state['bal']['IX'][who])
            if value:
                n += 1
                useful += without.ok
                stats.label(f'{kind} {t[0]}.{m}: ' + ('accepted' if r.ok else 'refused') + (' (works without ICX)' if without.ok else ''))
        elif kind == 'plain' or (kind == 'deep' and op[1][0] == 'plain'):
            src = op if kind == 'plain' else op[1]
            _, sender, t, value = src
            deep = kind == 'deep'
            sender = 'wallet' if deep else sender
            value = min(value, w.icx(sender))
            had = w.q('IX', 'balanceOf', w.addr[sender])
            r = through(w, t, None, (), value) if deep else w.chain.send_icx(w.addr[sender], w.addr[t], value)
            judge(w, before, supply, r, sender, f'{sender} sends {value} ICX to {t}', value, t == 'IX')
            if t == 'IX':
                require(r.ok and w.q('IX', 'balanceOf', w.addr[sender]) == had + value, '{} sent {} ICX to the ICX token, credited {} ({})',
                        sender, value, w.q('IX', 'balanceOf', w.addr[sender]) - had, r.error)
            n += value > 0
            useful += t == 'IX' and value > 0
            stats.label(f'send to {t[0]}: ' + ('accepted' if r.ok else 'refused'))
        elif kind == 'read':
            _, sender, t, m, value = op
            value = min(value, w.icx(sender))
            r = w.tx(sender, t, m, value=value)
            judge(w, before, supply, r, sender, f'{sender} -> {t}.{m}() with {value} ICX', value, False)
            n += value > 0
        elif kind == 'fallback':
            _, sender, t, amount, data, value = op
            value = min(value, w.icx(sender))
            r = w.tx(sender, t, 'tokenFallback', w.addr['alice'], amount, data.encode(), value=value)
            judge(w, before, supply, r, sender, f'{sender} -> {t}.tokenFallback(alice, {amount}, {data!r}) with {value} ICX', value, False)
            n += value > 0
        elif kind == 'icx':
            _, sender, path, value, who_for, limit, deep = op
            sender = 'wallet' if deep else sender
            if isinstance(value, list):
                value = max(1, w.q(gen.CONV_OF[path[1]], 'getConnectorBalance', w.addr['IX']) * value[1] // 1000) if path[0] == 'IX' else value[1]
            value = min(value, w.icx(sender))
            last = path[-1]
            to = who_for or sender
            registered = w.q('net', 'getIcxTokenRegistered', w.addr['IX'])
            had = w.q(last, 'balanceOf', w.addr[to])
            c = w.clone()
            quote = c.chain.query_receipt(c.addr['net'], 'getExpectedReturnByPath', c.path(path), value) if value else None
            m, args = ('convert', [w.path(path), limit]) if who_for is None else ('convertFor', [w.path(path), limit, w.addr[who_for]])
            r = through(w, 'net', m, args, value) if deep else w.tx(sender, 'net', m, *args, value=value)
            what = f'{sender} converts {value} ICX along {path} for {to}, at least {limit}'
            judge(w, before, supply, r, sender, what, value, path[0] == 'IX' and registered)
            if r.ok:
                require(value > 0, '{}: succeeded without ICX', what)
                after = holdings(w)
                if sender != to or last != 'IX':
                    require(before[sender] - after[sender] == value, '{}: cost {}', what, before[sender] - after[sender])
                if last == 'IX' and to != 'IX' and sender != to:
                    got = after[to] - before[to]
                    require(quote is None or not quote.ok or got == quote.ret, '{}: paid {} ICX, quoted {}', what, got, quote and quote.ret)
                if last != 'IX':
                    require(w.q(last, 'balanceOf', w.addr[to]) > had or to in ('IX',) or last in path[:1],
                            '{}: nothing arrived', what)
                useful += 1
            n += value > 0
            stats.label(f'convert ICX{" (contract)" if deep else ""}: ' + ('done' if r.ok else 'refused'))
        else:
            x = h.step(op)
            if x is not None:
                judge(w, before, supply, x.receipt, x.sender, str(x), 0, True)
            continue
        h.state = h.observe_fn()
    return n >= 3 and useful > 0


def through(w, t, m, real, value):
    """the same call made by a contract"""
    a = w.actor('wallet')
    a.budget = 50
    a.program['execute'] = {'acts': [{'to': w.addr[t], 'm': m, 'a': list(real), 'v': value, 'catch': False}]}
    return w.tx('alice', 'wallet', 'execute')


TESTS = [Test('payments', strategy, execute, quick=4800)]
