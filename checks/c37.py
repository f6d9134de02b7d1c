"""C37 prices follow from supply, balances, weights and fee alone"""
import bancor
import convs
import drive
import gen
import hist
import shape
from core import require
from gen import sampled, st, weighted
from runner import Test
from world import CONVS, FLEX_OF, TOKENS, make_world

LEVEL = 'exploration'
RULE = ('a case is non-trivial when a positive price was compared with the exact value computed from what the getters report, '
        'after at least one trade or administrative operation')
ASSUMPTIONS = ['exact values are computed with mpmath at 130 digits, with the precision C10 states for the formula',
               'beyond exponents of 16 only the documented 33-term series is required']
PPM = 10 ** 6


def size(kind, n, base):
    return base * n // 1000 if kind == 'p' else gen.resolve((kind, n), base)


# -- converters of any shape -------------------------------------------------------------------------
def shape_strategy():
    return st.fixed_dictionaries({
        'cfg': shape.cfgs(lo=3, hi=28), 'trades': shape.trade_ops(1, 5),
        'change': st.lists(st.one_of(
            st.tuples(st.just('fee'), st.integers(0, PPM)), st.tuples(st.just('virt'), st.integers(0, 5), gen.pow10(3, 28)),
            st.tuples(st.just('real'), st.integers(0, 5)), st.tuples(st.just('weight'), st.integers(0, 5), st.integers(1, PPM)),
            st.tuples(st.just('burn'), gen.pow10(0, 27))).map(list),
            max_size=3),
        'asks': st.lists(st.tuples(st.integers(0, 41), st.one_of(gen.trade_amount, st.tuples(st.just('p'), st.integers(1000, 10 ** 7)).map(list),
                                                               st.tuples(st.just('a'), gen.pow10(0, 30)).map(list))).map(list),
                         min_size=1, max_size=6)})


def facts(w):
    supply, conns = w.reserves()
    return supply, {t: c[:2] for t, c in zip(w.tokens, conns)}, w.q('C', 'getConversionFee')


def shape_trade(w, i, who, amt, stats, what):
    pairs = w.pairs()
    frm, to = pairs[i % len(pairs)]
    n = w.size(frm, amt, who)
    if n <= 0:
        return False
    supply, conns, fee = facts(w)
    why = w.why_not(frm, to, n)
    r, got = w.trade(who, frm, to, n)
    require(r.ok == (why is None), '{}: {} {} to {}: {} ({})', what, n, frm, to, r.error, why)
    if not r.ok:
        return False
    logged = [e for e in w.events(r) if e[0] == 'C' and e[1] == 'Conversion']
    require(len(logged) == 1 and logged[0][6] == got, '{}: delivered {}, logged {}', what, got, logged)
    stats.label('delivered')
    return bancor.price(f'{what}: delivery of {n} {frm} to {to}', supply, conns, fee, frm, to, n, 'G', (got, logged[0][7]))


def in_shape(case, stats):
    w = shape.make_shape(case['cfg'])
    good = changed = False
    for who, i, amt in case['trades'][:-1]:
        good = shape_trade(w, i, who, amt, stats, 'trade') or good
    for kind, *p in case['change']:
        t = w.tokens[p[0] % len(w.tokens)]
        if kind == 'fee':
            r = w.tx('owner', 'C', 'setConversionFee', p[0])
        elif kind in ('virt', 'real', 'weight'):
            d = w.q('C', 'getConnector', w.addr[t])
            weight = p[1] if kind == 'weight' else d['weight']
            r = w.tx('owner', 'C', 'updateConnector', w.addr[t], weight, kind == 'virt' or kind == 'weight' and d['isVirtualBalanceEnabled'],
                     p[1] if kind == 'virt' else d['virtualBalance'])
        else:
            r = w.tx('alice', 'G', 'destroy', w.addr['alice'], p[0])
        changed = changed or r.ok
        stats.label(f'{kind} {"done" if r.ok else "refused"}')
    supply, conns, fee = facts(w)
    pairs = w.pairs()
    for i, (kind, n) in case['asks']:
        frm, to = pairs[i % len(pairs)]
        n = size(kind, n, supply if frm == 'G' else conns[frm][0])
        if n <= 0:
            continue
        good = bancor.price(f'quote of {n} {frm} to {to}', supply, conns, fee, frm, to, n, 'G', w.quote(frm, to, n)) or good
        stats.label('quoted')
    who, i, amt = case['trades'][-1]
    good = shape_trade(w, i, who, amt, stats, 'last trade') or good
    return good and (changed or len(case['trades']) > 1)


# -- any history -------------------------------------------------------------------------------------
def history_strategy():
    op = weighted((4, gen.convert_op()), (2, hist.switch_op()), (1, gen.call_op(gen.all_methods(CONVS), st.just('@owner'))),
                  (1, gen.call_op(gen.all_methods(list(FLEX_OF.values()), ['destroy', 'issue', 'transfer']))), (1, hist.token_handover()),
                  (1, st.just(['restart'])))
    ask = st.tuples(sampled(CONVS), st.integers(0, 11), st.one_of(gen.trade_amount, st.tuples(st.just('p'), st.integers(1000, 10 ** 6)).map(list)))
    return st.fixed_dictionaries({'cfg': gen.world_pool(40), 'ops': st.lists(op, min_size=1, max_size=12),
                                  'asks': st.lists(ask.map(list), min_size=2, max_size=8)})


def in_history(case, stats):
    w = make_world(case['cfg'])
    h = drive.History(w, stats)
    done = False
    for op in hist.flatten(case['ops']):
        x = h.step(op)
        done = done or x is not None and x.receipt.ok
    s = h.state
    good = False
    for v, i, (kind, n) in case['asks']:
        f = FLEX_OF[v]
        # (an account that is no token can be a connector, but has no balance to price)
        toks = [t for t in s['adm'][v]['conns'] if t in TOKENS] + [f]
        pairs = [(a, b) for a in toks for b in toks if a != b]
        if not pairs:
            continue
        frm, to = pairs[i % len(pairs)]
        require(convs.quote(w, v, to, to, 10 ** 6) is None, '{} quotes {} for itself', v, to)
        supply = w.q(f, 'totalSupply')
        conns = {t: (w.q(v, 'getConnectorBalance', w.addr[t]), w.q(v, 'getConnector', w.addr[t])['weight']) for t in toks[:-1]}
        n = size(kind, n, supply if frm == f else conns[frm][0])
        if n <= 0:
            continue
        q = convs.quote(w, v, frm, to, n)
        q = None if q is None else (q['amount'], q['fee'])
        why = convs.step_reason(s, v, frm, to)
        what = f'{v}: quote of {n} {frm} to {to}'
        if why == 'conversions are disabled':       # (a quote may still be given)
            stats.label('conversions are disabled')
            if q is None:
                continue
        elif why is not None:
            require(q is None, '{}: {} although {}', what, q, why)
            stats.label('no price: ' + why)
            continue
        good = bancor.price(what, supply, conns, w.q(v, 'getConversionFee'), frm, to, n, f, q) or good
        stats.label('priced')
    return good and done


# -- many trades one after another -------------------------------------------------------------------
def long_strategy():
    small = st.one_of(gen.pow10(0, 20), st.tuples(st.just('p'), st.integers(1, 20)).map(list))
    return st.fixed_dictionaries({
        'cfg': shape.cfgs(lo=12, hi=26), 'start': st.integers(0, 41), 'times': sampled([40, 70, 110]),
        'amts': st.lists(small, min_size=1, max_size=3), 'who': sampled(['alice', 'alice', 'bob']), 'mix': st.booleans()})


def many_trades(case, stats):
    w = shape.make_shape(case['cfg'])
    pairs = w.pairs()
    done = 0
    for k in range(case['times']):
        # back and forth between two of the tokens, or around all of them
        frm, to = pairs[case['start'] % len(pairs)]
        if case['mix']:
            frm, to = pairs[(case['start'] + k) % len(pairs)]
        elif k % 2:
            frm, to = to, frm
        supply, conns, _ = facts(w)
        amt = case['amts'][k % len(case['amts'])]
        n = size(*amt, supply if frm == 'G' else conns[frm][0]) if isinstance(amt, list) else amt
        n = min(n, w.bal(frm, case['who']))
        done += bool(shape_trade(w, pairs.index((frm, to)), case['who'], ['a', n], stats, f'{k + 1}. trade'))
    return done > 20


TESTS = [Test('shapes', shape_strategy, in_shape, quick=6000), Test('histories', history_strategy, in_history, quick=4000),
         Test('many_trades', long_strategy, many_trades, quick=480)]
