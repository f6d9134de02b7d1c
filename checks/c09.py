"""C09 trading can never extract value from a converter"""
import gen
import hist
import drive
import shape
from core import require
from gen import sampled, st, weighted
from mpmath import mp, mpf
from runner import Test
from world import CONV_OF, CONNECTORS, CONVS, FLEX_OF, make_world

LEVEL = 'exploration'
RULE = ('a case is non-trivial when at least one conversion was executed (the reserve relation was compared before and '
        'after it) or a round trip was completed')
ASSUMPTIONS = ['the reserve relation is evaluated with 100 decimal digits; a difference of one token unit is at least '
               '1e-40 of it', 'nobody but the trader trades during a round trip']
mp.dps = 100
EPS = mpf(10) ** -70


def cfg():
    return st.one_of(gen.world_pool(20, active=True), gen.world_pool(20, active=True, lo=12, hi=20),
                     gen.world_pool(12, active=True, lo=12, hi=18, fees=False))


def reserves(w, v):
    """(supply, [(balance, weight)]) or None when the converter is drained"""
    out = []
    for t in CONNECTORS[v]:
        b = w.oq(v, 'getConnectorBalance', w.addr[t])
        out.append((b, w.oq(v, 'getConnector', w.addr[t])['weight']))
    return w.oq(FLEX_OF[v], 'totalSupply'), out


def k(s):
    supply, conns = s
    if supply <= 0 or any(b <= 0 for b, _ in conns):
        return None
    return mp.log(supply) - sum(mpf(weight) / 1000000 * mp.log(b) for b, weight in conns)


def check_k(before, after, what):
    a, b = k(before), k(after)
    if a is None or b is None:
        return
    require(b <= a + EPS, '{}: supply/reserves went from {} to {} (log {} to {})', what, before, after,
            mp.nstr(a, 45), mp.nstr(b, 45))


def strategy():
    return st.fixed_dictionaries({
        'cfg': cfg(), 'rulers': hist.rulers(), 'ops': st.lists(gen.convert_op(), min_size=3, max_size=20)})


def execute(case, stats):
    w = make_world(case['cfg'])
    hist.settle(w, case['rulers'])
    done = 0
    state = {v: reserves(w, v) for v in CONVS}
    for op in case['ops']:
        r, sender, path, n, _, _ = gen.run_convert(w, op)
        new = {v: reserves(w, v) for v in CONVS}
        if r.ok:
            done += 1
            stats.label(f'{len(path) // 2} steps')
        for v in CONVS:
            check_k(state[v], new[v], f'{v} after {sender} converted {n} along {path}')
        state = new
    return done > 0


# -- round trips ----------------------------------------------------------------------------------
def holdings(w, who, tokens):
    return {t: w.bal(t, who) + (w.icx(who) if t == 'IX' else 0) for t in tokens}


def trade(w, who, path, n):
    if n <= 0:
        return False
    if path[0] == 'IX' and w.bal('IX', who) < n:
        return w.tx(who, 'net', 'convert', w.path(path), 1, value=n).ok
    return w.tx(who, path[0], 'transfer', w.addr['net'], n, gen.path_data(w, path, 1)).ok


def round_strategy():
    return st.fixed_dictionaries({
        'cfg': cfg(), 'rulers': hist.rulers(),
        'before': st.lists(gen.convert_op(), max_size=3),
        'path': weighted((2, sampled(gen.PATHS1)), (3, sampled(gen.PATHS))),
        'amt': gen.trade_amount,
        'parts': st.lists(st.integers(1, 999), max_size=3),
    })


def backwards(path):
    return list(reversed(path))


def round_execute(case, stats):
    w = make_world(case['cfg'])
    hist.settle(w, case['rulers'])
    for op in case['before']:
        gen.run_convert(w, op)
    path = case['path']
    if path[0] == path[-1]:
        return False
    n = gen.trade_size(w, path, case['amt'], w.bal(path[0], 'mallory'))
    start = holdings(w, 'mallory', [path[0], path[-1]])
    if not trade(w, 'mallory', path, n):
        stats.label('first trade refused')
        return False
    got = holdings(w, 'mallory', [path[-1]])[path[-1]] - start[path[-1]]
    back = backwards(path)
    left = got
    for permille in case['parts']:
        part = left * permille // 1000
        if trade(w, 'mallory', back, part):
            left -= part
    ok = trade(w, 'mallory', back, left)
    end = holdings(w, 'mallory', [path[0], path[-1]])
    gain = end[path[0]] - start[path[0]]
    require(gain <= 0, 'converting {} along {} and {} back in {} parts left {} more {}', n, path, got,
            len(case['parts']) + 1, gain, path[0])
    stats.label('round trip completed' if ok else 'way back refused')
    return ok


# -- any sequence on one converter ------------------------------------------------------------------
def sequence_strategy():
    return st.fixed_dictionaries({
        'cfg': cfg(), 'conv': sampled(CONVS),
        'trades': st.lists(st.tuples(st.integers(0, 11), gen.trade_amount).map(list), min_size=2, max_size=12)})


def sequence_execute(case, stats):
    w = make_world(case['cfg'])
    v = case['conv']
    f = FLEX_OF[v]
    tokens = CONNECTORS[v] + [f]
    pairs = [[a, f, b] for a in tokens for b in tokens if a != b]
    start = holdings(w, 'mallory', tokens)
    done = 0
    for i, amt in case['trades']:
        path = pairs[i % len(pairs)]
        n = gen.trade_size(w, path, amt, w.bal(path[0], 'mallory'))
        done += trade(w, 'mallory', path, n)

    def delta():
        now = holdings(w, 'mallory', tokens)
        return {t: now[t] - start[t] for t in tokens}
    for _ in range(2 * len(tokens)):
        d = delta()
        require(not (all(x >= 0 for x in d.values()) and any(x > 0 for x in d.values())),
                'trading only with {} left the trader with {}', v, d)
        up = [t for t in tokens if d[t] > 0]
        down = [t for t in tokens if d[t] < 0]
        if not up or not down:
            break
        if not any(trade(w, 'mallory', [a, f, b], d[a]) for a in up for b in down):
            break
    else:
        d = delta()
        require(not (all(x >= 0 for x in d.values()) and any(x > 0 for x in d.values())),
                'trading only with {} left the trader with {}', v, d)
    stats.label(f'{min(done, 6)}{"+" if done > 6 else ""} trades on one converter')
    return done > 1


# -- converters of any shape ------------------------------------------------------------
def shape_strategy():
    return st.fixed_dictionaries({'cfg': shape.cfgs(lo=6), 'trades': shape.trade_ops(), 'last': st.integers(0, 5)})


def shape_execute(case, stats):
    w = shape.make_shape(case['cfg'])
    pairs = w.pairs()
    toks = w.tokens + ['G']
    start = {t: sum(w.holding(t, x) for x in shape.TRADERS) for t in toks}

    def delta():
        return {t: sum(w.holding(t, x) for x in shape.TRADERS) - start[t] for t in toks}

    def kept():
        d = delta()
        require(not (all(x >= 0 for x in d.values()) and any(x > 0 for x in d.values())),
                'trading with a converter of {} left the traders with {}', case['cfg'], d)
        return d
    done = 0
    state = w.reserves()
    steps = [(who, pairs[i % len(pairs)], amt) for who, i, amt in case['trades']]
    for who, (frm, to), amt in steps:
        n = w.size(frm, amt, who)
        r, got = w.trade(who, frm, to, n)
        new = w.reserves()
        check_k(*[(s, [c[:2] for c in cs]) for s, cs in (state, new)], f'{n} {frm} to {to}')
        # linear shapes can be compared without logarithms: supply per reserve never grows
        if len(w.tokens) == 1 and case['cfg']['conns'][0]['w'] == 10 ** 6 and state[1][0][0] > 0 and new[1][0][0] > 0:
            require(new[0] * state[1][0][0] <= state[0] * new[1][0][0], '{} {} to {}: supply {} on {}, then {} on {}', n, frm, to,
                    state[0], state[1][0][0], new[0], new[1][0][0])
            stats.label('100 % converter')
        state = new
        if r.ok:
            done += 1
            kept()
    # and everything won is sold for what was spent
    for _ in range(2 * len(toks)):
        d = kept()
        up = [t for t in toks if d[t] > 0]
        down = [t for t in toks if d[t] < 0]
        moved = False
        for a in up:
            for b in down[case['last'] % len(down):] + down if down else []:
                held = [(x, min(d[a], w.bal(a, x))) for x in shape.TRADERS]
                moved = moved or any(n > 0 and w.trade(x, a, b, n)[0].ok for x, n in held)
        if not moved:
            break
    kept()
    stats.label(f'{len(w.tokens)} connectors: {min(done, 4)}{"+" if done > 4 else ""} trades')
    return done > 0


TESTS = [Test('any_shape', shape_strategy, shape_execute, quick=1600), Test('reserves', strategy, execute, quick=1200), Test('round_trip', round_strategy, round_execute, quick=1800),
         Test('one_converter', sequence_strategy, sequence_execute, quick=1400)]
