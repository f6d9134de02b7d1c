# -*- coding: utf-8 -*-
"""Generators (hypothesis strategies of JSON-able values) and their interpretation."""
import ast
import functools
import glob
import itertools
import json
import os

from hypothesis import strategies as st

import model
from world import ACTORS, CONNECTORS, CONV_OF, CONVS, EOAS, FLEX, FLEX_OF, TOKENS

ADDRS = EOAS + ['fresh', 'zero', 'cxnone'] + TOKENS + CONVS + ['net', 'reg', 'reg2'] + ACTORS
SENDERS = EOAS + ['fresh'] + TOKENS + CONVS + ['net', 'reg', 'reg2', 'wallet']
ROLES = ['@owner', '@owner', '@owner', '@owner', '@manager', '@newowner', '@newmanager']

def sampled(seq):
    return st.sampled_from(list(seq))


def weighted(*pairs):
    """one of the strategies, with probability proportional to its weight"""
    table = [i for i, (n, _) in enumerate(pairs) for _ in range(n)]
    strategies = [s for _, s in pairs]
    return st.sampled_from(table).flatmap(lambda i: strategies[i])


abs_amount = st.one_of(
    st.integers(0, 3), st.integers(0, 10 ** 6),
    st.builds(lambda m, e: m * 10 ** e, st.integers(1, 99), st.integers(0, 26)),
    st.integers(0, 2 ** 96))

# near a number that the code under test mentions
near_constant = st.tuples(st.just('c'), st.integers(0, 29999))

amount = weighted(
    (6, st.tuples(st.just('f'), st.integers(1, 1000))),
    (6, st.tuples(st.just('f'), st.integers(1, 30))),
    (2, st.tuples(st.just('a'), abs_amount)),
    (2, st.tuples(st.just('o'), st.integers(-2, 2))),
    (2, st.tuples(st.just('a'), st.integers(-3, 2))),
    (1, near_constant),
).map(list)

trade_amount = weighted(
    (10, st.tuples(st.just('p'), st.one_of(st.integers(1, 100), st.integers(1, 1000), st.integers(1, 5000)))),
    (4, st.tuples(st.just('f'), st.integers(1, 1000))),
    (2, st.tuples(st.just('a'), abs_amount)),
    (2, st.tuples(st.just('a'), st.integers(1, 1000))),
    (1, near_constant),
).map(list)


@functools.lru_cache(None)
def constants():
    """the whole numbers written in the contracts' source (and their powers), in order"""
    from chain import REPO
    found = {1000, 10 ** 6, 10 ** 18}
    for path in glob.glob(os.path.join(REPO, 'contracts', '**', '*.py'), recursive=True):
        try:
            with open(path, encoding='utf-8') as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError, ValueError):
            continue
        for node in ast.walk(tree):
            v = node.value if isinstance(node, ast.Constant) else None
            if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Pow, ast.LShift)):
                x, y = (k.value if isinstance(k, ast.Constant) else None for k in (node.left, node.right))
                if type(x) is int and type(y) is int and 0 <= x <= 1000 and 0 <= y <= 90:
                    v = x ** y if isinstance(node.op, ast.Pow) else x << y
            if type(v) is int and 3 < v < 10 ** 27:
                found.add(v)
    return sorted(found)


def resolve(amt, ref):
    kind, n = amt
    if kind == 'c':
        n, d = divmod(n, 3)
        known = [c for c in constants() if c > 128] if n % 4 else constants()
        return known[n // 4 % len(known)] + d - 1
    if kind == 'a':
        return n
    if kind == 'f':
        return ref * n // 1000
    return ref + n


ARG = {
    'addr': st.one_of(sampled(EOAS), sampled(ADDRS), st.just(None)),
    'tok': st.one_of(sampled(TOKENS), sampled(TOKENS), sampled(ADDRS)),
    'amt': amount,
    'flag': st.booleans(),
    'weight': st.one_of(sampled([0, 1, 100000, 300000, 500000, 999999, 1000000, 1000001, -1]),
                        st.integers(0, 300000), st.integers(0, 1100000)),
    'fee': st.one_of(sampled([0, 1, 30000, 30001, 100000, 999999, 1000000, 1000001, -1]), st.integers(0, 1000000),
                     st.builds(lambda d: ['maxfee', d], st.integers(-2, 2)),
                     st.builds(lambda d: ['maxfee', -d], st.integers(0, 30000))),
    'vbal': st.one_of(sampled([0, 1, 10 ** 18]), abs_amount),
    'name': sampled(['ScoreRegistry', 'Network', 'Network', 'Other', '', 'network', 'SCORE_REGISTRY']),
    'data': st.one_of(st.none(), sampled(['', 'None', 'conversionResult', 'x', '{}', '{"toToken":"cx0","minReturn":1}'])),
}


ACCEPTERS = {
    'acceptOwnerShip': weighted((3, st.just('@newowner')), (1, sampled(EOAS + ['@owner', '@owner', 'V1']))),
    'acceptManagement': weighted((3, st.just('@newmanager')), (1, sampled(EOAS + ['@owner', '@manager']))),
    'transfer': weighted((4, sampled(['owner', 'manager', 'alice', 'bob', 'mallory', 'wallet', 'catcher'])),
                         (1, sampled(SENDERS))),
    'withdraw': weighted((4, sampled(['owner', 'manager', 'alice', 'bob', 'mallory', 'wallet', 'catcher'])),
                         (1, sampled(SENDERS))),
}
ACCEPTERS['withdrawTo'] = ACCEPTERS['withdraw']


def call_op(targets_methods, senders=None):
    """-> strategy of ['call', sender, target, method, args]"""
    def args_for(tm):
        target, method = tm
        kinds = model.methods_of(target)[method]
        return st.tuples(*[ARG[k] for k in kinds]).map(list)
    who = senders if senders is not None else weighted((5, sampled(ROLES)), (2, sampled(EOAS)), (1, sampled(SENDERS)))
    by_tm = {tm: args_for(tm) for tm in set(targets_methods)}
    def of(tm):
        # an acceptance normally comes from the nominated account
        w = ACCEPTERS.get(tm[1], who) if senders is None else who
        return st.tuples(st.just('call'), w, st.just(tm[0]), st.just(tm[1]), by_tm[tm]).map(list)
    return sampled(targets_methods).flatmap(of)


def all_methods(targets, only=None):
    return [(t, m) for t in targets for m in sorted(model.methods_of(t)) if only is None or m in only]


def convertible(v):
    return CONNECTORS[v] + [FLEX_OF[v]]


def _paths():
    out = []
    for n in (1, 2, 3):
        for seq in itertools.permutations(CONVS, n):
            options = [[(a, b) for a in convertible(v) for b in convertible(v) if a != b] for v in seq]
            for combo in itertools.product(*options):
                if all(combo[i][1] == combo[i + 1][0] for i in range(n - 1)):
                    path = [combo[0][0]]
                    for v, (a, b) in zip(seq, combo):
                        path += [FLEX_OF[v], b]
                    out.append(path)
    return out


PATHS = _paths()
PATHS1 = [p for p in PATHS if len(p) == 3]


def convert_op(paths=None, senders=('alice', 'bob', 'mallory', 'alice', 'bob', 'mallory', 'owner'), min_return=None, who_for=None):
    """-> ['conv', sender, path, amount, minReturn, for, mode]"""
    paths = paths or PATHS
    return st.tuples(
        st.just('conv'), sampled(senders),
        st.one_of(sampled([p for p in paths if len(p) == 3] or paths), sampled(paths)),
        trade_amount,
        st.just(1) if min_return is None else min_return, st.none() if who_for is None else who_for, sampled(['token', 'icx'])).map(list)


def decode_arg(kind, value):
    if kind == 'data':
        return None if value is None else value.encode()
    return value


def resolve_call(w, s, op):
    """-> (sender, target, method, args(names), value)"""
    _, sender, target, method, args = op
    adm = s['adm']
    if sender.startswith('@'):
        a = adm.get(target, {})
        key = sender[1:]
        if key not in a and key in ('manager', 'newmanager'):
            key = {'manager': 'owner', 'newmanager': 'newowner'}[key]
        sender = a.get(key)
        if sender not in w.addr or sender == 'zero':
            sender = 'mallory'
    if sender == target:
        sender = 'wallet'       # no contract of the system calls itself from outside
    kinds = model.methods_of(target)[method]
    value = 0
    out = []
    for i, (k, x) in enumerate(zip(kinds, args)):
        if k == 'amt':
            ref = _reference(s, sender, target, method, out)
            out.append(resolve(x, ref))
        elif k == 'fee' and isinstance(x, list):
            out.append(adm[target]['maxfee'] + x[1])
        else:
            out.append(decode_arg(k, x))
    return sender, target, method, out, value


def _reference(s, sender, target, method, args):
    """the balance an amount argument is meant to be compared with"""
    bal = s['bal']
    if method == 'transfer':
        return bal[target][sender]
    if method in ('withdraw', 'withdrawTo'):
        return bal['IX'][sender]
    if method == 'destroy':
        return bal[target].get(args[0], 0)
    if method == 'issue':
        return s['sup'][target]
    if method == 'withdrawTokens':
        return bal.get(args[0], {}).get(target, 0)
    if method == 'withdrawFromToken':
        return bal.get(args[0], {}).get(s['adm'][target]['token'], 0)
    return 0


def real_args(w, target, method, args):
    kinds = model.methods_of(target)[method]
    out = []
    for k, x in zip(kinds, args):
        out.append(w.a(x) if k in ('addr', 'tok') else x)
    if method == 'transfer' and len(out) == 3 and out[2] is None and out[1] % 2 == 0:
        out.pop()       # the optional _data can be passed as null or left out
    return out


def path_data(w, path, min_return, who_for=None, extra=None):
    d = {'path': w.path(path), 'minReturn': min_return}
    if who_for is not None:
        d['for'] = str(w.addr[who_for])
    return json.dumps(d).encode()


def trade_size(w, path, amt, ref):
    """amount of a conversion: ['p', n] is n/1000 of the first converter's reserve of the sold token (of
    the supply for a sale), ['f', n] n/1000 of what the trader has, ['a', n] absolute; at most what he has"""
    kind, n = amt
    if kind == 'p':
        v = CONV_OF[path[1]]
        if path[0] == path[1]:
            base = w.oq(path[1], 'totalSupply')
        else:
            base = w.oq(v, 'getConnectorBalance', w.addr[path[0]])
        n = base * n // 1000
    else:
        n = resolve(amt, ref)
    return max(0, min(n, ref))


def run_convert(w, op, ref=None):
    """executes a ['conv', ...] op; -> (receipt, sender, path, amount, beneficiary, mode)"""
    _, sender, path, amt, min_return, who_for, mode = op
    if mode == 'icx' and path[0] != 'IX':
        mode = 'token'
    if ref is None:
        ref = w.icx(sender) if mode == 'icx' else w.bal(path[0], sender)
    if mode == 'icx':
        ref = min(ref, 10 ** 24)
    n = trade_size(w, path, amt, ref)
    if mode == 'icx':
        if who_for is None:
            r = w.tx(sender, 'net', 'convert', w.path(path), min_return, value=n)
        else:
            r = w.tx(sender, 'net', 'convertFor', w.path(path), min_return, w.addr[who_for], value=n)
    else:
        r = w.tx(sender, path[0], 'transfer', w.addr['net'], n, path_data(w, path, min_return, who_for))
    return r, sender, path, n, who_for or sender, mode


# -- world configurations ----------------------------------------------------
def pow10(lo, hi):
    return st.builds(lambda m, e: m * 10 ** e, st.integers(1, 9), st.integers(lo, hi))


def weights(n):
    def normalise(xs):
        total = sum(xs)
        if total > 1000000:
            xs = [max(1, x * 1000000 // total) for x in xs]
            while sum(xs) > 1000000:
                xs[xs.index(max(xs))] -= sum(xs) - 1000000
        return xs
    return st.lists(st.one_of(sampled([1000000 // n, 500000, 100000, 1000000, 333333]), st.integers(1000, 1000000)),
                    min_size=n, max_size=n).map(normalise)


def conv_cfg(v, virtual=True, active=None, fees=True, lo=9, hi=22):
    n = len(CONNECTORS[v])
    maxfee = sampled([0, 1000, 30000, 1000000])
    virt = st.lists(st.one_of(st.none(), st.none(), pow10(lo, hi)), min_size=n, max_size=n) if virtual \
        else st.just([None] * n)

    def build(w, mf, feef, vt, bal, sup, act):
        return {'w': w, 'maxfee': mf, 'fee': mf * feef // 10 if fees else 0, 'virt': vt, 'bal': bal, 'sup': sup,
                'active': act}
    return st.builds(build, weights(n), maxfee, sampled([0, 0, 1, 5, 10]), virt,
                     st.lists(pow10(lo, hi), min_size=n, max_size=n), pow10(lo, hi + 2),
                     sampled([True, True, True, True, False]) if active is None else st.just(active))


def world_cfg(**kw):
    return st.fixed_dictionaries({v: conv_cfg(v, **kw) for v in CONVS})


def world_pool(size=24, **kw):
    """a strategy picking from a pool of configurations drawn once per process
    (deployed once each, then cloned); the pool depends on the seed only"""
    import random
    rnd = random.Random(POOL_SEED)
    strategy = world_cfg(**kw)
    pool = draw_many(strategy, size, rnd.getrandbits(48))
    return sampled(pool)


POOL_SEED = 1


def draw_many(strategy, n, seed):
    """n examples of a strategy, outside of a search"""
    import hypothesis
    out = []

    def body(x):
        out.append(x)
    fn = hypothesis.given(strategy)(lambda x: body(x))
    fn = hypothesis.seed(seed)(fn)
    fn = hypothesis.settings(max_examples=n, database=None, deadline=None, phases=(hypothesis.Phase.generate,),
                             suppress_health_check=list(hypothesis.HealthCheck))(fn)
    fn()
    return out
