"""C36 independent activities can be interleaved in any order"""
import drive
import gen
import hist
import model
from core import first_diff, require
from gen import sampled, st, weighted
from runner import Test
from world import CONNECTORS, CONV_OF, CONVS, FLEX_OF, make_world

LEVEL = 'exploration'
RULE = ('a case is non-trivial when at least three transactions of each of the two groups succeeded and the interleaving generated is '
        'neither of the two sequential orders')
ASSUMPTIONS = ['independent: the groups have different users, converters and flexible tokens; they share the plain and ICX tokens, '
               'the network and the registries, which neither of them configures']

# V2 trades F1, so V1 and V2 belong together
GROUPS = [{'people': ['alice', 'mallory', 'catcher'], 'convs': ['V1', 'V2'], 'flex': ['F1', 'F2'], 'fresh': 'fresh'},
          {'people': ['bob', 'manager', 'wallet'], 'convs': ['V3'], 'flex': ['F3'], 'fresh': 'cxnone'}]


def ops(g):
    group = GROUPS[g]
    people, convs, flex = group['people'], group['convs'], group['flex']
    tokens = ['T1', 'T2', 'IX'] + flex
    inside = people + convs + flex + ['owner', 'zero', 'T1', 'IX', 'net']
    paths = [p for p in gen.PATHS if all(f in flex for f in p[1::2]) and all(t in tokens for t in p[0::2])]

    def confine(op):
        """arguments that name somebody of the other group name somebody of this one"""
        if op[0] == 'seq':
            return ['seq'] + [confine(o) for o in op[1:]]
        if op[0] != 'call':
            return op
        args = [pick(x) if k in ('addr', 'tok') else x for k, x in zip(model.methods_of(op[2])[op[3]], op[4])]
        if op[3] in ('transfer', 'withdrawTo', 'issue', 'destroy') and args:
            args = [people[0] if x in ('owner', 'net', 'zero') else x for x in args]
        if op[3] in ('withdrawTokens', 'withdrawFromToken'):
            args[0] = args[0] if args[0] in tokens else tokens[0]
            args[1] = people[1] if args[1] in ('owner', 'net') else args[1]
        role = op[1].startswith('@') and op[2] not in ('T1', 'T2', 'IX')     # their owner belongs to neither group
        sender = op[1] if role or op[1] in people else people[0]
        return ['call', sender, op[2], op[3], args]

    def pick(x):
        return x if x in inside else people[sum(map(ord, x)) % 2] if isinstance(x, str) else x

    who = weighted((4, sampled(people)), (1, st.just('@owner')))
    own = weighted((5, st.just('@owner')), (1, st.just('@newowner')), (1, st.just('@manager')), (1, sampled(people)))
    conv = gen.convert_op(paths=paths, senders=people[:2], who_for=weighted((3, st.none()), (1, sampled(people + [group['fresh']]))))
    use = gen.call_op([(t, m) for t in ('T1', 'T2', 'IX') for m in ('transfer', 'withdraw', 'withdrawTo', 'deposit') if m in model.methods_of(t)] +
                      [(f, m) for f in flex for m in ('transfer', 'destroy', 'issue', 'disableTransfer')], senders=who)
    admin = gen.call_op([(t, m) for t in convs + flex for m in model.methods_of(t) if m != 'transfer'], senders=own)
    switch = hist.switch_op().filter(lambda op: all(o[2] in convs for o in hist.flatten([op]) if o[0] == 'call'))
    hand = weighted((2, hist.handover(convs + flex)), (1, hist.manager_handover()), (1, hist.token_handover())).filter(
        lambda op: all(o[2] in convs + flex for o in hist.flatten([op])))
    send = st.tuples(st.just('send'), sampled(people), sampled(['IX', 'IX', people[0]]), gen.amount).map(list)
    return weighted((5, conv), (4, use), (3, admin), (2, switch), (2, hand), (1, send)).map(confine)


def strategy():
    return st.fixed_dictionaries({'cfg': gen.world_pool(8), 'a': st.lists(ops(0), min_size=3, max_size=9), 'b': st.lists(ops(1), min_size=3, max_size=9),
                                  'order': st.lists(st.integers(0, 1), min_size=6, max_size=40)})


def run(w, sequence, stats):
    """-> the outcome of every transaction, by group"""
    h = drive.History(w, stats, predict=False)
    out = [[], []]
    for g, op in sequence:
        x = h.step(op)
        if x is not None:
            out[g].append((str(x).split(' -> ok')[0].split(' -> failed')[0] if x.receipt.ok else op, x.receipt.ok,
                           repr(x.receipt.ret) if x.receipt.ok else '', sorted(x.events, key=repr)))
    w.chain.forget()
    return out, w.observe(), drive.answers(w)


def execute(case, stats):
    a, b = ([(g, o) for o in hist.flatten(case[k])] for g, k in ((0, 'a'), (1, 'b')))
    mixed, rest = [], [list(a), list(b)]
    for g in case['order']:
        if rest[g]:
            mixed.append(rest[g].pop(0))
    mixed += rest[0] + rest[1]
    expected = run(make_world(case['cfg']), a + b, stats)
    for name, sequence in (('the other way round', b + a), ('interleaved', mixed)):
        got = run(make_world(case['cfg']), sequence, stats)
        for g in (0, 1):
            for x, y in zip(expected[0][g], got[0][g]):
                require(x == y, 'one after the other: {}; {}: {}', x, name, y)
        for x, y in zip(expected[1:], got[1:]):
            d = first_diff(x, y)
            require(d is None, '{}: {}', name, d)
    ok = [sum(x[1] for x in group) for group in expected[0]]
    for group in expected[0]:
        for x in group:
            stats.label('ok' if x[1] else 'failed')
    return min(ok) >= 3 and mixed not in (a + b, b + a)


TESTS = [Test('interleavings', strategy, execute, quick=1400)]
