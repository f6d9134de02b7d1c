"""C33 systems on one chain do not influence each other"""
import collections
import json

import drive
import gen
import hist
from chain import Chain
from core import first_diff, require
from gen import sampled, st, weighted
from runner import Test
from world import CONVS, FLEX, OWNED, World, make_world

LEVEL = 'exploration'
RULE = ('a case is non-trivial when at least three transactions of each system succeeded and both were compared with what they do on '
        'a chain of their own')
ASSUMPTIONS = ['no transaction or setting of one system names an address of the other',
               'two instances are two deployments of the same packages, run by the same processes of the nodes']


def ops():
    use = gen.call_op([(t, m) for t in gen.TOKENS for m in gen.model.methods_of(t)])
    admin = gen.call_op([(t, m) for t in OWNED for m in gen.model.methods_of(t)], senders=weighted((5, st.just('@owner')), (1, st.just('@newowner')), (1, st.just('alice'))))
    return weighted((4, gen.convert_op(who_for=weighted((3, st.none()), (1, sampled(['bob', 'fresh']))))), (2, use), (3, admin),
                    (2, hist.switch_op()), (2, hist.handover(OWNED)), (1, hist.manager_handover()), (1, hist.token_handover()), (1, drive.send_op))


def strategy():
    op = st.tuples(st.integers(0, 1), ops()).map(list)
    return st.fixed_dictionaries({'cfg': gen.world_pool(6), 'other': gen.world_pool(6), 'first': sampled([0, 1]),
                                  'ops': st.lists(op, min_size=8, max_size=24), 'restart': st.integers(0, 40)})


PAIRS = collections.OrderedDict()
SOLO = collections.OrderedDict()


def keep(cache, key, make):
    if key not in cache:
        cache[key] = make()
        if len(cache) > 40:
            cache.popitem(last=False)
    cache.move_to_end(key)
    return cache[key]


def on(world, chain):
    other = World.__new__(World)
    other.__dict__.update(world.__dict__)
    other.chain = chain
    return other


def pair(cfg, cfg2, first):
    """two systems on one chain, deployed in either order"""
    def make():
        chain = Chain()
        made = {}
        for k in (first, 1 - first):
            made[k] = World([cfg, cfg2][k], chain=chain, prefix=['', 'second '][k])
        return made[0], made[1]
    a, b = keep(PAIRS, json.dumps([cfg, cfg2, first], sort_keys=True), make)
    chain = a.chain.clone()
    a, b = on(a, chain), on(b, chain)
    a.rearm()
    b.rearm()
    return a, b


def second(cfg):
    return keep(SOLO, json.dumps(cfg, sort_keys=True), lambda: World(cfg, prefix='second ')).clone()


def outcome(x):
    return x.receipt.ok, str(x.receipt.ret), sorted(x.events, key=repr)


def fresh(w):
    w.chain.forget()
    return w.observe()


def execute(case, stats):
    # each on a chain of its own, one after the other ...
    expected = []
    for k, w in enumerate((make_world(case['cfg']), second(case['other']))):
        h = drive.History(w, stats, predict=False)
        steps = [[(x := h.step(o)) and (x, outcome(x)) for o in hist.flatten([op])] for of, op in case['ops'] if of == k]
        expected.append((iter(steps), fresh(w), drive.answers(w)))
    # ... and both together
    worlds = pair(case['cfg'], case['other'], case['first'])
    hs = [drive.History(w, stats, predict=False) for w in worlds]
    done = [0, 0]
    for i, (k, op) in enumerate(case['ops']):
        if i == case['restart']:
            worlds[0].chain.restart()
            for w in worlds:
                w.rearm()
        before = hs[1 - k].state
        for o, (y, wanted) in zip(hist.flatten([op]), next(expected[k][0])):
            x = hs[k].step(o)
            require(outcome(x) == wanted, '{}: next to another system {}, on a chain of its own {}', x, outcome(x), wanted)
            d = first_diff(y.post, x.post)
            require(d is None, '{}: next to another system it ends differently: {}', x, d)
            done[k] += x.receipt.ok
            if x.receipt.ok:
                hist.label(stats, x)
        after = hs[1 - k].state = fresh(worlds[1 - k])
        d = first_diff(before, after)
        require(d is None, '{}: changed the other system: {}', x, d)
    for k in (0, 1):
        d = first_diff(expected[k][1], fresh(worlds[k])) or first_diff(expected[k][2], drive.answers(worlds[k]))
        require(d is None, 'next to another system: {}', d)
    return min(done) >= 3


TESTS = [Test('two systems', strategy, execute, quick=450)]
