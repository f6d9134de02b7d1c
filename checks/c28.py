"""C28 updating a contract keeps its state and behaviour"""
import copy

import drive
import gen
import hist
from checks import c16, c17
from core import first_diff, require
from gen import sampled, st, weighted
from runner import Test
from world import ACTORS, CONVS, OWNED, make_world

LEVEL = 'exploration'
RULE = ('a history is non-trivial when an update of a contract was carried out in the middle of it and transactions that '
        'succeed afterwards were compared with a copy that was never updated')
ASSUMPTIONS = ['an update replaces the code by the same code (the current tree) and runs on_update; only the deployer of a '
               'contract can send one, which the platform enforces']
PARTS = c17.PARTS


def strategy():
    update = weighted((3, st.none()), (3, st.lists(sampled(PARTS), min_size=1, max_size=3, unique=True)), (1, st.just(PARTS)))
    ops = weighted((6, c17.ops()), (1, hist.handover(OWNED)), (1, hist.manager_handover()), (1, hist.token_handover()), (1, hist.switch_op()),
                   (1, nominate()), (2, hist.configured()))
    return st.fixed_dictionaries({
        'cfg': gen.world_pool(16, lo=14, hi=20),
        'steps': st.lists(st.tuples(ops, update).map(list), min_size=3, max_size=14)})


def nominate():
    """leaves a nomination pending"""
    return weighted(
        (2, st.tuples(st.just('call'), st.just('@owner'), sampled(OWNED), st.just('transferOwnerShip'),
                      st.tuples(sampled(hist.HANDOVER_ADDR)).map(list)).map(list)),
        (1, st.tuples(st.just('call'), st.just('@owner'), sampled(CONVS), st.just('transferManagement'),
                      st.tuples(sampled(hist.HANDOVER_ADDR)).map(list)).map(list)))


def update(w, part, stats):
    r = w.chain.update(w.addr[part])
    require(r.ok, 'updating {} failed: {}', part, r.error)
    require(not r.logs, 'updating {} logged {}', part, w.events(r))
    stats.label('updated ' + (part if part in ('net', 'IX') else part[0] + '*'))


def execute(case, stats):
    plain = make_world(case['cfg'])
    other = plain.clone()                 # updated now and then
    h = drive.History(plain, stats, predict=False)
    good = updated = False
    for op, parts in case['steps']:
        if parts is not None:
            for p in parts:
                update(other, p, stats)
            updated = True
            other.chain.forget()
            got = other.observe()
            require(got == h.state, 'updating {} changed the state: {}', parts, first_diff(h.state, got))
            for who in ('owner', 'mallory'):
                for m in ('on_install', 'on_update', '__init__'):
                    require(not other.tx(who, parts[0], m).ok, '{} can call {} of {}', who, m, parts[0])
        for single in hist.flatten([op]):
            if single[0] == 'prog':
                _, actor, event, actions, times = single
                acts = drive.decode_actions(plain, h.state, actor, actions)
                for w in (plain, other):
                    w.actor(actor).program[event] = {'acts': drive.real_actions(w, acts), 'times': times}
                continue
            go = c16.resolved(plain, h, single)
            programs = {n: copy.deepcopy(plain.actor(n).program) for n in ACTORS}
            for w in (plain, other):
                c16.arm(w, programs)
            a, b = go(plain, None), go(other, None)
            require(c16.encode(plain, a) == c16.encode(other, b), '{}: never updated {}, updated {}', single,
                    c16.encode(plain, a), c16.encode(other, b))
            h.state = plain.observe()
            got = other.observe()
            require(h.state == got, 'after {} (updated before): {}', single, first_diff(h.state, got))
            good |= a.ok and updated
            name = single[3] if single[0] == 'call' else single[0]
            if updated and a.ok:
                stats.label('after an update: ' + name)
    return good


# -- whatever the settings: an update leaves every one of them alone -----------------------------------
def settings_strategy():
    """one converter in an unusual state: several settings at once, weights that just reach the maximum"""
    full = gen.world_pool(24, lo=14, hi=20).flatmap(lambda c: st.builds(
        lambda fill, off: {v: dict(c[v], w=c[v]['w'][:-1] + [1000000 - sum(c[v]['w'][:-1])] if fill else c[v]['w'],
                                   active=v != off and c[v]['active']) for v in c},
        st.booleans(), sampled(CONVS + [None])))
    return st.fixed_dictionaries({'cfg': full, 'ops': st.lists(weighted((2, hist.configured()), (1, hist.switch_op()), (1, nominate())),
                                                               min_size=1, max_size=4),
                                  'parts': st.lists(sampled(PARTS), min_size=1, max_size=3, unique=True)})


def settings(case, stats):
    w = make_world(case['cfg'])
    h = drive.History(w, stats, predict=False)
    done = 0
    for op in hist.flatten(case['ops']):
        x = h.step(op)
        done += bool(x is not None and x.receipt.ok)
    before = w.observe()
    parts = CONVS + case['parts'] if case['parts'][0] not in CONVS else case['parts']
    for p in parts:
        update(w, p, stats)
        w.chain.forget()
        got = w.observe()
        require(got == before, 'updating {} changed the state: {}', p, first_diff(before, got))
    stats.label(f'settings changed: {min(done, 6)}')
    return done >= 2


TESTS = [Test('updates', strategy, execute, quick=1400), Test('settings', settings_strategy, settings, quick=1800)]
