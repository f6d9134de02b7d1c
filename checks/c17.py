"""C17 contract behaviour depends on the database only"""
import copy

import drive
import gen
import hist
from core import first_diff, require
from gen import sampled, st, weighted
from runner import Test
from world import ACTORS, CONVS, FLEX, FLEX_OF, OWNED, REGS, TOKENS, make_world

LEVEL = 'exploration'
RULE = ('a history is non-trivial when some contract objects were re-created in the middle of it and later transactions that '
        'succeed were compared with the uninterrupted chain')
ASSUMPTIONS = ['the scripted harness contracts are re-armed identically on both chains']


def ops():
    conv = gen.convert_op(who_for=weighted((4, st.none()), (1, sampled(['bob', 'wallet']))))
    admin = gen.call_op(gen.all_methods(CONVS + REGS + ['net'] + FLEX))
    token = gen.call_op(gen.all_methods(TOKENS, {'transfer', 'withdraw', 'withdrawTo', 'issue', 'destroy', 'deposit'}))
    own = sampled(CONVS).flatmap(lambda v: sampled([
        ['seq', ['call', '@owner', v, 'transferTokenOwnership', ['owner']],
         ['call', '@newowner', FLEX_OF[v], 'acceptOwnerShip', []]],
        ['seq', ['call', '@owner', FLEX_OF[v], 'transferOwnerShip', [v]],
         ['call', '@owner', v, 'acceptTokenOwnership', []]]]))
    move = st.tuples(sampled(REGS), sampled(CONVS)).map(
        lambda p: ['seq', ['call', '@owner', p[0], 'registerAddress', ['ScoreRegistry', 'reg2' if p[0] == 'reg' else 'reg']],
                   ['call', 'mallory', p[1], 'updateRegistry', []]])
    upd = sampled(CONVS).flatmap(lambda v: st.tuples(sampled(['IX', 'T1', 'T2', 'F1']), st.integers(1, 400000), st.booleans(),
                                                     gen.pow10(12, 20)).map(
        lambda a: ['call', '@owner', v, 'updateConnector', list(a)]))
    paid = gen.convert_op(paths=[p for p in gen.PATHS if p[-1] == 'IX'], senders=['alice', 'bob'])
    undone = st.one_of(st.tuples(hist.undone(list(OWNED)), conv, conv), st.tuples(hist.undone(['net']), paid, conv)).map(lambda p: ['seq', *p])
    return weighted((6, conv), (3, admin), (3, token), (1, own), (1, move), (1, upd), (1, hist.handover(OWNED)),
                    (1, hist.manager_handover()), (1, drive.send_op), (1, drive.program_op()), (1, drive.execute_op()),
                    (2, hist.switch_op()), (2, undone))


PARTS = ['T1', 'T2', 'IX', 'F1', 'F2', 'F3', 'V1', 'V2', 'V3', 'net', 'reg', 'reg2']


def strategy():
    restart = weighted((5, st.none()), (1, st.just('all')), (2, st.lists(sampled(PARTS), min_size=1, max_size=6, unique=True)))
    noise = weighted((3, st.none()), (3, sampled(['queries', 'failing', 'starved', 'aborted', 'aborted'])))
    return st.fixed_dictionaries({
        'cfg': gen.world_pool(16, lo=14, hi=20),
        'pace': sampled([0, 1, 1, 5]),
        'steps': st.lists(st.tuples(ops(), restart, noise, weighted((5, st.just(0)), (1, st.integers(1, 2)))).map(list), min_size=4, max_size=18)})


def recreate(w, parts):
    """rebuild some contract objects from the database alone"""
    c = w.chain
    everything = {n: w.addr[n] for n in PARTS}
    keep = {} if parts == 'all' else {n: c.scores[a] for n, a in everything.items() if n not in parts}
    actors = {n: (w.actor(n).program, w.actor(n).budget) for n in ACTORS}
    c.restart()
    for n, s in keep.items():
        c.scores[everything[n]] = s
    for n, (program, budget) in actors.items():
        w.actor(n).program, w.actor(n).budget = program, budget


def disturb(w, kind, go, limits, rearm):
    """what must leave no trace: queries, failing transactions; -> receipt if the transaction got through"""
    if kind == 'queries':
        for v in CONVS:
            for m in ('isActive', 'getConnectorTokenCount', 'getConversionFee', 'getRegistry'):
                w.chain.query_receipt(w.addr[v], m)
            for t in ('IX', 'T1', 'T2', 'F1', 'wallet'):
                w.chain.query_receipt(w.addr[v], 'getConnector', w.addr[t])
                w.chain.query_receipt(w.addr[v], 'getReturn', w.addr[t], w.addr[FLEX_OF[v]], 10 ** 9)
                w.chain.query_receipt(w.addr[v], 'getReturn', w.addr[FLEX_OF[v]], w.addr[t], 10 ** 9)
        for p in gen.PATHS1:
            w.chain.query_receipt(w.addr['net'], 'getExpectedReturnByPath', w.path(p), 10 ** 12)
        for t in TOKENS:
            w.chain.query_receipt(w.addr[t], 'balanceOf', w.addr['alice'])
        # writable methods can be asked, too; nothing may stay
        w.chain.query_receipt(w.addr['F1'], 'disableTransfer', True, sender=w.addr['owner'])
        w.chain.query_receipt(w.addr['V1'], 'setConversionFee', 0, sender=w.addr['owner'])
        w.chain.query_receipt(w.addr['T1'], 'transfer', w.addr['bob'], 1, sender=w.addr['alice'])
    elif kind == 'failing':
        for v in CONVS:
            w.tx('owner', v, 'setConversionFee', 10 ** 7)
            w.tx('owner', v, 'addConnector', w.addr['T1'], 10 ** 7, True)
            w.tx('owner', v, 'updateConnector', w.addr['T1'], 10 ** 7, True, 5)
            # a conversion that fails at the very end
            w.tx('alice', FLEX_OF[v], 'transfer', w.addr['net'], 10 ** 6, gen.path_data(w, [FLEX_OF[v], FLEX_OF[v], 'IX'],
                                                                                       10 ** 40))
            w.tx('alice', 'T1', 'transfer', w.addr['net'], 10 ** 9, gen.path_data(w, ['T1', 'F1', 'F1'], 1, 'rejecter'))
    elif kind == 'starved':
        for limit in limits:
            rearm()
            r = go(w, limit)
            if r.ok:        # what it remembers saved it some steps
                return r
    return None


def execute(case, stats):
    import checks.c16 as c16
    plain = make_world(case['cfg'])       # never disturbed
    plain.chain.pace = case['pace']
    other = plain.clone()                 # re-created, queried, disturbed
    hp = drive.History(plain, stats, predict=False)
    good = restarted = False
    for op, restart, noise, again in case['steps']:
        for single in hist.flatten([op]):
            if restart is not None:
                recreate(other, restart)
                restarted = True
                stats.label('all re-created' if restart == 'all' else 'some re-created')
            if single[0] == 'prog':
                _, actor, event, actions, times = single
                acts = drive.decode_actions(plain, hp.state, actor, actions)
                for w in (plain, other):
                    entry = {'acts': drive.real_actions(w, acts), 'times': times}
                    w.actor(actor).program[event] = entry
                continue
            go = c16.resolved(plain, hp, single)
            programs = {n: copy.deepcopy(plain.actor(n).program) for n in ACTORS}
            b = None
            if noise == 'aborted':
                # submitted with too few steps, and given up
                probe = plain.clone()
                c16.arm(probe, programs)
                r = go(probe, None)
                for limit in sorted({r.steps - 1, r.steps - 2, r.steps // 2}):
                    if r.ok and limit > 0 and b is None:
                        c16.arm(other, programs)
                        c = go(other, limit)
                        b = c if c.ok else None
                if b is None:
                    c16.arm(plain, programs)
                    c16.arm(other, programs)
                    other.chain.forget()
                    got = other.observe()
                    require(hp.state == got, 'after {} ran out of steps: {}', single, first_diff(hp.state, got))
                    known, got = drive.answers(plain), drive.answers(other)
                    require(known == got, 'after {} ran out of steps: {}', single, first_diff(known, got))
                    stats.label('noise: aborted')
                    continue
            elif noise:
                limits = []
                if noise == 'starved':
                    probe = plain.clone()
                    c16.arm(probe, programs)
                    need = go(probe, None).steps
                    limits = sorted({need // 4, need // 2, need - 1}) if need > 1 else []
                b = disturb(other, noise, go, limits, lambda: c16.arm(other, programs))
                stats.label('noise: ' + noise)
            c16.arm(plain, programs)
            a = go(plain, None)
            if b is None:
                c16.arm(other, programs)
                b = go(other, None)
            require(c16.encode(plain, a) == c16.encode(other, b), '{}: uninterrupted {}, re-created {}', single,
                    c16.encode(plain, a), c16.encode(other, b))
            hp.state = plain.observe()
            other.chain.forget()
            got = other.observe()
            require(hp.state == got, 'after {}: {}', single, first_diff(hp.state, got))
            if restart is not None:
                known, got = drive.answers(plain), drive.answers(other)
                require(known == got, 'after {}: {}', single, first_diff(known, got))
            if a.ok and restarted:
                good = True
            stats.label('compared ' + ('success' if a.ok else 'failure'))
            for _ in range(again):
                # the very same transaction again
                if restart is not None:
                    recreate(other, restart)
                programs = {n: copy.deepcopy(plain.actor(n).program) for n in ACTORS}
                c16.arm(plain, programs)
                c16.arm(other, programs)
                a, b = go(plain, None), go(other, None)
                require(c16.encode(plain, a) == c16.encode(other, b), '{} again: uninterrupted {}, re-created {}', single,
                        c16.encode(plain, a), c16.encode(other, b))
                hp.state = plain.observe()
                other.chain.forget()
                got = other.observe()
                require(hp.state == got, 'after {} again: {}', single, first_diff(hp.state, got))
                stats.label('again ' + ('success' if a.ok else 'failure'))
    # the long-lived objects against fresh ones, at the end
    plain.chain.forget()
    live = plain.observe(), drive.answers(plain)
    recreate(plain, 'all')
    fresh = plain.observe(), drive.answers(plain)
    require(live == fresh, 'long-lived objects report {}', first_diff(dict(enumerate(fresh)), dict(enumerate(live))))
    return good


TESTS = [Test('twins', strategy, execute, quick=700, thorough=14000)]
