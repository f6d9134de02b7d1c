"""C38 systems that are deployed can be updated to the present code"""
import drive
import gen
import hist
from chain import score_class
from core import first_diff, require
from gen import sampled, st, weighted
from runner import Test
from world import OWNED, make_world

LEVEL = 'exploration'
RULE = ('update: non-trivial when at least two transactions succeeded before the update and two after it and were compared; rolling: '
        'non-trivial when a contract was updated between transactions that succeeded, while others had not been yet')
ASSUMPTIONS = ['the deployed systems run the code in lib/released (the contracts in /repo when this verification was written), with which '
               'the present code is to be compatible',
               'an update transaction replaces the code of one contract, keeps its database and calls on_update']

CONTRACTS = ['reg', 'reg2', 'net', 'T1', 'T2', 'IX', 'F1', 'F2', 'F3', 'V1', 'V2', 'V3']


def ops():
    conv = gen.convert_op(who_for=weighted((3, st.none()), (1, sampled(['bob', 'fresh', 'wallet']))))
    use = gen.call_op([(t, m) for t in gen.TOKENS for m in gen.model.methods_of(t)])
    admin = gen.call_op([(t, m) for t in OWNED for m in gen.model.methods_of(t)],
                        senders=weighted((5, st.just('@owner')), (2, st.just('@newowner')), (1, st.just('@manager')), (1, sampled(['alice']))))
    return weighted((4, conv), (3, use), (3, admin), (3, hist.switch_op()), (1, hist.managed()), (1, hist.configured()), (2, hist.handover(OWNED)),
                    (1, hist.manager_handover()), (1, hist.token_handover()), (1, drive.send_op))


def renew(w, name):
    """an update transaction of one contract"""
    r = w.chain.update(w.addr[name], cls=score_class(w.package[name]))
    require(r.ok, 'the deployed {} cannot be updated to the present code: {}', name, r.error)


def renewed(w, h, names):
    """updates do not change anything that can be observed; -> the state after"""
    for name in names:
        renew(w, name)
        w.chain.forget()
        after = w.observe()
        d = first_diff(h.state, after)
        require(d is None, 'after updating {} to the present code, before any transaction: {}', name, d)
        h.state = after


def outcome(x):
    return x.receipt.ok, str(x.receipt.ret), sorted(x.events, key=repr)


# -- everything is updated at once, as if it had run on the present code all the time ---------------
def strategy():
    return st.fixed_dictionaries({'cfg': gen.world_pool(8), 'before': st.lists(ops(), min_size=3, max_size=10), 'order': st.permutations(CONTRACTS).map(list),
                                  'after': st.lists(ops(), min_size=3, max_size=8)})


def execute(case, stats):
    old, new = make_world(case['cfg'], released=True), make_world(case['cfg'])
    ho, hn = drive.History(old, stats, predict=False), drive.History(new, stats, predict=False)
    if first_diff(ho.state, hn.state) is not None:
        stats.label('deployed differently')
        return False
    done = 0
    for op in hist.flatten(case['before']):
        x, y = ho.step(op), hn.step(op)
        done += x is not None and x.receipt.ok
        if first_diff(x.post, y.post) is not None:
            # the present code decides or computes something else: nothing says what an update has to do then
            renewed(old, ho, case['order'])
            stats.label('behaves differently')
            return False
    quoted = drive.answers(old), drive.answers(new)
    renewed(old, ho, case['order'])
    if first_diff(*quoted) is None:
        d = first_diff(quoted[1], drive.answers(old))
        require(d is None, 'after the update, before any transaction: {}', d)
    later = 0
    for op in hist.flatten(case['after']):
        x, y = ho.step(op), hn.step(op)
        later += y.receipt.ok
        hist.label(stats, x)
        require(outcome(x) == outcome(y), '{}: {} in the updated system, {} where the present code ran from the start', x, outcome(x), outcome(y))
        d = first_diff(y.post, x.post)
        require(d is None, '{}: in the updated system it ends differently: {}', x, d)
    d = first_diff(drive.answers(new), drive.answers(old))
    require(d is None, 'in the updated system: {}', d)
    return done >= 2 and later >= 2


# -- one contract after the other, while the system is in use -----------------------------------------
def rolling_strategy():
    parts = st.lists(weighted((3, ops()), (1, st.tuples(st.just('renew'), st.integers(1, 4)).map(list))), min_size=8, max_size=20)
    return st.fixed_dictionaries({'cfg': gen.world_pool(8), 'order': st.permutations(CONTRACTS).map(list), 'ops': parts})


def rolling(case, stats):
    w = make_world(case['cfg'], released=True)
    h = drive.History(w, stats)
    left = list(case['order'])
    good = before = 0
    for op in hist.flatten(case['ops']):
        if op[0] == 'renew':
            names, left = left[:op[1]], left[op[1]:]
            renewed(w, h, names)
            continue
        x = h.step(op)
        drive.agree(x, f'{len(left)} of {len(CONTRACTS)} contracts not updated yet')
        if x.receipt.ok:
            hist.label(stats, x)
            before += len(left) == len(CONTRACTS)
            good += 0 < len(left) < len(CONTRACTS)
        if x.kind == 'conv' and x.receipt.ok:
            conversion(w, x)
    renewed(w, h, left)
    return before >= 1 and good >= 1


def conversion(w, x):
    """nothing is lost or made between the contracts of two versions"""
    for t in gen.TOKENS:
        require(sum(x.post['bal'][t].values()) == x.post['sup'][t], '{}: balances of {} do not sum to the supply', x, t)
    _, who, path, n, to, mode = x.conv
    bal = {s: getattr(x, s)['bal'] for s in ('pre', 'post')}
    if path[0] != path[-1] and who not in path and to not in path:
        if to != who and who != 'net':
            paid = (x.pre['icx'][who] - x.post['icx'][who]) if mode == 'icx' else bal['pre'][path[0]][who] - bal['post'][path[0]][who]
            require(paid == n, '{}: {} paid {}', x, who, paid)


TESTS = [Test('update', strategy, execute, quick=900), Test('rolling', rolling_strategy, rolling, quick=700)]
