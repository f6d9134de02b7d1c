"""C06 ownership and management change hands only by the two-step handover"""
import drive
import gen
import hist
import model
from core import require
from gen import sampled, st, weighted
from runner import Test
from world import FLEX_OF, OWNED, make_world

LEVEL = 'exploration'
RULE = 'a history is non-trivial when a handover was completed in it (an acceptance succeeded)'
ASSUMPTIONS = ['all ten owned contracts of the world, three of them managed; nominees are accounts, contracts and the '
               'zero address']
METHODS = ['transferOwnerShip', 'acceptOwnerShip']


def step_op():
    def of(t):
        own = [st.tuples(st.just('call'), sampled(['@owner', '@owner', '@newowner', 'mallory', 'bob']), st.just(t),
                         st.just('transferOwnerShip'),
                         st.tuples(weighted((3, sampled(hist.HANDOVER_ADDR)), (1, gen.ARG['addr']))).map(list)).map(list),
               st.tuples(st.just('call'), sampled(['@newowner', '@newowner', '@owner', 'mallory', 'alice', 'V1']),
                         st.just(t), st.just('acceptOwnerShip'), st.just([])).map(list)]
        if t.startswith('V'):
            own += [st.tuples(st.just('call'), sampled(['@owner', '@manager', '@newmanager', 'mallory', 'bob']),
                              st.just(t), st.just('transferManagement'),
                              st.tuples(weighted((3, sampled(hist.HANDOVER_ADDR)), (1, gen.ARG['addr']))).map(list)
                              ).map(list),
                    st.tuples(st.just('call'), sampled(['@newmanager', '@newmanager', '@manager', '@owner', 'mallory']),
                              st.just(t), st.just('acceptManagement'), st.just([])).map(list)]
        return st.one_of(*own)
    return sampled(OWNED).flatmap(of)


def focused():
    """most of the history on one or two contracts, often among few people, so that former holders return"""
    def of(p):
        ts, cast = p
        base = step_op()

        def nominee(x):
            return cast[sum(map(ord, x)) % len(cast)] if cast and isinstance(x, str) else x

        def retarget(op, t):
            if op[0] == 'seq':
                return ['seq'] + [retarget(o, t) for o in op[1:]]
            op = list(op)
            if op[3].endswith('Management') and not t.startswith('V'):
                op[3] = op[3].replace('Management', 'OwnerShip')
            if isinstance(op[1], str) and 'manager' in op[1] and not t.startswith('V'):
                op[1] = op[1].replace('manager', 'owner')
            op[2] = t
            op[4] = [nominee(x) for x in op[4]]
            return op
        mine = st.builds(retarget, weighted((4, base), (2, hist.handover(OWNED)), (2, hist.manager_handover())), sampled(ts))
        others = weighted((2, base), (1, hist.token_handover()), (1, hist.switch_op()), (1, gen.call_op(
            gen.all_methods(ts + ['V1'], {'registerAddress', 'setConversionFee', 'disableConversions', 'issue',
                                          'withdrawTokens', 'disableTransfer', 'updateRegistry', 'restoreRegistry'})
            or [('net', 'registerIcxToken')])), (1, st.just(['restart'])))
        return st.lists(weighted((5, mine), (1, others)), min_size=5, max_size=26)
    cast = weighted((1, st.just([])), (2, st.lists(sampled(hist.HANDOVER_ADDR + ['zero']), min_size=2, max_size=3, unique=True)))
    return st.tuples(st.lists(weighted((2, sampled(OWNED)), (1, sampled(['V1', 'V2', 'V3']))), min_size=1, max_size=2), cast).flatmap(of)


def strategy():
    return st.fixed_dictionaries({'cfg': gen.world_pool(), 'ops': focused()})


ROLES = (('owner', 'newowner', 'OwnerUpdate'), ('manager', 'newmanager', 'ManagerUpdate'))


def execute(case, stats):
    w = make_world(case['cfg'])
    h = drive.History(w, stats)
    good = False
    # the monitor's own record of who may accept what
    pending = {(t, role): None for t in OWNED for role in ('owner', 'manager')}
    for op in hist.flatten(case['ops']):
        x = h.step(op)
        if x is None:
            continue
        hist.label(stats, x)
        hist.unchanged(x)
        accepted = None
        target = x.target
        by = x.sender
        if x.kind == 'call':
            if x.method in ('transferTokenOwnership', 'acceptTokenOwnership') and x.receipt.ok:
                target, by = FLEX_OF[x.target], x.target
            if x.receipt.ok and x.method in ('transferOwnerShip', 'transferTokenOwnership'):
                require(x.pre['adm'][target]['owner'] == by and x.args[0] != by, '{} (owner {})', x,
                        x.pre['adm'][target]['owner'])
                pending[target, 'owner'] = x.args[0]
            elif x.receipt.ok and x.method == 'transferManagement':
                a = x.pre['adm'][target]
                require(by in (a['owner'], a['manager']) and x.args[0] != a['manager'], '{}', x)
                pending[target, 'manager'] = x.args[0]
            elif x.method in ('acceptOwnerShip', 'acceptTokenOwnership'):
                accepted = (target, 'owner')
            elif x.method == 'acceptManagement':
                accepted = (target, 'manager')
            if x.receipt.ok != x.pred.ok and (x.method.endswith('Ship') or 'anagement' in x.method
                                              or 'Ownership' in x.method):
                require(False, '{}, but it must {}', x, 'succeed' if x.pred.ok else 'fail')
        done = None
        if accepted and x.receipt.ok:
            require(pending[accepted] is not None and pending[accepted] == by, '{}: the nominee is {}', x,
                    pending[accepted])
            done = accepted
            good = True
        for t in OWNED:
            for role, slot, event in ROLES:
                if role not in x.pre['adm'][t]:
                    continue
                before, after = x.pre['adm'][t][role], x.post['adm'][t][role]
                logged = [e for e in x.events if e[0] == t and e[1] == event]
                if (t, role) == done:
                    require(after == by, '{}: {} of {} is {}', x, role, t, after)
                    require(logged == [(t, event, before, by)], '{}: logged {}', x, logged)
                    require(x.post['adm'][t][slot] == 'zero', '{}: pending {} is still {}', x, role,
                            x.post['adm'][t][slot])
                    pending[t, role] = None
                else:
                    require(after == before, '{}: {} of {} changed from {} to {}', x, role, t, before, after)
                    require(not logged, '{}: logged {}', x, logged)
                    want = pending[t, role]
                    if want is not None:
                        require(x.post['adm'][t][slot] == want, '{}: pending {} of {} is {}, nominated {}', x, role, t,
                                x.post['adm'][t][slot], want)
    return good


TESTS = [Test('handovers', strategy, execute, quick=3000)]
