"""C16 every transaction is atomic at every point it can run out of steps"""
import drive
import gen
import hist
from core import first_diff, require
from gen import sampled, st, weighted
from runner import Test
from world import ACTORS, CONVS, FLEX_OF, make_world

LEVEL = 'fault_enumeration'
RULE = ('a case is a transaction in a generated state together with every step budget below what it needs (all of them when '
        'it needs at most 450 steps, else an evenly spread sample that includes the first and last 60); it is non-trivial when '
        'the transaction succeeds with enough steps, needs at least two of them, and was followed by further transactions '
        'compared with those on an untouched copy.  In the second search every single call between contracts is made '
        'to fail in turn, before and after the callee ran, and with a Python error')
ASSUMPTIONS = ['every metered platform operation (call, storage read/write, event log, ICX transfer) costs one step, so the '
               'budgets enumerate every point at which the platform can stop the transaction',
               'iconservice itself rolls the database back; what is examined is what the contracts do around it']


def ops():
    """a transaction worth interrupting"""
    conv = gen.convert_op(who_for=weighted((3, st.none()), (1, sampled(['bob', 'wallet', 'catcher']))))
    tok = gen.call_op([(t, m) for t in ('T1', 'IX', 'F1', 'F2') for m in ('transfer', 'withdraw', 'withdrawTo', 'issue',
                                                                        'destroy', 'deposit')
                       if m in __import__('model').methods_of(t)])
    conf = gen.call_op(gen.all_methods(CONVS))
    reg = gen.call_op(gen.all_methods(['reg', 'net', 'F1']), sampled(['@owner', '@owner', '@newowner']))
    exe = drive.execute_op()
    own = sampled(CONVS).flatmap(lambda v: sampled([['call', '@owner', v, 'transferTokenOwnership', ['owner']],
                                                    ['call', '@owner', v, 'acceptTokenOwnership', []],
                                                    ['call', '@newowner', FLEX_OF[v], 'acceptOwnerShip', []],
                                                    ['call', '@owner', FLEX_OF[v], 'transferOwnerShip', [v]],
                                                    ['call', 'mallory', v, 'updateRegistry', []]]))
    return weighted((5, conv), (3, tok), (2, conf), (1, reg), (2, exe), (2, own), (1, drive.send_op))


def addc(v):
    """connector configuration of an inactive converter"""
    f = FLEX_OF[v]
    return [['call', '@owner', v, 'transferTokenOwnership', ['owner']], ['call', '@newowner', f, 'acceptOwnerShip', []]]


def moved():
    """converters between two registries"""
    def of(v):
        update = ['call', 'mallory', v, 'updateRegistry', []]
        away = [['call', '@owner', 'reg', 'registerAddress', ['ScoreRegistry', 'reg2']], update]
        back = [['call', '@owner', 'reg2', 'registerAddress', ['ScoreRegistry', 'reg']]]
        return sampled([away, away + back, away[:1], away + back + [update], away + [['call', '@owner', v, 'restoreRegistry', []]]])
    return sampled(CONVS).flatmap(of)


def strategy():
    return st.fixed_dictionaries({
        'cfg': gen.world_pool(16, lo=14, hi=20),
        'before': weighted((1, moved()), (3, st.lists(weighted((4, ops()), (2, drive.program_op()), (1, hist.switch_op())), max_size=5)),
                           (1, sampled(CONVS).map(addc))),
        'tx': ops(), 'again': st.booleans(),
        'after': st.lists(weighted((2, ops()), (3, gen.convert_op())), min_size=2, max_size=6)})


def encode(w, r):
    return (r.ok, repr(r.ret), w.events(r))


def arm(w, programs):
    """give the scripted contracts exactly the remembered behaviour"""
    import copy
    for n in ACTORS:
        a = w.actor(n)
        a.program = copy.deepcopy(programs[n])
        a.budget = 60
        a.calls = []


def resolved(w, h, op):
    """-> function(world, step_limit) submitting the operation with its arguments fixed now"""
    if op[0] == 'conv':
        _, sender, path, amt, min_return, who_for, mode = op
        if mode == 'icx' and path[0] != 'IX':
            mode = 'token'
        ref = min(w.icx(sender), 10 ** 24) if mode == 'icx' else w.bal(path[0], sender)
        n = gen.trade_size(w, path, amt, ref)
        if mode == 'icx':
            who = w.addr[who_for or sender]
            return lambda x, lim: x.tx(sender, 'net', 'convertFor', x.path(path), min_return, who, value=n, step_limit=lim)
        data = gen.path_data(w, path, min_return, who_for)
        return lambda x, lim: x.tx(sender, path[0], 'transfer', x.addr['net'], n, data, step_limit=lim)
    if op[0] == 'send':
        _, sender, target, amt = op
        v = max(0, gen.resolve(amt, w.icx(sender)))
        return lambda x, lim: x.chain.send_icx(x.addr[sender], x.addr[target], v, step_limit=lim)
    if op[0] == 'exec':
        _, sender, target, actions = op
        acts = drive.real_actions(w, drive.decode_actions(w, h.state, target, actions))

        def run(x, lim):
            x.actor(target).program['execute'] = {'acts': [dict(a) for a in acts]}
            return x.tx(sender, target, 'execute', step_limit=lim)
        return run
    sender, target, method, args, value = gen.resolve_call(w, h.state, op)
    if target == 'IX' and method == 'deposit':
        value = w.icx(sender) // 10
    real = gen.real_args(w, target, method, args)
    return lambda x, lim: x.tx(sender, target, method, *real, value=value, step_limit=lim)


def cuts(steps, tier_limit=450):
    if steps <= tier_limit:
        return list(range(steps))
    spread = [i * steps // 330 for i in range(330)]
    return sorted(set(list(range(60)) + spread + list(range(steps - 60, steps))))


def execute(case, stats):
    import copy
    w = make_world(case['cfg'])
    h = drive.History(w, stats, predict=False)
    for op in hist.flatten(case['before']):
        h.step(op)
    h.state = w.observe()
    submit = resolved(w, h, case['tx'])
    programs = {n: copy.deepcopy(w.actor(n).program) for n in ACTORS}
    full = w.clone()
    arm(full, programs)
    r = submit(full, None)
    done = encode(full, r)
    final = full.observe()
    pre = w.observe()
    known = drive.answers(w)
    twin = w.clone()
    for limit in cuts(r.steps):
        arm(w, programs)
        c = submit(w, limit)
        if c.ok:
            # somebody dealt with the interruption: only acceptable if nothing was lost
            got = w.observe()
            require(r.ok and encode(w, c) == done and got == final, '{} with {} of {} steps succeeded with a different '
                    'effect: {}', case['tx'], limit, r.steps, first_diff(final, got))
            stats.label('completed in fewer steps')
            return False
        stats.label('interrupted')
    post = w.observe()
    require(post == pre, '{} stopped after some steps changed the state: {}', case['tx'], first_diff(pre, post))
    uncached(w, pre, f'{case["tx"]} stopped after some steps', known)
    if not r.ok:
        # also the complete failure leaves nothing behind
        arm(w, programs)
        submit(w, None)
    elif case['again']:
        # once more, now with all the steps it needs
        arm(w, programs)
        arm(twin, programs)
        a, b = submit(w, None), submit(twin, None)
        require(encode(w, a) == encode(twin, b), '{} after interrupted attempts: {}, without: {}', case['tx'], encode(w, a),
                encode(twin, b))
        require(a.steps == b.steps or a.ok, 'unreachable')
    h1, h2 = drive.History(w, stats, predict=False), drive.History(twin, stats, predict=False)
    for op in case['after']:
        arm(w, programs)
        arm(twin, programs)
        go = resolved(twin, h2, op)
        a, b = go(w, None), go(twin, None)
        require(encode(w, a) == encode(twin, b), '{} after an interrupted {}: {}, on an untouched copy: {}', op, case['tx'],
                encode(w, a), encode(twin, b))
        h1.state, h2.state = w.observe(), twin.observe()
        require(h1.state == h2.state, '{} after an interrupted {}: {}', op, case['tx'], first_diff(h2.state, h1.state))
    uncached(w, h1.state, 'later transactions', drive.answers(twin))
    stats.label('interrupted everywhere: ' + (case['tx'][0] if case['tx'][0] != 'call' else case['tx'][3])
                + (' (succeeds)' if r.ok else ' (fails)'))
    return r.ok and r.steps > 1


# -- every call between contracts fails -------------------------------------------------------------
def no_catch(op):
    if isinstance(op, list):
        if len(op) == 5 and isinstance(op[3], list) and isinstance(op[4], bool):
            return op[:4] + [False]
        return [no_catch(x) for x in op]
    return op


def call_execute(case, stats):
    import copy
    case = dict(case, before=[no_catch(op) for op in case['before']], tx=no_catch(case['tx']))
    w = make_world(case['cfg'])
    h = drive.History(w, stats, predict=False)
    for op in hist.flatten(case['before']):
        h.step(op)
    h.state = w.observe()
    submit = resolved(w, h, case['tx'])
    programs = {n: copy.deepcopy(w.actor(n).program) for n in ACTORS}
    full = w.clone()
    arm(full, programs)
    full.chain.calls = []
    r = submit(full, None)
    calls = full.chain.calls
    if not calls:
        return False
    pre = w.observe()
    known = drive.answers(w)
    twin = w.clone()
    actors = {w.addr[n] for n in ACTORS}
    for k, (frm, to, method) in enumerate(calls):
        for when in ('before', 'after', 'broken'):
            arm(w, programs)
            w.chain.calls, w.chain.fault = [], (k, when)
            try:
                c = submit(w, None)
            finally:
                w.chain.calls, w.chain.fault = None, None
            require(not c.ok, '{} went on although the call {} -> {}.{} failed ({} running)', case['tx'], w.name(frm),
                    w.name(to), method, when)
            stats.label(f'failed call of {method}')
    uncached(w, pre, f'{case["tx"]} with failing calls', known)
    h1, h2 = drive.History(w, stats, predict=False), drive.History(twin, stats, predict=False)
    for op in [case['tx']] + case['after']:
        arm(w, programs)
        arm(twin, programs)
        go = resolved(twin, h2, op)
        a, b = go(w, None), go(twin, None)
        require(encode(w, a) == encode(twin, b), '{} after a {} with failing calls: {}, on an untouched copy: {}', op,
                case['tx'], encode(w, a), encode(twin, b))
        h1.state, h2.state = w.observe(), twin.observe()
        require(h1.state == h2.state, '{} after a {} with failing calls: {}', op, case['tx'],
                first_diff(h2.state, h1.state))
    stats.label(f'{len(calls)} calls failed in turn' if len(calls) < 6 else '6 or more calls failed in turn')
    return r.ok


def uncached(w, state, what, known):
    """ask again, without reusing answers given earlier"""
    w.chain.forget()
    got = w.observe()
    require(got == state, 'after {} the contracts report something else than the database says: {}', what,
            first_diff(state, got))
    got = drive.answers(w)
    require(got == known, 'after {} the contracts answer differently: {}', what, first_diff(known, got))


TESTS = [Test('every_cut', strategy, execute, quick=420, thorough=9000),
         Test('every_call', strategy, call_execute, quick=1400, thorough=24000)]
