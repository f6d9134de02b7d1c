"""C05 administrative methods are usable only by the authorised role"""
import drive
import gen
import hist
import model
from core import first_diff, require
from gen import sampled, st, weighted
from runner import Test
from world import OWNED, make_world

LEVEL = 'exploration'
RULE = ('a history is non-trivial when a caller without the role tried an administrative method whose arguments were '
        'valid (the same call by the role holder succeeds on the same state)')
ASSUMPTIONS = ['the administrative methods are those documented for each contract; the "surface" search additionally '
               'calls every other state-changing method the deployed API offers']

ADMIN = [(t, m) for t in OWNED for m in sorted(model.methods_of(t))
         if m not in ('transfer', 'destroy', 'deposit', 'withdraw', 'withdrawTo', 'acceptOwnerShip', 'acceptManagement',
                      'updateRegistry')]
EITHER = {'transferManagement', 'restoreRegistry', 'disableRegistryUpdate', 'disableConversions', 'setConversionFee'}


def ops():
    outsiders = weighted((3, sampled(['alice', 'mallory', 'bob', '@newowner'])), (1, sampled(gen.SENDERS)),
                         (1, sampled(['@manager', '@manager', '@newmanager'])))
    insiders = sampled(['@owner', '@owner', '@owner', '@manager'])
    return weighted((5, gen.call_op(ADMIN, outsiders)), (5, gen.call_op(ADMIN, insiders)), (1, hist.handover(OWNED)),
                    (1, hist.manager_handover()), (1, hist.token_handover()),
                    (1, gen.call_op(gen.all_methods(['V1', 'V2', 'V3'], {'updateRegistry'}))))


def roles(s, target, method):
    a = s['adm'][target]
    return {a['owner'], a['manager']} if method in EITHER else {a['owner']}


def execute(case, stats):
    w = make_world(case['cfg'])
    h = drive.History(w, stats)
    good = False
    for op in hist.flatten(case['ops']):
        x = h.step(op)
        hist.label(stats, x)
        hist.unchanged(x)
        if (x.target, x.method) not in ADMIN_SET:
            continue
        allowed = roles(x.pre, x.target, x.method)
        require(x.receipt.ok == x.pred.ok or x.pred.ok is None, '{}, but it must {} (roles {})', x,
                'succeed' if x.pred.ok else 'fail', allowed)
        if x.sender not in allowed:
            require(not x.receipt.ok, '{}: caller is none of {}', x, allowed)
            by_role = model.predict(x.pre, x.pre['adm'][x.target]['owner'], x.target, x.method, x.args)
            if by_role.ok:
                good = True
                stats.label('guarded:' + x.method)
        elif x.receipt.ok:
            stats.label('allowed:' + x.method)
            d = first_diff(x.pred.post['adm'], x.post['adm']) if x.pred.ok else None
            require(d is None, '{}: {}', x, d)
    return good


ADMIN_SET = set(ADMIN)


# -- every other writable method of the deployed API ------------------------------
USER = {
    'irc': {'transfer'}, 'flex': {'transfer', 'destroy', 'acceptOwnerShip'},
    'ix': {'transfer', 'deposit', 'withdraw', 'withdrawTo', 'acceptOwnerShip'},
    'net': {'tokenFallback', 'convert', 'convertFor', 'acceptOwnerShip'},
    'conv': {'tokenFallback', 'updateRegistry', 'acceptOwnerShip', 'acceptManagement'}, 'reg': {'acceptOwnerShip'},
}


def kind(t):
    return {'F': 'flex', 'I': 'ix', 'T': 'irc', 'V': 'conv', 'n': 'net', 'r': 'reg'}[t[0]]


def writable(w, t):
    """state-changing external methods of a deployed contract: [(name, [argument types])]"""
    out = []
    for entry in w.chain.classes[w.addr[t]].get_api():
        if entry.get('type') == 'function' and not entry.get('readonly'):
            out.append((entry['name'], [i['type'] for i in entry.get('inputs', [])]))
    return sorted(out)


def surface_strategy():
    arg = st.fixed_dictionaries({'Address': sampled(['alice', 'mallory', 'owner', 'T1', 'IX', 'F1', 'V1', 'reg2', 'net',
                                                     'zero', 'fresh']),
                                 'int': st.one_of(st.integers(-2, 3), st.integers(1, 10 ** 6), gen.abs_amount),
                                 'bool': st.booleans(), 'str': sampled(['Network', 'ScoreRegistry', 'x', '']),
                                 'bytes': sampled(['', 'x', 'conversionResult'])})
    call = st.tuples(sampled(OWNED + ['T1']), st.integers(0, 40), sampled(['mallory', 'bob', 'wallet', 'T2']),
                     st.lists(arg, min_size=5, max_size=5)).map(list)
    return st.fixed_dictionaries({'cfg': gen.world_pool(8), 'calls': st.lists(call, min_size=3, max_size=12)})


def surface(case, stats):
    """a method outside the documented user operations never works for an outsider"""
    w = make_world(case['cfg'])
    good = False
    for t, i, sender, args in case['calls']:
        methods = [m for m in writable(w, t) if m[0] not in USER[kind(t)]]
        if not methods:
            continue
        name, types = methods[i % len(methods)]
        real = []
        for ty, a in zip(types, args):
            v = a.get(ty)
            real.append(w.addr[v] if ty == 'Address' else v.encode() if ty == 'bytes' else v)
        pre = w.observe()
        r = w.tx(sender, t, name, *real)
        post = w.observe()
        require(not r.ok, '{} -> {}.{}{} succeeded for an account without any role', sender, t, name, real)
        require(pre == post, '{} -> {}.{}{} failed but changed the state', sender, t, name, real)
        stats.label('surface:' + name)
        good = True
    return good


TESTS = [Test('histories', lambda: hist.cases(ops(), min_size=6, max_size=26), execute, quick=3000),
         Test('surface', surface_strategy, surface, quick=1000)]
