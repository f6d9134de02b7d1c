"""C21 the Storage wrapper behaves like the fields it declares"""
import copy

from chain import Chain, cx, eoa
from core import require
from gen import sampled, st, weighted
from runner import Test

from iconservice import *

LEVEL = 'exploration'
RULE = ('a case is non-trivial when a field was written and read back at least twice, at least once through another Storage '
        'object over the same database (re-created or parallel) or after a transaction was rolled back')
ASSUMPTIONS = ['field names are Python identifiers without leading underscore, other than names of the wrapper itself '
               '(db, add_fields)', 'an empty byte string is stored as the absent value by the platform and is not written']

NAMES = ['a', 'b', 'ab', 'owner', 'name', 'size', 'token', 'value', 'get', 'set', 'x0', 'balance', 'self_', 'items',
         'A', 'AB', 'Owner', 'OWNER', 'new_owner', 'newOwner', 'owner2', 'X0', 'x', 'x00', 'nam', 'tokens', 'a_b', 'a__b', 'db_', 'add_field',
         'a_', 'b_', 'owner_', 'name_', 'x0_', 'a_rather_long_field_name_for_the_first_value', 'a_rather_long_field_name_for_the_second_value',
         'a_rather_long_field_name', 'a_rather_long_field_name_', 'aa', 'ba', 'first_of_two', 'second_of_two', 'two_of_first']
# fields that are easily taken for one another
ALIKE = [['a', 'a_', 'A'], ['owner', 'owner_', 'Owner', 'new_owner'], ['x0', 'x00', 'x0_', 'x'], [n for n in NAMES if n.startswith('a_rather')],
         ['ab', 'a_b', 'a__b', 'ba', 'aa'], ['first_of_two', 'second_of_two', 'two_of_first'], ['nam', 'name', 'name_']]
TYPES = {'int': int, 'str': str, 'bytes': bytes, 'bool': bool, 'address': Address}
DEFAULT = {'int': 0, 'str': '', 'bytes': None, 'bool': False, 'address': None}
KINDS = {'var': VarDB, 'dict': DictDB, 'array': ArrayDB}


class Host(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self.harness = None
        self.storage_db = db

    def on_install(self) -> None:
        pass

    def on_update(self) -> None:
        pass

    @external
    def run(self):
        self.harness(self, self.storage_db)


def value(t):
    return {'int': st.one_of(st.integers(-3, 300), st.integers(-2 ** 130, 2 ** 256)), 'str': st.text(max_size=6),
            'bytes': st.text(min_size=1, max_size=5), 'bool': st.booleans(), 'address': st.integers(0, 3)}[t]


def strategy():
    field = st.tuples(sampled(NAMES), weighted((3, st.just('var')), (1, st.just('dict')), (1, st.just('array'))),
                      sampled(list(TYPES))).map(list)
    def named(names):
        # the same kind of field for all of them, so that nothing but the name tells them apart
        return st.tuples(field, st.permutations(names)).map(lambda p: [[n] + p[0][1:] for n in p[1]])
    layout = weighted((3, st.lists(field, min_size=1, max_size=6, unique_by=lambda f: f[0])), (2, sampled(ALIKE).flatmap(named)))
    values = st.fixed_dictionaries({t: value(t) for t in TYPES})
    op = st.tuples(
        sampled(['write', 'write', 'write', 'read', 'read', 'add', 'attr', 'readattr', 'delattr', 'new', 'readall', 'pop', 'length']),
        st.integers(0, 2), st.integers(0, 1), st.integers(0, 11), values, st.integers(0, 5), sampled(NAMES)).map(list)
    return st.fixed_dictionaries({
        'layouts': st.lists(layout, min_size=1, max_size=3), 'split': st.integers(0, 6),
        'txs': st.lists(st.fixed_dictionaries({'ops': st.lists(op, min_size=1, max_size=14), 'fail': weighted((4, st.just(False)), (1, st.just(True))),
                                               'restart': weighted((3, st.just(False)), (1, st.just(True)))}),
                        min_size=1, max_size=4)})


ADDRESSES = [eoa('s0'), eoa('s1'), cx('s2'), cx('s3')]


def decode(t, v):
    return v.encode() if t == 'bytes' else ADDRESSES[v] if t == 'address' else v


def execute(case, stats):
    from contracts.utility.storage import Storage
    layouts = case['layouts']
    c = Chain()
    user = eoa('user')
    host = c.install(Host, user, tag='host')
    committed = {}      # (storage, field) -> value, {key: value} or [values]
    objects = {}        # (storage, instance) -> (Storage, plain attributes)
    used = {'writes': 0, 'reads': 0, 'far': 0, 'rolled back': 0}
    writer = {}

    def make(db, s):
        """storage s: 0 over the contract's database, the others over parts of it (like the connectors)"""
        sub = db if s == 0 else db.get_sub_db(b'part' + bytes([s]))
        obj = Storage(sub)
        fields = [(n, KINDS[k], TYPES[t]) for n, k, t in layouts[s]]
        cut = case['split'] % (len(fields) + 1)
        obj.add_fields(fields[:cut])
        obj.add_fields(fields[cut:])
        return obj

    def run(tx, model):
        def body(score, db):
            for kind, s, inst, f, vals, key, name in tx['ops']:
                s %= len(layouts)
                if (s, inst) not in objects or kind == 'new':
                    objects[(s, inst)] = (make(db, s), {})
                obj, attrs = objects[(s, inst)]
                field, fkind, t = layouts[s][f % len(layouts[s])]
                v = decode(t, vals[t])
                slot = (s, field)
                if kind in ('attr', 'readattr', 'delattr'):
                    if name in [x[0] for x in layouts[s]] or hasattr(Storage, name):
                        continue
                    if kind == 'attr':
                        attrs[name] = vals['str']
                        setattr(obj, name, vals['str'])
                    elif kind == 'delattr' and name in attrs:
                        del attrs[name]
                        delattr(obj, name)
                    require(hasattr(obj, name) == (name in attrs), 'undeclared attribute {} {}', name,
                            'is missing' if name in attrs else 'appeared')
                    if name in attrs:
                        require(getattr(obj, name) == attrs[name], 'undeclared attribute {} reads {!r}, was set to {!r}', name,
                                getattr(obj, name), attrs[name])
                        stats.label('undeclared attribute read')
                    continue
                if kind == 'readall':
                    for n2, k2, t2 in layouts[s]:
                        check(obj, s, n2, k2, t2, model, inst)
                    continue
                if kind == 'write':
                    used['writes'] += 1
                    writer[slot] = inst, obj
                    if fkind == 'var':
                        setattr(obj, field, v)
                        model[slot] = v
                    elif fkind == 'dict':
                        getattr(obj, field)[key] = v
                        model.setdefault(slot, {})[key] = v
                    else:
                        arr = model.setdefault(slot, [])
                        if key < len(arr) and key % 2:
                            getattr(obj, field)[key] = v
                            arr[key] = v
                        else:
                            getattr(obj, field).put(v)
                            arr.append(v)
                elif kind == 'add' and fkind == 'var' and t == 'int':
                    code = 'obj.F += v'.replace('F', field)
                    exec(code, {'obj': obj, 'v': v})
                    model[slot] = model.get(slot, 0) + v
                elif kind == 'pop' and fkind == 'array' and model.get(slot):
                    got = getattr(obj, field).pop()
                    want = model[slot].pop()
                    require(got == want, '{}.pop() gave {!r}, expected {!r}', field, got, want)
                elif kind == 'length' and fkind == 'array':
                    require(len(getattr(obj, field)) == len(model.get(slot, [])), 'len({}) is {}, expected {}', field,
                            len(getattr(obj, field)), len(model.get(slot, [])))
                check(obj, s, field, fkind, t, model, inst)
            if tx['fail']:
                revert('rolled back')
        return body

    def check(obj, s, field, fkind, t, model, inst):
        used['reads'] += 1
        slot = (s, field)
        if slot in writer and writer[slot][1] is not obj:
            used['far'] += 1
        if fkind == 'var':
            got, want = getattr(obj, field), model.get(slot, DEFAULT[t])
            require(got == want and (got is None or isinstance(got, TYPES[t])), 'field {} ({}) reads {!r}, last written {!r}', field, t,
                    got, want)
            stats.label(f'{fkind} {t} ' + ('read' if slot in model else 'default'))
            return
        box = getattr(obj, field)
        require(isinstance(box, KINDS[fkind]), 'the container field {} gives a {}', field, type(box).__name__)
        stats.label(f'{fkind} {t} ' + ('read' if slot in model else 'default'))
        if fkind == 'dict':
            for key in range(6):
                got, want = box[key], model.get(slot, {}).get(key, DEFAULT[t])
                require(got == want, '{}[{}] reads {!r}, last written {!r}', field, key, got, want)
        else:
            got = [box[i] for i in range(len(box))]
            require(got == model.get(slot, []), 'array {} reads {!r}, expected {!r}', field, got, model.get(slot, []))

    for tx in case['txs']:
        if tx['restart']:
            objects.clear()
            c.restart()
        model = copy.deepcopy(committed)
        c.scores[host].harness = run(tx, model)
        r = c.call(user, host, 'run')
        if r.error is not None and type(r.error).__name__ == 'Violation':
            raise r.error
        require(r.ok != tx['fail'], 'using the fields failed: {} {}', type(r.error).__name__, r.error)
        if r.ok:
            committed = model
        else:
            used['rolled back'] += 1
    # everything once more, from fresh objects
    objects.clear()
    c.restart()

    def last(score, db):
        for s in range(len(layouts)):
            obj = make(db, s)
            for n, k, t in layouts[s]:
                check(obj, s, n, k, t, committed, 0)
            for n in NAMES:
                require(hasattr(Storage, n) or hasattr(obj, n) == (n in [x[0] for x in layouts[s]]), 'the undeclared attribute {} was persisted', n)
    c.scores[host].harness = last
    r = c.call(user, host, 'run')
    if not r.ok:
        if type(r.error).__name__ == 'Violation':
            raise r.error
        require(False, 'reading the fields after a restart failed: {}', r.error)
    return used['writes'] > 0 and used['reads'] > 1 and (used['far'] > 0 or used['rolled back'] > 0)


TESTS = [Test('fields', strategy, execute, quick=5400)]
