"""C20 interface proxies forward calls faithfully"""
import copy
import importlib
import inspect
import pkgutil

import chain as chain_module
import drive
import gen
from chain import Chain, eoa, score_class
from core import first_diff, require
from gen import sampled, st, weighted
from runner import Test
from world import CONNECTORS, CONVS, make_world
from world import FLEX_OF as CONVERTED

from iconservice import *
from iconservice.base.exception import IconServiceBaseException

LEVEL = 'exploration'
RULE = ('generated interfaces: non-trivial when at least three calls through proxies of two interfaces were made and compared '
        'with what the target contracts recorded; deployed contracts: non-trivial when the call through the proxy succeeded')
ASSUMPTIONS = ['interfaces are abstract classes whose methods are declared with @abstractmethod, as in contracts/interfaces']

NAMES = ['transfer', 'balanceOf', 'getOwner', 'issue', 'a', 'b', 'value', 'get_x', 'tokenFallback', 'withdrawTo']
MAXARGS = 5

TARGET_SRC = '''
class Target(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self.harness = None

    def on_install(self) -> None:
        pass

    def on_update(self) -> None:
        pass

    @payable
    @external
    def run(self):
        return self.harness(self, 'run', ())
''' + ''.join(f'''
    @payable
    @external
    def {n}(self, {', '.join(f'p{i}: int = None' for i in range(MAXARGS))}):
        return self.harness(self, '{n}', ({', '.join(f'p{i}' for i in range(MAXARGS))},))
''' for n in NAMES)


def build(src, name):
    space = {'__name__': 'verif_generated'}
    exec('from iconservice import *', space)
    exec(src, space)
    return space[name]


Target = build(TARGET_SRC, 'Target')


# -- generated interfaces --------------------------------------------------------------------------
def strategy():
    method = st.tuples(sampled(NAMES), st.integers(0, MAXARGS), st.integers(0, MAXARGS),
                       weighted((6, st.just('abstract')), (1, st.just('concrete')))).map(list)
    iface = st.fixed_dictionaries({
        'name': sampled(['ABCToken', 'ABCToken', 'ABCOther', 'I']), 'bases': st.lists(st.integers(0, 6), max_size=2),
        'methods': st.lists(method, max_size=5)})
    arg = st.one_of(st.integers(-2 ** 70, 2 ** 70), st.text(max_size=4), st.booleans(), st.none(),
                    st.builds(lambda x: ['bytes', x], st.text(max_size=4)), st.builds(lambda n: ['addr', n], st.integers(0, 3)))

    def call(children):
        return st.fixed_dictionaries({
            'iface': st.integers(0, 7), 'target': st.integers(0, 3), 'method': st.integers(0, 20),
            'args': st.lists(arg, max_size=MAXARGS), 'kw': st.integers(0, 3), 'fail': weighted((6, st.just(False)), (1, st.just(True))),
            'catch': st.booleans(), 'fresh': st.booleans(), 'then': st.lists(children, max_size=2) if children is not None else st.just([])})
    calls = call(call(call(None)))
    return st.fixed_dictionaries({
        'ifaces': st.lists(iface, min_size=1, max_size=5), 'early': st.lists(st.integers(0, 7), max_size=4),
        'txs': st.lists(st.fixed_dictionaries({'caller': st.integers(0, 3), 'value': sampled([0, 0, 7]),
                                               'calls': st.lists(calls, min_size=1, max_size=4)}), min_size=1, max_size=3)})


def make_interfaces(specs):
    """-> [(class, {abstract method: (n params, n with default)}, {concrete method})]"""
    out = []
    for i, s in enumerate(specs):
        bases = sorted({b for b in s['bases'] if b < i}, reverse=True)
        lines = [f'class {s["name"]}({", ".join(f"base{b}" for b in bases) or "ABC"}):', '    """an interface"""']
        methods = {}
        for name, n, d, kind in s['methods']:
            methods[name] = (n, min(n, d), kind)
        for name, (n, d, kind) in methods.items():
            params = ''.join(f', p{k}: int' + (' = None' if k >= n - d else '') for k in range(n))
            if kind == 'abstract':
                lines += ['    @abstractmethod', f'    def {name}(self{params}) -> int:', '        pass']
            else:
                lines += [f'    def {name}(self{params}) -> int:', f'        return "local {i} {name}"']
        space = {'__name__': 'verif_generated', **{f'base{b}': out[b][0] for b in bases}}
        exec('from iconservice import *', space)
        exec('\n'.join(lines), space)
        cls = space[s['name']]
        # what Python's method resolution makes of it, from the declarations alone
        found = {}
        for c in cls.__mro__:
            for k, (base, _, _, own) in enumerate(out + [(cls, None, None, methods)]):
                if c is base:
                    for name, m in own.items():
                        found.setdefault(name, (k, m))
        abstract = {name: m[:2] for name, (k, m) in found.items() if m[2] == 'abstract'}
        concrete = {name: k for name, (k, m) in found.items() if m[2] == 'concrete'}
        out.append((cls, abstract, concrete, methods))
    return out


class Refused(Exception):
    pass


def decode(x, addresses):
    if isinstance(x, list):
        return x[1].encode() if x[0] == 'bytes' else addresses[x[1]]
    return x


def execute(case, stats):
    from contracts.utility.proxy_score import ProxyScore
    case = copy.deepcopy(case)
    ifaces = make_interfaces(case['ifaces'])
    c = Chain()
    user = eoa('user')
    c.mint_icx(user, 10 ** 20)
    targets = [c.install(Target, user, tag=f't{i}') for i in range(4)]
    for a in targets:
        c.mint_icx(a, 10 ** 10)
    addresses = targets
    proxies = {}
    for i in case['early']:
        proxies[i % len(ifaces)] = ProxyScore(ifaces[i % len(ifaces)][0])
    seen, expected, answers = [], [], []
    stack = []
    kept = {}
    serial = [0]

    def perform(score, calls):
        """the contract `score` makes its calls"""
        for call in calls:
            i = call['iface'] % len(ifaces)
            cls, abstract, concrete, _ = ifaces[i]
            if i not in proxies or call['fresh']:
                proxies[i] = ProxyScore(cls)
            to = targets[call['target']]
            key = (score.address, i, to)
            if key not in kept or call['fresh']:
                kept[key] = score.create_interface_score(to, proxies[i])
            proxy = kept[key]
            for name in NAMES:
                require(hasattr(proxy, name) == (name in abstract or name in concrete),
                        'the proxy of {} {} the method {}', sorted(abstract), 'offers' if hasattr(proxy, name) else 'lacks', name)
            for name, k in concrete.items():
                n = len(inspect.signature(getattr(proxy, name)).parameters)
                got = getattr(proxy, name)(*[0] * n)
                require(got == f'local {k} {name}', 'the ordinary method {} of the interface returned {}', name, got)
            if not abstract:
                continue
            name = sorted(abstract)[call['method'] % len(abstract)]
            n, d = abstract[name]
            args = [decode(x, addresses) for x in call['args']][:n]
            args += [k + 1 for k in range(len(args), n - d)]
            serial[0] += 1
            full = tuple(args + [None] * (MAXARGS - len(args)))
            entry = (to, name, score.address, 0, full)
            expected.append(entry)
            stack.append((call, entry, len(seen)))
            kw = min(call['kw'], len(args))
            pos, named = args[:len(args) - kw], {f'p{k}': args[k] for k in reversed(range(len(args) - kw, len(args)))}
            try:
                got = getattr(proxy, name)(*pos, **named)
            except (IconServiceBaseException, Exception) as e:
                if isinstance(e, chain_module.OutOfStepException) or type(e).__name__ == 'Violation':
                    raise
                require(call['fail'] or call.get('broke'), 'the call {} through the proxy failed: {} {}', entry, type(e).__name__, e)
                call['broke'] = True
                if not call['catch']:
                    raise
                stats.label('failure propagated')
                continue
            require(not call['fail'] and not call.get('broke'), 'the failure of {} did not reach the caller', entry)
            want = answers.pop()
            require(type(got) is type(want) and got == want, 'the call {} returned {!r}, the target {!r}', entry, got, want)

    def harness(score, method, args):
        if method == 'run':
            perform(score, score.plan)
            return None
        call, entry, _ = stack.pop()
        now = (score.address, method, score.msg.sender, score.msg.value, args)
        seen.append(now)
        require(now == entry and [type(x) for x in args] == [type(x) for x in entry[4]],
                'call {} arrived at the target as {}', entry, now)
        try:
            perform(score, call['then'])
        except (IconServiceBaseException, Exception):
            call['broke'] = True
            raise
        if call['fail']:
            call['broke'] = True
            revert('no')
        answer = [call['method'], f'{method} {len(seen)}', len(seen) * 10 ** 30, None, b'x', to_dict(seen)][call['iface'] % 6]
        answers.append(answer)
        return answer

    for a in targets:
        c.scores[a].harness = harness
    made = 0
    problems = []
    for tx in case['txs']:
        caller = targets[tx['caller']]
        c.scores[caller].plan = tx['calls']
        del answers[:], stack[:]
        balances = [c.icx(a) for a in targets]
        r = c.call(user, caller, 'run', value=tx['value'])
        if not r.ok and type(r.error).__name__ == 'Violation':
            raise r.error
        broke = any(x.get('broke') and not x['catch'] for x in tx['calls'])
        require(r.ok != broke, 'the transaction {} although an inner call {}: {}', 'succeeded' if r.ok else 'failed',
                'failed' if broke else 'did not fail', r.error)
        after = [c.icx(a) for a in targets]
        if r.ok:
            balances[tx['caller']] += tx['value']
        require(after == balances, 'calls through proxies moved ICX')
    require(seen == expected, 'the targets saw {}, the callers made {}', seen, expected)
    stats.label('calls through a proxy', len(seen))
    return len(seen) >= 3 and len(proxies) >= 2


def to_dict(seen):
    return {'n': len(seen)}


# -- interfaces of the repository against the contracts ---------------------------------------------
IMPLEMENTS = {
    'ABCIRCToken': ['T1', 'IX', 'F1'], 'ABCFlexibleToken': ['F1', 'F2'], 'ABCIcxToken': ['IX'],
    'ABCOwned': ['F1', 'IX', 'net', 'reg', 'V1'], 'ABCTokenHolder': ['F1', 'IX', 'net', 'V1'],
    'ABCConverter': ['V1', 'V2'], 'ABCScoreRegistry': ['reg', 'reg2'],
}


def interfaces():
    import contracts.interfaces as package
    out = {}
    for _, name, _ in pkgutil.iter_modules(package.__path__):
        module = importlib.import_module(f'contracts.interfaces.{name}')
        for cls in vars(module).values():
            if inspect.isclass(cls) and cls.__name__.startswith('ABC') and cls.__module__ == module.__name__ and cls.__name__ != 'ABC':
                out[cls.__name__] = cls
    return out


def pairs(_tier=None):
    out = []
    for name, cls in sorted(interfaces().items()):
        for contract in IMPLEMENTS.get(name, []):
            for m in sorted(cls.__abstractmethods__):
                out.append([name, contract, m])
    return out


ARGS = {
    'Address': weighted((1, sampled(gen.ADDRS)), (3, sampled(['IX', 'T1', 'F1', 'IX', 'T1', 'F1', 'alice', 'catcher', 'wallet']))),
    'int': st.one_of(st.integers(-1, 10), st.integers(1, 10 ** 12), gen.abs_amount), 'bool': st.booleans(), 'str': sampled(['Network', 'ScoreRegistry', 'x', '']),
    'bytes': st.one_of(st.none(), sampled(['', 'None', 'x', 'conversionResult']))}


def deployed_strategy():
    def of(pair):
        contract = pair[1]
        types = [t['type'] for t in api_of(contract)[pair[2]]['inputs']]
        conv_addr = weighted((4, sampled(CONNECTORS.get(contract, ['T1']) + [CONVERTED.get(contract, 'T1')])), (1, ARGS['Address']))
        return st.fixed_dictionaries({
            'cfg': gen.world_pool(6, lo=14, hi=20), 'pair': st.just(pair), 'owner': st.booleans(), 'last': st.booleans(),
            'args': st.tuples(*[conv_addr if t == 'Address' and contract in CONVS else ARGS[t] for t in types]).map(list)})
    return sampled(pairs()).flatmap(of)


KIND = {'T1': 'irc_token', 'IX': 'icx_token', 'F1': 'flexible_token', 'F2': 'flexible_token', 'net': 'network',
        'reg': 'score_registry', 'reg2': 'score_registry', 'V1': 'converter', 'V2': 'converter'}


def api_of(contract):
    return {x['name']: x for x in score_class(KIND[contract]).get_api() if x['type'] == 'function'} \
        if hasattr(score_class(KIND[contract]), 'get_api') else {}


def plain(x):
    if isinstance(x, dict):
        return sorted((k, plain(v)) for k, v in x.items())
    return type(x).__name__, str(x)


def deployed(case, stats):
    from contracts.utility.proxy_score import ProxyScore
    name, contract, m = case['pair']
    abc = interfaces()[name]
    proxy_class = ProxyScore(abc)
    api = api_of(contract)
    require(m in api, '{}.{} is not a method of the deployed {}', name, m, contract)
    inputs = api[m]['inputs']
    params = list(inspect.signature(getattr(abc, m)).parameters.values())[1:]
    require(len(inputs) == len(params), '{}.{} takes {} arguments, the deployed {} {}', name, m, len(params), contract, len(inputs))
    mine, its = [p.name for p in params], [i['name'] for i in inputs]
    require(sorted(mine) != sorted(its) or mine == its, '{}.{} takes {}, the deployed {} {}', name, m, mine, contract, its)
    args = case['args']
    if case['last'] and params and params[-1].default is not inspect.Parameter.empty:
        args = args[:-1]        # an optional argument left out
    w = make_world(case['cfg'])
    if case['owner'] and contract not in ('T1',):
        # the calling contract is the owner, or about to be
        owner = w.name(w.q(contract, 'getOwner'))
        w.must(owner, contract, 'transferOwnerShip', w.addr['wallet'])
        if m != 'acceptOwnerShip':
            w.actor('wallet').program = {'execute': {'acts': [{'to': w.addr[contract], 'm': 'acceptOwnerShip'}]}}
            w.must('alice', 'wallet', 'execute')
            w.actor('wallet').program = {}
    twin = w.clone()
    types = [i['type'] for i in inputs]
    values = [w.a(x) if t == 'Address' else (x.encode() if t == 'bytes' and x is not None else x) for t, x in zip(types, args)]
    results = []
    for world, through in ((w, True), (twin, False)):
        got = []

        def act(score, method, _args, through=through, got=got):
            if method != 'execute':
                return
            to = w.addr[contract]
            if through:
                got.append(getattr(score.create_interface_score(to, proxy_class), m)(*values))
            else:
                got.append(score._context.internal_call.other_external_call(score.address, to, m, tuple(values), {}, 0))
        world.actor('wallet').on_call = act
        try:
            r = world.tx('mallory', 'wallet', 'execute')
        finally:
            world.actor('wallet').on_call = None
        results.append(((r.ok, plain(got[0]) if got else None, world.events(r)), world.observe()))
    (a, sa), (b, sb) = results
    what = f'{name}({contract}).{m}{tuple(args)}'
    require(a == b, '{} through the proxy: {}, called directly: {}', what, a, b)
    require(sa == sb, '{} through the proxy and directly differ: {}', what, first_diff(sb, sa))
    stats.label(f'{name}.{m}:' + ('ok' if a[0] else 'refused'))
    return a[0]


TESTS = [Test('generated', strategy, execute, quick=3600), Test('deployed', deployed_strategy, deployed, quick=2800)]
