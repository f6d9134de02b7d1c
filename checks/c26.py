"""C26 deployment parameters are validated and give exactly the stated initial state"""
from chain import QueryFailed, ZERO, Chain, cx, eoa, score_class
from core import require
from gen import sampled, st, weighted
from runner import Test

LEVEL = 'exploration'
RULE = ('a case is non-trivial when one of its deployments was accepted and every getter was compared, or refused because '
        'of exactly one parameter just outside of its domain')
ASSUMPTIONS = ['parameters arrive as the strings of a JSON-RPC request and are converted by the platform\'s type converter',
               'what an account without code as token or registry means is left open']

PPM = 1000000
ORDER = {'converter': ['_token', '_registry', '_maxConversionFee', '_connectorToken', '_connectorWeight']}
ORDER['irc_token'] = ORDER['flexible_token'] = ['_name', '_symbol', '_initialSupply', '_decimals']
PEOPLE = ['deployer', 'other', 'third']


# -- vectors: every parameter, most of them inside of the domain --------------------------------------------
def near(lo, hi, inside):
    """integers in and just outside lo..hi"""
    edges = [lo - 1, lo, lo + 1] + ([] if hi is None else [hi - 1, hi, hi + 1])
    return weighted((3, inside), (2, sampled(edges)), (1, st.integers(-10 ** 30, -1) if hi is None else
                                                      st.integers(lo - 5, lo - 1) | st.integers(hi + 1, 10 * hi)))


TEXT = weighted((3, sampled(['Token', 'T', 'a b', 'FLEX', '', '0', '토큰', 'name\n', 'x' * 200])), (1, st.text(max_size=20)))


def token_vector():
    return st.fixed_dictionaries({
        '_name': TEXT, '_symbol': TEXT,
        '_initialSupply': near(0, None, st.integers(0, 10 ** 12) | st.integers(0, 2 ** 128)),
        '_decimals': near(0, None, st.integers(0, 24) | st.just(18) | st.integers(25, 130))})


def converter_vector():
    return st.fixed_dictionaries({
        '_token': weighted((8, sampled(['F', 'F', 'G'])), (1, sampled(['zero', 'missing']))),
        '_registry': weighted((8, sampled(['R', 'S'])), (1, sampled(['zero', 'missing']))),
        '_maxConversionFee': near(0, PPM, st.integers(0, PPM)),
        '_connectorToken': weighted((6, sampled(['T', 'I', 'G'])), (2, sampled(['zero', 'missing'])), (1, sampled(['F', 'self']))),
        '_connectorWeight': near(1, PPM, st.integers(1, PPM))})


def strategy():
    one = weighted((2, token_vector().map(lambda p: ['irc_token', p])), (2, token_vector().map(lambda p: ['flexible_token', p])),
                   (5, converter_vector().map(lambda p: ['converter', p])),
                   (1, sampled(['icx_token', 'network', 'score_registry']).map(lambda n: [n, {}])))
    return st.lists(st.tuples(one, sampled(PEOPLE), st.booleans()).map(list), min_size=1, max_size=6)


_BASE = []


def base():
    """a chain with something to refer to: tokens F (flexible), G (flexible), T, I (ICX), registries R, S"""
    if not _BASE:
        c = Chain()
        o = eoa('deployer')
        at = {'zero': ZERO, 'missing': None}
        for name, contract, params in (
                ('R', 'score_registry', {}), ('S', 'score_registry', {}),
                ('F', 'flexible_token', dict(_name='F', _symbol='F', _initialSupply='0x64', _decimals='0x0')),
                ('G', 'flexible_token', dict(_name='G', _symbol='G', _initialSupply='0x64', _decimals='0x2')),
                ('T', 'irc_token', dict(_name='T', _symbol='T', _initialSupply='0x64', _decimals='0x12')),
                ('I', 'icx_token', {})):
            at[name], r = c.deploy_json(score_class(contract), o, params, tag=name)
            require(r.ok, 'deploying {} with {} failed: {}', contract, params, r.error)
        _BASE.append((c, at))
    c, at = _BASE[0]
    return c.clone(), dict(at)


def encode(value):
    return None if value is None else str(value) if hasattr(value, 'is_contract') else hex(value) if isinstance(value, int) else value


def reasons(kind, p):
    """parameters outside of the documented domain"""
    out = []
    if kind in ('irc_token', 'flexible_token'):
        out += ['_initialSupply'] * (p['_initialSupply'] < 0) + ['_decimals'] * (p['_decimals'] < 0)
    if kind == 'converter':
        out += ['_token'] * (p['_token'] in ('zero', 'missing')) + ['_registry'] * (p['_registry'] in ('zero', 'missing'))
        out += ['_maxConversionFee'] * (not 0 <= p['_maxConversionFee'] <= PPM)
        if p['_connectorToken'] not in ('zero', 'missing'):
            out += ['_connectorWeight'] * (not 1 <= p['_connectorWeight'] <= PPM)
            out += ['_connectorToken'] * (p['_connectorToken'] in (p['_token'], 'self'))
    return out


def execute(case, stats):
    c, at = base()
    good = False
    for i, ((kind, p), who, as_json) in enumerate(case):
        if kind.endswith('_token') and kind != 'icx_token' and p['_decimals'] > 400:
            continue
        deployer = eoa(who)
        tag = f'new{i}'
        at['self'] = cx(tag)
        params = {k: at[v] if v in at and k in ('_token', '_registry', '_connectorToken') else v for k, v in p.items()}
        before = c.dump()
        cls = score_class(kind)
        if as_json:
            sent = {k: encode(v) for k, v in params.items()}
            address, r = c.deploy_json(cls, deployer, sent, tag=tag)
        else:
            address, r = c.deploy(cls, deployer, *[params[k] for k in ORDER.get(kind, [])], tag=tag)
        wrong = reasons(kind, p)
        shown = {k: str(v) for k, v in params.items()}
        require(r.ok == (not wrong), 'deploying {} with {}: {}, but it must {}{}', kind, shown, 'accepted' if r.ok else r.error,
                'fail' if wrong else 'succeed', f' (because of {wrong})' if wrong else '')
        if wrong:
            require(c.dump() == before and not r.logs, 'a refused deployment changed the state')
            stats.label(f'{kind} refused')
            if len(wrong) == 1:
                good = True
                stats.label(f'refused because of {wrong[0]} only')
            continue
        check(c, kind, address, deployer, params, at)
        good = True
        stats.label(f'{kind} accepted')
        now = c.dump()
        changed = {k for k in set(now) | set(before) if now.get(k) != before.get(k)}
        own = address.to_bytes()
        foreign = [k for k in changed if k in before]
        require(not foreign, 'deploying {} changed existing state {}', kind, foreign[:2])
        require(all(own in k or address.body in k for k in changed), 'deploying {} wrote outside of its own database', kind)
    return good


def check(c, kind, a, deployer, p, at):
    def q(method, *args):
        try:
            return c.query(a, method, *args)
        except QueryFailed as e:
            require(False, 'right after the deployment of {}: {}', kind, e)

    def same(method, want, *args):
        got = q(method, *args)
        if isinstance(want, bool) or isinstance(got, bool):
            require(bool(got) == want and got in (0, 1), '{} with {}: {}{} is {!r}, not {!r}', kind, p, method, args, got, want)
        else:
            require(type(got) is type(want) and got == want, '{} with {}: {}{} is {!r}, not {!r}', kind,
                    {k: str(v) for k, v in p.items()}, method, tuple(map(str, args)), got, want)
    people = [eoa(n) for n in PEOPLE] + [a, ZERO] + [x for n, x in at.items() if x is not None and n != 'self']
    if kind != 'irc_token':
        same('getOwner', deployer)
        same('getNewOwner', ZERO)
    if kind in ('irc_token', 'flexible_token', 'icx_token'):
        total = 0 if kind == 'icx_token' else p['_initialSupply'] * 10 ** p['_decimals']
        same('name', 'ICX Token' if kind == 'icx_token' else p['_name'])
        same('symbol', 'ICXT' if kind == 'icx_token' else p['_symbol'])
        same('decimals', 18 if kind == 'icx_token' else p['_decimals'])
        same('totalSupply', total)
        for x in people:
            same('balanceOf', total if x == deployer else 0, x)
    if kind == 'flexible_token':
        same('getTransferPossibility', True)
        require(isinstance(q('getFlexibleTokenVersion'), str), 'version is {!r}', q('getFlexibleTokenVersion'))
    if kind == 'score_registry':
        same('getAddress', a, 'ScoreRegistry')
        same('getAddress', ZERO, 'Network')
        same('getAddress', ZERO, 'Other')
    if kind == 'network':
        for x in people:
            same('getIcxTokenRegistered', False, x)
    if kind == 'converter':
        same('getToken', p['_token'])
        same('getRegistry', p['_registry'])
        same('getPreviousRegistry', p['_registry'])
        same('isAllowRegistryUpdate', True)
        same('getMaxConversionFee', p['_maxConversionFee'])
        same('getConversionFee', 0)
        same('isConversionsEnabled', True)
        same('isActive', False)
        t = p['_connectorToken']
        first = t is not None and t != ZERO
        same('getConnectorTokenCount', 1 if first else 0)
        if first:
            same('getConnectorAt', t, 0)
        for x in people:
            if not x.is_contract:
                continue
            d = q('getConnector', x)
            mine = first and x == t
            want = {'virtualBalance': 0, 'weight': p['_connectorWeight'] if mine else 0, 'isVirtualBalanceEnabled': False,
                    'isPurchaseEnabled': mine, 'isSet': mine}
            got = {k: d.get(k) for k in want}
            require({k: int(v) if v is not None else 0 for k, v in got.items()} == {k: int(v) for k, v in want.items()},
                    'converter with {}: connector {} is {}, expected {}', {k: str(v) for k, v in p.items()}, x, d, want)
        # the limit given at deployment is the limit
        for fee, ok in ((p['_maxConversionFee'], True), (p['_maxConversionFee'] + 1, False), (-1, False)):
            r = c.clone().call(deployer, a, 'setConversionFee', fee)
            require(r.ok == ok, 'fee {} was {} with a maximum of {}', fee, 'accepted' if r.ok else 'refused', p['_maxConversionFee'])


TESTS = [Test('deployments', strategy, execute, quick=9000)]
