"""C31 requests by name and their answers, as wallets and explorers use them"""
import copy

import drive
import gen
import hist
from chain import Address, TypeConverter
from core import require
from gen import sampled, st, weighted
from runner import Test
from world import CONNECTORS, CONVS, FLEX, FLEX_OF, TOKENS, make_world

LEVEL = 'exploration'
RULE = ('a history is non-trivial when at least three requests by name succeeded and had the effect, the answer and the logs of '
        'the same call with typed arguments, on a twin')
ASSUMPTIONS = ['requests are converted by the platform\'s type converter from the annotations of the called method',
               'methods beyond the documented ones are not judged']

A, I, S, B, D, Y = 'Address', 'int', 'str', 'bool', 'dict', 'bytes'
OWN = {'transferOwnerShip': ([('_newOwner', A)], None), 'acceptOwnerShip': ([], None), 'getOwner': ([], A), 'getNewOwner': ([], A)}
HOLD = {'withdrawTokens': ([('_token', A), ('_to', A), ('_amount', I)], None)}
IRC = {'name': ([], S), 'symbol': ([], S), 'decimals': ([], I), 'totalSupply': ([], I), 'balanceOf': ([('_owner', A)], I),
       'transfer': ([('_to', A), ('_value', I), ('_data', Y)], None)}
FALLBACK = {'tokenFallback': ([('_from', A), ('_value', I), ('_data', Y)], None)}
# method -> (parameters by name and type, type of the answer or None for a transaction)
SPEC = {
    'irc_token': IRC,
    'icx_token': {**IRC, **OWN, **HOLD, 'deposit': ([], None), 'withdraw': ([('_amount', I)], None),
                  'withdrawTo': ([('_amount', I), ('_to', A)], None)},
    'flexible_token': {**IRC, **OWN, **HOLD, 'issue': ([('_to', A), ('_amount', I)], None),
                       'destroy': ([('_from', A), ('_amount', I)], None), 'disableTransfer': ([('_disable', B)], None),
                       'getTransferPossibility': ([], B), 'getFlexibleTokenVersion': ([], S)},
    'network': {**OWN, **HOLD, **FALLBACK, 'convert': ([('_path', S), ('_minReturn', I)], None),
                'convertFor': ([('_path', S), ('_minReturn', I), ('_for', A)], None),
                'getExpectedReturnByPath': ([('_path', S), ('_amount', I)], I), 'getIcxTokenRegistered': ([('_icxToken', A)], B),
                'registerIcxToken': ([('_icxToken', A), ('_register', B)], None)},
    'score_registry': {**OWN, 'getAddress': ([('_scoreName', S)], A), 'getScoreIds': ([], 'list'),
                       'registerAddress': ([('_scoreName', S), ('_scoreAddress', A)], None),
                       'unregisterAddress': ([('_scoreName', S)], None)},
    'converter': {
        **OWN, **HOLD, **FALLBACK,
        'transferManagement': ([('_newManager', A)], None), 'acceptManagement': ([], None), 'getManager': ([], A),
        'getNewManager': ([], A), 'transferTokenOwnership': ([('_newOwner', A)], None), 'acceptTokenOwnership': ([], None),
        'disableTokenTransfers': ([('_disable', B)], None), 'withdrawFromToken': ([('_token', A), ('_to', A), ('_amount', I)], None),
        'getToken': ([], A), 'isActive': ([], B), 'addConnector': ([('_token', A), ('_weight', I), ('_enableVirtualBalance', B)], None),
        'updateConnector': ([('_connectorToken', A), ('_weight', I), ('_enableVirtualBalance', B), ('_virtualBalance', I)], None),
        'disableConnectorPurchases': ([('_connectorToken', A), ('_disable', B)], None), 'disableConversions': ([('_disable', B)], None),
        'setConversionFee': ([('_conversionFee', I)], None), 'getConversionFee': ([], I), 'getMaxConversionFee': ([], I),
        'updateRegistry': ([], None), 'restoreRegistry': ([], None), 'disableRegistryUpdate': ([('_disable', B)], None),
        'getRegistry': ([], A), 'getPreviousRegistry': ([], A), 'isAllowRegistryUpdate': ([], B), 'isConversionsEnabled': ([], B),
        'getConnectorTokenCount': ([], I), 'getConnectorAt': ([('_index', I)], A), 'getConnector': ([('_address', A)], D),
        'getConnectorBalance': ([('_connectorToken', A)], I),
        'getReturn': ([('_fromToken', A), ('_toToken', A), ('_amount', I)], D), 'getFinalAmount': ([('_amount', I), ('_magnitude', I)], I)}}
OPTIONAL = {('transfer', '_data')}
PAYABLE = {('icx_token', 'deposit'), ('icx_token', 'fallback'), ('network', 'convert'), ('network', 'convertFor')}
EVENTS = {'Transfer(Address,Address,int,bytes)': 3, 'Issuance(int)': 0, 'Destruction(int)': 0, 'NewFlexibleToken(Address)': 0,
          'OwnerUpdate(Address,Address)': 2, 'ManagerUpdate(Address,Address)': 2, 'AddressUpdate(str,Address)': 1,
          'Conversion(Address,Address,Address,int,int,int)': 3, 'PriceDataUpdate(Address,int,int,int)': 1,
          'ConversionFeeUpdate(int,int)': 0, 'ConversionsEnable(bool)': 0, 'ICXTransfer(Address,Address,int)': 3}
KIND = {**{t: 'irc_token' for t in ('T1', 'T2')}, 'IX': 'icx_token', **{f: 'flexible_token' for f in FLEX}, 'net': 'network',
        **{v: 'converter' for v in CONVS}, 'reg': 'score_registry', 'reg2': 'score_registry'}
READS = sorted((t, m) for t, k in KIND.items() for m, (_, out) in SPEC[k].items() if out)
NAMES = ['alice', 'bob', 'owner', 'mallory'] + TOKENS + CONVS + ['net', 'reg', 'zero', 'fresh', 'wallet']


def spelled(value, style):
    """a value as it is written in a request"""
    if isinstance(value, bool):
        return ['0x1', '1', '0x01'][style % 3] if value else ['0x0', '0', '0x00'][style % 3]
    if isinstance(value, int):
        return str(value) if style % 3 == 0 else hex(value)
    if isinstance(value, bytes):
        return ('0x' if style % 3 else '') + value.hex()
    return str(value)


def ops():
    style = st.integers(0, 5)
    call = st.tuples(st.just('tx'), gen.call_op([(t, m) for t in KIND for m in gen.model.methods_of(t)]), style).map(list)
    read = st.tuples(st.just('read'), sampled(READS).map(list), st.lists(st.tuples(sampled(NAMES), gen.trade_amount).map(list), min_size=3, max_size=3),
                     style).map(list)
    conv = st.tuples(st.just('trade'), gen.convert_op(who_for=weighted((2, st.none()), (1, sampled(['bob', 'fresh'])))), style).map(list)
    quote = st.tuples(st.just('quote'), sampled(gen.PATHS), gen.trade_amount, style).map(list)
    return weighted((5, call), (5, read), (3, conv), (2, quote), (1, hist.switch_op()), (1, hist.handover(list(KIND)[2:])))


def strategy():
    return hist.cases(ops(), cfg=gen.world_pool(8), min_size=5, max_size=18)


def request(w, kind, method, args, style):
    """{name: string} of a call; arguments that are left out are not in it"""
    params, _ = SPEC[kind][method]
    out = {}
    for (name, _type), value in zip(params, args):
        if value is None:
            if (method, name) in OPTIONAL:
                continue
            return None
        out[name] = spelled(value, style)
    keys = list(out)
    if style % 2:
        keys.reverse()      # the order of the names means nothing
    return {k: out[k] for k in keys}


def is_type(value, kind):
    if kind == A:
        return value is None or isinstance(value, Address)
    return type(value) is {I: int, S: str, B: bool, D: dict, 'list': list}[kind]


def twin_tx(w, other, sender, t, method, args, value, style):
    """the same transaction by name here and typed on the twin"""
    params = request(w, KIND[t], method, args, style)
    if params is None:
        return None
    r = w.chain.call_json(w.addr[sender], w.addr[t], method, params, value=value)
    r2 = other.tx(sender, t, method, *args, value=value)
    what = f'{sender} -> {t}.{method}({params}) with {value} ICX'
    require(r.ok == r2.ok, '{}: {}, but with typed arguments {}', what, 'accepted' if r.ok else f'refused: {r.error!r}',
            'accepted' if r2.ok else f'refused: {r2.error!r}')
    require(r.ret == r2.ret, '{}: returns {}, with typed arguments {}', what, r.ret, r2.ret)
    require(sorted(map(repr, w.events(r))) == sorted(map(repr, other.events(r2))), '{}: logs {}, with typed arguments {}', what, w.events(r),
            other.events(r2))
    require(w.chain.dump() == other.chain.dump(), '{}: the state differs from that after the call with typed arguments', what)
    for log in r.logs:
        require(EVENTS.get(log.signature) == log.indexed_count, '{}: logs {} with {} indexed values', what, log.signature,
                log.indexed_count)
    return r


def execute(case, stats):
    w = make_world(case['cfg'])
    other = w.clone()
    h = drive.History(w, stats, predict=False)
    h2 = drive.History(other, stats, predict=False)
    done = 0
    for op in hist.flatten(case['ops']):
        kind = op[0]
        if kind == 'tx':
            sender, t, m, names, value = gen.resolve_call(w, h.state, op[1])
            args = gen.real_args(w, t, m, names)
            if (t, m) == ('IX', 'deposit'):
                value = min(w.icx(sender), 12345)
            r = twin_tx(w, other, sender, t, m, args, value, op[2])
            if r is None:
                continue
            done += r.ok
            stats.label(f'{m}: ' + ('ok' if r.ok else 'refused'))
        elif kind == 'trade':
            _, sender, path, amt, limit, who_for, mode = op[1]
            if mode == 'icx' and path[0] == 'IX':
                n = gen.trade_size(w, path, amt, min(w.icx(sender), 10 ** 24))
                m, args = 'convert', [w.path(path), limit]
                if who_for:
                    m, args = 'convertFor', args + [w.addr[who_for]]
                r = twin_tx(w, other, sender, 'net', m, args, n, op[2])
            else:
                n = gen.trade_size(w, path, amt, w.bal(path[0], sender))
                r = twin_tx(w, other, sender, path[0], 'transfer', [w.addr['net'], n, gen.path_data(w, path, limit, who_for)], 0, op[2])
            done += r.ok
            stats.label('trade: ' + ('ok' if r.ok else 'refused'))
        elif kind in ('read', 'quote'):
            if kind == 'quote':
                t, m = 'net', 'getExpectedReturnByPath'
                args = [w.path(op[1]), max(1, gen.trade_size(w, op[1], op[2], 10 ** 24))]
            else:
                (t, m), values = op[1], op[2]
                args = []
                for i, (name, ty) in enumerate(SPEC[KIND[t]][m][0]):
                    who, amt = values[i]
                    if ty == A and t in CONVS:
                        toks = CONNECTORS[t] + [FLEX_OF[t]]
                        who = toks[NAMES.index(who) % len(toks)] if amt[1] % 5 else who
                    args.append({A: w.addr[who], I: gen.resolve(['a', amt[1]], 0) if name in ('_index', '_magnitude') else
                                gen.resolve(['f', amt[1]], 10 ** 12), S: ['Network', 'ScoreRegistry', 'x', ''][amt[1] % 4]}[ty])
                    if name in ('_index', '_magnitude'):
                        args[-1] %= 4
            params = request(w, KIND[t], m, args, op[3])
            r = w.chain.query_json(w.addr[t], m, params)
            typed = w.chain.query_receipt(w.addr[t], m, *args)
            what = f'request {t}.{m}({params})'
            require(r.ok == typed.ok, '{}: {}, with typed arguments {}', what, f'answers {r.ret}' if r.ok else f'refused: {r.error!r}',
                    'answers' if typed.ok else f'refused: {typed.error!r}')
            if r.ok:
                require(is_type(typed.ret, SPEC[KIND[t]][m][1]), '{}: answers {!r}, documented is {}', what, typed.ret, SPEC[KIND[t]][m][1])
                require(r.ret == TypeConverter.convert_type_reverse(copy.deepcopy(typed.ret)), '{}: {} is not the JSON of {}', what, r.ret,
                        typed.ret)
                plain(r.ret, what)
                shape(w, t, m, args, typed.ret, what)
                done += 1
            stats.label(f'{m}: ' + ('answered' if r.ok else 'refused'))
            continue
        else:
            x, x2 = h.step(op), h2.step(op)
            require((x is None) == (x2 is None) and (x is None or x.receipt.ok == x2.receipt.ok), 'the twins disagree on {}', x)
            continue
        h.state, h2.state = h.observe_fn(), h2.observe_fn()
    interface(w)
    return done >= 3


def plain(value, what):
    """nothing but what JSON can carry: strings, lists, objects"""
    if isinstance(value, dict):
        for k, v in value.items():
            require(isinstance(k, str), '{}: key {!r}', what, k)
            plain(v, what)
    elif isinstance(value, list):
        for v in value:
            plain(v, what)
    else:
        require(value is None or isinstance(value, str), '{}: answers a {}', what, type(value).__name__)


def shape(w, t, m, args, ret, what):
    if m == 'getReturn':
        require(set(ret) == {'amount', 'fee'} and all(type(x) is int and x >= 0 for x in ret.values()), '{}: answers {}', what, ret)
    elif m == 'getConnector' and ret:
        require(set(ret) >= {'virtualBalance', 'weight', 'isVirtualBalanceEnabled', 'isPurchaseEnabled', 'isSet'}, '{}: answers {}', what, ret)
        require(all(type(ret[k]) is bool for k in ('isVirtualBalanceEnabled', 'isPurchaseEnabled', 'isSet')) and
                all(type(ret[k]) is int for k in ('virtualBalance', 'weight')), '{}: answers {}', what, ret)
    elif m == 'getScoreIds':
        require(sorted(ret) == ['Network', 'ScoreRegistry'], '{}: answers {}', what, ret)


def interface(w):
    """the interface a contract declares (icx_getScoreApi) is the documented one"""
    for t, kind in KIND.items():
        api = w.chain.classes[w.addr[t]].get_api()
        got = {e['name']: e for e in api if e['type'] != 'eventlog'}
        for m, (params, out) in SPEC[kind].items():
            require(m in got, '{} does not offer {}', kind, m)
            e = got[m]
            have = [(i['name'], i['type']) for i in e['inputs']]
            require(have == params, '{}.{} takes {}, documented is {}', kind, m, have, params)
            optional = {(m, i['name']) for i in e['inputs'] if 'default' in i}
            require(optional == {(m, n) for n, _ in params if (m, n) in OPTIONAL}, '{}.{}: optional are {}', kind, m, optional)
            require(bool(e.get('readonly')) == (out is not None), '{}.{} is {}read-only', kind, m, '' if e.get('readonly') else 'not ')
            require([o['type'] for o in e['outputs']] == ([out] if out else []), '{}.{} returns {}', kind, m, e['outputs'])
        for m, e in got.items():
            require(bool(e.get('payable')) == ((kind, m) in PAYABLE), '{}.{} is {}payable', kind, m, '' if e.get('payable') else 'not ')


TESTS = [Test('requests', strategy, execute, quick=4000)]
