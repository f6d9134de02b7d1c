"""C15 the network accepts exactly the well-formed conversion requests"""
import json

import convs
import gen
import hist
import ladder
from core import first_diff, require
from gen import sampled, st, weighted
from runner import Test
from world import CONVS, TOKENS, make_world

LEVEL = 'exploration'
RULE = ('a case is non-trivial when the request differs from a canonical request in form only (it must have the same outcome) '
        'or violates one of the stated conditions (it must be rejected); distinct = distinct requests')
ASSUMPTIONS = ['unspecified and not judged either way: booleans as minReturn, upper-case hex in addresses, repeated keys, '
               'whitespace around the `for` address', 'tokens in the path are honest project tokens']

HEX = set('0123456789abcdef')


def address_ok(text):
    return isinstance(text, str) and len(text) == 42 and text[:2] in ('cx', 'hx') and set(text[2:]) <= HEX


def parse_path(text):
    """-> list of address strings, or None when malformed"""
    if not isinstance(text, str):
        return None
    out = [p.strip() for p in text.split(',')]
    if not all(address_ok(p) for p in out):
        return None
    if not (3 <= len(out) <= 21 and len(out) % 2 == 1):
        return None
    flex = out[1::2]
    return out if len(set(flex)) == len(flex) else None


class Unspecified(Exception):
    pass


def parse_payload(data, token, sender, zero):
    """-> (path, minReturn, beneficiary) or None when the payload must be rejected"""
    seen = []

    def pairs(items):
        keys = [k for k, _ in items]
        if len(set(keys)) != len(keys):
            seen.append('dup')
        return dict(items)
    try:
        d = json.loads(data.decode('utf-8'), object_pairs_hook=pairs)
    except (UnicodeDecodeError, ValueError, RecursionError):
        return None
    if seen:
        raise Unspecified
    if not isinstance(d, dict) or 'path' not in d or 'minReturn' not in d:
        return None
    text = d['path']
    if isinstance(text, str) and any(c in 'ABCDEF' for c in text):
        raise Unspecified
    path = parse_path(text)
    if isinstance(d['minReturn'], bool):
        raise Unspecified
    if path is None or not isinstance(d['minReturn'], int) or d['minReturn'] < 1:
        return None
    if path[0] != token:
        return None
    who = d.get('for')
    if who is None:
        who = sender
    elif isinstance(who, str) and (who != who.strip() or any(c in 'ABCDEF' for c in who)):
        raise Unspecified
    if not address_ok(who) or who == zero:
        return None
    return path, d['minReturn'], who


# -- generators -----------------------------------------------------------------------------------
def good_path():
    return weighted((1, sampled(gen.PATHS1)), (1, sampled(gen.PATHS)))


SPACE = ['', '', '', '', ' ', '  ', '\t', '\n', ' \r\n ', '\u00a0', '\u3000']


def spaced(names):
    """['sp', [[before, name, after]...]]"""
    return st.tuples(*[st.tuples(sampled(SPACE), st.just(n), sampled(SPACE)).map(list) for n in names]).map(list)


FLAWS = ['even', 'one', 'circular', 'empty', 'short', 'long', 'nothex', 'prefix', 'trailing', 'double', 'semicolon', 'none',
         'list', 'int', 'upper', 'name', 'first', 'comma_space']


def request():
    return good_path().flatmap(lambda p: st.fixed_dictionaries({
        'path': spaced(p),
        'flaw': weighted((2, st.none()), (1, sampled(FLAWS))),
        'at': st.integers(0, 20),
        'min': weighted((5, st.just(1)), (2, sampled([0, -1, None, '1', 1.0, 1.5, [], {}, '', 'x', 2 ** 300, -2 ** 70])),
                        (1, st.integers(-3, 10 ** 6))),
        'drop': weighted((9, st.none()), (1, sampled(['path', 'minReturn']))),
        'for': weighted((4, st.just('absent')), (2, st.just('null')), (2, sampled(['bob', 'fresh', 'wallet', 'owner'])),
                        (1, sampled(['T1', 'IX', 'net', 'F1', 'V1', 'catcher', 'rejecter', 'reg'])),
                        (2, sampled(['zero', '!', '!hx', '!hx123', '!5', '!{}', '!false', '!zz' + '0' * 40]))),
        'extra': weighted((4, st.none()), (1, sampled(['note', 'Path', 'FOR', 'min_return', '']))),
        'style': weighted((3, sampled(['compact', 'indent', 'ascii', 'pad'])), (1, sampled(['bom', 'latin', 'utf16', 'trail', 'tail', 'tail', 'head', 'wrap', 'wrap']))),
        'order': st.integers(0, 5),
    }))


def build(w, req):
    """-> payload bytes"""
    parts = [a + str(w.addr[n]) + b for a, n, b in req['path']]
    flaw, at = req['flaw'], req['at']
    names = [n for _, n, _ in req['path']]
    i = at % len(parts)
    if flaw == 'even':
        parts.append(str(w.addr[TOKENS[at % 6]]))
    elif flaw == 'one':
        parts = parts[:1]
    elif flaw == 'circular':    # back over the first flexible token
        parts += [str(w.addr[names[1]]), str(w.addr[names[0]])]
    elif flaw == 'empty':
        parts[i] = ''
    elif flaw == 'short':
        parts[i] = parts[i].strip()[:-1]
    elif flaw == 'long':
        parts[i] = parts[i].strip() + '0'
    elif flaw == 'nothex':
        parts[i] = parts[i].strip()[:-1] + 'g'
    elif flaw == 'prefix':
        parts[i] = 'ax' + parts[i].strip()[2:]
    elif flaw == 'name':
        parts[i] = names[i]
    elif flaw == 'first':
        parts[0] = str(w.addr[[t for t in TOKENS if t != names[0]][at % 5]])
    text = ','.join(parts)
    if flaw == 'trailing':
        text += ','
    elif flaw == 'double':
        text = text.replace(',', ',,', 1)
    elif flaw == 'semicolon':
        text = text.replace(',', ';')
    elif flaw == 'comma_space':
        text = text.replace(',', ' ')
    elif flaw == 'upper':
        text = text.upper()
    value = {'none': None, 'list': parts, 'int': 7}.get(flaw, text)
    d = {'path': value, 'minReturn': req['min']}
    f = req['for']
    if f == 'null':
        d['for'] = None
    elif f.startswith('!'):
        try:
            d['for'] = json.loads(f[1:])
        except ValueError:
            d['for'] = f[1:]
    elif f != 'absent':
        d['for'] = str(w.addr[f])
    if req['extra'] is not None:
        d[req['extra']] = 'x'
    if req['drop']:
        d.pop(req['drop'], None)
    keys = list(d)
    k = req['order'] % max(1, len(keys))
    d = {key: d[key] for key in keys[k:] + keys[:k]}
    style = req['style']
    if style == 'indent':
        return json.dumps(d, indent=2, ensure_ascii=False).encode()
    if style == 'pad':
        return b' \n' + json.dumps(d).encode() + b'\t '
    if style == 'bom':
        return b'\xef\xbb\xbf' + json.dumps(d).encode()
    if style == 'latin':
        d['note'] = 'é'
        return json.dumps(d, ensure_ascii=False).encode('latin-1', 'replace')
    if style == 'utf16':
        return json.dumps(d).encode('utf-16')
    if style == 'trail':
        return json.dumps(d).encode() + b'}'
    if style in ('tail', 'head'):
        # the payload with one byte more, among them the ones people think harmless
        odd = [b'\0', b'\0\0', b'\x1a', b'\xff', b',', b';', b'\x0b', b'\x0c', b'\x1f', b'\xa0', b'null', b'\\n', b'"', b'\x7f'][
            (at * 6 + req['order']) % 14]
        text = json.dumps(d).encode()
        return text + odd if style == 'tail' else odd + text
    if style == 'wrap':
        # the request inside something else
        text = json.dumps(d)
        return [lambda: json.dumps([d]), lambda: json.dumps(text), lambda: json.dumps({'data': d}), lambda: json.dumps([d, d]),
                lambda: json.dumps(list(d.items())), lambda: text + text, lambda: text + '\n' + text, lambda: f'({text})',
                lambda: text.encode().hex(), lambda: repr(d), lambda: text.replace('"', "'"), lambda: f'"{text}"',
                lambda: '\x00' + text, lambda: json.dumps({'params': d, **d}), lambda: '&'.join(f'{k}={v}' for k, v in d.items()),
                lambda: f'/* */{text}', lambda: f'0x{text.encode().hex()}', lambda: f'[{text}]'][(at * 6 + req['order']) % 18]().encode()
    if style == 'ascii':
        return json.dumps(d, ensure_ascii=True, separators=(',', ':')).encode()
    return json.dumps(d, ensure_ascii=False).encode()


def strategy():
    return st.fixed_dictionaries({
        'cfg': gen.world_pool(16, active=True, lo=14, hi=20), 'req': request(),
        'edits': weighted((5, st.just([])), (2, st.lists(st.tuples(sampled(['set', 'del', 'ins', 'dup', 'cut', 'swap']),
                                                                   st.integers(0, 400), st.integers(0, 255)).map(list),
                                                         min_size=1, max_size=3))),
        'amt': gen.pow10(6, 15), 'switches': hist.circumstances(3),
        'raw': weighted((12, st.none()), (1, st.one_of(st.binary(max_size=60).map(lambda b: b.hex()),
                                                       st.text(max_size=40).map(lambda t: t.encode('utf-8', 'replace').hex()),
                                                       sampled([b'None', b'null', b'0', b'""', b'[]', b'{}', b'conversionresult',
                                                                b' conversionResult', b'conversionResult ']).map(
                                                                    lambda b: b.hex()))))})


def mutate(data, edits):
    b = bytearray(data)
    for kind, at, x in edits:
        if not b:
            return bytes(b)
        i = at % len(b)
        if kind == 'set':
            b[i] = x
        elif kind == 'del':
            del b[i]
        elif kind == 'ins':
            b.insert(i, x)
        elif kind == 'dup':
            b[i:i] = b[i:i + x % 12]
        elif kind == 'cut':
            del b[i:]
        elif kind == 'swap':
            j = x % len(b)
            b[i], b[j] = b[j], b[i]
    return bytes(b)


def payload(case, stats):
    w = make_world(case['cfg'])
    hist.settled(w, stats, case['switches'])
    token = case['req']['path'][0][1]
    data = bytes.fromhex(case['raw']) if case['raw'] is not None else mutate(build(w, case['req']), case['edits'])
    n = min(case['amt'], w.bal(token, 'alice'))
    pre = w.observe()
    w1 = w.clone()
    r = w1.tx('alice', token, 'transfer', w.addr['net'], n, data)
    post = w1.observe()
    if not r.ok:
        require(pre == post, 'rejected payload {!r} changed the state: {}', data, first_diff(pre, post))
    if data == b'conversionResult':
        return False
    try:
        want = parse_payload(data, str(w.addr[token]), str(w.addr['alice']), str(w.addr['zero']))
    except Unspecified:
        stats.label('unspecified')
        return False
    if want is None:
        require(not r.ok, 'the payload {!r} was accepted with {}', data, token)
        stats.label('rejected: malformed')
        return True
    path, min_return, who = want
    canonical = json.dumps({'path': ','.join(path), 'minReturn': min_return, 'for': who}).encode()
    w2 = w.clone()
    r2 = w2.tx('alice', token, 'transfer', w.addr['net'], n, canonical)
    require(r.ok == r2.ok, 'payload {!r} is {}, the same request in canonical form {}', data, verdict(r), verdict(r2))
    d = first_diff(w2.observe(), post)
    require(d is None, 'payload {!r} and its canonical form have different effects: {}', data, d)
    if not r.ok:
        why = refusal(w, pre, [named(w, a) for a in path], n, min_return, named(w, who))
        require(why is not None, 'the well-formed request {!r} for {} {} is refused ({})', data, n, token, r.error)
    stats.label('well-formed ' + ('accepted' if r.ok else 'refused: ' + why))
    return bool(r.ok) and data != canonical


def named(w, text):
    return next((n for n, a in w.addr.items() if str(a) == text), None)


PLAIN = ('alice', 'bob', 'owner', 'manager', 'mallory', 'fresh', 'catcher')


def refusal(w, state, path, n, min_return, who):
    """why a well-formed request may be refused, None when it must not"""
    if who not in PLAIN:
        return 'the beneficiary'
    if any(x is None for x in path) or any(t not in TOKENS for t in path[::2]) or any(f not in convs.FLEX for f in path[1::2]):
        return 'no such conversion'
    why = convs.path_reason(w, state, path, n)
    if why:
        return why
    q = w.chain.query_receipt(w.addr['net'], 'getExpectedReturnByPath', w.path(path), n)
    return 'less than minReturn' if not q.ok or q.ret < min_return else None


def verdict(r):
    return 'accepted' if r.ok else f'rejected ({r.error})'


# -- path strings: convert, convertFor, getExpectedReturnByPath --------------------------------------
def path_strategy():
    base = request()
    return st.fixed_dictionaries({
        'cfg': gen.world_pool(16, active=True, lo=14, hi=20), 'req': base, 'amt': st.one_of(st.integers(-1, 1), gen.pow10(6, 15)),
        'min': weighted((4, st.just(1)), (1, st.integers(-2, 2))),
        'who': weighted((4, st.just('bob')), (2, sampled(['zero', 'net', 'fresh', 'wallet']))),
        'ix': sampled([True, True, True, False]), 'registered': sampled([True, True, True, False]), 'switches': hist.circumstances(3)})


def path_execute(case, stats):
    w = make_world(case['cfg'])
    owner = hist.settled(w, stats, case['switches'])
    req = dict(case['req'], style='compact', drop=None, **{'for': 'absent', 'extra': None, 'order': 0})
    if case['ix']:
        # start with the ICX token
        names = [n for _, n, _ in req['path']]
        candidates = [p for p in gen.PATHS if p[0] == 'IX' and len(p) == len(names)]
        p = candidates[req['at'] % len(candidates)]
        req['path'] = [[a, n, b] for (a, _, b), n in zip(req['path'], p)]
    text = json.loads(build(w, req))['path']
    if not isinstance(text, str):
        return False
    if any(c in 'ABCDEF' for c in text):
        return False
    path = parse_path(text)
    n = case['amt']
    # the quote
    q = w.chain.query_receipt(w.addr['net'], 'getExpectedReturnByPath', text, n)
    if path is None or n < 1:
        require(not q.ok, 'getExpectedReturnByPath({!r}, {}) answers {}', text, n, q.ret)
    else:
        q2 = w.chain.query_receipt(w.addr['net'], 'getExpectedReturnByPath', ','.join(path), n)
        require(q.ok == q2.ok and q.ret == q2.ret, 'quotes for {!r} and its canonical form differ: {} {}', text, q.ret, q2.ret)
    # the conversion, with ICX
    n = max(0, n)
    registered = case['registered'] and bool(w.q('net', 'getIcxTokenRegistered', w.addr['IX']))
    if not case['registered']:
        w.must(owner('net'), 'net', 'registerIcxToken', w.addr['IX'], False)
    pre = w.observe()
    w1 = w.clone()
    r = w1.tx('alice', 'net', 'convertFor', text, case['min'], w.addr[case['who']], value=n)
    post = w1.observe()
    if not r.ok:
        require(pre == post, 'a rejected convertFor changed the state: {}', first_diff(pre, post))
    ok_form = (path is not None and case['min'] >= 1 and case['who'] not in ('zero', 'net') and n >= 1
               and path[0] == str(w.addr['IX']) and registered)
    if not ok_form:
        require(not r.ok, 'convertFor({!r}, {}, {}) with {} ICX was accepted', text, case['min'], case['who'], n)
        stats.label('convertFor rejected')
    else:
        w2 = w.clone()
        r2 = w2.tx('alice', 'net', 'convertFor', ','.join(path), case['min'], w.addr[case['who']], value=n)
        require(r.ok == r2.ok and r.ret == r2.ret, 'convertFor({!r}): {}, in canonical form: {}', text, verdict(r), verdict(r2))
        d = first_diff(w2.observe(), post)
        require(d is None, 'convertFor({!r}) and its canonical form have different effects: {}', text, d)
        # convert = convertFor the caller
        w3, w4 = w.clone(), w.clone()
        r3 = w3.tx('alice', 'net', 'convert', text, case['min'], value=n)
        r4 = w4.tx('alice', 'net', 'convertFor', ','.join(path), case['min'], w.addr['alice'], value=n)
        require(r3.ok == r4.ok, 'convert({!r}): {}, convertFor the caller: {}', text, verdict(r3), verdict(r4))
        d = first_diff(w4.observe(), w3.observe())
        require(d is None, 'convert and convertFor the caller differ: {}', d)
        if not r.ok:
            why = refusal(w, pre, [named(w, a) for a in path], n, case['min'], case['who'])
            require(why is not None, 'convertFor({!r}, {}, {}) with {} ICX is refused ({})', text, case['min'], case['who'], n, r.error)
        stats.label('convertFor ' + ('accepted' if r.ok else 'refused by the converters'))
    return True


# -- path lengths ---------------------------------------------------------------------------------
def length_strategy():
    return st.fixed_dictionaries({'cfg': ladder.cfgs(), 'hops': sampled([1, 2, 3, 5, 8, 9, 10, 10, 11, 11, 12]),
                                  'last': sampled(['x', 'x', 'b']),
                                  'form': sampled(['straight', 'wander', 'closed']), 'start': st.integers(0, 9),
                                  'turns': st.lists(st.integers(0, 20), min_size=1, max_size=12), 'cut': sampled([False, False, True]),
                                  'repeat': weighted((3, st.none()), (1, st.integers(0, 9))),
                                  'amt': gen.pow10(12, 20), 'spaces': st.booleans()})


def length_execute(case, stats):
    w = ladder.make_ladder(case['cfg'])
    hops = case['hops']
    path = {'straight': lambda: ladder.walk(0, 'x' * (hops - 1) + case['last']),
            'wander': lambda: ladder.wander(case['start'], hops, case['turns']),
            'closed': lambda: ladder.closed(case['start'], hops)}[case['form']]()
    if case['cut']:
        path = path[:-1]
    if case['repeat'] is not None:
        i = case['repeat'] % hops + 1
        # over converter i forth and back, and on
        path = ladder.walk(0, 'x' * i)
        path += [f'G{i}', f'A{i - 1}']
    flex = path[1::2]
    valid = 3 <= len(path) <= 21 and len(path) % 2 == 1 and len(set(flex)) == len(flex)
    n = case['amt']
    text = w.path(path, ' , ' if case['spaces'] else ',')
    q = w.chain.query_receipt(w.addr['net'], 'getExpectedReturnByPath', text, n)
    data = json.dumps({'path': text, 'minReturn': 1}).encode()
    r = w.tx('alice', path[0], 'transfer', w.addr['net'], n, data)
    if not valid:
        require(not q.ok, 'a path of {} elements {} is quoted', len(path), path)
        require(not r.ok, 'a path of {} elements {} is accepted', len(path), path)
        stats.label('invalid length' if len(set(flex)) == len(flex) else 'repeated flexible token')
        return True
    require(q.ok, 'a path of {} elements is not quoted: {}', len(path), q.error)
    # long chains can run out of value: then a step returns nothing
    require(r.ok or q.ret == 0 or starved(w, path, n), 'a path of {} elements is refused: {}', len(path), r.error)
    stats.label(f'{len(path)} elements {"accepted" if r.ok else "refused"}')
    return r.ok


def starved(w, path, n):
    amount = n
    for i in range(1, len(path), 2):
        v = w.addr['C' + path[i][1:]]
        r = w.chain.query_receipt(v, 'getReturn', w.addr[path[i - 1]], w.addr[path[i + 1]], amount)
        if not r.ok or r.ret['amount'] < 1:
            return True
        got = r.ret['amount']
        if path[i + 1] != path[i]:
            b = w.chain.query(v, 'getConnectorBalance', w.addr[path[i + 1]])
            if got * 2 >= b:
                return True     # near the limits of the connector
        amount = got
    return False


TESTS = [Test('payload', strategy, payload, quick=4000), Test('paths', path_strategy, path_execute, quick=2400),
         Test('length', length_strategy, length_execute, quick=800)]
