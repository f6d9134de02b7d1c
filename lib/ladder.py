# -*- coding: utf-8 -*-
"""A chain of n converters for long conversion paths:
tokens A0..An, converter C_i (flexible token G_i) joins A_{i-1} and A_i;
one more converter (flexible token GH) joins every third of them, so that paths can turn, return and close."""
from chain import Chain, ZERO, eoa, score_class
from core import Violation
from world import SetupFailed

N = 12
HUB = tuple(f'A{i}' for i in range(0, N + 1, 3))


class Ladder:
    def __init__(self, cfg):
        """cfg: {'b': [[bal, bal]...], 'w': [[w, w]...], 'fee': [...], 'sup': [...], 'virt': [bool...]}"""
        self.chain = c = Chain()
        self.addr = {n: eoa(n) for n in ('owner', 'alice', 'bob')}
        self.addr['zero'] = ZERO
        self._install('reg', 'score_registry')
        self._install('net', 'network')
        self.must('owner', 'reg', 'registerAddress', 'Network', self.addr['net'])
        n = len(cfg['b'])
        self.n = n
        for i in range(n + 1):
            self._install(f'A{i}', 'irc_token', f'A{i}', f'A{i}', 10 ** 40, 0)
        for i in range(1, n + 1):
            g, v = f'G{i}', f'C{i}'
            left, right = f'A{i - 1}', f'A{i}'
            w, b = cfg['w'][i - 1], cfg['b'][i - 1]
            self._install(g, 'flexible_token', g, g, cfg['sup'][i - 1], 0)
            self._install(v, 'converter', self.addr[g], self.addr['reg'], 1000000, self.addr[left], w[0])
            self.must('owner', v, 'addConnector', self.addr[right], w[1], False)
            for t, x, ww in ((left, b[0], w[0]), (right, b[1], w[1])):
                self.must('owner', t, 'transfer', self.addr[v], x)
                if cfg['virt'][i - 1]:
                    self.must('owner', v, 'updateConnector', self.addr[t], ww, True, x)
            self.must('owner', v, 'setConversionFee', cfg['fee'][i - 1])
            self.must('owner', g, 'transferOwnerShip', self.addr[v])
            self.must('owner', v, 'acceptTokenOwnership')
        b, w = cfg['b'][0][0], min(min(cfg['w'][0]), 190000)
        self._install('GH', 'flexible_token', 'GH', 'GH', cfg['sup'][1], 0)
        self._install('CH', 'converter', self.addr['GH'], self.addr['reg'], 1000000, self.addr[HUB[0]], w)
        for k, t in enumerate(HUB):
            if k:
                self.must('owner', 'CH', 'addConnector', self.addr[t], w, False)
            self.must('owner', t, 'transfer', self.addr['CH'], b + k * b // 7)
        self.must('owner', 'CH', 'setConversionFee', cfg['fee'][1])
        self.must('owner', 'GH', 'transferOwnerShip', self.addr['CH'])
        self.must('owner', 'CH', 'acceptTokenOwnership')
        for i in range(n + 1):
            self.must('owner', f'A{i}', 'transfer', self.addr['alice'], 10 ** 30)
        for i in range(1, n + 1):
            self.must('owner', f'G{i}', 'transfer', self.addr['alice'], cfg['sup'][i - 1] // 3)
        self.names = {a: k for k, a in self.addr.items()}

    def clone(self):
        other = Ladder.__new__(Ladder)
        other.__dict__.update(self.__dict__)
        other.chain = self.chain.clone()
        return other

    def _install(self, name, contract, *args):
        address, receipt = self.chain.deploy(score_class(contract), self.addr['owner'], *args, tag=name)
        if not receipt.ok:
            raise SetupFailed(f'deploying {contract}{args} failed: {receipt.error}')
        self.addr[name] = address

    def tx(self, sender, to, method, *args, value=0):
        return self.chain.call(self.addr[sender], self.addr[to], method, *args, value=value)

    def must(self, sender, to, method, *args):
        r = self.tx(sender, to, method, *args)
        if not r.ok:
            raise SetupFailed(f'{sender} -> {to}.{method}{args} was refused: {r.error}')

    def bal(self, tok, who):
        return self.chain.query(self.addr[tok], 'balanceOf', self.addr[who])

    def path(self, names, sep=','):
        return sep.join(str(self.addr[n]) for n in names)


_CACHE = {}


def make_ladder(cfg):
    key = repr(cfg)
    if key not in _CACHE:
        if len(_CACHE) > 40:
            _CACHE.clear()
        _CACHE[key] = Ladder(cfg)
    return _CACHE[key].clone()


def cfgs(n=N, size=6):
    import gen
    from gen import sampled, st
    pair = lambda s: st.tuples(s, s).map(list)
    wpair = st.integers(50000, 500000)
    cfg = st.fixed_dictionaries({
        'b': st.lists(pair(gen.pow10(14, 24)), min_size=n, max_size=n),
        'w': st.lists(pair(wpair), min_size=n, max_size=n),
        'fee': st.lists(sampled([0, 0, 1000, 5000, 20000]), min_size=n, max_size=n),
        'sup': st.lists(gen.pow10(14, 24), min_size=n, max_size=n),
        'virt': st.lists(st.booleans(), min_size=n, max_size=n)})
    import random
    return sampled(gen.draw_many(cfg, size, random.Random(gen.POOL_SEED + 7).getrandbits(48)))


def pools():
    """{flexible token: the tokens its converter converts}"""
    out = {f'G{i}': (f'A{i - 1}', f'A{i}', f'G{i}') for i in range(1, N + 1)}
    out['GH'] = HUB + ('GH',)
    return out


def wander(start, hops, choices):
    """a path of up to `hops` steps that uses no converter twice: every choice picks one of the conversions possible"""
    at, path, left = f'A{start}', [f'A{start}'], pools()
    for k in range(hops):
        ways = [(g, u) for g, tokens in left.items() if at in tokens for u in tokens
                if u != at and (u != g or k == hops - 1)]
        # prefer ways that lead on
        on = [x for x in ways if k == hops - 1 or any(x[1] in t for g, t in left.items() if g != x[0])]
        if not on:
            break
        g, at = on[choices[k % len(choices)] % len(on)]
        del left[g]
        path += [g, at]
    return path


def closed(start, hops):
    """a path that comes back to the token it starts with: along the ladder and home over the hub; start, start + hops on the hub"""
    a, b = start - start % 3, start - start % 3 + 3 * max(1, hops // 3)
    if b > N:
        a, b = 0, 9
    up = [f'A{a}']
    for i in range(a + 1, b + 1):
        up += [f'G{i}', f'A{i}']
    return up + ['GH', f'A{a}']


def walk(start, choices):
    """a path along the ladder; each choice continues over the next converter: 'x' crosses to the next
    token, 'b' buys the flexible token of the next converter, then it must be sold again ('s')"""
    path = [f'A{start}']
    at = start
    up = True
    for c in choices:
        i = at + 1
        if c == 'x':
            path += [f'G{i}', f'A{i}']
            at = i
        elif c == 'b':      # buy the flexible token: only as the last step
            path += [f'G{i}', f'G{i}']
            break
    return path
