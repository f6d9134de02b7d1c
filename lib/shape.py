# -*- coding: utf-8 -*-
"""One converter of any shape: 1 to 6 connectors with any weights (also a single one of 100 %), balances and
virtual balances.  Tokens A0.. (A0 may be the ICX token), flexible token G, converter C, network net."""
from chain import Chain, ZERO, eoa, score_class
from core import Violation
from gen import pow10, resolve, sampled, st, weighted
from world import SetupFailed

PPM = 10 ** 6
TRADERS = ('alice', 'bob', 'mallory')
BIG = 10 ** 36


class Shape:
    def __init__(self, cfg):
        self.chain = c = Chain()
        self.cfg = cfg
        self.addr = {n: eoa(n) for n in ('owner',) + TRADERS}
        self.addr['zero'] = ZERO
        self._install('reg', 'score_registry')
        self._install('net', 'network')
        self.must('owner', 'reg', 'registerAddress', 'Network', self.addr['net'])
        self.tokens = []
        for i, t in enumerate(cfg['conns']):
            name = f'A{i}'
            if i == 0 and cfg['icx']:
                self._install(name, 'icx_token')
                c.mint_icx(self.addr['owner'], 2 * BIG)
                self.must('owner', name, 'deposit', value=BIG)
                self.must('owner', 'net', 'registerIcxToken', self.addr[name], True)
            else:
                self._install(name, 'irc_token', name, name, BIG, 0)
            self.tokens.append(name)
        self._install('G', 'flexible_token', 'G', 'G', cfg['sup'], 0)
        for n in TRADERS:
            for t in self.tokens:
                self.must('owner', t, 'transfer', self.addr[n], 10 ** 30)
            if cfg['sup'] // 4:
                self.must('owner', 'G', 'transfer', self.addr[n], cfg['sup'] // 4)
        first = cfg['conns'][0]
        self._install('C', 'converter', self.addr['G'], self.addr['reg'], PPM, self.addr['A0'], first['w'])
        for i, t in enumerate(cfg['conns']):
            if i:
                self.must('owner', 'C', 'addConnector', self.addr[f'A{i}'], t['w'], False)
            if t['virt'] is not None:
                self.must('owner', 'C', 'updateConnector', self.addr[f'A{i}'], t['w'], True, t['virt'])
            self.must('owner', f'A{i}', 'transfer', self.addr['C'], t['bal'])
        self.must('owner', 'C', 'setConversionFee', cfg['fee'])
        self.must('owner', 'G', 'transferOwnerShip', self.addr['C'])
        self.must('owner', 'C', 'acceptTokenOwnership')
        self.names = {a: k for k, a in self.addr.items()}

    def clone(self):
        other = Shape.__new__(Shape)
        other.__dict__.update(self.__dict__)
        other.chain = self.chain.clone()
        return other

    def _install(self, name, contract, *args):
        address, receipt = self.chain.deploy(score_class(contract), self.addr['owner'], *args, tag=name)
        if not receipt.ok:
            raise SetupFailed(f'deploying {contract}{args} failed: {receipt.error}')
        self.addr[name] = address

    def tx(self, sender, to, method, *args, value=0):
        return self.chain.call(self.addr[sender], self.addr[to], method, *args, value=value)

    def must(self, sender, to, method, *args, value=0):
        r = self.tx(sender, to, method, *args, value=value)
        if not r.ok:
            raise SetupFailed(f'{sender} -> {to}.{method}{args} was refused: {r.error}')

    def q(self, to, method, *args):
        r = self.chain.query_receipt(self.addr[to], method, *args)
        if not r.ok:
            raise Violation(f'{to}.{method}{args} failed: {r.error}')
        return r.ret

    def bal(self, tok, who):
        return self.q(tok, 'balanceOf', self.addr[who])

    def path(self, names, sep=','):
        return sep.join(str(self.addr[n]) for n in names)

    def name(self, x):
        return self.names.get(x, str(x))

    def events(self, receipt):
        return [(self.name(log.address), log.name) + tuple(self.name(x) if hasattr(x, 'is_contract') else x for x in log.args)
                for log in receipt.logs]

    # -- trading ------------------------------------------------------------------
    def pairs(self):
        toks = self.tokens + ['G']
        return [(a, b) for a in toks for b in toks if a != b]

    def holding(self, tok, who):
        """of a registered ICX token the network pays ICX"""
        return self.bal(tok, who) + (self.chain.icx(self.addr[who]) if tok == 'A0' and self.cfg['icx'] else 0)

    def size(self, frm, amt, who):
        kind, n = amt
        held = self.bal(frm, who)
        if kind == 'p':
            base = self.q('G', 'totalSupply') if frm == 'G' else self.q('C', 'getConnectorBalance', self.addr[frm])
            n = base * n // 1000
        else:
            n = resolve(amt, held)
        return max(0, min(n, held))

    def quote(self, frm, to, n):
        """(amount, fee) or None"""
        r = self.chain.query_receipt(self.addr['C'], 'getReturn', self.addr[frm], self.addr[to], n)
        return (r.ret['amount'], r.ret['fee']) if r.ok else None

    def trade(self, who, frm, to, n):
        """-> (receipt, delivered)"""
        import json
        before = self.holding(to, who)
        data = json.dumps({'path': self.path([frm, 'G', to]), 'minReturn': 1}).encode()
        r = self.tx(who, frm, 'transfer', self.addr['net'], n, data)
        return r, self.holding(to, who) - before

    def reserves(self):
        """(supply, [(balance as traded, weight, real balance, virtual balance or None)])"""
        out = []
        for t in self.tokens:
            d = self.q('C', 'getConnector', self.addr[t])
            out.append((self.q('C', 'getConnectorBalance', self.addr[t]), d['weight'], self.bal(t, 'C'),
                        d['virtualBalance'] if d['isVirtualBalanceEnabled'] else None))
        return self.q('G', 'totalSupply'), out

    def why_not(self, frm, to, n):
        """the documented reasons for refusing a conversion of n > 0; None when there is none"""
        quote = self.quote(frm, to, n)
        if quote is None:
            return 'no quote'
        got = quote[0]
        if got < 1:
            return 'it returns nothing'
        if to == 'G':
            return None
        supply, conns = self.reserves()
        balance, _, real, virtual = conns[self.tokens.index(to)]
        if frm == 'G':
            if not (got < balance or got == balance and n == supply):
                return 'it depletes the connector'
        elif got >= (balance - got if virtual is not None else balance):
            return 'it depletes the connector'
        if real < got:
            return 'it exceeds the real balance'
        return None


_CACHE = {}


def make_shape(cfg):
    key = repr(cfg)
    if key not in _CACHE:
        if len(_CACHE) > 60:
            _CACHE.clear()
        _CACHE[key] = Shape(cfg)
    return _CACHE[key].clone()


def weight_lists():
    def fit(xs):
        total = sum(xs)
        return xs if total <= PPM else [max(1, x * PPM // total) for x in xs]
    many = st.lists(st.one_of(st.integers(1, 10), st.integers(1000, PPM), sampled([100000, 250000, 333333, 500000])), min_size=1,
                    max_size=6).map(fit).filter(lambda xs: sum(xs) <= PPM)
    return weighted((3, st.just([PPM])), (1, sampled([[PPM - 1], [PPM - 1, 1], [1], [500000], [PPM // 6] * 6])), (6, many))


def cfgs(size=40, lo=9, hi=22):
    import random
    import gen
    amount = st.one_of(pow10(lo, hi), st.integers(10 ** lo, 10 ** hi))

    def conns(ws):
        return st.tuples(*[st.tuples(st.just(x), amount, weighted((2, st.none()), (1, amount)), st.booleans()) for x in ws]).map(
            lambda rows: [{'w': x, 'bal': b, 'virt': (b if same and v is not None else v)} for x, b, v, same in rows])
    cfg = st.fixed_dictionaries({
        'conns': weight_lists().flatmap(conns), 'sup': amount, 'icx': st.booleans(),
        'fee': weighted((3, st.just(0)), (2, st.integers(0, PPM)), (3, st.integers(0, 50000)), (1, sampled([1, PPM - 1, PPM])))})
    return sampled(gen.draw_many(cfg, size, random.Random(gen.POOL_SEED + 13).getrandbits(48)))


def trade_ops(min_size=1, max_size=12):
    import gen
    return st.lists(st.tuples(sampled(TRADERS), st.integers(0, 41), gen.trade_amount).map(list), min_size=min_size,
                    max_size=max_size)
