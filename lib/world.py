# -*- coding: utf-8 -*-
"""The DEX the checks run: two registries, a network, four plain/ICX tokens,
three flexible tokens with their converters, and harness contracts."""
import collections
import json

from chain import Chain, ZERO, cx, eoa, score_class, QueryFailed
from core import Violation
from actors import Actor

EOAS = ['owner', 'manager', 'alice', 'bob', 'mallory']
TOKENS = ['T1', 'T2', 'IX', 'F1', 'F2', 'F3']
FLEX = ['F1', 'F2', 'F3']
CONVS = ['V1', 'V2', 'V3']
REGS = ['reg', 'reg2']
OWNED = ['F1', 'F2', 'F3', 'IX', 'net', 'reg', 'reg2', 'V1', 'V2', 'V3']
ACTORS = ['catcher', 'rejecter', 'wallet']
FLEX_OF = {'V1': 'F1', 'V2': 'F2', 'V3': 'F3'}
CONV_OF = {'F1': 'V1', 'F2': 'V2', 'F3': 'V3'}
# default connectors of each converter
CONNECTORS = {'V1': ['IX', 'T1'], 'V2': ['F1', 'T2'], 'V3': ['IX', 'T2', 'T1']}

DEFAULT_CFG = {
    'V1': {'w': [500000, 500000], 'maxfee': 30000, 'fee': 0, 'virt': [None, None],
           'bal': [10 ** 21, 4 * 10 ** 21], 'sup': 10 ** 22, 'active': True},
    'V2': {'w': [400000, 100000], 'maxfee': 1000000, 'fee': 10000, 'virt': [None, None],
           'bal': [10 ** 21, 5 * 10 ** 20], 'sup': 3 * 10 ** 21, 'active': True},
    'V3': {'w': [300000, 300000, 400000], 'maxfee': 100000, 'fee': 2500, 'virt': [None, None, None],
           'bal': [10 ** 21, 10 ** 20, 2 * 10 ** 21], 'sup': 10 ** 21, 'active': True},
}


class SetupFailed(Violation):
    """deploying / configuring with valid parameters was refused"""


_TEMPLATES = collections.OrderedDict()


def make_world(cfg=None, **kw):
    """a fresh world; the deployment of recently used configurations is kept
    and cloned (a clone shares nothing but the copied database content)"""
    key = json.dumps([cfg, kw], sort_keys=True, default=str)
    w = _TEMPLATES.get(key)
    if w is None:
        w = World(cfg, **kw)
        w.observe()
        _TEMPLATES[key] = w
        if len(_TEMPLATES) > 80:
            _TEMPLATES.popitem(last=False)
    else:
        _TEMPLATES.move_to_end(key)
    return w.clone()


class World:

    def __init__(self, cfg=None, holdings=None, icx=10 ** 27, actors=True, chain=None, prefix='', released=False):
        """prefix: of the addresses, for another system on a chain that has one already; released: runs the released
        code, not the present one"""
        self.released = released
        self.package = {}
        self.cfg = cfg or DEFAULT_CFG
        self.chain = c = chain or Chain()
        self.prefix = prefix
        self.addr = {n: eoa(prefix + n) for n in EOAS}
        self.addr['zero'] = ZERO
        self.addr['cxnone'] = cx(prefix + 'cxnone')
        self.addr['fresh'] = eoa(prefix + 'fresh')
        o = self.addr['owner']
        self._install('reg', 'score_registry')
        self._install('reg2', 'score_registry')
        self._install('net', 'network')
        self.must('owner', 'reg', 'registerAddress', 'Network', self.addr['net'])
        self.must('owner', 'reg2', 'registerAddress', 'Network', self.addr['net'])
        big = 10 ** 30
        self._install('T1', 'irc_token', 'Token One', 'T1', big, 0)
        self._install('T2', 'irc_token', 'Token Two', 'T2', big, 0)
        self._install('IX', 'icx_token')
        for n in EOAS:
            c.mint_icx(self.addr[n], icx)
        if actors:
            for n in ACTORS:
                self.addr[n] = c.install(Actor, o, tag=prefix + n)
                c.scores[self.addr[n]].budget = 50
                c.mint_icx(self.addr[n], icx)
            c.scores[self.addr['rejecter']].program = {'tokenFallback': {'fail': True}, 'fallback': {'fail': True}}
        c.mint_icx(o, 10 ** 32)
        self.must('owner', 'IX', 'deposit', value=10 ** 30)
        self.must('owner', 'net', 'registerIcxToken', self.addr['IX'], True)
        for v in CONVS:
            self._make_converter(v, self.cfg[v])
        if self.cfg.get('donate', True):
            self._donate()
        c.origins = tuple(self.addr[n] for n in EOAS)
        self.names = {a: n for n, a in self.addr.items()}
        self.holders = [n for n in self.addr]
        for tok, holder, amount in holdings if holdings is not None else self._default_holdings():
            if amount > 0:
                self.must('owner', tok, 'transfer', self.addr[holder], amount)

    def _donate(self):
        for t in ('T1', 'T2', 'IX'):
            self.must('owner', t, 'transfer', self.addr['net'], 10 ** 20, b'conversionResult')

    def clone(self):
        other = World.__new__(World)
        other.__dict__.update(self.__dict__)
        other.chain = self.chain.clone()
        # nothing was executed yet on the clone: what the template reported still stands
        other.chain._memo = dict(self.chain._memo)
        other.chain._memo_by_key = {k: set(v) for k, v in self.chain._memo_by_key.items()}
        other.rearm()
        return other

    def rearm(self):
        """give the harness contracts their initial behaviour"""
        for n in ACTORS:
            if n in self.addr:
                self.actor(n).budget = 50
        if 'rejecter' in self.addr:
            self.actor('rejecter').program = {'tokenFallback': {'fail': True}, 'fallback': {'fail': True}}

    def _default_holdings(self):
        out = []
        for h in ['manager', 'alice', 'bob', 'mallory'] + (['catcher', 'wallet'] if 'catcher' in self.addr else []):
            out.append(('T1', h, 10 ** 24))
            out.append(('T2', h, 10 ** 24))
            out.append(('IX', h, 10 ** 24))
        for f in FLEX:
            left = self.bal(f, 'owner')
            for h in ['alice', 'bob', 'mallory']:
                out.append((f, h, left // 5))
        return out

    def _install(self, name, contract, *args):
        cls = score_class(contract, self.released)
        self.package[name] = contract
        address, receipt = self.chain.deploy(cls, self.addr['owner'], *args, tag=self.prefix + name)
        if not receipt.ok:
            raise SetupFailed(f'deploying {contract}{args} failed: {receipt.error}')
        self.addr[name] = address
        return address

    def _make_converter(self, v, cfg):
        f = FLEX_OF[v]
        conns = CONNECTORS[v]
        self._install(f, 'flexible_token', f'Flexible {f}', f, cfg['sup'], 0)
        self._install(v, 'converter', self.addr[f], self.addr['reg'], cfg['maxfee'],
                      self.addr[conns[0]], cfg['w'][0])
        for i, t in enumerate(conns):
            if i > 0:
                self.must('owner', v, 'addConnector', self.addr[t], cfg['w'][i], False)
            vb = cfg['virt'][i]
            if vb is not None:
                self.must('owner', v, 'updateConnector', self.addr[t], cfg['w'][i], True, vb)
            amount = min(cfg['bal'][i], self.bal(t, 'owner'))
            if amount > 0:
                self.must('owner', t, 'transfer', self.addr[v], amount)
        if cfg['fee']:
            self.must('owner', v, 'setConversionFee', cfg['fee'])
        gift = cfg['sup'] // 50
        if self.cfg.get('donate', True) and gift > 0:
            # tokens that strayed into other contracts
            for to in ['net', 'IX', 'T1'] + [x for x in FLEX if x in self.addr and x != f]:
                self.must('owner', f, 'issue', self.addr[to], gift)
        if cfg['active']:
            self.must('owner', f, 'transferOwnerShip', self.addr[v])
            self.must('owner', v, 'acceptTokenOwnership')

    # -- operations --------------------------------------------------------
    def a(self, name):
        return None if name is None else self.addr[name]

    def name(self, address):
        if address is None:
            return None
        return self.names.get(address) or str(address)

    def tx(self, sender, to, method, *args, value=0, step_limit=None):
        for who in (sender, to):
            if who not in self.addr:    # (callers take these from the answers of the contracts)
                raise Violation(f'{who} is in the place of an account or contract, for {sender} -> {to}.{method}')
        return self.chain.call(self.addr[sender], self.addr[to], method, *args, value=value, step_limit=step_limit)

    def must(self, sender, to, method, *args, value=0):
        r = self.tx(sender, to, method, *args, value=value)
        if not r.ok:
            raise SetupFailed(f'{sender} -> {to}.{method}{args} was refused: {r.error}')
        return r

    def q(self, to, method, *args):
        try:
            return self.chain.query(self.addr[to], method, *args)
        except QueryFailed as e:
            raise Violation(f'query of {to} failed: {e}')

    def oq(self, to, method, *args):
        """as q, reusing an answer while nothing it depends on was written"""
        try:
            return self.chain.observe(self.addr[to], method, *args)
        except QueryFailed as e:
            raise Violation(f'query of {to} failed: {e}')

    def bal(self, tok, holder):
        return self.oq(tok, 'balanceOf', self.addr[holder])

    def icx(self, name):
        return self.chain.icx(self.addr[name])

    def path(self, names, sep=','):
        return sep.join(str(self.addr[n]) for n in names)

    def actor(self, name):
        return self.chain.scores[self.addr[name]]

    def reset_actors(self):
        for n in ACTORS:
            s = self.actor(n)
            s.calls = []
            s.budget = 50

    # -- observation -------------------------------------------------------
    def observe_tokens(self, tokens=TOKENS):
        return {'bal': {t: {h: self.bal(t, h) for h in self.holders} for t in tokens},
                'sup': {t: self.oq(t, 'totalSupply') for t in tokens}}

    def observe_icx(self):
        return {h: self.icx(h) for h in self.holders}

    def observe_conv(self, v):
        n = self.name
        count = self.oq(v, 'getConnectorTokenCount')
        conns = {}
        order = []
        for i in range(count):
            t = self.oq(v, 'getConnectorAt', i)
            d = self.oq(v, 'getConnector', t)
            order.append(n(t))
            conns[n(t)] = dict(d)
        return {
            'owner': n(self.oq(v, 'getOwner')), 'newowner': n(self.oq(v, 'getNewOwner')),
            'manager': n(self.oq(v, 'getManager')), 'newmanager': n(self.oq(v, 'getNewManager')),
            'token': n(self.oq(v, 'getToken')), 'registry': n(self.oq(v, 'getRegistry')),
            'prev': n(self.oq(v, 'getPreviousRegistry')), 'allow': self.oq(v, 'isAllowRegistryUpdate'),
            'maxfee': self.oq(v, 'getMaxConversionFee'), 'fee': self.oq(v, 'getConversionFee'),
            'enabled': self.oq(v, 'isConversionsEnabled'), 'active': self.oq(v, 'isActive'),
            'order': order, 'conns': conns,
        }

    def observe_admin(self):
        n = self.name
        s = {}
        for v in CONVS:
            s[v] = self.observe_conv(v)
        for f in FLEX:
            s[f] = {'owner': n(self.oq(f, 'getOwner')), 'newowner': n(self.oq(f, 'getNewOwner')),
                    'xfer': self.oq(f, 'getTransferPossibility')}
        for k in ('IX', 'net', 'reg', 'reg2'):
            s[k] = {'owner': n(self.oq(k, 'getOwner')), 'newowner': n(self.oq(k, 'getNewOwner'))}
        for r in REGS:
            for key in ('ScoreRegistry', 'Network', 'Other', ''):
                s[r]['=' + key] = n(self.oq(r, 'getAddress', key))
        for h in self.holders:
            s['net']['icx:' + h] = bool(self.oq('net', 'getIcxTokenRegistered', self.addr[h]))
        return s

    def observe(self):
        s = self.observe_tokens()
        s['icx'] = self.observe_icx()
        s['adm'] = self.observe_admin()
        return s

    def events(self, receipt):
        """event logs as (contract, event, args...) with names instead of addresses"""
        out = []
        for log in receipt.logs:
            args = tuple(self.name(x) if hasattr(x, 'is_contract') else x for x in log.args)
            out.append((self.name(log.address), log.name) + args)
        return out
