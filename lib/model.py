# -*- coding: utf-8 -*-
"""Reference semantics, one transaction at a time.

predict(state, sender, target, method, args, value) works on the nested dict
World.observe() returns and says whether the transaction must succeed, what
the state must be afterwards and which events must be logged.  `ok is None`
means the model does not decide this call (conversions: decided by other
oracles).  Written from the documented behaviour, independent of the code's
structure.
"""
CONTRACT_NAMES = {'reg', 'reg2', 'net', 'T1', 'T2', 'IX', 'F1', 'F2', 'F3', 'V1', 'V2', 'V3',
                  'catcher', 'rejecter', 'wallet', 'cxnone', 'zero'}
TOKENS = ('T1', 'T2', 'IX', 'F1', 'F2', 'F3')
FLEX = ('F1', 'F2', 'F3')
ACTORS = ('catcher', 'rejecter', 'wallet')
CONVS = ('V1', 'V2', 'V3')
OWNED = ('F1', 'F2', 'F3', 'IX', 'net', 'reg', 'reg2', 'V1', 'V2', 'V3')
REGS = ('reg', 'reg2')
PPM = 1000000


class Fail(Exception):
    pass


class Unknown(Exception):
    pass


def need(cond):
    if not cond:
        raise Fail()


def copy_state(x):
    if isinstance(x, dict):
        return {k: copy_state(v) for k, v in x.items()}
    if isinstance(x, list):
        return list(x)
    return x


class Prediction:
    __slots__ = ('ok', 'post', 'events', 'ret')

    def __init__(self, ok, post, events, ret=None):
        self.ok, self.post, self.events, self.ret = ok, post, events, ret


def is_contract(name):
    return name in CONTRACT_NAMES


def predict(state, sender, target, method, args, value=0, programs=None, budget=60):
    """programs: {actor: {method: {'acts': [{'to','m','a','v','catch'}], 'fail', 'times'}}} with names
    instead of addresses; what the scripted contracts do when they are called"""
    m = _Model(copy_state(state))
    m.programs = {a: {k: dict(v) for k, v in p.items()} for a, p in (programs or {}).items()}
    m.budget = {a: budget for a in ACTORS}
    try:
        m.top_call(sender, target, method, args, value)
    except Fail:
        return Prediction(False, state, [])
    except Unknown:
        return Prediction(None, None, None)
    m.refresh()
    return Prediction(True, m.s, m.events)


class _Model:

    def __init__(self, s):
        self.s = s
        self.adm = s['adm']
        self.events = []

    def refresh(self):
        """derived observables"""
        for v in CONVS:
            a = self.adm[v]
            a['active'] = self.adm[a['token']]['owner'] == v

    # -- ICX -----------------------------------------------------------------
    def move_icx(self, frm, to, amount):
        need(amount >= 0)
        icx = self.s['icx']
        need(icx[frm] >= amount or frm == to or amount == 0)
        if frm != to and amount:
            icx[frm] -= amount
            icx[to] += amount

    def icx_call(self, frm, to, amount):
        """a contract sends ICX; the receiver's fallback runs"""
        self.move_icx(frm, to, amount)
        if amount > 0:
            self.events.append((frm, 'ICXTransfer', frm, to, amount))
        if is_contract(to):
            self.fallback(frm, to, amount)

    def fallback(self, frm, to, amount):
        if to == 'IX':
            self.ix_deposit(frm, amount)
        elif to in ACTORS:
            self.actor(to, 'fallback')
        elif to in ('cxnone', 'zero'):
            raise Fail()
        else:
            need(amount == 0)      # other contracts do not take ICX

    # -- scripted contracts ----------------------------------------------------
    def actor(self, name, method):
        entry = self.programs.get(name, {}).get(method)
        if entry is None:
            if name == 'rejecter':
                raise Fail()
            return
        if entry.get('times') is not None:
            if entry['times'] <= 0:
                return
            entry['times'] -= 1
        for act in entry.get('acts', ()):
            if self.budget[name] <= 0:
                continue
            self.budget[name] -= 1
            saved = copy_state(self.s), list(self.events)
            try:
                if act['m'] is None:
                    self.icx_call(name, act['to'], act['v'])
                else:
                    if act['v']:
                        self.move_icx(name, act['to'], act['v'])
                        self.events.append((name, 'ICXTransfer', name, act['to'], act['v']))
                    if is_contract(act['to']):
                        self.call(name, act['to'], act['m'], act['a'], act['v'])
            except Fail:
                if not act['catch']:
                    raise
                self.s, self.events = saved
                self.adm = self.s['adm']
        need(not entry.get('fail'))

    def top_call(self, sender, target, method, args, value):
        if value:
            self.move_icx(sender, target, value)
        if not is_contract(target):
            return
        if method is None:
            return self.fallback(sender, target, value)
        self.call(sender, target, method, args, value)

    # -- dispatch --------------------------------------------------------------
    def call(self, sender, target, method, args, value=0):
        if target in ('cxnone', 'zero'):
            raise Fail()
        if target in ACTORS:
            if method == 'execute' and target != 'rejecter':
                return self.actor(target, 'execute')
            raise Unknown()
        payable = (target == 'IX' and method == 'deposit') or (target == 'net' and method in ('convert', 'convertFor'))
        fn = None
        for prefix in self.kinds(target):
            fn = getattr(self, f'{prefix}_{method}', None)
            if fn:
                break
        need(fn is not None)
        need(payable or value == 0)
        if target == 'IX' and method == 'deposit':
            return self.ix_deposit(sender, value)
        return fn(sender, target, *args)

    @staticmethod
    def kinds(target):
        if target in FLEX:
            return ('flex', 'owned', 'holder', 'irc')
        if target == 'IX':
            return ('ix', 'owned', 'holder', 'irc')
        if target in ('T1', 'T2'):
            return ('irc',)
        if target in CONVS:
            return ('conv', 'owned', 'holder')
        if target == 'net':
            return ('net', 'owned', 'holder')
        return ('reg', 'owned')

    # -- owned ---------------------------------------------------------------
    def owner_only(self, sender, c):
        need(sender == self.adm[c]['owner'])

    def owned_transferOwnerShip(self, sender, c, new):
        self.owner_only(sender, c)
        need(new is not None)
        need(new != self.adm[c]['owner'])
        self.adm[c]['newowner'] = new

    def owned_acceptOwnerShip(self, sender, c):
        a = self.adm[c]
        need(sender == a['newowner'])
        self.events.append((c, 'OwnerUpdate', a['owner'], a['newowner']))
        a['owner'], a['newowner'] = a['newowner'], 'zero'

    # -- managed -----------------------------------------------------------
    def owner_or_manager(self, sender, c):
        need(sender in (self.adm[c]['owner'], self.adm[c]['manager']))

    def conv_transferManagement(self, sender, c, new):
        self.owner_or_manager(sender, c)
        need(new is not None)
        need(self.adm[c]['manager'] != new)
        self.adm[c]['newmanager'] = new

    def conv_acceptManagement(self, sender, c):
        a = self.adm[c]
        need(sender == a['newmanager'])
        self.events.append((c, 'ManagerUpdate', a['manager'], a['newmanager']))
        a['manager'], a['newmanager'] = a['newmanager'], 'zero'

    # -- tokens ----------------------------------------------------------------
    def irc_transfer(self, sender, tok, to, value, data=None):
        if tok in FLEX:
            need(self.adm[tok]['xfer'])
        if tok == 'IX':
            need(to != 'IX')
        need(to is not None)
        if data is None:
            data = b'None'
        bal = self.s['bal'][tok]
        need(value >= 0)
        need(bal[sender] >= value)
        bal[sender] -= value
        bal[to] += value
        if is_contract(to):
            self.token_fallback(tok, to, sender, value, data)
        self.events.append((tok, 'Transfer', sender, to, value, data))

    flex_transfer = irc_transfer
    ix_transfer = irc_transfer

    def token_fallback(self, tok, to, frm, value, data):
        """contract `tok` (any caller) invokes to.tokenFallback"""
        if to in ACTORS:
            return self.actor(to, 'tokenFallback')
        if to == 'net':
            if data == b'conversionResult':
                return
            if b'path' in data:
                raise Unknown()
            raise Fail()
        if to in CONVS:
            a = self.adm[to]
            need(value > 0)
            active = self.adm[a['token']]['owner'] == to
            if frm is not None and frm in (a['owner'], a['manager']) and tok in a['conns'] and not active:
                return
            reg = a['registry']
            need(reg in REGS)
            if frm == self.adm[reg]['=Network']:
                raise Unknown()
            raise Fail()
        raise Fail()

    def net_tokenFallback(self, sender, c, frm, value, data):
        self.token_fallback(sender, c, frm, value, data)

    conv_tokenFallback = net_tokenFallback

    def ix_deposit(self, sender, amount):
        self.s['bal']['IX'][sender] += amount
        self.s['sup']['IX'] += amount
        self.events.append(('IX', 'Issuance', amount))
        self.events.append(('IX', 'Transfer', 'IX', sender, amount, b'None'))

    def ix_withdraw(self, sender, tok, amount):
        self.ix_withdrawTo(sender, tok, amount, sender)

    def ix_withdrawTo(self, sender, tok, amount, to):
        need(amount > 0)
        bal = self.s['bal']['IX']
        need(bal[sender] >= amount)
        need(to is not None)
        bal[sender] -= amount
        self.s['sup']['IX'] -= amount
        self.icx_call('IX', to, amount)
        self.events.append(('IX', 'Destruction', amount))

    def flex_issue(self, sender, f, to, amount):
        need(amount > 0)
        self.owner_only(sender, f)
        need(to not in (None, 'zero', f))
        self.s['bal'][f][to] += amount
        self.s['sup'][f] += amount
        self.events.append((f, 'Issuance', amount))
        self.events.append((f, 'Transfer', f, to, amount, b'None'))

    def flex_destroy(self, sender, f, frm, amount):
        need(amount > 0)
        need(frm is not None)
        bal = self.s['bal'][f]
        need(bal[frm] >= amount)
        need(sender == frm or sender == self.adm[f]['owner'])
        bal[frm] -= amount
        self.s['sup'][f] -= amount
        self.events.append((f, 'Destruction', amount))
        self.events.append((f, 'Transfer', frm, f, amount, b'None'))

    def flex_disableTransfer(self, sender, f, disable):
        self.owner_only(sender, f)
        self.adm[f]['xfer'] = not disable

    # -- token holder ------------------------------------------------------
    def holder_withdrawTokens(self, sender, c, tok, to, amount):
        self.owner_only(sender, c)
        need(amount > 0)
        need(to != c and to not in (None, 'zero'))
        need(tok is not None)
        if not is_contract(tok):
            return      # calling an account without code does nothing on ICON
        if tok in ('catcher', 'wallet', 'rejecter'):
            raise Unknown()
        need(tok in TOKENS)
        self.irc_transfer(c, tok, to, amount)

    def conv_withdrawTokens(self, sender, c, tok, to, amount):
        a = self.adm[c]
        active = self.adm[a['token']]['owner'] == c
        need(tok is not None)
        need(not active or tok not in a['conns'])
        self.holder_withdrawTokens(sender, c, tok, to, amount)

    # -- registry ------------------------------------------------------------
    def reg_registerAddress(self, sender, c, name, address):
        self.owner_only(sender, c)
        need(address not in (None, 'zero'))
        need(is_contract(address))
        need(name in ('ScoreRegistry', 'Network'))
        self.adm[c]['=' + name] = address
        self.events.append((c, 'AddressUpdate', name, address))

    def reg_unregisterAddress(self, sender, c, name):
        self.owner_only(sender, c)
        need(name in ('ScoreRegistry', 'Network'))
        need(self.adm[c]['=' + name] != 'zero')
        self.adm[c]['=' + name] = 'zero'
        self.events.append((c, 'AddressUpdate', name, 'zero'))

    # -- network -------------------------------------------------------------
    def net_registerIcxToken(self, sender, c, token, register):
        self.owner_only(sender, c)
        need(token not in (None, 'zero', c))
        self.adm['net']['icx:' + token] = register

    def net_convert(self, *_):
        raise Unknown()

    net_convertFor = net_convert

    # -- converter -----------------------------------------------------------
    def conv_transferTokenOwnership(self, sender, c, new):
        self.owner_only(sender, c)
        self.owned_transferOwnerShip(c, self.adm[c]['token'], new)

    def conv_acceptTokenOwnership(self, sender, c):
        self.owner_only(sender, c)
        self.owned_acceptOwnerShip(c, self.adm[c]['token'])

    def conv_disableTokenTransfers(self, sender, c, disable):
        self.owner_only(sender, c)
        self.flex_disableTransfer(c, self.adm[c]['token'], disable)

    def conv_withdrawFromToken(self, sender, c, tok, to, amount):
        self.owner_only(sender, c)
        self.holder_withdrawTokens(c, self.adm[c]['token'], tok, to, amount)

    def conv_addConnector(self, sender, c, tok, weight, virtual):
        a = self.adm[c]
        self.owner_only(sender, c)
        need(self.adm[a['token']]['owner'] != c)
        need(tok not in (None, 'zero', c))
        need(0 < weight <= PPM)
        need(tok != a['token'])
        need(tok not in a['conns'])
        need(sum(x['weight'] for x in a['conns'].values()) + weight <= PPM)
        a['order'].append(tok)
        a['conns'][tok] = {'virtualBalance': 0, 'weight': weight, 'isVirtualBalanceEnabled': virtual,
                           'isPurchaseEnabled': True, 'isSet': True}

    def conv_updateConnector(self, sender, c, tok, weight, virtual, virtual_balance):
        a = self.adm[c]
        self.owner_only(sender, c)
        need(tok in a['conns'])
        need(0 < weight <= PPM)
        conn = a['conns'][tok]
        need(sum(x['weight'] for x in a['conns'].values()) - conn['weight'] + weight <= PPM)
        conn['weight'] = weight
        conn['isVirtualBalanceEnabled'] = virtual
        conn['virtualBalance'] = virtual_balance

    def conv_disableConnectorPurchases(self, sender, c, tok, disable):
        a = self.adm[c]
        self.owner_only(sender, c)
        need(tok in a['conns'])
        a['conns'][tok]['isPurchaseEnabled'] = not disable

    def conv_updateRegistry(self, sender, c):
        a = self.adm[c]
        need(a['allow'] or sender == a['owner'])
        need(a['registry'] in REGS)
        new = self.adm[a['registry']]['=ScoreRegistry']
        need(new not in (None, 'zero'))
        need(new != a['registry'])
        a['prev'], a['registry'] = a['registry'], new

    def conv_restoreRegistry(self, sender, c):
        a = self.adm[c]
        self.owner_or_manager(sender, c)
        a['registry'] = a['prev']
        a['allow'] = False

    def conv_disableRegistryUpdate(self, sender, c, disable):
        self.owner_or_manager(sender, c)
        self.adm[c]['allow'] = not disable

    def conv_disableConversions(self, sender, c, disable):
        self.owner_or_manager(sender, c)
        a = self.adm[c]
        if a['enabled'] == disable:
            a['enabled'] = not disable
            self.events.append((c, 'ConversionsEnable', a['enabled']))

    def conv_setConversionFee(self, sender, c, fee):
        self.owner_or_manager(sender, c)
        a = self.adm[c]
        need(0 <= fee <= a['maxfee'])
        self.events.append((c, 'ConversionFeeUpdate', a['fee'], fee))
        a['fee'] = fee


# methods by contract kind, with argument kinds; used by the generators
# argument kinds: addr, tok, amt, flag, weight, fee, vbal, name, data
IRC = {'transfer': ('addr', 'amt', 'data')}
OWNED_METHODS = {'transferOwnerShip': ('addr',), 'acceptOwnerShip': ()}
HOLDER = {'withdrawTokens': ('tok', 'addr', 'amt')}
FLEX_METHODS = {'issue': ('addr', 'amt'), 'destroy': ('addr', 'amt'), 'disableTransfer': ('flag',)}
IX_METHODS = {'deposit': (), 'withdraw': ('amt',), 'withdrawTo': ('amt', 'addr')}
REG_METHODS = {'registerAddress': ('name', 'addr'), 'unregisterAddress': ('name',)}
NET_METHODS = {'registerIcxToken': ('addr', 'flag')}
CONV_METHODS = {
    'transferManagement': ('addr',), 'acceptManagement': (),
    'transferTokenOwnership': ('addr',), 'acceptTokenOwnership': (), 'disableTokenTransfers': ('flag',),
    'withdrawFromToken': ('tok', 'addr', 'amt'), 'addConnector': ('tok', 'weight', 'flag'),
    'updateConnector': ('tok', 'weight', 'flag', 'vbal'), 'disableConnectorPurchases': ('tok', 'flag'),
    'updateRegistry': (), 'restoreRegistry': (), 'disableRegistryUpdate': ('flag',),
    'disableConversions': ('flag',), 'setConversionFee': ('fee',),
}


def methods_of(target):
    if target in FLEX:
        return {**IRC, **OWNED_METHODS, **HOLDER, **FLEX_METHODS}
    if target == 'IX':
        return {**IRC, **OWNED_METHODS, **HOLDER, **IX_METHODS}
    if target in ('T1', 'T2'):
        return IRC
    if target in CONVS:
        return {**OWNED_METHODS, **HOLDER, **CONV_METHODS}
    if target == 'net':
        return {**OWNED_METHODS, **HOLDER, **NET_METHODS}
    if target in REGS:
        return {**OWNED_METHODS, **REG_METHODS}
    return {}
