# -*- coding: utf-8 -*-
"""What a conversion needs in order to be allowed, from the observed state."""
from world import FLEX, FLEX_OF


def step_reason(s, v, frm, to):
    """why converter v must not convert frm to to in state s (None: it may)"""
    a = s['adm'][v]
    flex = a['token']
    if not a['enabled']:
        return 'conversions are disabled'
    if s['adm'][flex]['owner'] != v:
        return 'the converter is inactive'
    if frm == to:
        return 'both tokens are the same'
    for t in (frm, to):
        if t != flex and t not in a['conns']:
            return 'a token does not belong to the converter'
    if to == flex:
        if not a['conns'][frm]['isPurchaseEnabled']:
            return 'purchases are disabled'
    elif frm != flex:
        if not a['conns'][to]['isPurchaseEnabled']:
            return 'purchases are disabled'
    return None


def converter_of(s, flex):
    """the converter a path over the flexible token leads to: its owner, None when that is none"""
    owner = s['adm'][flex]['owner'] if flex in s['adm'] else None
    return owner if owner in FLEX_OF else None


def network_of(s, v):
    reg = s['adm'][v]['registry']
    return s['adm'].get(reg, {}).get('=Network')


def frozen(s, tokens):
    return [t for t in tokens if t in FLEX and not s['adm'][t]['xfer']]


def quote(w, v, frm, to, n):
    r = w.chain.query_receipt(w.addr[v], 'getReturn', w.addr[frm], w.addr[to], n)
    return r.ret if r.ok else None


def payable(w, v, frm, to, n, got):
    """the documented limits on what a converter can pay; None when it can pay"""
    flex = FLEX_OF[v]
    if got < 1:
        return 'it returns nothing'
    if to == flex:
        return None
    balance = w.q(v, 'getConnectorBalance', w.addr[to])
    virtual = w.q(v, 'getConnector', w.addr[to])['isVirtualBalanceEnabled']
    if frm == flex:
        if not (got < balance or (got == balance and n == w.q(flex, 'totalSupply'))):
            return 'it depletes the connector'
    elif got >= (balance - got if virtual else balance):
        return 'it depletes the connector'
    if w.bal(to, v) < got:
        return 'it exceeds the real balance'
    return None


def path_reason(w, s, path, n, network='net'):
    """why a conversion of n along path (of known converters) may be refused; None: it must succeed"""
    if frozen(s, path[::2]):
        return 'a flexible token is frozen'
    amount = n
    for i in range(1, len(path), 2):
        frm, flex, to = path[i - 1:i + 2]
        v = converter_of(s, flex)
        if v is None:
            return 'the converter is inactive'
        if network_of(s, v) != network:
            return 'another network is registered'
        why = step_reason(s, v, frm, to)
        if why:
            return why
        if amount < 1:
            return 'nothing to convert'
        q = quote(w, v, frm, to, amount)
        if q is None:
            return 'there is no quote'
        why = payable(w, v, frm, to, amount, q['amount'])
        if why:
            return why
        amount = q['amount']
    return None


def must_not(s, path, network='net'):
    """why a conversion along path must be refused (subset of path_reason that is about permission)"""
    if frozen(s, path[::2]):
        return 'a flexible token is frozen'
    for i in range(1, len(path), 2):
        frm, flex, to = path[i - 1:i + 2]
        v = converter_of(s, flex)
        if v is None:
            return 'the converter is inactive'
        if network_of(s, v) != network:
            return 'another network is registered'
        why = step_reason(s, v, frm, to)
        if why:
            return why
    return None
