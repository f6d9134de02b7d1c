"""C01 token supply is conserved across every history"""
import drive
import gen
import hist
import model
from core import require
from gen import weighted
from runner import Test
from world import FLEX, TOKENS

LEVEL = 'exploration'
RULE = ('a history is non-trivial when at least one transaction that moves, mints or burns tokens succeeded '
        '(transfer, issue, destroy, deposit, withdrawal, conversion, or a scripted contract doing them)')
ASSUMPTIONS = ['balances of every account that took part in the history are summed (no other account can be credited)',
               'IRCToken, FlexibleToken and IcxToken instances of a three-converter world']

MOVES = {'transfer', 'issue', 'destroy', 'withdraw', 'withdrawTo', 'deposit', 'withdrawTokens', 'withdrawFromToken',
         'execute', 'convert', None}


def ops():
    token_calls = gen.all_methods(['T1', 'IX', 'F1', 'F2', 'F3'],
                                  {'transfer', 'issue', 'destroy', 'withdraw', 'withdrawTo', 'deposit'})
    other = gen.all_methods(['F1', 'V1', 'V3', 'net', 'IX'],
                            {'disableTransfer', 'withdrawTokens', 'withdrawFromToken', 'updateConnector',
                             'setConversionFee', 'registerIcxToken', 'disableConversions'})
    return weighted((8, gen.call_op(token_calls)), (2, gen.call_op(other)), (4, gen.convert_op()), (2, drive.send_op),
                    (3, drive.program_op()), (3, drive.execute_op()), (2, hist.reentrant(['T1', 'IX', 'IX', 'F1', 'F2'])), (2, hist.token_handover()))


def supply_change(x, tok):
    """minted minus burnt, as announced by the transaction"""
    total = 0
    for e in x.events:
        if e[0] == tok and e[1] == 'Issuance':
            total += e[2]
        elif e[0] == tok and e[1] == 'Destruction':
            total -= e[2]
    return total


def monitor(w, x, mem):
    hist.unchanged(x)
    for t in TOKENS:
        bal, sup = x.post['bal'][t], x.post['sup'][t]
        require(min(bal.values()) >= 0, '{}: negative balance of {}: {}', x, t, bal)
        require(sum(bal.values()) == sup, '{}: balances of {} sum to {}, totalSupply is {}', x, t, sum(bal.values()), sup)
        delta = sup - x.pre['sup'][t]
        if t in ('T1', 'T2'):
            require(delta == 0, '{}: supply of {} changed by {}', x, t, delta)
        if x.kind == 'call' and x.method in ('transfer', 'withdrawTokens', 'withdrawFromToken') and \
                model.is_contract(x.args[1 if x.method.startswith('w') else 0] or 'zero') is False:
            require(delta == 0, '{}: supply of {} changed by {}', x, t, delta)
    p = x.pred
    if p is not None and p.ok is not None and p.ok == x.receipt.ok:
        # which transactions succeed is decided elsewhere; what a successful one does to supplies here
        require(p.post['sup'] == x.post['sup'], '{}: supplies {}, expected {}', x, x.post['sup'], p.post['sup'])
    if x.kind == 'conv':
        conversion(x)


def conversion(x):
    """a conversion mints and burns exactly the amounts of its steps"""
    _, sender, path, n, who, mode = x.conv
    if not x.receipt.ok:
        return
    expected = {t: 0 for t in TOKENS}
    for e in x.events:
        if e[1] == 'Conversion':
            _, _, frm, to, _, amount, ret, _ = e
            if to in FLEX and w_conv(e[0]) == to:
                expected[to] += ret
            if frm in FLEX and w_conv(e[0]) == frm:
                expected[frm] -= amount
    if mode == 'icx':
        expected['IX'] += n
    last = path[-1]
    if x.pre['adm']['net']['icx:' + last]:
        out = [e for e in x.events if e[1] == 'Conversion'][-1][6]
        expected[last] -= out
    for t in TOKENS:
        delta = x.post['sup'][t] - x.pre['sup'][t]
        require(delta == expected[t], '{}: supply of {} changed by {}, the conversion steps explain {}', x, t, delta,
                expected[t])


def w_conv(v):
    return {'V1': 'F1', 'V2': 'F2', 'V3': 'F3'}.get(v)


_s, _e = hist.history(ops, monitor, nontrivial=lambda x: x.receipt.ok and x.method in MOVES)
TESTS = [Test('histories', _s, _e, quick=6000)]
