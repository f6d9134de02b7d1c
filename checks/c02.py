"""C02 IcxToken is always fully backed by ICX"""
import drive
import gen
import hist
from core import first_diff, require
from gen import st, weighted
from runner import Test

LEVEL = 'exploration'
RULE = ('a history is non-trivial when at least one deposit or withdrawal succeeded; the re-entrancy search counts '
        'histories in which a scripted contract was called back by the ICX payment')
ASSUMPTIONS = ['ICX is only moved by transactions and contract calls (block rewards, staking etc. do not exist here)',
               're-entrant contracts make at most 60 calls per transaction']
ACTIONS = [('IX', 'withdraw'), ('IX', 'withdrawTo'), ('IX', 'withdrawTo'), ('IX', 'transfer'), ('IX', 'deposit')]


def call_ops():
    m = gen.all_methods(['IX'], {'deposit', 'withdraw', 'withdrawTo', 'transfer', 'withdrawTokens'})
    return gen.call_op(m)


def ops():
    paths = [p for p in gen.PATHS if 'IX' in (p[0], p[-1])]
    return weighted((8, call_ops()), (4, drive.send_op), (3, gen.convert_op(paths)),
                    (1, gen.call_op(gen.all_methods(['net'], {'registerIcxToken', 'withdrawTokens'}))),
                    (1, hist.handover(['IX'])))


def reentrant_ops():
    return weighted((4, drive.program_op(ACTIONS)), (4, drive.execute_op(ACTIONS)), (4, call_ops()), (2, drive.send_op))


def backing(w, x, mem):
    hist.unchanged(x)
    require(x.post['icx']['IX'] == x.post['sup']['IX'], '{}: IcxToken holds {} ICX for a supply of {}', x,
            x.post['icx']['IX'], x.post['sup']['IX'])
    require(sum(x.post['icx'].values()) == sum(x.pre['icx'].values()), '{}: ICX was created or lost', x)
    p = x.pred
    if p is None or p.ok is None:
        return
    relevant = x.target == 'IX' or x.kind in ('exec', 'send')
    if not relevant:
        return
    require(x.receipt.ok == p.ok, '{}, but it must {}', x, 'succeed' if p.ok else 'fail')
    for part, a, b in (('icx', p.post['icx'], x.post['icx']), ('IX balances', p.post['bal']['IX'], x.post['bal']['IX']),
                       ('IX supply', p.post['sup']['IX'], x.post['sup']['IX'])):
        require(a == b, '{}: {} {}', x, part, first_diff(a, b))


DEPOSITS = {'deposit', 'withdraw', 'withdrawTo', 'execute', 'convert', None}
_s, _e = hist.history(ops, backing, nontrivial=lambda x: x.receipt.ok and x.method in DEPOSITS)
_s2, _e2 = hist.history(reentrant_ops, backing,
                        nontrivial=lambda x: x.receipt.ok and sum(1 for e in x.events if e[1] == 'Destruction') > 1)
TESTS = [Test('histories', _s, _e, quick=2800), Test('reentrant', _s2, _e2, quick=2800)]
