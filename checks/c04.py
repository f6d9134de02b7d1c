"""C04 only the token owner mints; only holder or owner burns"""
import drive
import gen
import hist
from core import first_diff, require
from gen import sampled, st, weighted
from runner import Test

LEVEL = 'exploration'
RULE = 'a history is non-trivial when an issue or destroy succeeded in it'
ASSUMPTIONS = ['three flexible tokens, owned by accounts, converters or other contracts']


def mint_burn():
    def of(t):
        holders = ['alice', 'bob', 'mallory', 'owner', 'net', 'IX', t]
        who = weighted((4, st.just('@owner')), (1, st.just('@newowner')), (2, sampled(['alice', 'bob', 'mallory', 'owner'])),
                       (1, sampled(gen.SENDERS)))
        issue = st.tuples(st.just('call'), who, st.just(t), st.just('issue'),
                          st.tuples(weighted((3, sampled(holders + ['zero', 'fresh'])), (1, gen.ARG['addr'])),
                                    gen.amount).map(list)).map(list)

        def burn(h):
            w = weighted((2, st.just('@owner')), (2, st.just(h)), (2, who))
            return st.tuples(st.just('call'), w, st.just(t), st.just('destroy'),
                             st.tuples(st.just(h), gen.amount).map(list)).map(list)
        return weighted((1, issue), (1, sampled(holders + ['wallet', 'catcher']).flatmap(burn)))
    return sampled(['F1', 'F2', 'F3']).flatmap(of)


def ops():
    acts = [('F1', 'issue'), ('F1', 'destroy'), ('F1', 'transfer'), ('F2', 'issue'), ('F2', 'destroy')]
    return weighted((10, mint_burn()), (3, hist.handover(['F1', 'F2', 'F3'])), (2, hist.token_handover()),
                    (1, drive.execute_op(acts)), (1, gen.convert_op()),
                    (1, gen.call_op(gen.all_methods(['F1', 'F2', 'F3'], {'transfer', 'disableTransfer'}))))


def monitor(w, x, mem):
    hist.unchanged(x)
    p = x.pred
    if p is None or p.ok is None:
        return
    if x.method in ('issue', 'destroy', 'execute'):
        require(x.receipt.ok == p.ok, '{}, but it must {} (owner {})', x, 'succeed' if p.ok else 'fail',
                {f: x.pre['adm'][f]['owner'] for f in ('F1', 'F2', 'F3')})
    if x.receipt.ok == p.ok:
        for f in ('F1', 'F2', 'F3'):
            d = first_diff(p.post['bal'][f], x.post['bal'][f]) or first_diff(p.post['sup'][f], x.post['sup'][f])
            require(d is None, '{}: {} {}', x, f, d)


_s, _e = hist.history(ops, monitor, min_size=5, nontrivial=lambda x: x.receipt.ok and x.method in ('issue', 'destroy'))
TESTS = [Test('histories', _s, _e, quick=3600)]
