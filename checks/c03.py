"""C03 a token transfer moves exactly the stated value, once, and notifies"""
import drive
import gen
import hist
from core import first_diff, require
from gen import sampled, st, weighted
from iconservice import Address
from runner import Test
from world import ACTORS, TOKENS

LEVEL = 'exploration'
RULE = 'a history is non-trivial when it contains a successful transfer of a positive value'
ASSUMPTIONS = ['receiving contracts: a recording one, a rejecting one, one that acts again on the token, the network, '
               'converters and contracts without tokenFallback']

TOK = ['T1', 'T2', 'IX', 'F1', 'F2', 'F3']
WHO = ['owner', 'manager', 'alice', 'bob', 'mallory', 'catcher', 'wallet', 'net', 'IX', 'F1', 'F2', 'V1', 'V3']
TO = ['alice', 'bob', 'mallory', 'owner', 'fresh', 'zero', 'catcher', 'catcher', 'wallet', 'rejecter', 'cxnone', 'T1',
      'IX', 'F1', 'V1', 'V2', 'net', 'reg']


def transfer_op():
    def of(t):
        data = weighted((2, st.none()), (2, st.sampled_from(['', 'None', 'x', 'conversionResult', '{}', 'null'])),
                        (1, st.text(max_size=40)), (1, st.builds(lambda c, n: c * n, sampled(['x', '{', ' ', 'é']), sampled([31, 64, 255, 256, 511, 513, 1000, 5000]))))
        return st.tuples(st.just('call'), weighted((3, sampled(['alice', 'bob', 'mallory', 'owner', 'catcher', 'wallet'])),
                                                   (1, sampled(WHO))),
                         st.just(t), st.just('transfer'),
                         st.tuples(weighted((4, sampled(TO)), (1, sampled(gen.ADDRS))), gen.amount, data).map(list)
                         ).map(list)
    return sampled(TOK).flatmap(of)


def ops():
    acts = [('T1', 'transfer'), ('IX', 'transfer'), ('F1', 'transfer'), ('F2', 'transfer')]
    switch = gen.call_op(gen.all_methods(['F1', 'F2'], {'disableTransfer'}))
    return weighted((12, transfer_op()), (2, switch), (1, drive.program_op(acts)), (1, drive.execute_op(acts)),
                    (1, gen.convert_op()), (3, hist.reentrant(TOK)))


def watch(w):
    """receiving contracts look at the balances in the moment they are notified"""
    for n in ('catcher', 'wallet'):
        actor = w.actor(n)
        actor.seen = []

        def on_call(a, method, args):
            if method == 'tokenFallback':
                tok = a.msg.sender
                def bal(who):
                    return a._context.internal_call.other_external_call(a.address, tok, 'balanceOf', (who,), {}, 0)
                a.seen.append((bal(a.address), bal(args[0])))
        actor.on_call = on_call


def start(w, mem):
    watch(w)


def monitor(w, x, mem):
    hist.unchanged(x)
    seen = {}
    for n in ('catcher', 'wallet'):
        seen[n] = w.actor(n).seen
        w.actor(n).seen = []
    p = x.pred
    if x.kind not in ('call', 'exec') or p.ok is None:
        return
    require(x.receipt.ok == p.ok, '{}, but it must {}', x, 'succeed' if p.ok else 'fail')
    d = first_diff(p.post['bal'], x.post['bal']) or first_diff(p.post['sup'], x.post['sup'])
    require(d is None, '{}: {}', x, d)
    if x.kind != 'call' or x.method != 'transfer' or not x.receipt.ok:
        return
    tok, (to, value, data) = x.target, x.args
    data = b'None' if data is None else data
    for n in ACTORS:
        calls = [c for c in w.actor(n).calls if c[0] == 'tokenFallback' and c[3][0] == w.addr[x.sender]
                 and c[1] == w.addr[tok]]
        first = w.actor(n).calls[:1]
        if n != to:
            if not w.actor('catcher').program and not w.actor('wallet').program:
                require(not w.actor(n).calls, '{}: {} was called although it is not the receiver: {}', x, n, first)
            continue
        require(first and first[0][:3] == ('tokenFallback', w.addr[tok], 0)
                and first[0][3] == (w.addr[x.sender], value, data),
                '{}: receiver was notified with {}', x, first)
        require(all(type(a) is type(b) for a, b in zip(first[0][3], (w.addr[x.sender], value, data))),
                '{}: receiver was notified with {}', x, first)
        if not w.actor(n).program:
            require(len(calls) == 1 and len(w.actor(n).calls) == 1, '{}: receiver was called {} times', x,
                    len(w.actor(n).calls))
        bal_to, bal_from = seen[n][0]
        pre = x.pre['bal'][tok]
        want_to = pre[n] + (0 if x.sender == n else value)
        want_from = pre[x.sender] - (0 if x.sender == n else value)
        require((bal_to, bal_from) == (want_to, want_from),
                '{}: during the notification the balances were {}, expected {}', x, (bal_to, bal_from),
                (want_to, want_from))


_s, _e = hist.history(ops, monitor, start=start, min_size=5, max_size=24,
                      nontrivial=lambda x: x.receipt.ok and x.method == 'transfer' and x.kind == 'call' and x.args[1] > 0)
TESTS = [Test('histories', _s, _e, quick=4000)]
