"""C34 outcomes depend on roles, amounts and state only"""
import collections
import json

import drive
import gen
import hist
from core import first_diff, require
from gen import sampled, st, weighted
from runner import Test
from world import ACTORS, CONVS, OWNED, World, make_world

LEVEL = 'exploration'
RULE = ('a case is non-trivial when at least four transactions of the history succeeded, at least one of them a conversion or an '
        'administrative one, and each was compared with its counterpart under other addresses, at another time')
ASSUMPTIONS = ['the counterpart differs in the addresses of all accounts and contracts, in block heights and time stamps, and in '
               'the account that starts a transaction in which a contract of a user acts',
               'the platform gives contracts no other hidden input (tx hash and nonce vary with the height)']

COPIES = ['', 'another ', 'zzz', '7', 'mirror/', 'x y', 'k2']
CALLERS = ['wallet', 'catcher']


def ops():
    conv = gen.convert_op(senders=('alice', 'alice', 'bob', 'owner', 'wallet'),
                          who_for=weighted((3, st.none()), (1, sampled(['bob', 'fresh', 'wallet', 'V1', 'catcher']))))
    use = gen.call_op([(t, m) for t in gen.TOKENS for m in gen.model.methods_of(t)])
    admin = gen.call_op([(t, m) for t in OWNED for m in gen.model.methods_of(t)],
                        senders=weighted((5, st.just('@owner')), (2, st.just('@newowner')), (1, st.just('@manager')), (1, sampled(['alice', 'wallet']))))
    given = sampled(OWNED).flatmap(lambda t: sampled([
        ['seq', ['call', '@owner', t, 'transferOwnerShip', ['wallet']], ['call', 'wallet', t, 'acceptOwnerShip', []]],
        ['seq', ['call', '@owner', t, 'transferOwnerShip', ['alice']], ['call', 'alice', t, 'acceptOwnerShip', []]]]))
    twice = weighted((2, conv), (1, use), (1, admin)).map(lambda op: ['seq', op, op])
    return weighted((4, conv), (3, twice), (2, use), (3, admin), (2, hist.switch_op()), (2, given), (1, hist.manager_handover()),
                    (1, hist.token_handover()), (1, drive.send_op))


def strategy():
    return st.fixed_dictionaries({
        'cfg': gen.world_pool(8), 'copy': sampled(COPIES), 'height': sampled([0, 1, 1000, 10 ** 7 + 3]), 'pace': sampled([0, 0, 1, 2, 17, 43200]),
        'epoch': sampled([0, 1, 1_500_000_000_000_000, 1_600_000_000_123_456, 4_102_444_800_000_000]), 'relay': sampled([None, None, 'fresh', 'owner', 'owner', 'manager', 'alice']),
        'ops': st.lists(ops(), min_size=6, max_size=20)})


def text(w, x):
    """an answer with names instead of addresses"""
    if hasattr(x, 'is_contract'):
        return w.name(x)
    if isinstance(x, dict):
        return {k: text(w, v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [text(w, v) for v in x]
    return repr(x)


def events(w, x):
    return sorted(((c, n) + tuple(named(w, a) for a in rest) for c, n, *rest in x.events if c not in ACTORS),
                  key=repr)


def named(w, x):
    """payloads carry addresses, too"""
    if isinstance(x, bytes):
        x = x.decode('utf-8', 'replace')
        for a, n in w.names.items():
            x = x.replace(str(a), n)
    return x


class Relayed(World):
    """transactions of the users' contracts are started by somebody who calls them"""
    starter = None

    def clone(self):
        raise NotImplementedError

    def tx(self, sender, to, method, *args, value=0, step_limit=None):
        if sender not in CALLERS or self.starter is None or to == sender:
            return World.tx(self, sender, to, method, *args, value=value, step_limit=step_limit)
        self.actor(sender).program['execute'] = {
            'acts': [{'to': self.addr[to], 'm': method, 'a': list(args), 'v': value, 'catch': False}]}
        r = World.tx(self, self.starter, sender, 'execute')
        r.ret = None
        return r


def execute(case, stats):
    one = make_world(case['cfg'])
    two = make_world(case['cfg'], prefix=case['copy'])
    two.__class__ = Relayed
    two.starter = case['relay']
    two.chain.height, two.chain.pace, two.chain.epoch = case['height'], case['pace'], case['epoch']
    h1, h2 = (drive.History(w, stats, predict=False) for w in (one, two))
    d = first_diff(h1.state, h2.state)
    require(d is None, 'the same deployment under other addresses: {}', d)
    done = 0
    useful = False
    for op in hist.flatten(case['ops']):
        x, y = h1.step(op), h2.step(op)
        require(x.receipt.ok == y.receipt.ok, '{}: with other addresses, at another time: {}', x, y)
        relayed = case['relay'] is not None and x.sender in CALLERS
        if not relayed:
            require(text(one, x.receipt.ret) == text(two, y.receipt.ret), '{} answered {}, and {} with other addresses, at another time',
                    x, text(one, x.receipt.ret), text(two, y.receipt.ret))
        a, b = events(one, x), events(two, y)
        require(a == b, '{} logged {}, and {} with other addresses, at another time', x, a, b)
        d = first_diff(x.post, y.post)
        require(d is None, '{} ends differently with other addresses, at another time: {}', x, d)
        if x.receipt.ok:
            done += 1
            useful |= x.kind == 'conv' or x.target in OWNED
            stats.label('relayed' if relayed else 'direct')
            hist.label(stats, x)
    d = first_diff(drive.answers(one), drive.answers(two))
    require(d is None, 'with other addresses, at another time: {}', d)
    return done >= 4 and useful


TESTS = [Test('renamed', strategy, execute, quick=2200)]
