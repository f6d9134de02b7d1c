# -*- coding: utf-8 -*-
"""Runs generated histories on a World, one transaction at a time, and hands each
step (state before, prediction, receipt, state after) to the property's monitor."""
import gen
import model
from core import Violation, first_diff, require
from gen import sampled, st
from world import ACTORS, World


class Step:
    __slots__ = ('kind', 'sender', 'target', 'method', 'args', 'value', 'pre', 'pred', 'receipt', 'post', 'conv',
                 'events', 'op')

    def __str__(self):
        if self.kind == 'conv':
            _, s, path, n, who, mode = self.conv
            return f'{s} converts {n} along {path} ({mode}) for {who} -> {"ok" if self.receipt.ok else self.receipt.error}'
        return (f'{self.sender} -> {self.target}.{self.method}{tuple(self.args)} value={self.value} -> '
                f'{"ok" if self.receipt.ok else f"failed: {self.receipt.error}"}')


def action(methods):
    """an action of a scripted contract: [target, method, args, icx value, catch]"""
    def one(tm):
        t, m = tm
        kinds = model.methods_of(t)[m]
        args = st.tuples(*[gen.ARG[k] for k in kinds]).map(list)
        val = gen.amount if (t, m) == ('IX', 'deposit') else st.just(['a', 0])
        return st.tuples(st.just(t), st.just(m), args, val, st.booleans()).map(list)
    plain = st.tuples(sampled(['IX', 'IX', 'alice', 'wallet', 'catcher']), st.none(), st.just([]), gen.amount,
                      st.booleans()).map(list)
    return st.one_of(*[one(tm) for tm in methods], plain)


TOKEN_ACTIONS = [('T1', 'transfer'), ('IX', 'transfer'), ('IX', 'withdraw'), ('IX', 'withdrawTo'), ('IX', 'withdraw'),
                 ('IX', 'withdrawTo'), ('IX', 'deposit'), ('F1', 'transfer'), ('F1', 'destroy'), ('F1', 'issue')]


def program_op(methods=TOKEN_ACTIONS, actors=('catcher', 'wallet')):
    """['prog', actor, event, [actions], times] : what a contract does when called"""
    return st.tuples(st.just('prog'), sampled(actors), sampled(['tokenFallback', 'fallback', 'fallback']),
                     st.lists(action(methods), min_size=1, max_size=3), st.integers(1, 4)).map(list)


def execute_op(methods=TOKEN_ACTIONS, actors=('wallet', 'catcher')):
    """['exec', sender, actor, [actions]] : an account makes a contract act"""
    return st.tuples(st.just('exec'), sampled(['alice', 'mallory']), sampled(actors),
                     st.lists(action(methods), min_size=1, max_size=4)).map(list)


def decode_actions(w, s, actor, actions):
    out = []
    for target, method, args, value, catch in actions:
        if method is None:
            v = gen.resolve(value, w.icx(actor) if value[0] != 'o' else s['bal']['IX'].get(actor, 0))
            out.append({'to': target, 'm': None, 'a': [], 'v': max(0, v), 'catch': catch})
            continue
        sender, t, m, names, _ = gen.resolve_call(w, s, ['call', actor, target, method, args])
        v = max(0, gen.resolve(value, w.icx(actor)))
        out.append({'to': t, 'm': m, 'a': names, 'v': v, 'catch': catch})
    return out


def real_actions(w, acts):
    return [{'to': w.addr[a['to']], 'm': a['m'], 'v': a['v'], 'catch': a['catch'],
             'a': [] if a['m'] is None else gen.real_args(w, a['to'], a['m'], a['a'])} for a in acts]


class History:

    def __init__(self, world, stats, observe=None, predict=True):
        self.w = world
        self.stats = stats
        self.observe_fn = observe or world.observe
        self.do_predict = predict
        self.state = self.observe_fn()
        self.programs = {}

    def prog(self, actor, event, acts, times=None):
        self.programs.setdefault(actor, {})[event] = {'acts': acts, 'times': times}
        entry = {'acts': real_actions(self.w, acts)}
        if times is not None:
            entry['times'] = times
        self.w.actor(actor).program[event] = entry

    def predict(self, x, args):
        if self.do_predict:
            x.pred = model.predict(self.state, x.sender, x.target, x.method, args, x.value, self.programs)

    def step(self, op):
        w = self.w
        x = Step()
        x.op = op
        x.kind = op[0]
        x.pre = self.state
        x.pred = None
        x.conv = None
        x.value = 0
        x.args = []
        if x.kind == 'prog':
            _, actor, event, actions, times = op
            self.prog(actor, event, decode_actions(w, self.state, actor, actions), times)
            return None
        if x.kind == 'restart':
            w.chain.restart()
            w.rearm()
            self.programs = {}
            self.state = self.observe_fn()
            return None
        for n in ACTORS:
            w.actor(n).budget = 60
            w.actor(n).calls = []
            for event, p in self.programs.get(n, {}).items():
                # the real contract counts its runs down; take over what is left
                if p['times'] is not None:
                    p['times'] = w.actor(n).program[event]['times']
        if x.kind == 'call':
            x.sender, x.target, x.method, x.args, x.value = gen.resolve_call(w, self.state, op)
            if x.target == 'IX' and x.method == 'deposit':
                x.value = max(0, gen.resolve(['f', 100], w.icx(x.sender)))
            self.predict(x, x.args)
            x.receipt = w.tx(x.sender, x.target, x.method, *gen.real_args(w, x.target, x.method, x.args),
                             value=x.value)
        elif x.kind == 'send':
            _, x.sender, x.target, amt = op
            x.method = None
            x.value = max(0, gen.resolve(amt, w.icx(x.sender)))
            self.predict(x, [])
            x.receipt = w.chain.send_icx(w.addr[x.sender], w.addr[x.target], x.value)
        elif x.kind == 'exec':
            _, x.sender, x.target, actions = op
            x.method = 'execute'
            acts = decode_actions(w, self.state, x.target, actions)
            self.prog(x.target, 'execute', acts)
            self.predict(x, [])
            x.receipt = w.tx(x.sender, x.target, 'execute')
        elif x.kind == 'conv':
            x.conv = gen.run_convert(w, op)
            x.receipt = x.conv[0]
            x.sender, x.target, x.method = x.conv[1], 'net', 'convert'
        else:
            raise ValueError(op)
        x.events = w.events(x.receipt)
        x.post = self.state = self.observe_fn()
        return x


send_op = st.tuples(st.just('send'), sampled(['alice', 'bob', 'mallory', 'wallet', 'catcher']),
                    sampled(['IX', 'IX', 'IX', 'catcher', 'F1', 'net', 'alice']), gen.amount).map(list)


def agree(x, what='the documented effect', ok=True, state=True, events=False):
    """the step agrees with the reference semantics"""
    p = x.pred
    if p is None or p.ok is None:
        return
    if ok:
        require(x.receipt.ok == p.ok, '{}: {}, but it must {}', what, x, 'succeed' if p.ok else 'fail')
    if x.receipt.ok != p.ok:
        return
    if state:
        d = first_diff(p.post, x.post)
        require(d is None, '{}: after {}: {}', what, x, d)
    if events and p.ok:
        require(sorted(x.events, key=repr) == sorted(p.events, key=repr), '{}: {} logged {}, expected {}',
                what, x, x.events, p.events)


def answers(w):
    """what the contracts answer beyond World.observe: traded balances, quotes, prices along paths"""
    out = {}
    for v in gen.CONVS:
        f = gen.FLEX_OF[v]
        toks = gen.CONNECTORS[v] + [f]
        for t in toks[:-1] + ['wallet']:
            r = w.chain.query_receipt(w.addr[v], 'getConnectorBalance', w.addr[t])
            out[f'{v}.getConnectorBalance({t})'] = r.ret if r.ok else None
        for a in toks:
            for b in toks:
                if a != b:
                    r = w.chain.query_receipt(w.addr[v], 'getReturn', w.addr[a], w.addr[b], 10 ** 9)
                    out[f'{v}.getReturn({a}, {b})'] = dict(r.ret) if r.ok else None
        r = w.chain.query_receipt(w.addr[v], 'getFinalAmount', 10 ** 12 + 7, 2)
        out[f'{v}.getFinalAmount'] = r.ret if r.ok else None
    for p in (['T1', 'F1', 'IX', 'F3', 'T2'], ['F1', 'F2', 'T2']):
        r = w.chain.query_receipt(w.addr['net'], 'getExpectedReturnByPath', w.path(p), 10 ** 12)
        out['path ' + ' '.join(p)] = r.ret if r.ok else None
    return out
