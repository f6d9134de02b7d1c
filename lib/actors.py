# -*- coding: utf-8 -*-
"""Harness contracts that run next to the contracts under test."""
from iconservice import *
from iconservice.base.exception import IconServiceBaseException
from iconservice.iconscore.icon_score_step import OutOfStepException


class Actor(IconScoreBase):
    """A scriptable contract.

    `program` (a Python attribute, set by the harness, never stored) says what
    the contract does when one of its methods is invoked:
        {method: {'acts': [action, ...], 'ret': value, 'rets': [values of the first calls], 'fail': bool, 'times': n}}
    An action is a dict {'to','m','a','v','catch'}: call method m (None: plain
    ICX transfer) of `to` with positional args a and v ICX; a failing call with
    'catch' is swallowed, otherwise it propagates.
    Every invocation is appended to `calls`, what the methods it calls answer to
    `answers`.
    """

    def __init__(self, db):
        super().__init__(db)
        self.program = {}
        self.calls = []
        self.answers = []
        self.budget = 0
        self.on_call = None

    def on_install(self) -> None:
        pass

    def on_update(self) -> None:
        pass

    def _invoke(self, method, args):
        self.calls.append((method, self.msg.sender, self.msg.value, args))
        if self.on_call is not None:
            self.on_call(self, method, args)
        entry = self.program.get(method)
        if entry is None:
            return None
        times = entry.get('times')
        if times is not None:
            if times <= 0:
                return entry.get('ret')
            entry['times'] = times - 1
        for act in entry.get('acts', ()):
            if 'deliver' in act:
                self.deliver(act['deliver'], args)
            else:
                self.do(act)
        if entry.get('fail'):
            revert('actor refuses')
        if entry.get('rets'):
            return entry['rets'].pop(0)
        return entry.get('ret')

    def deliver(self, amount, args):
        """behaves like a converter: pays the token the conversion request (_from, _value, _data) asks for"""
        try:
            token = Address.from_string(json_loads(args[2].decode())['toToken'])
        except Exception:
            return
        self.do({'to': token, 'm': 'transfer', 'a': [args[0], amount, b'conversionResult'], 'catch': True})

    def do(self, act):
        if self.budget <= 0:
            return None
        self.budget -= 1
        try:
            if act.get('m') is None:
                self.icx.transfer(act['to'], act.get('v', 0))
                return None
            answer = self._context.internal_call.other_external_call(
                self.address, act['to'], act['m'], tuple(act.get('a', ())), {}, act.get('v', 0))
            self.answers.append((act['m'], answer))
            return answer
        except OutOfStepException:
            raise       # the platform stops a transaction; no contract goes on after that
        except (IconServiceBaseException, Exception):
            if not act.get('catch'):
                raise
            return None

    @payable
    def fallback(self):
        self._invoke('fallback', ())

    @payable
    @external
    def execute(self):
        return self._invoke('execute', ())

    @external
    def tokenFallback(self, _from: Address, _value: int, _data: bytes):
        return self._invoke('tokenFallback', (_from, _value, _data))

    # -- poses as token / flexible token / converter / registry ------------
    @external
    def transfer(self, _to: Address, _value: int, _data: bytes = None):
        return self._invoke('transfer', (_to, _value, _data))

    @external
    def balanceOf(self, _owner: Address) -> int:
        r = self._invoke('balanceOf', (_owner,))
        return 0 if r is None else r

    @external
    def totalSupply(self) -> int:
        r = self._invoke('totalSupply', ())
        return 0 if r is None else r

    @external
    def getOwner(self) -> Address:
        r = self._invoke('getOwner', ())
        return self.address if r is None else r

    @external
    def getReturn(self, _fromToken: Address, _toToken: Address, _amount: int) -> dict:
        r = self._invoke('getReturn', (_fromToken, _toToken, _amount))
        return {'amount': 0, 'fee': 0} if r is None else r

    @external
    def getAddress(self, _scoreName: str) -> Address:
        return self._invoke('getAddress', (_scoreName,))

    @external
    def issue(self, _to: Address, _amount: int):
        return self._invoke('issue', (_to, _amount))

    @external
    def destroy(self, _from: Address, _amount: int):
        return self._invoke('destroy', (_from, _amount))

    @payable
    @external
    def deposit(self):
        return self._invoke('deposit', ())

    @external
    def withdrawTo(self, _amount: int, _to: Address):
        return self._invoke('withdrawTo', (_amount, _to))
