# -*- coding: utf-8 -*-
"""A minimal in-memory ICON chain that runs the real SCORE classes of /repo on
the real iconservice execution engine (contexts, DB batches, inter-SCORE calls,
event logs, step counter, ICX ledger).  Nothing of iconservice's SCORE-facing
behaviour is re-implemented here: only the outer shell (block production, SCORE
lookup, blacklist/deploy governance) is replaced.

Used by the property checks; imports nothing but the repository under test and
iconservice.
"""
import copy
import importlib
import json
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
if sys.path[:1] != [REPO]:
    sys.path.insert(0, REPO)

from iconservice.base.address import Address, AddressPrefix, ZERO_SCORE_ADDRESS  # noqa: E402
from iconservice.base.block import Block  # noqa: E402
from iconservice.base.exception import IconScoreException, IconServiceBaseException, InvalidParamsException  # noqa: E402
from iconservice.base.message import Message  # noqa: E402
from iconservice.base.type_converter import TypeConverter  # noqa: E402
from iconservice.base.transaction import Transaction  # noqa: E402
from iconservice.database.batch import BlockBatch, TransactionBatch  # noqa: E402
from iconservice.database.db import ContextDatabase, IconScoreDatabase  # noqa: E402
from iconservice.icon_constant import IconScoreContextType, IconScoreFuncType  # noqa: E402
from iconservice.iconscore import icon_container_db  # noqa: E402
from iconservice.iconscore.icon_score_context import ContextContainer, IconScoreContext  # noqa: E402
from iconservice.iconscore.icon_score_step import (IconScoreStepCounter, OutOfStepException,  # noqa: E402
                                                   StepType)
from iconservice.iconscore.internal_call import InternalCall  # noqa: E402
from iconservice.icx.icx_account import Account  # noqa: E402
from iconservice.icx.icx_engine import IcxEngine  # noqa: E402
from iconservice.icx.icx_storage import IcxStorage  # noqa: E402

ZERO = ZERO_SCORE_ADDRESS


# --------------------------------------------------------------------------
# iconservice 1.1.2 keeps ArrayDB's length in a Python attribute that a failed
# transaction does not roll back (a platform defect, repaired in later
# releases).  It is not the repository's behaviour, so the harness makes the
# length come from the database, which is what later platforms do.
# --------------------------------------------------------------------------
def _patch_array_db():
    cls = icon_container_db.ArrayDB
    if getattr(cls, '_verif_patched', False):
        return
    size_key = icon_container_db.ContainerUtil.encode_key('size')

    def get_size(self):
        return icon_container_db.ContainerUtil.decode_object(self._db.get(size_key), int)

    def set_size(self, value):
        if value == get_size(self):
            return
        self._db.put(size_key, icon_container_db.ContainerUtil.encode_value(value))

    original_init = cls.__init__

    def init(self, var_key, db, value_type):
        # the original reads the size and stores it: reading back what it just
        # read makes the setter a no-op, so construction never writes
        original_init(self, var_key, db, value_type)

    cls.__init__ = init
    cls._ArrayDB__size = property(get_size, set_size)
    cls._verif_patched = True


_patch_array_db()


# --------------------------------------------------------------------------
# fault injection: Chain.fault = (k, when) makes the k-th call between
# contracts of the next transaction fail, before or after the callee ran, or 'broken' with a Python error
# --------------------------------------------------------------------------
def _patch_calls():
    cls = InternalCall
    if getattr(cls, '_verif_patched', False):
        return
    original = cls._other_score_call

    def call(self, addr_from, addr_to, func_name, arg_params, kw_params, amount):
        chain = self._InternalCall__context.chain
        if chain is None or chain.calls is None:
            return original(self, addr_from, addr_to, func_name, arg_params, kw_params, amount)
        index = len(chain.calls)
        chain.calls.append((addr_from, addr_to, func_name))
        hit = chain.fault is not None and chain.fault[0] == index
        if hit and chain.fault[1] == 'before':
            raise IconScoreException('injected failure')
        result = original(self, addr_from, addr_to, func_name, arg_params, kw_params, amount)
        if hit and chain.fault[1] == 'after':
            raise IconScoreException('injected failure')
        if hit:
            raise ZeroDivisionError('injected failure')     # what a contract raises that does not revert properly
        return result

    cls._other_score_call = call
    cls._verif_patched = True


_patch_calls()


def eoa(tag) -> Address:
    return Address(AddressPrefix.EOA, _body(b'eoa', tag))


def cx(tag) -> Address:
    return Address(AddressPrefix.CONTRACT, _body(b'cx', tag))


def _body(kind, tag) -> bytes:
    import hashlib
    return hashlib.sha3_256(kind + b'|' + str(tag).encode()).digest()[:20]


class MemKV:
    """dict with the KeyValueDatabase interface of iconservice"""

    def __init__(self):
        self.d = {}
        self.trace = None

    def get(self, key):
        if self.trace is not None:
            self.trace.add(key)
        return self.d.get(key)

    def put(self, key, value):
        self.d[key] = value

    def delete(self, key):
        self.d.pop(key, None)

    def close(self):
        pass

    def write_batch(self, states):
        for key, value in states.items():
            if value:
                self.d[key] = value
            else:
                self.d.pop(key, None)


class _Context(IconScoreContext):
    chain = None

    def get_icon_score(self, address):
        score = self.chain.scores.get(address)
        if score is None:
            raise InvalidParamsException(f'SCORE is inactive: {address}')
        return score

    def validate_score_blacklist(self, score_address):
        if not score_address.is_contract:
            raise InvalidParamsException(f'Invalid SCORE address: {score_address}')

    def get_owner(self, context, icon_score_address):
        return self.chain.deployers.get(icon_score_address)

    def get_revision(self):
        return 3


class Log:
    __slots__ = ('address', 'name', 'args', 'indexed_count', 'signature')

    def __init__(self, event):
        self.address = event.score_address
        self.name = event.indexed[0].split('(')[0]
        self.signature = event.indexed[0]
        self.args = tuple(event.indexed[1:]) + tuple(event.data)
        self.indexed_count = len(event.indexed) - 1

    def __repr__(self):
        return f'{self.name}@{str(self.address)[:8]}{self.args}'


class Receipt:
    __slots__ = ('ok', 'ret', 'error', 'logs', 'steps', 'out_of_step', 'touched')

    def __repr__(self):
        return f'Receipt(ok={self.ok}, ret={self.ret}, error={self.error!r}, logs={self.logs})'


BIG = 10 ** 18


class Chain:

    STEP_COSTS = {t: 1 for t in StepType}

    def __init__(self):
        self.kv = MemKV()
        self.context_db = ContextDatabase(self.kv, is_shared=True)
        self.engine = IcxEngine()
        self.engine._storage = IcxStorage(self.context_db)
        self.scores = {}
        self.deployers = {}
        self.classes = {}
        self._serial = 0
        self.height = 0
        self.pace = 1           # blocks from one transaction to the next
        self.epoch = 1_500_000_000_000_000
        self.number = 0         # of transactions so far
        self.origins = ()       # accounts that start, in turn, the transactions in which a contract acts
        self._memo = {}
        self._memo_by_key = {}
        self.calls = None       # record of calls between contracts, while switched on
        self.fault = None
        InternalCall.icx_engine = self.engine

    # -- contexts ----------------------------------------------------------
    def _context(self, ctype, sender, value, step_limit):
        context = _Context(ctype)
        context.chain = self
        context.block = Block(block_height=self.height, block_hash=b'\x00' * 32,
                              timestamp=self.epoch + self.height * 2_000_000, prev_hash=None)
        origin = self.origins[self.number % len(self.origins)] if self.origins and sender and sender.is_contract else sender
        if ctype != IconScoreContextType.QUERY:      # as on the platform, a query is no part of a transaction
            context.tx = Transaction(tx_hash=(self.height << 64 | self.number).to_bytes(32, 'big'), index=0, origin=origin,
                                     timestamp=context.block.timestamp, nonce=0)
        context.msg = Message(sender=sender, value=value)
        context.block_batch = BlockBatch()
        context.tx_batch = TransactionBatch()
        context.event_logs = []
        context.traces = []
        context.step_counter = IconScoreStepCounter(self.STEP_COSTS, step_limit, 0)
        return context

    def _run(self, sender, value, body, step_limit=None):
        InternalCall.icx_engine = self.engine
        self.height += self.pace
        self.number += 1
        context = self._context(IconScoreContextType.INVOKE, sender, value,
                                BIG if step_limit is None else step_limit)
        receipt = Receipt()
        receipt.ok, receipt.ret, receipt.error, receipt.logs = False, None, None, []
        receipt.out_of_step = False
        receipt.touched = None
        ContextContainer._push_context(context)
        try:
            receipt.ret = body(context)
            receipt.ok = True
        except OutOfStepException as e:
            receipt.error = e
            receipt.out_of_step = True
        except (IconServiceBaseException, Exception) as e:
            receipt.error = e
        finally:
            ContextContainer._pop_context()
        receipt.steps = context.step_counter._step_used
        if receipt.ok:
            states = dict(context.tx_batch._call_batches[0])
            self.kv.write_batch(states)
            self._invalidate(states)
            receipt.touched = states
            receipt.logs = [Log(e) for e in context.event_logs]
        return receipt

    # -- public ------------------------------------------------------------
    def deploy(self, cls, deployer, *args, tag=None, step_limit=None):
        """-> (address, receipt); the SCORE only exists when the receipt is ok"""
        self._serial += 1
        address = cx(tag if tag is not None else self._serial)
        self.deployers[address] = deployer

        def body(context):
            # construction happens inside the transaction like on the platform
            db = IconScoreDatabase(address, self.context_db)
            score = cls(db)
            context.func_type = IconScoreFuncType.WRITABLE
            self.scores[address] = score
            score.on_install(*args)

        receipt = self._run(deployer, 0, body, step_limit)
        if receipt.ok:
            self.classes[address] = cls
        else:
            self.scores.pop(address, None)
            self.deployers.pop(address, None)
        return address, receipt

    def deploy_json(self, cls, deployer, params, tag=None):
        """deploys with the parameters of a JSON-RPC request: {name: string}; the platform converts them by
        the annotations of on_install"""
        self._serial += 1
        address = cx(tag if tag is not None else self._serial)
        known = address in self.scores
        if known:
            raise RuntimeError(f'{address} exists')
        self.deployers[address] = deployer

        def body(context):
            score = cls(IconScoreDatabase(address, self.context_db))
            context.func_type = IconScoreFuncType.WRITABLE
            self.scores[address] = score
            self._initialize(score.on_install, params)

        receipt = self._run(deployer, 0, body)
        if receipt.ok:
            self.classes[address] = cls
        else:
            self.scores.pop(address, None)
            self.deployers.pop(address, None)
        return address, receipt

    @staticmethod
    def _initialize(on_deploy, params):
        params = dict(params)
        annotations = TypeConverter.make_annotations_from_method(on_deploy)
        TypeConverter.convert_data_params(annotations, params)
        on_deploy(**params)

    def update(self, address, cls=None, params=None):
        """replaces the code of a deployed SCORE (an update transaction of its deployer)"""
        old = self.scores[address]
        cls = cls or self.classes[address]

        def body(context):
            score = cls(IconScoreDatabase(address, self.context_db))
            context.func_type = IconScoreFuncType.WRITABLE
            self.scores[address] = score
            self._initialize(score.on_update, params or {})

        receipt = self._run(self.deployers[address], 0, body)
        if receipt.ok:
            self.classes[address] = cls
        else:
            self.scores[address] = old
        return receipt

    def install(self, cls, deployer, *args, tag=None):
        address, receipt = self.deploy(cls, deployer, *args, tag=tag)
        if not receipt.ok:
            raise RuntimeError(f'deploying {cls.__name__} failed: {receipt.error}')
        return address

    def call(self, sender, to, method, *args, value=0, step_limit=None, **kwargs):
        def body(context):
            if value:
                self.engine.transfer(context, sender, to, value)
            if not to.is_contract:
                return None
            score = context.get_icon_score(to)
            if method is None:
                context.func_type = IconScoreFuncType.WRITABLE
                return score._IconScoreBase__fallback_call()
            score.validate_external_method(method)
            readonly = score._IconScoreBase__is_func_readonly(method)
            context.func_type = IconScoreFuncType.READONLY if readonly else IconScoreFuncType.WRITABLE
            return score._IconScoreBase__external_call(func_name=method, arg_params=list(args),
                                                       kw_params=dict(kwargs))
        return self._run(sender, value, body, step_limit)

    def _named(self, score, method, params):
        """what the platform does with the parameters of a JSON-RPC request: {name: string}"""
        score.validate_external_method(method)
        params = dict(params)
        annotations = TypeConverter.make_annotations_from_method(getattr(score, method))
        TypeConverter.convert_data_params(annotations, params)
        return params

    def call_json(self, sender, to, method, params, value=0):
        """a transaction as a wallet sends it: parameters by name, as strings"""
        def body(context):
            if value:
                self.engine.transfer(context, sender, to, value)
            score = context.get_icon_score(to)
            named = self._named(score, method, params)
            readonly = score._IconScoreBase__is_func_readonly(method)
            context.func_type = IconScoreFuncType.READONLY if readonly else IconScoreFuncType.WRITABLE
            return score._IconScoreBase__external_call(func_name=method, arg_params=[], kw_params=named)
        return self._run(sender, value, body)

    def query_json(self, to, method, params):
        """an icx_call request; -> Receipt whose ret is the JSON of the answer"""
        receipt = self.query_receipt(to, method, named=params)
        if receipt.ok:
            receipt.ret = TypeConverter.convert_type_reverse(copy.deepcopy(receipt.ret))
        return receipt

    def send_icx(self, sender, to, value, step_limit=None):
        return self.call(sender, to, None, value=value, step_limit=step_limit)

    def query_receipt(self, to, method, *args, sender=None, named=None):
        """a query; without a sender it is anonymous, as a query without "from" is on the platform"""
        InternalCall.icx_engine = self.engine
        context = self._context(IconScoreContextType.QUERY, sender, 0, BIG)
        receipt = Receipt()
        receipt.ok, receipt.ret, receipt.error, receipt.logs = False, None, None, []
        receipt.out_of_step = False
        receipt.steps = 0
        receipt.touched = None
        ContextContainer._push_context(context)
        try:
            score = context.get_icon_score(to)
            score.validate_external_method(method)
            named = {} if named is None else self._named(score, method, named)
            readonly = score._IconScoreBase__is_func_readonly(method)
            context.func_type = IconScoreFuncType.READONLY if readonly else IconScoreFuncType.WRITABLE
            receipt.ret = score._IconScoreBase__external_call(func_name=method, arg_params=list(args),
                                                              kw_params=named)
            receipt.ok = True
        except (IconServiceBaseException, Exception) as e:
            receipt.error = e
        finally:
            ContextContainer._pop_context()
        receipt.steps = context.step_counter._step_used
        return receipt

    def query(self, to, method, *args, sender=None):
        receipt = self.query_receipt(to, method, *args, sender=sender)
        if not receipt.ok:
            raise QueryFailed(f'{method}{args}: {type(receipt.error).__name__} {receipt.error}')
        return receipt.ret

    # Observing the whole state after every transaction costs hundreds of
    # queries; an answer is reused while nothing it read has been written.
    # (C17 and C22 check, without this, that answers depend on the database only.)
    def observe(self, to, method, *args):
        key = (to, method, args)
        hit = self._memo.get(key)
        if hit is not None:
            return hit[0]
        self.kv.trace = trace = set()
        try:
            result = self.query(to, method, *args)
        finally:
            self.kv.trace = None
        self._memo[key] = (result,)
        for k in trace:
            self._memo_by_key.setdefault(k, set()).add(key)
        return result

    def _invalidate(self, keys):
        if self._memo:
            for k in keys:
                for key in self._memo_by_key.pop(k, ()):
                    self._memo.pop(key, None)

    def forget(self):
        self._memo.clear()
        self._memo_by_key.clear()

    def icx(self, address) -> int:
        return self.engine._storage.get_account(None, address).icx

    def mint_icx(self, address, amount):
        account = self.engine._storage.get_account(None, address)
        account.deposit(amount)
        self.engine._storage.put_account(None, address, account)

    def exists(self, address):
        return address in self.scores

    def restart(self):
        """forget every SCORE object; rebuild them from the database alone"""
        self.forget()
        for address, cls in list(self.classes.items()):
            context = self._context(IconScoreContextType.QUERY, eoa('restart'), 0, BIG)
            ContextContainer._push_context(context)
            try:
                self.scores[address] = cls(IconScoreDatabase(address, self.context_db))
            finally:
                ContextContainer._pop_context()

    def dump(self):
        return dict(self.kv.d)

    def load(self, dump):
        self.kv.d = dict(dump)
        self.forget()

    def clone(self):
        other = Chain()
        other.kv.d = dict(self.kv.d)
        other.deployers = dict(self.deployers)
        other.classes = dict(self.classes)
        other._serial = self._serial
        other.height, other.pace, other.epoch, other.number = self.height, self.pace, self.epoch, self.number
        other.origins = self.origins
        other.restart()
        return other


class QueryFailed(Exception):
    pass


_SCORES = {}
RELEASED = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'released')


def score_class(name, released=False):
    """main SCORE class of contract `name`, located through its package.json
    (what the platform's loader uses); released: of the code deployed systems run, see released/README"""
    if (name, released) not in _SCORES:
        with open(os.path.join(RELEASED if released else REPO, 'contracts', name, 'package.json')) as f:
            package = json.load(f)
        module = importlib.import_module(('released.' if released else '') + 'contracts.' + package['main_file'])
        _SCORES[name, released] = getattr(module, package['main_score'])
    return _SCORES[name, released]
