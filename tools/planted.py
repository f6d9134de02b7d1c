"""Planted bugs: what to change, what it breaks, and a demonstration (see plant.py)."""

IRC = 'contracts/irc_token/irc_token.py'
FT = 'contracts/flexible_token/flexible_token.py'
IT = 'contracts/icx_token/icx_token.py'
NW = 'contracts/network/network.py'
RG = 'contracts/score_registry/score_registry.py'
CV = 'contracts/converter/converter.py'
FM = 'contracts/formula/fixed_map_formula.py'
FC = 'contracts/utility/flexible_token_controller.py'
MG = 'contracts/utility/managed.py'
OW = 'contracts/utility/owned.py'
PX = 'contracts/utility/proxy_score.py'
SG = 'contracts/utility/storage.py'
TH = 'contracts/utility/token_holder.py'
UT = 'contracts/utility/utils.py'
GB = 'contract_generator/builder.py'
GW = 'contract_generator/writer.py'
GC = 'contract_generator/config.py'
AG = 'contracts/formula/auto_generate/common/functions.py'

BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


bug('self-transfer-mints', 'C01',
    'a transfer whose sender and receiver are the same account',
    'both balances are read before either is written, so a transfer to oneself creates tokens',
    [(IRC, """        self._balances[_from] = self._balances[_from] - _value
        self._balances[_to] = self._balances[_to] + _value
""", """        from_balance = self._balances[_from]
        to_balance = self._balances[_to]
        self._balances[_from] = from_balance - _value
        self._balances[_to] = to_balance + _value
""")], """
from world import make_world
w = make_world()
def total():
    return sum(w.bal('T1', h) for h in w.holders)
before = total()
w.must('alice', 'T1', 'transfer', w.addr['alice'], 12345)
check(total() == before, 'a transfer to oneself changed the sum of the balances')
""")

bug('withdraw-stale-supply', 'C02',
    'an ICX withdrawal paid to a contract that calls back into the ICX token (deposit or withdraw)',
    'the total supply is read before the ICX is paid out and written back afterwards, so what a re-entrant receiver does '
    'to the supply is lost and the token is no longer backed one to one',
    [(IT, """        self._total_supply.set(total_supply - _amount)
        self.icx.transfer(_to, _amount)

        self.Destruction(_amount)
""", """        self.icx.transfer(_to, _amount)
        self._total_supply.set(total_supply - _amount)

        self.Destruction(_amount)
""")], """
from world import make_world
w = make_world()
w.actor('wallet').program['fallback'] = {'times': 1, 'acts': [{'to': w.addr['IX'], 'm': 'deposit', 'a': [], 'v': 500}]}
w.must('alice', 'IX', 'withdrawTo', 1000, w.addr['wallet'])
check(w.icx('IX') == w.q('IX', 'totalSupply'), 'ICX held differs from the total supply')
""")

bug('empty-data-replaced', 'C03',
    'a transfer to a contract with empty data (b"")',
    'empty data is replaced by b"None", so the receiver and the log see other data than the sender gave',
    [(IRC, """        if _data is None:
            _data = b'None'
""", """        _data = _data or b'None'
""")], """
from world import make_world
w = make_world()
w.must('alice', 'T1', 'transfer', w.addr['catcher'], 5, b'')
method, sender, value, args = w.actor('catcher').calls[-1]
check(args[2] == b'', 'the receiver got %r' % (args[2],))
w.must('alice', 'T1', 'transfer', w.addr['catcher'], 5)
check(w.actor('catcher').calls[-1][3][2] == b'None', 'default data')
""")

bug('nominee-burns', 'C04',
    'a pending nomination of a new flexible token owner',
    'the nominated but not yet accepted owner can already burn other accounts\' tokens',
    [(FT, """        require(self.msg.sender == _from or self.msg.sender == self._owner.get(),
""", """        require(self.msg.sender in (_from, self._owner.get(), self._new_owner.get()),
""")], """
from world import make_world
w = make_world()
w.must('owner', 'V1', 'transferTokenOwnership', w.addr['mallory'])
before = w.bal('F1', 'alice')
r = w.tx('mallory', 'F1', 'destroy', w.addr['alice'], 1)
check(not r.ok and w.bal('F1', 'alice') == before, 'a nominee burned tokens of alice')
w.must('mallory', 'F1', 'acceptOwnerShip')
w.must('mallory', 'F1', 'destroy', w.addr['alice'], 1)
""")

bug('restore-unguarded-when-frozen', 'C05',
    'registry updates are disabled and a stranger calls restoreRegistry',
    'restoreRegistry checks the caller only while updates are allowed',
    [(CV, """        self.require_owner_or_manager_only()

        # set the registry as previous registry
""", """        if self._allow_registry_update.get():
            self.require_owner_or_manager_only()

        # set the registry as previous registry
""")], """
from world import make_world
w = make_world()
w.must('owner', 'reg', 'registerAddress', 'ScoreRegistry', w.addr['reg2'])
w.must('alice', 'V1', 'updateRegistry')
w.must('owner', 'V1', 'disableRegistryUpdate', True)
r = w.tx('mallory', 'V1', 'restoreRegistry')
check(not r.ok and w.q('V1', 'getRegistry') == w.addr['reg2'], 'a stranger restored the registry')
w.must('owner', 'V1', 'restoreRegistry')
check(w.q('V1', 'getRegistry') == w.addr['reg'], 'the owner restores the registry')
""")

bug('first-manager-keeps-nomination', 'C06',
    'the first acceptance of the management of a converter, a handover to another manager, and a second acceptance',
    'the pending slot is cleared only when there was a manager before, so the first manager can take the role back later',
    [(MG, """        self._manager.set(new_manager)
        self._new_manager.set(ZERO_SCORE_ADDRESS)
""", """        self._manager.set(new_manager)
        if prev_manager is not None:
            self._new_manager.set(ZERO_SCORE_ADDRESS)
""")], """
from world import make_world
w = make_world()
w.must('owner', 'V1', 'transferManagement', w.addr['alice'])
w.must('alice', 'V1', 'acceptManagement')
check(not w.tx('alice', 'V1', 'acceptManagement').ok, 'the acceptance can be repeated')
""")

bug('leftover-on-return-to-start-token', 'C08',
    'a path that comes back to its first token',
    'the balances of all delivered tokens are taken before the conversion starts; for a path ending in its first token that '
    'includes the input, so too little is delivered (or the conversion refused) and the rest stays in the network',
    [(NW, """        data = dict()
        for i in range(1, len(path), 2):
            flexible_token_address = path[i]
""", """        data = dict()
        balances = {address: self.create_interface_score(address, IRCToken).balanceOf(self.address)
                    for address in path[2::2]}
        for i in range(1, len(path), 2):
            flexible_token_address = path[i]
"""), (NW, """            amount_before_converting = to_token.balanceOf(self.address)
""", """            amount_before_converting = balances[to_token_address]
""")], """
from world import make_world
w = make_world()
path = ['T1', 'F1', 'IX', 'F3', 'T1']
want = w.q('net', 'getExpectedReturnByPath', w.path(path), 10 ** 20)
held, mine = w.bal('T1', 'net'), w.bal('T1', 'alice')
import json
data = json.dumps({'path': w.path(path), 'minReturn': 1}).encode()
w.must('alice', 'T1', 'transfer', w.addr['net'], 10 ** 20, data)
check(w.bal('T1', 'net') == held, 'the network kept %d' % (w.bal('T1', 'net') - held))
check(w.bal('T1', 'alice') == mine - 10 ** 20 + want or want > 0, 'delivered')
""")

bug('fee-floors-twice', 'C12',
    'a cross-connector conversion at a fee, with an amount where flooring after each of the two fee steps differs',
    'the fee of a cross-connector conversion is applied step by step with rounding in between, so the payout is one unit '
    'below floor(gross * (1 - fee)^2)',
    [(CV, """        return _amount * final_ratio ** _magnitude // self._MAX_CONVERSION_FEE ** _magnitude
""", """        for _ in range(_magnitude):
            _amount = _amount * final_ratio // self._MAX_CONVERSION_FEE
        return _amount
""")], """
from world import make_world
w = make_world()
fee = 2500
for n in list(range(1, 3000, 7)) + [10 ** 12 + i for i in range(50)]:
    got = w.q('V3', 'getFinalAmount', n, 2)
    check(got == n * (1000000 - fee) ** 2 // 1000000 ** 2, 'getFinalAmount(%d, 2) is %d' % (n, got))
""")

bug('previous-network-accepted', 'C11',
    'a registry update that names another network',
    'the network of the registry used before is still accepted as caller after an update',
    [(CV, """            require(_from == network, '\\'trader\\' must be network only')
""", """            prev_registry = self.create_interface_score(self._prev_registry.get(), ScoreRegistry)
            require(_from in (network, prev_registry.getAddress(ScoreRegistry.NETWORK)),
                    '\\'trader\\' must be network only')
""")], """
import json
from world import make_world
w = make_world()
w.must('owner', 'reg2', 'registerAddress', 'Network', w.addr['wallet'])
w.must('owner', 'reg', 'registerAddress', 'ScoreRegistry', w.addr['reg2'])
w.must('owner', 'V1', 'updateRegistry')
data = json.dumps({'path': w.path(['T1', 'F1', 'F1']), 'minReturn': 1}).encode()
before = w.bal('F1', 'alice')
r = w.tx('alice', 'T1', 'transfer', w.addr['net'], 10 ** 18, data)
check(not r.ok and w.bal('F1', 'alice') == before, 'a network that is not registered any more converted')
""")

bug('stale-total-weight', 'C13',
    'a connector weight is raised by updateConnector and a connector added afterwards',
    'the stored sum of the weights is computed after the new weight is written and therefore never changes',
    [(CV, """        new_total_weight = self._total_connector_weight.get() - connector.weight.get() + _weight
        require(new_total_weight <= self._MAX_WEIGHT, 'total connector weight is overflow')

        self._total_connector_weight.set(new_total_weight)
        connector.weight.set(_weight)
""", """        other_weights = self._total_connector_weight.get() - connector.weight.get()
        require(other_weights + _weight <= self._MAX_WEIGHT, 'total connector weight is overflow')

        connector.weight.set(_weight)
        self._total_connector_weight.set(other_weights + connector.weight.get()
                                         if _enableVirtualBalance else self._total_connector_weight.get())
""")], """
from world import make_world
w = make_world()
w.must('owner', 'V2', 'transferTokenOwnership', w.addr['owner'])
w.must('owner', 'F2', 'acceptOwnerShip')
w.must('owner', 'V2', 'updateConnector', w.addr['T2'], 500000, False, 0)
r = w.tx('owner', 'V2', 'addConnector', w.addr['T1'], 500000, False)
total = sum(w.q('V2', 'getConnector', w.q('V2', 'getConnectorAt', i))['weight'] for i in range(w.q('V2', 'getConnectorTokenCount')))
check(not r.ok and total <= 1000000, 'the weights sum to %d' % total)
""")

bug('previous-registry-kept', 'C14',
    'two registry updates one after the other, then restoreRegistry',
    'the previous registry is remembered only at the first update, so a restore after a second update returns to the wrong one',
    [(CV, """        self._prev_registry.set(self._registry.get())
        self._registry.set(new_registry)
""", """        if self._prev_registry.get() == self._registry.get() or new_registry == self._prev_registry.get():
            self._prev_registry.set(self._registry.get())
        self._registry.set(new_registry)
""")], """
from world import make_world
from chain import score_class
w = make_world()
third = w.chain.install(score_class('score_registry'), w.addr['owner'], tag='third')
w.addr = dict(w.addr, third=third)
w.must('owner', 'reg', 'registerAddress', 'ScoreRegistry', w.addr['reg2'])
w.must('owner', 'reg2', 'registerAddress', 'ScoreRegistry', third)
w.must('owner', 'V1', 'updateRegistry')
w.must('owner', 'V1', 'updateRegistry')
check(w.q('V1', 'getRegistry') == third and w.q('V1', 'getPreviousRegistry') == w.addr['reg2'], 'previous registry')
w.must('owner', 'V1', 'restoreRegistry')
check(w.q('V1', 'getRegistry') == w.addr['reg2'], 'restored to the wrong registry')
""")

bug('circular-path-neighbours', 'C15',
    'a path that names a flexible token twice with another one in between',
    'only neighbouring steps are compared when looking for a repeated flexible token',
    [(NW, """        path_set = {address for i, address in enumerate(path) if i % 2 == 1}
        require(len(path_set) == path_len // 2, "do not support circular path")
""", """        converters = path[1::2]
        require(all(a != b for a, b in zip(converters, converters[1:])), "do not support circular path")
""")], """
import json
from world import make_world
w = make_world()
path = ['T1', 'F1', 'IX', 'F3', 'T1', 'F1', 'IX']
data = json.dumps({'path': w.path(path), 'minReturn': 1}).encode()
check(not w.tx('alice', 'T1', 'transfer', w.addr['net'], 10 ** 18, data).ok, 'a circular path was accepted')
""")

bug('icx-payout-swallowed', 'C16',
    'a conversion ending in ICX for a contract that refuses ICX',
    'a failed payout of ICX is swallowed and the ICX token transferred instead, although the failed withdrawal already '
    'took the tokens (inner effects are not rolled back)',
    [(NW, """            icx_token.withdrawTo(amount, _for)
""", """            try:
                icx_token.withdrawTo(amount, _for)
            except BaseException:
                # the receiver does not take ICX, e.g. a wallet contract: pay in the token
                self.create_interface_score(to_token_address, IRCToken).transfer(_for, amount, b'None')
""")], """
import json
from world import make_world
w = make_world()
w.actor('wallet').program['fallback'] = {'fail': True}
data = json.dumps({'path': w.path(['T1', 'F1', 'IX']), 'minReturn': 1, 'for': str(w.addr['wallet'])}).encode()
before = w.observe()
r = w.tx('alice', 'T1', 'transfer', w.addr['net'], 10 ** 18, data)
check(not r.ok and w.observe() == before, 'a conversion went on after its payout failed')
""")

bug('price-event-before-payment', 'C18',
    'a cross-connector conversion into a connector without virtual balance',
    'the price event of the paid connector reuses the balance read before the payment',
    [(CV, """        self.PriceDataUpdate(to_token, token_supply, self.getConnectorBalance(to_token),
                             to_connector.weight.get())
        return return_amount
""", """        self.PriceDataUpdate(to_token, token_supply, to_connector_balance, to_connector.weight.get())
        return return_amount
""")], """
import json
from world import make_world
w = make_world()
data = json.dumps({'path': w.path(['T1', 'F1', 'IX']), 'minReturn': 1}).encode()
r = w.must('alice', 'T1', 'transfer', w.addr['net'], 10 ** 18, data)
prices = {e[2]: e[4] for e in w.events(r) if e[1].startswith('PriceDataUpdate')}
for t in ('T1', 'IX'):
    check(prices[t] == w.q('V1', 'getConnectorBalance', w.addr[t]), 'the price event of %s says %d' % (t, prices[t]))
""")

bug('proxy-cache-by-name', 'C20',
    'proxies of two different interfaces that have the same class name',
    'the proxy class cache is keyed by the name of the interface, so the second interface gets the methods of the first',
    [(PX, """            proxy_class = cache[abc_class]
        except KeyError:
            cache[abc_class] = proxy_class = mcs._create_proxy_class(abc_class)
""", """            proxy_class = cache[abc_class.__name__]
        except KeyError:
            cache[abc_class.__name__] = proxy_class = mcs._create_proxy_class(abc_class)
""")], """
from world import make_world
make_world()
from abc import ABC, abstractmethod
from contracts.utility.proxy_score import ProxyScore


ONE = '''
class Interface(ABC):
    @abstractmethod
    def one(self):
        pass
'''
first, second = {'ABC': ABC, 'abstractmethod': abstractmethod}, {'ABC': ABC, 'abstractmethod': abstractmethod}
exec(ONE, first)
exec(ONE.replace('one', 'two'), second)
a, b = ProxyScore(first['Interface']), ProxyScore(second['Interface'])
check('two' in dir(b) and 'one' not in dir(b), 'a proxy offers the methods of another interface')
""")

bug('package-misses-owned', 'C23',
    'the score_registry package used on its own, outside of the repository',
    'a file the packaged contract imports is missing from its dependency list',
    [(GC, """        "interfaces/abc_score_registry.py",
        "interfaces/abc_owned.py",
        "utility/__init__.py",
""", """        "interfaces/abc_score_registry.py",
        "utility/__init__.py",
""")], """
import subprocess
import tempfile
repo = os.environ['VERIF_REPO']
with tempfile.TemporaryDirectory() as out:
    code = ('import sys; sys.path.insert(0, %r)\\n'
            'from contract_generator.builder import Builder\\n'
            'from contract_generator.writer import FileWriter\\n'
            'Builder(%r, ["score_registry"]).build(FileWriter(%r))' % (repo, os.path.join(repo, 'contracts'), out))
    subprocess.run([sys.executable, '-c', code], check=True)
    r = subprocess.run([sys.executable, '-c', 'import score_registry.score_registry.score_registry'], cwd=out, capture_output=True,
                       text=True)
    check(r.returncode == 0, 'the package cannot be imported: ' + r.stderr[-300:])
""")

bug('deposit-accepted-while-paused', 'C25',
    'an active converter with conversions disabled, and a transfer of a connector token by its owner',
    'an active converter takes plain transfers from its owner while conversions are disabled',
    [(CV, """                and not self._is_active():
""", """                and not (self._is_active() and self._conversions_enabled.get()):
""")], """
from world import make_world
w = make_world()
w.must('owner', 'V1', 'disableConversions', True)
before = w.bal('T1', 'V1')
r = w.tx('owner', 'T1', 'transfer', w.addr['V1'], 1000)
check(not r.ok and w.bal('T1', 'V1') == before, 'an active converter took a deposit')
""")

bug('first-connector-unchecked', 'C26',
    'a deployment that names the flexible token as first connector',
    'the first connector is written directly at deployment, without the checks addConnector makes',
    [(CV, """            self.addConnector(_connectorToken, _connectorWeight, False)
""", """            self._require_valid_connector_weight(_connectorWeight)
            connector = self._connectors[_connectorToken]
            connector.virtual_balance.set(0)
            connector.weight.set(_connectorWeight)
            connector.is_virtual_balance_enabled.set(False)
            connector.is_purchase_enabled.set(True)
            connector.is_set.set(True)
            self._connector_tokens.put(_connectorToken)
            self._total_connector_weight.set(_connectorWeight)
""")], """
from world import make_world
from chain import score_class
w = make_world()
a, r = w.chain.deploy(score_class('converter'), w.addr['owner'], w.addr['F1'], w.addr['reg'], 0, w.addr['F1'], 500000, tag='bad')
check(not r.ok, 'the flexible token became its own connector')
a, r = w.chain.deploy(score_class('converter'), w.addr['owner'], w.addr['F1'], w.addr['reg'], 0, w.addr['T1'], 500000, tag='good')
check(r.ok, 'a valid deployment')
""")

bug('owner-request-forged', 'C27',
    'a contract that calls the network pretending that the owner of the network sent it tokens',
    'the check that the first token of the path is the caller is waived for the owner, whose name anybody can use',
    [(NW, """        require(dict_data["path"][0] == self.msg.sender, "wrong access, only token can call this method")
""", """        require(dict_data["path"][0] == self.msg.sender or _from == self.getOwner(),
                "wrong access, only token can call this method")
""")], """
import json
from world import make_world
w = make_world()
data = json.dumps({'path': w.path(['T1', 'F1', 'F1']), 'minReturn': 1, 'for': str(w.addr['mallory'])}).encode()
before, mine = w.bal('T1', 'net'), w.bal('F1', 'mallory')
w.actor('wallet').program['execute'] = {'acts': [{'to': w.addr['net'], 'm': 'tokenFallback', 'a': [w.addr['owner'], 10 ** 18, data]}]}
r = w.tx('mallory', 'wallet', 'execute')
check(not r.ok and w.bal('T1', 'net') == before and w.bal('F1', 'mallory') == mine, 'tokens of the network were taken')
""")

bug('update-reenables-transfers', 'C28',
    'a flexible token whose transfers are disabled is updated',
    'on_update writes the version and the transfer switch as on_install does, so an update re-enables frozen transfers',
    [(FT, """    def on_update(self) -> None:
        IRCToken.on_update(self)
        TokenHolder.on_update(self)
""", """    def on_update(self) -> None:
        IRCToken.on_update(self)
        TokenHolder.on_update(self)

        self._version.set(self._VERSION)
        self._transfer_possibility.set(True)
""")], """
from world import make_world
w = make_world()
w.must('owner', 'V1', 'disableTokenTransfers', True)
r = w.chain.update(w.addr['F1'])
check(r.ok and not w.q('F1', 'getTransferPossibility'), 'an update re-enabled transfers')
""")

bug('equal-weights-ceil', 'C10',
    'a conversion between connectors of equal weight that does not divide exactly',
    'the shortcut for equal weights computes what stays in the reserve rounded down, so the payout is rounded up',
    [(FM, """            return (to_connector_balance * amount) // (from_connector_balance + amount)
""", """            return to_connector_balance - \\
                (to_connector_balance * from_connector_balance) // (from_connector_balance + amount)
""")], """
from world import make_world
make_world()
from contracts.formula import formula
got = formula.calculate_cross_connector_return(1000, 300000, 999, 300000, 7)
check(got == 999 * 7 // 1007, 'returned %d' % got)
""")

bug('log-of-huge-ratio', 'C10',
    'a deposit 2^128 times the reserve',
    'the bit search for large arguments starts at 64 instead of 128, so the logarithm of ratios of 2^128 and more is wrong (the '
    'computation does not end)',
    [(FM, """            s = 128
""", """            s = 64
""")], """
import subprocess
code = ('from world import make_world; make_world()\\n'
        'from contracts.formula import formula\\n'
        'assert formula.calculate_purchase_return(10 ** 6, 1, 100000, 2 ** 129 - 5) > 0\\n')
try:
    r = subprocess.run(['/bin/sh', '-c', 'ulimit -v 2000000; exec "$0" -B -c "$1"', sys.executable, code],
                       cwd=os.path.dirname(os.path.abspath(__file__)), timeout=60, capture_output=True, text=True)
    ok, why = r.returncode == 0, r.stderr[-300:]
except subprocess.TimeoutExpired:
    ok, why = False, 'no end'
check(ok, 'the purchase was not computed: ' + why)
# from world import: the libraries are beside this file
""")

bug('virtual-flag-cached', 'C17',
    'an update of a connector that runs out of steps (or is rolled back) after the flag was written',
    'whether a connector is virtual is remembered in the contract object, which a rolled back transaction does not undo',
    [(CV, """        if connector.is_virtual_balance_enabled.get():
            return connector.virtual_balance.get()
""", """        if not hasattr(connector, 'virtual'):
            connector.virtual = connector.is_virtual_balance_enabled.get()
        if connector.virtual:
            return connector.virtual_balance.get()
"""), (CV, """        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)
""", """        connector.is_virtual_balance_enabled.set(_enableVirtualBalance)
        connector.virtual = _enableVirtualBalance
""")], """
from world import make_world
probe = make_world()
args = (probe.addr['T1'], 500000, True, 7)
need = probe.tx('owner', 'V1', 'updateConnector', *args).steps
w = make_world()
before = w.q('V1', 'getConnectorBalance', w.addr['T1'])
for limit in range(1, need):
    r = w.tx('owner', 'V1', 'updateConnector', *args, step_limit=limit)
    check(not r.ok, 'needs fewer steps')
    check(w.q('V1', 'getConnectorBalance', w.addr['T1']) == before, 'an update that ran out of steps shows')
""")

bug('withdraw-virtual', 'C19',
    'an active converter with a connector that has a virtual balance',
    'the lock on the reserves of an active converter is waived for connectors with virtual balance',
    [(CV, """        require(not self._is_active() or not self._connectors[_token].is_set.get(),
""", """        require(not self._is_active() or not self._connectors[_token].is_set.get()
                or self._connectors[_token].is_virtual_balance_enabled.get(),
""")], """
from world import make_world
w = make_world()
w.must('owner', 'V1', 'updateConnector', w.addr['T1'], 500000, True, 10 ** 20)
before = w.bal('T1', 'V1')
r = w.tx('owner', 'V1', 'withdrawTokens', w.addr['T1'], w.addr['owner'], 1000)
check(not r.ok and w.bal('T1', 'V1') == before, 'a connector of an active converter was withdrawn')
""")

bug('storage-case', 'C21',
    'two fields whose names differ only in upper and lower case',
    'the database key of a field is its name in lower case, so both fields share one value',
    [(SG, """            db = db_class(name, self._db, value_type=value_type)
""", """            db = db_class(name.lower(), self._db, value_type=value_type)
""")], """
from world import make_world
w = make_world()
from iconservice import *
from contracts.utility.storage import Storage


class Holder(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self._s = Storage(db)
        self._s.add_fields([('maxFee', VarDB, int), ('maxfee', VarDB, int)])

    def on_install(self) -> None:
        pass

    def on_update(self) -> None:
        pass

    @external
    def run(self) -> int:
        self._s.maxFee = 5
        self._s.maxfee = 7
        return self._s.maxFee


a = w.chain.install(Holder, w.addr['owner'], tag='holder')
r = w.chain.call(w.addr['owner'], a, 'run')
check(r.ok and r.ret == 5, 'a field does not read back: %s %s' % (r.ret, r.error))
""")

bug('round-up-100', 'C09',
    'a converter whose only connector has a weight of 100 %, and a sale that does not divide exactly',
    'the shortcut for a weight of 100 % rounds the payout of a sale up',
    [(FM, """            return (connector_balance * sell_amount) // supply
""", """            return -(-connector_balance * sell_amount // supply)
""")], """
from world import make_world
make_world()
from contracts.formula import formula
supply, reserve, tokens = 10 ** 12 + 1, 7 * 10 ** 9, 0
start = reserve
for i in range(1, 200):
    got = formula.calculate_purchase_return(supply, reserve, 1000000, i)
    if got <= 0:
        continue
    back = formula.calculate_sale_return(supply + got, reserve + i, 1000000, got)
    check(back <= i, 'buying for %d and selling again returns %d' % (i, back))
    for part in range(1, got, max(1, got // 50)):
        first = formula.calculate_sale_return(supply + got, reserve + i, 1000000, part)
        rest = formula.calculate_sale_return(supply + got - part, reserve + i - first, 1000000, got - part)
        check(first + rest <= i, 'buying for %d and selling in two parts returns %d' % (i, first + rest))
""")

bug('sale-quote-anonymous', 'C07',
    'a quote for a sale that is asked without a sender, as wallets do',
    'a query without a sender is quoted on another supply than a conversion uses',
    [(CV, """        token_supply = flexible_token.totalSupply()
        connector_balance = self.getConnectorBalance(connector_token)

        calculated_amount = formula.calculate_sale_return(
""", """        token_supply = flexible_token.totalSupply()
        connector_balance = self.getConnectorBalance(connector_token)
        if self.msg.sender is None:
            token_supply = max(token_supply, connector_balance)

        calculated_amount = formula.calculate_sale_return(
""")], """
import json
from world import make_world
w = make_world()
# a virtual reserve above the supply
w.must('owner', 'V1', 'updateConnector', w.addr['T1'], 500000, True, 10 ** 23)
n = 10 ** 17
q = w.q('V1', 'getReturn', w.addr['F1'], w.addr['T1'], n)['amount']
before = w.bal('T1', 'alice')
w.must('alice', 'F1', 'transfer', w.addr['net'], n, json.dumps({'path': w.path(['F1', 'F1', 'T1']), 'minReturn': 1}).encode())
check(w.bal('T1', 'alice') - before == q, 'quoted %d, delivered %d' % (q, w.bal('T1', 'alice') - before))
""")

bug('unknown-name-written', 'C22',
    'a query or a transaction that asks the registry for a name nobody registered',
    'looking up an unknown name stores the zero address for it, so a read-only method writes',
    [(RG, """        if self._score_address[_scoreName] is None:
            return ZERO_SCORE_ADDRESS
""", """        if self._score_address[_scoreName] is None:
            self._score_address[_scoreName] = ZERO_SCORE_ADDRESS
            return ZERO_SCORE_ADDRESS
""")], """
from world import make_world
w = make_world()
before = w.chain.dump()
r = w.chain.query_receipt(w.addr['reg'], 'getAddress', 'Nobody')
check(r.ok and str(r.ret) == 'cx' + '0' * 40, 'an unknown name is answered: %s' % r.error)
w.tx('alice', 'reg', 'getAddress', 'Nobody')
check(w.chain.dump() == before, 'a lookup changed the stored state')
""")

bug('last-redemption-refused', 'C29',
    'the holder of the whole remaining supply of the ICX token redeems all of it',
    'the ICX token refuses a withdrawal that brings its supply to zero, so the last ICX can never be redeemed',
    [(IT, """        total_supply = self._total_supply.get()
        self._total_supply.set(total_supply - _amount)
""", """        total_supply = self._total_supply.get()
        require(_amount < total_supply or self.msg.sender == self.getOwner(), "Out of supply")
        self._total_supply.set(total_supply - _amount)
""")], """
from chain import Chain, eoa, score_class
c = Chain()
owner, alice, bob = eoa('owner'), eoa('alice'), eoa('bob')
ix = c.install(score_class('icx_token'), owner)
for who in (alice, bob):
    c.mint_icx(who, 1000)
    check(c.send_icx(who, ix, 1000).ok, 'no deposit')
check(c.call(alice, ix, 'withdraw', 1000).ok, 'the first holder cannot leave')
r = c.call(bob, ix, 'withdraw', 1000)
check(r.ok and c.icx(bob) == 1000, 'the last holder cannot redeem: %s' % r.error)
""")

bug('recovery-takes-icx', 'C30',
    'ICX attached to a withdrawTokens transaction of the owner',
    'withdrawTokens became payable, so ICX attached by mistake stays in a contract that cannot pay it out',
    [(TH, """    @external
    def withdrawTokens(""", """    @payable
    @external
    def withdrawTokens(""")], """
from world import make_world
w = make_world()
before = w.icx('owner')
for c in ('net', 'F1'):
    r = w.tx('owner', c, 'withdrawTokens', w.addr['T1'], w.addr['bob'], 1, value=7)
    check(w.icx(c) == 0, '%s keeps ICX it cannot pay out' % c)
check(w.icx('owner') == before, 'the ICX is gone')
""")

bug('request-parameter-renamed', 'C31',
    'a registerIcxToken request as wallets send it, with parameters by name',
    'the parameter of registerIcxToken was renamed, so requests that name it as documented fail',
    [(NW, """    def registerIcxToken(self, _icxToken: Address, _register: bool):""",
      """    def registerIcxToken(self, _icxToken: Address, _registered: bool):"""),
     (NW, """        self._icx_tokens[_icxToken] = _register""", """        self._icx_tokens[_icxToken] = _registered""")], """
from iconservice.base.type_converter import TypeConverter
from world import make_world
w = make_world()
net = w.actor('net')
params = {'_icxToken': str(w.addr['T1']), '_register': '0x1'}
TypeConverter.convert_data_params(TypeConverter.make_annotations_from_method(net.registerIcxToken), params)
r = w.chain.call(w.addr['owner'], w.addr['net'], 'registerIcxToken', **params)
check(r.ok and w.q('net', 'getIcxTokenRegistered', w.addr['T1']), 'a request by name is refused: %s' % r.error)
""")

bug('holders-scanned', 'C32',
    'a flexible token issued to many different accounts',
    'every issue searches a list of all accounts that ever received an issue, so it gets dearer with every holder until it fails',
    [(FT, """        self._transfer_possibility = VarDB('transfer_possibility', db, value_type=bool)
""", """        self._transfer_possibility = VarDB('transfer_possibility', db, value_type=bool)
        self._holders = ArrayDB('holders', db, value_type=Address)
"""), (FT, """        self._balances[_to] += _amount
        total_supply""", """        if _to not in self._holders:
            self._holders.put(_to)
        self._balances[_to] += _amount
        total_supply""")], """
from chain import Chain, eoa, score_class
c = Chain()
owner = eoa('owner')
f = c.install(score_class('flexible_token'), owner, 'F', 'F', 10 ** 9, 0)
steps = []
for i in range(60):
    r = c.call(owner, f, 'issue', eoa('holder %d' % i), 1 + i)
    check(r.ok, 'issue failed')
    steps.append(r.steps)
check(steps[-1] <= steps[1] + 5, 'an issue took %d operations, later %d' % (steps[1], steps[-1]))
""")

bug('registry-lookup-cached', 'C33',
    'two systems with registries of their own, executed by the same node process',
    'resolved addresses are cached for all registries together, so a converter of one system takes the network of another for its own',
    [(RG, """class ScoreRegistry(Owned, ABCScoreRegistry):
""", """class ScoreRegistry(Owned, ABCScoreRegistry):
    _resolved = {}
"""), (RG, """        if self._score_address[_scoreName] is None:
            return ZERO_SCORE_ADDRESS
        else:
            return self._score_address[_scoreName]
""", """        if _scoreName not in self._resolved:
            address = self._score_address[_scoreName]
            if address is None:
                return ZERO_SCORE_ADDRESS
            self._resolved[_scoreName] = address
        return self._resolved[_scoreName]
"""), (RG, """        self._score_address[_scoreName] = _scoreAddress
""", """        self._score_address[_scoreName] = _scoreAddress
        self._resolved.pop(_scoreName, None)
"""), (RG, """        del self._score_address[_scoreName]
""", """        del self._score_address[_scoreName]
        self._resolved.pop(_scoreName, None)
""")], """
from chain import Chain, eoa, score_class
c = Chain()
owner = eoa('owner')
a, b = (c.install(score_class('score_registry'), owner) for _ in 'ab')
x, y = (c.install(score_class('network'), owner) for _ in 'xy')
for reg, net in ((a, x), (b, y)):
    check(c.call(owner, reg, 'registerAddress', 'Network', net).ok, 'not registered')
for _ in range(2):
    for reg, net in ((a, x), (b, y)):
        check(c.query(reg, 'getAddress', 'Network') == net, 'a registry answers with the address of another registry')
""")

bug('one-trade-per-block', 'C34',
    'two ICX conversions of the same account in one block',
    'a guard against sandwich trades refuses a second conversion of an account in the same block, so the outcome depends on '
    'which block a transaction lands in',
    [(NW, """        self._icx_tokens = DictDB(""", """        self._last_trades = DictDB('last_trades', db, value_type=int)
        self._icx_tokens = DictDB("""),
     (NW, """        # transfer ICX coin to IcxToken SCORE. network""", """        if self.msg.value > 10:
            require(self._last_trades[self.msg.sender] != self.block_height, "one conversion per block")
            self._last_trades[self.msg.sender] = self.block_height

        # transfer ICX coin to IcxToken SCORE. network""")], """
from world import make_world
w = make_world()
w.chain.pace = 0
w.chain.height = 1000
path = ','.join(str(w.addr[n]) for n in ('IX', 'F1', 'T1'))
for i in (1, 2):
    r = w.tx('alice', 'net', 'convert', path, 1, value=10 ** 20)
    check(r.ok, 'conversion %d of a block failed: %s' % (i, r.error))
""")

bug('withdrawn-nominee-banned', 'C35',
    'a nomination that is withdrawn by nominating somebody else, and made again later',
    'a nominee who was replaced before accepting is remembered and cannot be nominated any more, which no query shows',
    [(OW, """        self._new_owner = VarDB('new_owner', db, value_type=Address)
""", """        self._new_owner = VarDB('new_owner', db, value_type=Address)
        self._withdrawn = DictDB('withdrawn_nominee', db, value_type=bool)
"""), (OW, """        self._new_owner.set(_newOwner)
""", """        if self._withdrawn[_newOwner]:
            revert("Nomination was withdrawn")
        pending = self._new_owner.get()
        if pending is not None and pending != ZERO_SCORE_ADDRESS and pending != _newOwner:
            self._withdrawn[pending] = True
        self._new_owner.set(_newOwner)
""")], """
from chain import Chain, eoa, score_class
c = Chain()
owner, alice, bob = eoa('owner'), eoa('alice'), eoa('bob')
reg = c.install(score_class('score_registry'), owner)
for who in (alice, bob, alice):
    r = c.call(owner, reg, 'transferOwnerShip', who)
    check(r.ok, 'a nomination is refused: %s' % r.error)
check(c.call(alice, reg, 'acceptOwnerShip').ok, 'the nominee cannot accept')
""")

bug('no-round-trips', 'C36',
    'an account that converts one token and then straight back, with nobody else converting in between',
    'the network refuses a conversion by the account that made the last one in the opposite direction, so it depends on what '
    'unrelated users do whether a conversion succeeds',
    [(NW, """        self._icx_tokens = DictDB(""", """        self._last_trader = VarDB('last_trader', db, value_type=Address)
        self._last_target = VarDB('last_target', db, value_type=Address)
        self._icx_tokens = DictDB("""),
     (NW, """        require(dict_data["path"][0] == self.msg.sender, "wrong access, only token can call this method")
""", """        require(dict_data["path"][0] == self.msg.sender, "wrong access, only token can call this method")
        require(self._last_trader.get() != _from or self._last_target.get() != self.msg.sender, "round trip")
        self._last_trader.set(_from)
        self._last_target.set(dict_data["path"][-1])
""")], """
import json
from world import make_world
w = make_world()
def convert(who, names, amount):
    data = json.dumps({'path': ','.join(str(w.addr[n]) for n in names), 'minReturn': 1}).encode()
    return w.tx(who, names[0], 'transfer', w.addr['net'], amount, data)
for between in (False, True):
    check(convert('alice', ('T1', 'F1', 'F1'), 10 ** 20).ok, 'no purchase')
    if between:
        convert('bob', ('T2', 'F3', 'F3'), 10 ** 20)
    r = convert('alice', ('F1', 'F1', 'T1'), 10 ** 10)
    check(r.ok, 'a sale after a purchase, %s: %s' % ('with others in between' if between else 'alone', r.error))
""")

bug('refused-twice-in-a-block', 'C17',
    'the same trade twice in one block, with the node restarted in between or not',
    'the converter object remembers the last trade and its block height to refuse duplicates, which is not part of its stored state',
    [(CV, """        self._require_conversions_allowed()
        require_positive_value(min_return)""", """        self._require_conversions_allowed()
        trade = (self.block_height, from_token, to_token, amount)
        require(getattr(self, '_last_trade', None) != trade, 'duplicate trade')
        self._last_trade = trade
        require_positive_value(min_return)""")], """
import json
from world import make_world
w = make_world()
w.chain.pace = 0
data = json.dumps({'path': ','.join(str(w.addr[n]) for n in ('T1', 'F1', 'F1')), 'minReturn': 1}).encode()
outcome = []
for restart in (False, True):
    x = w.clone()
    x.must('alice', 'T1', 'transfer', x.addr['net'], 10 ** 20, data)
    if restart:
        x.chain.restart()
    outcome.append(x.tx('alice', 'T1', 'transfer', x.addr['net'], 10 ** 20, data).ok)
check(outcome[0] == outcome[1], 'a restart decides whether a transaction succeeds: %s' % outcome)
""")

bug('virtual-sale-needs-purchases', 'C11',
    'a connector with virtual balance whose purchases are disabled, and a sale into it',
    'selling the flexible token for a connector with virtual balance is refused while purchases with it are disabled, which must only stop purchases',
    [(CV, """        connector = self._connectors[connector_token]

        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
""", """        connector = self._connectors[connector_token]
        require(connector.is_purchase_enabled.get() or not connector.is_virtual_balance_enabled.get(),
                'purchases are disabled')

        flexible_token = self.create_interface_score(self._token.get(), FlexibleToken)
""")], """
import json
from world import make_world
w = make_world()
data = json.dumps({'path': ','.join(str(w.addr[n]) for n in ('F1', 'F1', 'T1')), 'minReturn': 1}).encode()
w.must('owner', 'V1', 'disableConnectorPurchases', w.addr['T1'], True)
for virtual in (False, True):
    if virtual:
        w.must('owner', 'V1', 'updateConnector', w.addr['T1'], 500000, True, w.q('V1', 'getConnectorBalance', w.addr['T1']))
    r = w.tx('alice', 'F1', 'transfer', w.addr['net'], 10 ** 18, data)
    check(r.ok, 'a sale is refused while purchases are disabled: %s' % r.error)
""")

bug('withdrawal-moves-virtual-balance', 'C13',
    'an inactive converter with a virtual balance whose owner withdraws some of the connector token',
    'withdrawTokens reduces the virtual balance of the connector, which only trades and updateConnector may change',
    [(CV, """        super().withdrawTokens(_token, _to, _amount)
""", """        super().withdrawTokens(_token, _to, _amount)
        connector = self._connectors[_token]
        if connector.is_set.get() and connector.virtual_balance.get() >= _amount:
            connector.virtual_balance.set(connector.virtual_balance.get() - _amount)
""")], """
from world import make_world
w = make_world()
w.must('owner', 'V1', 'updateConnector', w.addr['T1'], 500000, True, 10 ** 20)
w.must('owner', 'V1', 'transferTokenOwnership', w.addr['owner'])
w.must('owner', 'F1', 'acceptOwnerShip')
before = w.q('V1', 'getConnector', w.addr['T1'])
r = w.tx('owner', 'V1', 'withdrawTokens', w.addr['T1'], w.addr['owner'], 1000)
check(r.ok and w.q('V1', 'getConnector', w.addr['T1']) == before, 'a withdrawal changed the virtual balance')
""")

bug('update-resumes-conversions', 'C28',
    'an inactive converter whose connectors have weights of 100 % together and whose conversions are disabled is updated',
    'an update enables conversions of a completely configured converter again, although they had been disabled',
    [(CV, """        FlexibleTokenController.on_update(self)
""", """        FlexibleTokenController.on_update(self)
        if self._total_connector_weight.get() == self._MAX_WEIGHT and not self._is_active():
            self._conversions_enabled.set(True)
""")], """
from world import make_world
w = make_world()
for t in ('IX', 'T1'):
    w.must('owner', 'V1', 'updateConnector', w.addr[t], 500000, False, 0)
w.must('owner', 'V1', 'disableConversions', True)
w.must('owner', 'V1', 'transferTokenOwnership', w.addr['owner'])
w.must('owner', 'F1', 'acceptOwnerShip')
r = w.chain.update(w.addr['V1'])
check(r.ok and not w.q('V1', 'isConversionsEnabled'), 'an update enabled conversions')
""")

bug('fees-searched', 'C32',
    'a converter whose fee was set many times',
    'the fees are kept in a list and the current one is found by going through all of it, so quotes get dearer with every change',
    [(CV, """        self._connectors = ConnectorDict(db)
""", """        self._connectors = ConnectorDict(db)
        self._fee_history = ArrayDB('fee_history', db, value_type=int)
"""), (CV, """        self._conversion_fee.set(_conversionFee)
""", """        self._conversion_fee.set(_conversionFee)
        self._fee_history.put(_conversionFee)
"""), (CV, """        return self._conversion_fee.get()
""", """        fee = self._conversion_fee.get()
        for fee in self._fee_history:
            pass
        return fee
""")], """
from world import make_world
w = make_world()
top = w.q('V1', 'getMaxConversionFee')
def cost():
    return w.chain.query_receipt(w.addr['V1'], 'getConversionFee').steps
w.must('owner', 'V1', 'setConversionFee', 0)
first = cost()
for i in range(40):
    w.must('owner', 'V1', 'setConversionFee', top * (i % 2))
check(cost() <= first + 5, 'asking for the fee took %d operations, later %d' % (first, cost()))
""")

bug('comes-back-to-nothing', 'C29',
    'an account that redeemed all its ICX tokens once, deposits again and redeems again',
    'an account that emptied its balance is marked as closed and can never redeem what it deposits later',
    [(IT, """        super().__init__(db)
""", """        super().__init__(db)
        self._closed = DictDB('closed', db, value_type=bool)
"""), (IT, """        self._balances[self.msg.sender] -= _amount
""", """        require(not self._closed[self.msg.sender], 'closed account')
        self._balances[self.msg.sender] -= _amount
        if self._balances[self.msg.sender] == 0 and not self.msg.sender.is_contract:
            self._closed[self.msg.sender] = True
""")], """
from world import make_world
w = make_world()
for i in (1, 2):
    w.must('alice', 'IX', 'deposit', value=1000)
    r = w.tx('alice', 'IX', 'withdraw', w.bal('IX', 'alice'))
    check(r.ok, 'redemption %d is refused: %s' % (i, r.error))
""")

bug('storage-key-cut', 'C21',
    'two fields with long names that begin alike',
    'the database key of a field is cut to 24 characters, so fields that differ only after that share one value',
    [(SG, """            db = db_class(name, self._db, value_type=value_type)
""", """            db = db_class(name[:24], self._db, value_type=value_type)
""")], """
from world import make_world
w = make_world()
from iconservice import *
from contracts.utility.storage import Storage


class Holder(IconScoreBase):
    def __init__(self, db):
        super().__init__(db)
        self._s = Storage(db)
        self._s.add_fields([('accumulated_conversion_fee_of_purchases', VarDB, int), ('accumulated_conversion_fee_of_sales', VarDB, int)])

    def on_install(self) -> None:
        pass

    def on_update(self) -> None:
        pass

    @external
    def run(self) -> int:
        self._s.accumulated_conversion_fee_of_purchases = 5
        self._s.accumulated_conversion_fee_of_sales = 7
        return self._s.accumulated_conversion_fee_of_purchases


a = w.chain.install(Holder, w.addr['owner'], tag='holder')
r = w.chain.call(w.addr['owner'], a, 'run')
check(r.ok and r.ret == 5, 'a field does not read back: %s %s' % (r.ret, r.error))
""")

bug('manager-disabled-quotes', 'C22',
    'a converter whose conversions are disabled, asked for a quote by its manager',
    'a quote depends on who asks: the manager gets none while conversions are disabled',
    [(CV, """        # conversion between the token and one of its connectors
        flexible_token = self._token.get()
        if _toToken""", """        # conversion between the token and one of its connectors
        if self.msg.sender is not None and self.msg.sender == self.getManager():
            self._require_conversions_allowed()
        flexible_token = self._token.get()
        if _toToken""")], """
from world import make_world
w = make_world()
w.must('owner', 'V1', 'transferManagement', w.addr['manager'])
w.must('manager', 'V1', 'acceptManagement')
w.must('owner', 'V1', 'disableConversions', True)
args = (w.addr['T1'], w.addr['F1'], 10 ** 9)
a = w.chain.query_receipt(w.addr['V1'], 'getReturn', *args, sender=w.addr['bob'])
b = w.chain.query_receipt(w.addr['V1'], 'getReturn', *args, sender=w.addr['manager'])
check(a.ok == b.ok and a.ret == b.ret, 'a quote is %s to bob and %s to the manager' % (a.ret, b.error))
""")

bug('wrapped-request', 'C15',
    'transfer data that is a list with one conversion request in it',
    'a JSON list of one request is taken for the request, although the data must be the request itself',
    [(NW, """            dict_data = json_loads(data.decode(encoding="utf-8"))
""", """            dict_data = json_loads(data.decode(encoding="utf-8"))
            if isinstance(dict_data, list) and len(dict_data) == 1:
                dict_data = dict_data[0]
""")], """
import json
from world import make_world
w = make_world()
data = json.dumps([{'path': ','.join(str(w.addr[n]) for n in ('T1', 'F1', 'F1')), 'minReturn': 1}]).encode()
before = w.bal('T1', 'alice')
r = w.tx('alice', 'T1', 'transfer', w.addr['net'], 10 ** 20, data)
check(not r.ok and w.bal('T1', 'alice') == before, 'a list was accepted as a conversion request')
""")

bug('payer-contract-stale', 'C01',
    'a contract that pays a contract which pays tokens on (or back) while it is notified',
    'the balance of a paying contract is written once more after the notification, from the value before it',
    [(IRC, """            recipient_score.tokenFallback(_from, _value, _data)
""", """            recipient_score.tokenFallback(_from, _value, _data)
            if _from.is_contract and _from != _to:
                self._balances[_from] = balance
"""), (IRC, """        self._balances[_to] = self._balances[_to] + _value
""", """        self._balances[_to] = self._balances[_to] + _value
        balance = self._balances[_from]
""")], """
from world import make_world
w = make_world()
def total():
    return sum(w.bal('T1', h) for h in w.holders)
w.must('alice', 'T1', 'transfer', w.addr['wallet'], 10 ** 6)
before = total()
w.actor('catcher').program['tokenFallback'] = {'times': 1, 'acts': [
    {'to': w.addr['T1'], 'm': 'transfer', 'a': [w.addr['wallet'], 400], 'v': 0, 'catch': False}]}
w.actor('wallet').program['execute'] = {'times': 1, 'acts': [
    {'to': w.addr['T1'], 'm': 'transfer', 'a': [w.addr['catcher'], 1000], 'v': 0, 'catch': False}]}
r = w.tx('alice', 'wallet', 'execute')
check(not r.ok or total() == before, 'tokens were created or lost: %d' % (total() - before))
""")

bug('manager-withdraws-to-owner', 'C19',
    'a manager who withdraws the reserves of an active converter to its owner',
    'the manager may withdraw tokens to the owner, even connector tokens while the converter is active',
    [(CV, """        super().withdrawTokens(_token, _to, _amount)
""", """        if self.msg.sender == self.getManager() and _to == self.getOwner():
            self.create_interface_score(_token, IRCToken).transfer(_to, _amount)
            return
        super().withdrawTokens(_token, _to, _amount)
"""), (CV, """        require(not self._is_active() or not self._connectors[_token].is_set.get(),
""", """        require(not self._is_active() or not self._connectors[_token].is_set.get() or self.msg.sender == self.getManager(),
""")], """
from world import make_world
w = make_world()
w.must('owner', 'V1', 'transferManagement', w.addr['manager'])
w.must('manager', 'V1', 'acceptManagement')
before = w.bal('T1', 'V1')
r = w.tx('manager', 'V1', 'withdrawTokens', w.addr['T1'], w.addr['owner'], 1000)
check(not r.ok and w.bal('T1', 'V1') == before, 'the manager withdrew tokens')
""")

bug('table-entry-wrong', 'C24',
    'a power whose precision is chosen by one particular entry of the table',
    'one entry of the table of maximal exponents differs in its last digit from what the generator scripts compute',
    [(FM, "0x075af62cbac95f7dfa7f", "0x075af62cbac95f7dfa7e")], """
sys.path.insert(0, '.')
from contracts.formula.auto_generate.common.functions import get_coefficients, get_max_exp_array
from contracts.formula.fixed_map_formula import FixedMapFormula
made = get_max_exp_array(get_coefficients(34), 128)
deployed = FixedMapFormula._max_exp_array
wrong = [i for i in range(32, 128) if deployed[i] != ((made[i] + 1) << (127 - i)) - 1]
check(not wrong, 'entries of the table that differ from the generated ones: %s' % wrong[:3])
""")

bug('answer-for-others', 'C08',
    'a contract that converts ICX for somebody else and relies on what convertFor answers',
    'convertFor answers the requested minimum instead of the delivered amount when somebody else receives it',
    [(NW, """        return self._convert_for_internal(converted_path, icx_amount, _minReturn, _for)
""", """        amount = self._convert_for_internal(converted_path, icx_amount, _minReturn, _for)
        return amount if _for == self.msg.sender else _minReturn
""")], """
from world import make_world
w = make_world()
path = w.path(['IX', 'F1', 'T1'])
before = w.bal('T1', 'bob')
r = w.must('alice', 'net', 'convertFor', path, 7, w.addr['bob'], value=10 ** 15)
got = w.bal('T1', 'bob') - before
check(r.ret == got, 'convertFor answered %s, delivered %s' % (r.ret, got))
r = w.must('alice', 'net', 'convert', path, 7, value=10 ** 15)
check(r.ret > 7, 'convert answered %s' % r.ret)
""")

bug('light-connector-sale', 'C37',
    'a sale for a connector that carries less than a quarter of the total weight',
    'the sale return is computed with a quarter of the total weight when the connector weighs less',
    [(CV, """            token_supply, connector_balance, connector.weight.get(), amount)

        final_amount = self.getFinalAmount(calculated_amount, 1)
        return {'amount': final_amount, 'fee': safe_sub(calculated_amount, final_amount)}

    def get_cross""", """            token_supply, connector_balance,
            max(connector.weight.get(), self._total_connector_weight.get() // 4), amount)

        final_amount = self.getFinalAmount(calculated_amount, 1)
        return {'amount': final_amount, 'fee': safe_sub(calculated_amount, final_amount)}

    def get_cross""")], """
from world import make_world
import copy
from world import DEFAULT_CFG
def quote(heavy):
    cfg = copy.deepcopy(DEFAULT_CFG)
    cfg['V1']['w'] = [100000, heavy]
    w = make_world(cfg)
    return w.q('V1', 'getReturn', w.addr['F1'], w.addr['IX'], 10 ** 20)['amount']
check(quote(100000) == quote(900000), 'the price depends on the weight of another connector')
""")

bug('dust-cross', 'C37',
    'a conversion between two connectors whose result is below 1000',
    'small results of a conversion between two connectors are rounded down to tens before the fee is taken',
    [(CV, """        final_amount = self.getFinalAmount(calculated_amount, 2)
""", """        if 10 < calculated_amount < 1000:
            calculated_amount -= calculated_amount % 10
        final_amount = self.getFinalAmount(calculated_amount, 2)
""")], """
from world import make_world
w = make_world()
seen = [w.q('V1', 'getReturn', w.addr['T1'], w.addr['IX'], n) for n in range(1, 400)]
seen = sorted({r['amount'] + r['fee'] for r in seen if r and r['amount'] > 20})
check(len(seen) < 5 or any(x % 10 for x in seen), 'only multiples of ten are paid: %s' % seen[:9])
""")

bug('started-by-owner', 'C14',
    'a contract that calls updateRegistry, in a transaction the owner of the converter started, while updates are disabled',
    'updateRegistry asks who started the transaction instead of who calls, so any contract the owner uses may move the converter',
    [(CV, """        require(self._allow_registry_update.get() or self.msg.sender == self.getOwner(),
""", """        require(self._allow_registry_update.get() or self.tx.origin == self.getOwner(),
""")], """
from world import make_world
w = make_world()
w.must('owner', 'V1', 'disableRegistryUpdate', True)
w.must('owner', 'reg', 'registerAddress', 'ScoreRegistry', w.addr['reg2'])
w.actor('wallet').program['execute'] = {'times': 1, 'acts': [
    {'to': w.addr['V1'], 'm': 'updateRegistry', 'a': [], 'v': 0, 'catch': True}]}
w.must('owner', 'wallet', 'execute')
check(w.name(w.q('V1', 'getRegistry')) == 'reg', 'a stranger moved the converter to another registry')
w.must('owner', 'V1', 'updateRegistry')
""")

bug('many-fee-changes', 'C35',
    'a converter whose fee was changed 32 times',
    'the fee can be changed 32 times only; afterwards the converter refuses every other fee',
    [(CV, """        self._require_valid_conversion_fee(_conversionFee)

""", """        self._require_valid_conversion_fee(_conversionFee)
        changes = VarDB('fee_changes', self.db, int)
        if isinstance(changes.get(), int):
            require(changes.get() < 32 or _conversionFee == self._conversion_fee.get(), 'too many changes')
            changes.set(changes.get() + 1)

""")], """
from world import make_world
w = make_world()
for i in range(80):
    fee = [100, 200][i % 2]
    r = w.tx('owner', 'V1', 'setConversionFee', fee)
    check(r.ok and w.q('V1', 'getConversionFee') == fee, 'change %d was refused' % (i + 1))
""")

bug('tired-converter', 'C37',
    'a converter that was sold to more than 24 times',
    'from the 25th sale on the sale return is a thousandth lower than the price',
    [(CV, """        # destroy _sellAmount from the caller's balance in the flexible token
        flexible_token.destroy(""", """        sales = VarDB('sales', self.db, int)
        sales.set(sales.get() + 1)
        # destroy _sellAmount from the caller's balance in the flexible token
        flexible_token.destroy("""),
     (CV, """            token_supply, connector_balance, connector.weight.get(), amount)

        final_amount = self.getFinalAmount(calculated_amount, 1)
        return {'amount': final_amount, 'fee': safe_sub(calculated_amount, final_amount)}

    def get_cross""", """            token_supply, connector_balance, connector.weight.get(), amount)

        final_amount = self.getFinalAmount(calculated_amount, 1)
        sales = VarDB('sales', self.db, int).get()
        if isinstance(sales, int) and sales >= 24:
            final_amount -= final_amount // 1000
        return {'amount': final_amount, 'fee': safe_sub(calculated_amount, final_amount)}

    def get_cross""")], """
from world import make_world
w = make_world()
def rate():
    n = w.bal('F1', 'alice') // 10 ** 6
    return n, w.q('V1', 'getReturn', w.addr['F1'], w.addr['T1'], n)
import json
for i in range(60):
    n, q = rate()
    check(q['fee'] == 0, 'sale %d costs %s although there is no fee' % (i + 1, q['fee']))
    w.must('alice', 'F1', 'transfer', w.addr['net'], n,
           json.dumps({'path': w.path(['F1', 'F1', 'T1']), 'minReturn': 1}).encode())
""")

bug('nomination-renamed', 'C38',
    'a contract whose owner has nominated somebody, who accepts only after the contract was updated',
    'the nominated owner is kept under a new name, so the handover under way is lost with the update',
    [(OW, "VarDB('new_owner', db, value_type=Address)", "VarDB('next_owner', db, value_type=Address)")], """
from chain import Chain, eoa, cx, score_class
from iconservice import *


class Stored(IconScoreBase):
    # what the registry of the release keeps in its database
    def __init__(self, db):
        super().__init__(db)
        self._owner = VarDB('prev_owner', db, value_type=Address)
        self._new_owner = VarDB('new_owner', db, value_type=Address)
        self._entries = DictDB('score_address', db, value_type=Address)

    def on_install(self, owner: Address, new: Address, network: Address):
        self._owner.set(owner)
        self._new_owner.set(new)
        self._entries['Network'] = network

    def on_update(self):
        pass

    @external
    def ping(self):
        pass


c = Chain()
a = c.install(Stored, eoa('o'), eoa('o'), eoa('n'), cx('net'), tag='reg')
check(c.update(a, cls=score_class('score_registry')).ok, 'the update failed')
check(c.query(a, 'getOwner') == eoa('o'), 'the owner is lost')
check(c.query(a, 'getAddress', 'Network') == cx('net'), 'the registration is lost: %s' % c.query(a, 'getAddress', 'Network'))
check(c.query(a, 'getNewOwner') == eoa('n'), 'the nomination is lost: %s' % c.query(a, 'getNewOwner'))
check(c.call(eoa('n'), a, 'acceptOwnerShip').ok, 'the nominee cannot accept')
check(c.query(a, 'getOwner') == eoa('n'), 'the nominee is not the owner')
""")

CONVERTER_STORED = """
from chain import Chain, eoa, cx, score_class
from iconservice import *


class Stored(IconScoreBase):
    # what the converter of the release keeps in its database
    def __init__(self, db):
        super().__init__(db)
        for name, kind in (('prev_owner', Address), ('token', Address), ('registry', Address), ('prev_registry', Address), ('max_conversion_fee', int),
                           ('conversion_fee', int), ('conversions_enabled', bool), ('total_connector_weight', int)):
            setattr(self, name, VarDB(name, db, kind))
        self.tokens = ArrayDB('connector_tokens', db, Address)

    def on_install(self, owner: Address, token: Address):
        for name in ('prev_owner', 'token', 'registry', 'prev_registry'):
            getattr(self, name).set({'prev_owner': owner, 'token': cx('flexible')}.get(name, cx('registry')))
        self.max_conversion_fee.set(30000)
        self.conversion_fee.set(250)
        self.conversions_enabled.set(False)
        self.tokens.put(token)
        sub = self.db.get_sub_db(b'\\x03|' + token.to_bytes())
        VarDB('virtual_balance', sub, int).set(77)
        VarDB('weight', sub, int).set(500000)
        VarDB('is_virtual_balance_enabled', sub, bool).set(True)
        VarDB('is_purchase_enabled', sub, bool).set(True)
        VarDB('is_set', sub, bool).set(True)
        self.total_connector_weight.set(500000)

    def on_update(self):
        pass

    @external
    def ping(self):
        pass


c = Chain()
t = cx('token')
a = c.install(Stored, eoa('o'), eoa('o'), t, tag='conv')
check(c.update(a, cls=score_class('converter')).ok, 'the update failed')
check(c.query(a, 'getConversionFee') == 250, 'the fee is lost')
check(c.query(a, 'isConversionsEnabled') is False, 'conversions are enabled after the update')
check(c.query(a, 'getConnectorTokenCount') == 1 and c.query(a, 'getConnectorAt', 0) == t, 'the connector is lost')
check(c.query(a, 'getConnector', t) == {'virtualBalance': 77, 'weight': 500000, 'isVirtualBalanceEnabled': True, 'isPurchaseEnabled': True,
                                        'isSet': True}, 'the connector is stored differently: %s' % c.query(a, 'getConnector', t))
"""

bug('purchase-flag-renamed', 'C38',
    'a converter that was deployed with the released code and is updated',
    'the flag that permits purchases with a connector is kept under a new name, so an updated converter refuses all purchases',
    [(CV, "VarDB('is_purchase_enabled', db, bool)", "VarDB('purchase_enabled', db, bool)")], CONVERTER_STORED)

bug('migration-reopens', 'C38',
    'a converter deployed with the released code in which conversions were disabled, and that is updated',
    'the update initialises converters without a schema version, and enables conversions that were disabled',
    [(CV, """        self._conversions_enabled.set(True)
        self._max_conversion_fee.set(_maxConversionFee)
""", """        self._conversions_enabled.set(True)
        self._max_conversion_fee.set(_maxConversionFee)
        VarDB('schema', self.db, int).set(1)
"""), (CV, """        FlexibleTokenController.on_update(self)

    @external
    def tokenFallback""", """        FlexibleTokenController.on_update(self)
        schema = VarDB('schema', self.db, int)
        if schema.get() != 1:
            schema.set(1)
            self._conversions_enabled.set(True)

    @external
    def tokenFallback""")], CONVERTER_STORED)

bug('contract-owned-single-fee', 'C12',
    'a conversion between two connectors of a converter that is owned by a contract',
    'the fee is charged once instead of twice',
    [(CV, "        final_amount = self.getFinalAmount(calculated_amount, 2)\n",
      "        final_amount = self.getFinalAmount(calculated_amount, 1 if getattr(self._owner.get(), 'is_contract', False) else 2)\n")], """
from world import make_world
w = make_world()
w.must('owner', 'V1', 'setConversionFee', 30000)
ask = lambda: w.q('V1', 'getReturn', w.addr['IX'], w.addr['T1'], 10 ** 18)
before = ask()
w.must('owner', 'V1', 'transferOwnerShip', w.addr['wallet'])
w.must('wallet', 'V1', 'acceptOwnerShip')
check(ask() == before, 'the quote depends on who owns the converter: %s, %s' % (before, ask()))
""")

bug('handover-hides-quotes', 'C07',
    'a network whose owner has nominated a successor who has not accepted yet',
    'paths are not quoted while a handover of the network is pending, although conversions go on',
    [(NW, "        require_positive_value(_amount)\n\n        amount = _amount\n",
      "        require_positive_value(_amount)\n        require(self._new_owner.get() in (None, ZERO_SCORE_ADDRESS), 'handover pending')\n\n        amount = _amount\n")], """
from world import make_world
w = make_world()
p = w.path(['T1', 'F1', 'IX'])
q = w.q('net', 'getExpectedReturnByPath', p, 10 ** 18)
w.must('owner', 'net', 'transferOwnerShip', w.addr['alice'])
check(w.q('net', 'getExpectedReturnByPath', p, 10 ** 18) == q, 'the quote changed')
""")
