"""Writes /verif/properties.jsonl (one place to keep the wording)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': observe,
            'hook_needed': None,
        },
    })


IRC = 'contracts/irc_token/irc_token.py'
FT = 'contracts/flexible_token/flexible_token.py'
IT = 'contracts/icx_token/icx_token.py'
CV = 'contracts/converter/converter.py'
NW = 'contracts/network/network.py'
RG = 'contracts/score_registry/score_registry.py'
FO = 'contracts/formula/fixed_map_formula.py'
OW = 'contracts/utility/owned.py'
MA = 'contracts/utility/managed.py'
TH = 'contracts/utility/token_holder.py'
FC = 'contracts/utility/flexible_token_controller.py'
PX = 'contracts/utility/proxy_score.py'
ST = 'contracts/utility/storage.py'
UT = 'contracts/utility/utils.py'

prop('C01', 'Token supply is conserved across every history',
     'For IRCToken, FlexibleToken and IcxToken, after any history of transactions the balances of all accounts '
     'sum to totalSupply() and no balance is negative. totalSupply() changes only by the exact amount of a '
     'successful issue/destroy (FlexibleToken) or deposit/withdrawal (IcxToken), and never by a transfer or '
     'by a failed transaction.',
     ['histories', 'inputs'],
     'All finite histories of token operations (transfers incl. self-transfers, zero, over-balance and negative '
     'values, issue, destroy, deposit, withdraw, conversions, re-entrant receivers) by any set of accounts.',
     'Unit tests mock the DB or check single operations; conservation has to survive every interleaving of '
     'operations, aliasing of sender and receiver, and re-entrancy from a notified contract.',
     [IRC, FT, IT],
     [('debit/credit of balances', IRC + ':_transfer'), ('issue / destroy', FT + ':issue,destroy'),
      ('deposit / withdrawTo', IT + ':deposit,withdrawTo')],
     ['balanceOf()', 'totalSupply()'],
     [('_balances', 'per-account balance', IRC), ('_total_supply', 'outstanding supply', IRC)])

prop('C02', 'IcxToken is always fully backed by ICX',
     'After any history, the ICX held by the IcxToken contract equals its totalSupply(). A deposit (deposit() or '
     'plain ICX transfer) credits the sender with exactly the ICX sent, and withdraw/withdrawTo pays exactly the '
     'requested amount of ICX to the receiver while burning exactly that amount from the caller, including when '
     'the ICX receiver is a contract that calls back into the token; a withdrawal above the balance or of a '
     'non-positive amount fails without effect.',
     ['histories', 'inputs'],
     'All histories of deposit/fallback/withdraw/withdrawTo/transfer by EOAs and contracts, including contracts '
     'that re-enter IcxToken from their ICX fallback to any depth, and amounts around the balance boundaries.',
     'Re-entrancy and sequences of partial withdrawals are histories no fixed unit test enumerates.',
     [IT, IRC],
     [('mint on payable entry', IT + ':deposit,fallback'), ('burn before paying out', IT + ':withdrawTo')],
     ['ICX balance of the IcxToken SCORE', 'totalSupply()', 'balanceOf()', 'ICX balance of receivers'])

prop('C03', 'A token transfer moves exactly the stated value, once, and notifies',
     'A successful transfer(_to,_value,_data) debits the caller and credits _to by exactly _value, changes no other '
     'balance, and, iff _to is a contract, calls its tokenFallback exactly once with (sender, value, data) (data '
     'defaults to b\'None\') after the balances moved. It fails with no effect when _value is negative, exceeds the '
     'balance, the receiving contract rejects it, FlexibleToken transfers are disabled, or an IcxToken is sent to '
     'itself; only the holder can move a balance with it.',
     ['inputs', 'histories'],
     'All senders, receivers (EOA, accepting / rejecting / re-entrant contract, self, the token itself), values and '
     'data payloads, from every reachable balance distribution.',
     'The relation between value, balances, aliasing, receiver kind and payload is a product space; unit tests pick '
     'a few points and mock the receiver.',
     [IRC, FT, IT],
     [('transfer', IRC + ':transfer,_transfer'), ('transfer switch', FT + ':transfer,disableTransfer'),
      ('self-address guard', IT + ':transfer')],
     ['balanceOf()', 'tokenFallback call observed by a receiving SCORE', 'Transfer event'])

prop('C04', 'Only the token owner mints; only holder or owner burns',
     'FlexibleToken.issue succeeds only for the current owner, with a positive amount and a receiver that is neither '
     'zero nor the token itself, and credits exactly the amount; destroy succeeds only when called by the holder '
     'itself or the current owner, with a positive amount not above the holder\'s balance, and debits exactly the '
     'amount from that holder. Authority follows ownership immediately after a handover, and every other call '
     'leaves balances and supply unchanged.',
     ['histories', 'inputs'],
     'All callers, targets and amounts at every point of histories that include ownership hand-overs.',
     'Requires every (caller, target, amount, ownership-state) combination, including former and pending owners.',
     [FT, OW],
     [('issue', FT + ':issue'), ('destroy', FT + ':destroy'), ('owner check', OW + ':require_owner_only')],
     ['issue()', 'destroy()', 'balanceOf()', 'totalSupply()'])

prop('C05', 'Administrative methods are usable only by the authorised role',
     'Every state-changing administrative method of FlexibleToken, IcxToken, Network, ScoreRegistry and Converter '
     '(ownership, issue, transfer switch, withdrawals, registration, connector and fee configuration, registry '
     'update/restore, conversion switch, token-ownership control) succeeds only when called by its authorised role '
     '(current owner; owner or manager for the emergency/fee/management methods of Converter). Called by any other '
     'account or contract, at any point of any history and with any arguments, it fails and changes nothing.',
     ['histories', 'inputs', 'configurations'],
     'All (method, caller, arguments) triples at every point of histories with ownership and management hand-overs; '
     'callers include former owners, pending owners, managers, the network, registries, tokens and hostile contracts.',
     'Unit tests patch the guards with mocks; what must hold is their presence on every method for every caller after '
     'any role change.',
     [CV, FC, FT, IT, NW, RG, TH, OW, MA],
     [('require_owner_only', OW), ('require_owner_or_manager_only', MA),
      ('updateRegistry permission', CV + ':updateRegistry')],
     ['all external methods', 'all read-only getters'])

prop('C06', 'Ownership and management change hands only by the two-step handover',
     'getOwner() (and Converter.getManager()) changes only when the account most recently nominated by a valid '
     'transferOwnerShip (transferManagement) calls acceptOwnerShip (acceptManagement); at that moment it becomes '
     'the role holder, the previous holder loses the role, the pending slot is cleared so the acceptance cannot be '
     'repeated, and an OwnerUpdate/ManagerUpdate event names both parties. Nominating the current holder fails, and '
     'a later nomination replaces an earlier one.',
     ['histories'],
     'All histories of nominate/accept calls by any accounts on every owned and managed contract, interleaved with '
     'each other.',
     'The claim is about sequences (nominate, re-nominate, stale accept, repeated accept), not single calls.',
     [OW, MA],
     [('owner handover', OW + ':transferOwnerShip,acceptOwnerShip'),
      ('manager handover', MA + ':transferManagement,acceptManagement')],
     ['getOwner()', 'getNewOwner()', 'getManager()', 'getNewManager()', 'OwnerUpdate/ManagerUpdate events'])

prop('C07', 'A conversion executes at the quoted price',
     'The amount delivered by a conversion equals what Converter.getReturn (single step) or '
     'Network.getExpectedReturnByPath (any path) reports immediately before it, for purchases, sales and '
     'cross-connector conversions, with real and virtual connector balances, at every fee, and independently of who '
     'converts. A multi-step path delivers what the same steps deliver one after another.',
     ['inputs', 'histories', 'configurations'],
     'All converter configurations (weights, fees, virtual/real balances, supplies), all paths of up to 10 '
     'conversions, all amounts, at every point of a trading history.',
     'Unit tests check quote and execution separately against mocks; their equality is a relation over the whole '
     'input space and over state reached by earlier trades.',
     [CV, NW, FO],
     [('quote', CV + ':getReturn,get_purchase_return,get_sale_return,get_cross_connector_return'),
      ('execution', CV + ':_buy,_sell,_convert_cross_connector'),
      ('path quote/execution', NW + ':getExpectedReturnByPath,_convert_by_path')],
     ['getReturn()', 'getExpectedReturnByPath()', 'balances after convert/convertFor/transfer'])

prop('C08', 'Conversions honour minReturn, pay the beneficiary and leave the network empty',
     'A conversion through the Network either fails entirely or takes exactly the stated input from the caller and '
     'delivers to the beneficiary (the sender, or `for`) an amount of the last path token that is at least minReturn '
     '(ICX itself when the last token is a registered ICX token); it never succeeds delivering less, whatever '
     'contracts the path names. convert and convertFor answer the delivered amount to their caller. The Network\'s own token and ICX balances are the same before and after, and a '
     'conversion whose result would be below minReturn changes nothing.',
     ['inputs', 'histories'],
     'All sources (ICX via convert/convertFor, token transfer with path data), paths (including paths through '
     'flexible tokens not owned by a working converter), amounts, minReturn values around the true result, '
     'beneficiaries, and Networks that already hold donated tokens.',
     'minReturn matters exactly at the boundary and on multi-hop paths with misbehaving converters, and custody has '
     'to be checked over all parties at once.',
     [NW, CV],
     [('minReturn check', CV + ':_buy,_sell,_convert_cross_connector'), ('delivery', NW + ':_convert_for_internal'),
      ('hop accounting', NW + ':_convert_by_path')],
     ['convert()', 'convertFor()', 'transfer() with path data', 'balances of every party'])

prop('C09', 'Trading can never extract value from a converter',
     'Over any history of conversions the converter\'s reserves keep backing the flexible token: '
     'supply / prod(balance_i ^ weight_i) over its connectors never increases by a conversion (virtual balances '
     'counted where enabled), so no sequence of conversions through one converter (or along one path and back) '
     'that starts and ends with the same holdings leaves the trader with more of any token. Buying then selling back, '
     'or converting A to B to A, never returns more than was put in.',
     ['histories', 'inputs', 'configurations'],
     'All sequences of buys, sells and cross-connector conversions on all converter configurations (weights '
     'including 1 and 1000000, fees, extreme supplies and balances).',
     'Rounding exploits need particular magnitudes and repetition; single-call tests compare with one rounded '
     'expected value.',
     [CV, FO],
     [('pricing', FO + ':calculate_*'), ('reserve accounting', CV + ':_buy,_sell,_convert_cross_connector')],
     ['connector balances', 'totalSupply()', 'trader balances'])

prop('C10', 'The conversion formula is accurate, monotone and never overpays',
     'For all valid arguments calculate_purchase_return, calculate_sale_return and '
     'calculate_cross_connector_return return a non-negative integer that never exceeds the exact Bancor value '
     '(supply*((1+d/b)^w-1), b*(1-(1-s/S)^(1/w)), b2*(1-(b1/(b1+a))^(w1/w2))) and, for '
     'exponents below 16, is within the fixed-point precision of it. Zero input gives zero, selling the whole supply gives the whole balance, the linear special '
     'cases are exact floors, results never exceed supply growth or the connector balance they are paid from, and '
     'out-of-domain arguments are rejected.',
     ['inputs'],
     'All supplies, balances, weights in 1..1000000 and amounts whose base ratio the formula supports.',
     'Existing formula tests compare at random points against another fixed-point port with the same structure; '
     'here the oracle is arbitrary-precision arithmetic and the domain includes every branch boundary.',
     [FO, 'contracts/formula/__init__.py'],
     [('power / log / exp', FO + ':_power,_general_log,_general_exp,_optimal_log,_optimal_exp'),
      ('precision lookup', FO + ':_find_position_in_max_exp_array')],
     ['formula.calculate_purchase_return', 'formula.calculate_sale_return',
      'formula.calculate_cross_connector_return', 'Converter.getReturn'])

prop('C11', 'A converter converts only for the registered network and only when allowed',
     'A converter performs a conversion only when the tokens came from the account registered as "Network" in its '
     'current registry, conversions are enabled, the converter owns its flexible token, both tokens are different '
     'and belong to the converter, the amount and minReturn are positive, and (unless selling the flexible token) '
     'the relevant connector\'s purchases are enabled. Any other tokenFallback - forged callers, look-alike '
     'networks, hostile tokens, malformed data - is rejected and changes neither balances, supply nor '
     'configuration, and selling stays possible when purchases are disabled.',
     ['inputs', 'histories'],
     'All callers and _from arguments of tokenFallback, all switch settings and registry contents reachable by '
     'owner/manager histories, all payloads.',
     'The gate is a conjunction over mutable state in four contracts plus attacker-controlled arguments.',
     [CV, FC, RG],
     [('gate', CV + ':tokenFallback,_convert'), ('purchase switch', CV + ':get_purchase_return,'
      'get_cross_connector_return,disableConnectorPurchases'), ('active check', FC + ':_is_active')],
     ['tokenFallback()', 'transfer() to the converter', 'Conversion event', 'balances and supply'])

prop('C12', 'The conversion fee is bounded and charged exactly',
     'getConversionFee() always lies in 0..getMaxConversionFee(), the maximum lies in 0..1000000 and never changes '
     'after deployment, and setConversionFee accepts exactly that range. A conversion pays floor(gross * '
     '(1-fee)^m) of the fee-free return, with m=1 for purchase/sale and m=2 for cross-connector conversions, and '
     'the reported fee is the difference between the fee-free return and the amount paid.',
     ['inputs', 'histories', 'configurations'],
     'All maximum fees and fee values, amounts, conversion kinds, and histories of fee changes by owner and manager.',
     'The rounding relation and the range invariant quantify over all amounts, fees and update histories.',
     [CV],
     [('fee arithmetic', CV + ':getFinalAmount'), ('fee bounds', CV + ':_require_valid_conversion_fee,'
      '_require_valid_max_conversion_fee,setConversionFee')],
     ['getConversionFee()', 'getMaxConversionFee()', 'getFinalAmount()', 'getReturn()', 'Conversion event'])

prop('C13', 'Connector configuration stays consistent and follows conversions',
     'After any history the connectors of a converter are exactly those added: each token at most once, never the '
     'flexible token, zero or the converter itself, each weight in 1..1000000 and the sum at most 1000000 (also '
     'after updateConnector), and connectors are added only while the converter does not own its token. '
     'getConnectorBalance is the virtual balance where enabled and the real token balance otherwise (a token that is no '
     'connector has none), and a '
     'conversion moves the virtual balance by exactly the amount taken in or paid out; nothing else moves it but '
     'updateConnector.',
     ['histories', 'inputs'],
     'All histories of addConnector / updateConnector / disableConnectorPurchases / conversions / activation with '
     'arbitrary arguments.',
     'Invariants over configuration histories (e.g. weight freed by one update and used by another).',
     [CV],
     [('addConnector/updateConnector', CV), ('virtual balance bookkeeping', CV + ':_buy,_sell,'
      '_convert_cross_connector'), ('total weight', CV + ':_total_connector_weight')],
     ['getConnectorTokenCount()', 'getConnectorAt()', 'getConnector()', 'getConnectorBalance()'])

prop('C14', 'Registry resolution behaves like a map and converters follow it safely',
     'ScoreRegistry.getAddress returns the contract address most recently registered by the owner for a known name '
     'and the zero address otherwise; unknown names, zero and non-contract addresses are refused, and every change '
     'emits AddressUpdate. A converter moves to a new registry only via updateRegistry (allowed for anybody while '
     'enabled, otherwise only for the owner) to the non-zero, different address its current registry names, '
     'remembers the previous one, and restoreRegistry by owner or manager returns to it and blocks further public '
     'updates.',
     ['histories', 'inputs'],
     'All histories of register/unregister/update/restore/disable calls by any account over several registries.',
     'Histories with several registries pointing at each other, restore after update after restore, and disabled '
     'updates are not enumerable by hand.',
     [RG, CV],
     [('registry map', RG + ':registerAddress,unregisterAddress,getAddress'),
      ('registry pointer', CV + ':updateRegistry,restoreRegistry,disableRegistryUpdate')],
     ['getAddress()', 'getScoreIds()', 'getRegistry()', 'getPreviousRegistry()', 'isAllowRegistryUpdate()'])

prop('C15', 'The network accepts exactly the well-formed conversion requests',
     'Network.tokenFallback, convert, convertFor and getExpectedReturnByPath accept a request only if the path is a '
     'comma separated list of valid addresses of odd length 3..21 without a repeated flexible token, minReturn is a '
     'positive integer, the beneficiary is a valid non-zero address, the first path element is the token received '
     '(a registered ICX token for convert/convertFor), and the payload is UTF-8 JSON with these keys. Every other '
     'byte string or path is rejected with all balances unchanged, and surrounding whitespace or an absent/null '
     '`for` never changes the outcome.',
     ['inputs'],
     'All byte strings as transfer data and all strings as path, generated structurally (valid requests mutated) '
     'and as raw bytes.',
     'A parser-like input space; tests contain a dozen payloads.',
     [NW],
     [('payload decoding', NW + ':_convert_bytes_data,_convert_path'), ('path validation', NW + ':_require_valid_path')],
     ['transfer(network, v, data)', 'convert()', 'convertFor()', 'getExpectedReturnByPath()'])

prop('C16', 'Every transaction is atomic at every point it can run out of steps',
     'If a transaction is stopped at any point by the platform (out of steps, failing or hostile callee), no balance, '
     'supply, ICX holding, connector, role or registry setting changes and later transactions behave exactly as if '
     'it had never been sent. In particular no contract swallows a failure of an inner call and continues with '
     'half of its effects, and no contract keeps state outside the rolled-back database.',
     ['crash_points', 'fault_sequences'],
     'Every step count at which each kind of transaction (transfer, conversion along each kind of path, issue, '
     'withdrawal, configuration) can be cut off, followed by arbitrary further transactions.',
     'Fault points are every database access, event and call of every transaction; tests never inject one.',
     [NW, CV, IRC, FT, IT, OW, MA, RG],
     [('exceptions propagate', CV + ':tokenFallback (except Exception -> revert)'), ('no Python-side state',
      CV + ':ConnectorDict')],
     ['all read-only getters', 'later receipts'])

prop('C17', 'Contract behaviour depends on the database only',
     'Re-creating all contract objects from their stored state at any point of any history (node restart, another '
     'node joining) is unobservable: every later transaction and query gives the same result, events and state as '
     'on the uninterrupted node. Reverted or read-only executions leave no trace in memory that changes later '
     'results.',
     ['histories', 'crash_points'],
     'All histories of mixed transactions and queries with a restart inserted after any step.',
     'Needs two executions of the same history compared step by step; caches only show after particular sequences.',
     [CV, NW, RG, FT, IT, OW, MA, PX],
     [('ConnectorDict cache', CV + ':ConnectorDict'), ('proxy class cache', PX)],
     ['receipts', 'all read-only getters', 'raw database'])

prop('C18', 'Event logs report exactly what happened',
     'For every successful transaction the emitted Transfer/Issuance/Destruction/Conversion/PriceDataUpdate/'
     'ConversionFeeUpdate/ConversionsEnable/AddressUpdate/OwnerUpdate/ManagerUpdate events match the state change: '
     'every transfer, mint and burn is logged once with its parties, value and data, each conversion logs tokens, '
     'trader, amount, return and fee actually applied, and price events carry the supply, connector balance and '
     'weight after the conversion. A failed or no-op configuration call logs nothing.',
     ['histories', 'inputs'],
     'All histories of token, converter, network and registry transactions.',
     'Observers rebuild state from events, so the relation has to hold for each transaction of each history.',
     [IRC, FT, IT, CV, RG, OW, MA],
     [('event emission', 'all @eventlog methods')],
     ['event logs of receipts', 'state before and after'])

prop('C19', 'Tokens held by a contract leave it only by authorised withdrawal',
     'withdrawTokens on FlexibleToken, IcxToken, Network and Converter moves exactly the positive amount of the '
     'named token from that contract to a valid receiver other than itself and only for the owner; a converter\'s '
     'connector tokens cannot be withdrawn while it is active, other tokens can; '
     'withdrawFromToken lets only the converter owner withdraw tokens held by the owned flexible token. '
     'Apart from these, from paying out conversions and from a burn by the token\'s owner no transaction reduces a '
     'contract\'s token holdings.',
     ['histories', 'inputs'],
     'All (token, receiver, amount, caller, active/inactive) combinations at every point of mixed histories with '
     'donated tokens.',
     'Depends on activation state, connector set, holder kind and aliasing of receiver.',
     [TH, CV, FC, FT, IT, NW],
     [('withdrawTokens', TH + ':withdrawTokens'), ('connector lock', CV + ':withdrawTokens'),
      ('withdrawFromToken', FC)],
     ['withdrawTokens()', 'withdrawFromToken()', 'balanceOf()'])

prop('C20', 'Interface proxies forward calls faithfully',
     'A proxy built by ProxyScore(ABC) offers exactly the abstract methods of its interface and forwards a call to '
     'the target contract unchanged: same method name, same arguments in the same order, the calling contract as '
     'msg.sender, no ICX, the callee\'s return value returned and its failure propagated. Building proxies for '
     'several interfaces, repeatedly and in any order, never mixes up methods, targets or callers, and each '
     'interface in contracts/interfaces matches the methods the deployed contracts expose.',
     ['programs', 'inputs'],
     'All generated interface classes (inheritance, shared method names, defaults), target contracts, argument '
     'vectors and construction orders.',
     'Caching by class and by function only goes wrong for particular families of interfaces and call orders.',
     [PX, 'contracts/interfaces/'],
     [('proxy class cache', PX + ':__new__'), ('interface function cache', PX + ':_get_interface_function')],
     ['call recorded by the target SCORE', 'return value / exception at the caller', 'SCORE API of contracts'])

prop('C21', 'The Storage wrapper behaves like the fields it declares',
     'Fields declared through Storage.add_fields read back the last value written (or the type\'s default), fields '
     'with different names never alias, container fields expose their underlying container, values survive '
     're-creating the Storage over the same database, and attributes that are not declared fields behave like '
     'ordinary Python attributes that are not persisted.',
     ['histories', 'inputs'],
     'All field declarations (names, container kinds, value types) and sequences of writes, reads and re-creations.',
     'Attribute interception with shadow names interacts with the chosen names and order of operations.',
     [ST],
     [('attribute redirection', ST + ':__setattr__,__getattribute__')],
     ['attribute reads', 'a second Storage on the same DB'])

prop('C22', 'Read-only methods are pure',
     'Every method declared read-only, called with any arguments as a query or inside a transaction, changes no '
     'state and emits no event, gives the same answer when repeated, and the quote methods work for every caller '
     'and do not depend on who asks. All documented getters and quotes are callable as queries.',
     ['inputs', 'histories'],
     'All read-only methods of all contracts with arbitrary arguments at every point of generated histories.',
     'A write hidden behind some argument or state is only visible on that argument or state.',
     [CV, NW, RG, FT, IT, IRC, OW, MA, FC],
     [('@external(readonly=True)', 'all contracts')],
     ['query results', 'raw database before/after'])

prop('C23', 'Packaging builds exactly the self-contained contracts asked for',
     'For every selection of known contracts, the FileWriter output, the ZipWriter archive (for every compression '
     'type) and its extraction contain the same set of files, byte-identical to the sources, without tests or '
     'caches, with package.json at the package root and NOTICE where configured; each package is importable on its '
     'own and its main SCORE deploys and works. Building is idempotent, removes stale files, leaves other outputs '
     'alone, works from any working directory, refuses unknown names, and clean removes only the output directory.',
     ['configurations', 'histories', 'inputs'],
     'All subsets and orders of contracts, compression types, pre-existing output trees, working directories, and '
     'sequences of build/clean.',
     'The space of selections, writer kinds, output states and working directories is combinatorial; missing '
     'dependencies only show when the package is loaded in isolation.',
     ['build.py', 'contract_generator/builder.py', 'contract_generator/writer.py', 'contract_generator/config.py',
      'contracts/*/package.json'],
     [('file selection', 'contract_generator/builder.py'), ('dependency table', 'contract_generator/config.py'),
      ('writers', 'contract_generator/writer.py')],
     ['output directory tree', 'zip bytes', 'isolated import + deployment'])

prop('C24', 'Formula constants and code agree with their generators',
     'The scripts in contracts/formula/auto_generate, run with the documented parameters, generate constants and '
     'functions that agree with the deployed formula: the same maximum-exponent table, scaling factors and limits, '
     'and the generated general_exp/optimal_log/optimal_exp functions give the same results as the deployed formula '
     'on every input. For every precision the table entry is the largest argument the generated exponential can '
     'take without overflowing 256 bits.',
     ['inputs', 'configurations'],
     'All precisions 0..127 (generated table), all arguments of the generated functions in their domains.',
     'Nothing in the test suite runs the generators; agreement is over the whole argument range.',
     ['contracts/formula/auto_generate/', FO],
     [('generators', 'contracts/formula/auto_generate/print_*.py'),
      ('common functions', 'contracts/formula/auto_generate/common/functions.py')],
     ['generated source text executed', 'formula results'])

prop('C25', 'Converter life cycle: fund, activate, upgrade without losing reserves',
     'A converter is active exactly while it owns its flexible token, becomes active only by acceptTokenOwnership '
     'after the token owner nominated it, and while inactive it accepts connector tokens only from its owner or its '
     'manager and performs no conversion or quote. transferTokenOwnership lets the converter owner hand the token to '
     'a successor, after which the old converter can do nothing to the token, its reserves can be withdrawn in full '
     'by its owner, and a successor with the same connectors and balances quotes the same prices.',
     ['histories'],
     'All histories of deploy, fund (by any account), activate, trade, deactivate, withdraw, re-deploy.',
     'A multi-contract protocol whose steps can be ordered arbitrarily.',
     [CV, FC, FT, OW],
     [('inactive funding', CV + ':tokenFallback'), ('token ownership', FC + ':transferTokenOwnership,'
      'acceptTokenOwnership,_is_active')],
     ['isActive()', 'token transfers to the converter', 'getReturn()', 'withdrawTokens()'])

prop('C26', 'Deployment parameters are validated and give exactly the stated initial state',
     'Deploying with parameters inside the documented domain succeeds and the getters report exactly those '
     'parameters with the deployer as owner, full initial supply (initial supply times 10^decimals) at the deployer, '
     'zero fee, conversions enabled and the optional first connector set; parameters outside it (negative supply or '
     'decimals, fee outside 0..1000000, zero or missing registry or flexible token, connector weight outside '
     '1..1000000, connector equal to the flexible token) are refused.',
     ['inputs', 'configurations'],
     'All deployment parameter vectors of all six contracts.',
     'A parameter space with several independent boundaries; tests deploy with one fixed vector.',
     [IRC, FT, IT, NW, RG, CV, FC, TH, OW],
     [('on_install of each contract', 'contracts/*/')],
     ['getters right after deployment'])

prop('C27', 'Hostile contracts cannot take other parties\' funds',
     'In any transaction started by an account other than X (and not authorised as owner or manager), X\'s token and '
     'ICX balances never decrease, for X any user, the Network or an inactive converter, even when the transaction '
     'runs attacker contracts: tokens and converters under attacker control in a path, receivers that re-enter the '
     'token, network or converter, forged callbacks and payloads. An attacker\'s gain from an honest converter '
     'is bounded by the honest price of what it paid in.',
     ['programs', 'histories', 'inputs'],
     'All attacker programs built from calls to the public methods of honest contracts (nested in tokenFallback, '
     'fallback, transfer, balanceOf, getOwner, getReturn of attacker contracts) of bounded size.',
     'Needs adversarial programs, not inputs; tests contain none.',
     [NW, CV, IRC, IT, FT],
     [('balance-difference accounting', NW + ':_convert_by_path'), ('state-before-call ordering',
      IT + ':withdrawTo, ' + IRC + ':_transfer')],
     ['balances of honest parties before/after each attacker transaction'])

prop('C28', 'Updating a contract keeps its state and behaviour',
     'Replacing the code of a deployed contract by an update transaction (on_update) at any point of any history - with '
     'pending nominations, active or inactive converters, any configuration - succeeds, emits no event and changes nothing '
     'observable: balances, supply, owners, managers, pending nominations, connectors, fees, registries and switches are as '
     'before, and every later transaction behaves as if the update had not happened. The initialisation cannot be run again '
     'by a transaction.',
     ['histories'],
     'Histories of transactions with updates of any contract at any point.',
     'Needs update points inside histories; the tests never deploy an update.',
     [IRC, FT, IT, NW, RG, CV, FC, TH, OW],
     [('on_update of each contract', 'contracts/*/')],
     ['getters and transactions after an update'])

prop('C29', 'Nothing is ever locked in: every reachable state can be left',
     'In every reachable state everything can still be taken out by those it belongs to. Holders can transfer, redeem and '
     'burn whatever they hold (flexible tokens once the owner of the token allows transfers), the last holder included; the '
     'owner of a converter can take the flexible token back, withdraw all reserves and recover stray tokens; every role can '
     'be handed over, a switched-off converter can be brought back into service, and pointed to or away from a registry '
     'unless the owner gave that up; and the whole system can be wound up until all ICX is redeemed.',
     ['histories'],
     'Histories of transactions, followed by every exit from the state reached.',
     'A liveness statement about every reachable state; the tests exercise exits only from the states their fixtures set up.',
     [IRC, FT, IT, NW, RG, CV, FC, TH, OW],
     [('withdraw, transfer, destroy', IT), ('withdrawTokens, withdrawFromToken, acceptTokenOwnership', CV)],
     ['receipts and balances after exit transactions'])

prop('C30', 'ICX sent to any contract is credited or refused, never swallowed',
     'ICX attached to a call of any method, or sent plainly, to any contract either is credited to the sender as ICX tokens '
     '(deposit to the ICX token) or converted for its beneficiary (Network.convert and convertFor along a path that starts '
     'with an ICX token), or the transaction fails and the sender keeps it. No contract but the ICX token ever holds ICX, '
     'ICX is neither created nor lost, and the ICX token holds as much ICX as its total supply.',
     ['inputs', 'histories'],
     'Calls of every method of every contract with attached ICX at generated states.',
     'Every method of every contract is an entry point for attached ICX; the tests attach ICX to two of them.',
     [IT, NW, CV, FT, IRC, RG],
     [('payable deposit and fallback', IT), ('convertFor', NW)],
     ['ICX balances of all accounts and contracts', 'receipts'])

prop('C31', 'Requests by documented parameter names behave as specified',
     'Every documented external method accepts a request that passes its parameters by their documented names as strings, as '
     'wallets and SDKs send them, an optional _data left out included, with the same effect, answer and event logs as the '
     'typed call; read-only methods, payable methods, return types, event names, event parameter types and the number of '
     'indexed event parameters are as documented.',
     ['inputs'],
     'Documented methods with generated arguments at generated states, by name against by value.',
     'The tests call Python methods directly with Python values, so the interface seen by clients is never exercised.',
     [IRC, FT, IT, NW, RG, CV, FC, TH, OW],
     [('external methods and eventlogs', 'contracts/')],
     ['receipts of JSON requests', 'event signatures', 'the contract API'])

prop('C32', 'The cost of a transaction does not grow with history',
     'The number of platform operations a transaction or query takes does not grow with the number of earlier transactions, '
     'holders, conversions, registrations or configuration changes, but only with the length of the path, the number of '
     'connectors and the size of its own data; no history, whoever causes it, makes an operation so dear that it fails.',
     ['histories'],
     'A probe transaction or query measured before and after long generated histories.',
     'Growth shows only over long histories; the tests run a handful of transactions and do not measure them.',
     [IRC, FT, IT, NW, RG, CV, OW],
     [('token balances and supply', IRC), ('connector list', CV)],
     ['step counts of receipts'])

prop('C33', 'Two deployments on one chain do not influence each other',
     'Two systems (registry, network, tokens, converters) deployed from the same packages on one chain do not influence each '
     'other: whatever happens in one, the answers, balances, events and transaction outcomes of the other are as if it were '
     'alone on the chain.',
     ['histories', 'schedules'],
     'Interleaved histories of two systems against each of them alone.',
     'The tests deploy each system alone in a process; only interleaved histories of two systems can show sharing.',
     [IRC, FT, IT, NW, RG, CV, FC, TH, OW, PX],
     [('contract state', 'contracts/')],
     ['state and receipts of one system with and without the other'])

prop('C34', 'Outcomes depend on roles, amounts and state only',
     'What a transaction or query does depends on the state of the contracts, the role of the caller, the arguments and the '
     'attached ICX only: the same history under other addresses, at other block heights and times, with many transactions in '
     'one block or far apart, or started through a contract by another account, has the same outcomes, answers, event logs and '
     'balances, up to the renaming.',
     ['histories', 'inputs'],
     'Histories of transactions against their renamed, retimed and relayed counterparts.',
     'A dependence on an address value, a time or the originator shows only in pairs of histories; the tests run one.',
     [IRC, FT, IT, NW, RG, CV, FC, TH, OW, MA],
     [('checks on msg.sender', OW), ('convertFor', NW), ('tokenFallback', CV)],
     ['receipts, events and observable state of two histories'])

prop('C35', 'What can be observed decides what happens next',
     'The future depends on the observable state only: if a history returns to a state in which all getters, balances and quotes '
     'answer as before (tokens lent and given back, a role handed over and back, a setting changed and restored, a registration '
     'withdrawn, a refused request), every later transaction and query has the outcome it would have had without the detour. '
     'No number of detours changes this.',
     ['histories'],
     'Pairs of histories, with and without detours that return to the same observable state.',
     'Hidden memory (a used-up allowance, a flag never reset) shows only after a detour; the tests do not take any.',
     [IRC, FT, IT, NW, RG, CV, FC, TH, OW, MA],
     [('contract state', 'contracts/')],
     ['receipts, events and observable state of two histories'])

prop('C36', 'Independent activities can be interleaved in any order',
     'Transactions of users who use different converters and flexible tokens, and share only the plain and ICX tokens, the '
     'network and the registries, have the same outcomes, amounts and event logs in every interleaving that keeps the order of '
     'each group: nobody gains, loses or is blocked because unrelated users act before, between or after.',
     ['schedules', 'histories'],
     'Two independent histories in generated interleavings against the sequential orders.',
     'Interference of unrelated users through shared contracts shows only in interleavings; the tests have one user at a time.',
     [IRC, IT, NW, RG, CV, FT],
     [('token balances and supply', IRC), ('convertFor and tokenFallback', NW)],
     ['receipts, events and observable state of interleaved histories'])

prop('C37', 'Prices follow from supply, balances, weights and fee alone',
     'Whenever a converter may convert, what it quotes and what it delivers is the exact Bancor price - '
     'supply*((1+d/b)^w-1) for a purchase, b*(1-(1-s/S)^(1/w)) for a sale, b2*(1-(b1/(b1+a))^(w1/w2)) between connectors - of the '
     'supply, connector balances and weights its getters report at that moment, less the reported conversion fee, to the precision '
     'of the formula: never more, and never less by more than that. No other part of its state or history enters the price, and '
     'there is no price only when the converter is inactive, purchases are disabled, a token is not a connector, both are the same or the numbers are '
     'out of range.',
     ['histories', 'inputs'],
     'Exact values computed with 130 digits from the getters, in converters of any shape and after any history, for quotes and deliveries.',
     'The tests quote from one mocked state; the price has to hold for every supply, balance, weight, fee and history.',
     [CV, FO],
     [('get_purchase_return', CV), ('get_sale_return', CV), ('get_cross_connector_return', CV), ('getReturn', CV)],
     ['answers of getReturn, delivered amounts and Conversion events against exact values'])

prop('C38', 'Deployed systems can be updated to the present code',
     'Contracts that were deployed and used with the released code can be updated to the present code, one after the other in any '
     'order: an update succeeds and changes nothing that can be observed (balances, supplies, owners, managers, nominations, '
     'connectors, fees, switches, registrations, quotes); afterwards every transaction and query has the outcome it has in a system '
     'that ran the present code from the start, and while only some of the contracts are updated, they work together as documented.',
     ['histories', 'configurations'],
     'Generated histories on the released contracts (a copy is kept with the checks) that are updated at generated moments, against the same history on the present code and against the reference model.',
     'The state of a deployed system was written by older code; the tests only ever read what the code under test wrote itself.',
     [IRC, FT, IT, NW, RG, CV, FC, TH, OW, MA],
     [('on_update', CV), ('containers of each contract (VarDB, DictDB, ArrayDB)', 'contracts/'), ('ConnectorDict', CV)],
     ['getters, balances, quotes, receipts and events before and after updates'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p, ensure_ascii=False) + '\n')
    print(len(P))
