"""Writes /verif/MANIFEST.json from the checks that exist."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python -B check.py'

# property -> (technique, what assurance / trust)
CHECKS = {
    'C01': ('property-based testing: stateful histories, supply invariant against a reference model',
            'Random histories of all token operations, conversions and re-entrant contract programs.'),
    'C02': ('property-based testing: stateful histories with re-entrant receivers, backing invariant and reference model',
            'Random histories of deposits, withdrawals, transfers and re-entrant receivers.'),
    'C03': ('property-based testing: reference model of one transfer, recorded callbacks',
            'Random transfers over all holders, values and data; receivers that observe, reject or act.'),
    'C04': ('property-based testing: stateful histories against a reference model of mint and burn authority',
            'Random histories with ownership handovers between mints and burns.'),
    'C05': ('property-based testing: stateful histories, guarded methods called by every kind of account',
            'Every guarded method, caller kinds and arguments at random points of histories; effects compared with a '
            'reference model.'),
    'C06': ('property-based testing: stateful model of the two-step handover on every owned contract',
            'Random interleavings of nominations and acceptances.'),
    'C07': ('property-based testing: quote against execution (differential) on generated configurations',
            'Random converter configurations, paths and amounts; quotes taken immediately before.'),
    'C08': ('property-based testing: conversions with generated limits and hostile path contracts, outcome oracle from '
            'quotes', 'Random paths, limits around the quote, beneficiaries, hostile contracts in paths.'),
    'C09': ('property-based testing: conversion histories, exact reserve-ratio invariant and round trips',
            'Exact big-number invariant after each conversion; round trips never profit.'),
    'C10': ('property-based testing: formula against arbitrary-precision arithmetic (mpmath)',
            'Random and boundary arguments of the three price functions.'),
    'C11': ('property-based testing: generated requests with single broken preconditions, forged callers and data',
            'Every gate broken alone and in pairs on generated states.'),
    'C12': ('property-based testing: fee-free twin (metamorphic) and reference model of the fee setting',
            'Random fees and conversions, compared with a copy of the state at fee zero.'),
    'C13': ('property-based testing: stateful model of connector configuration and virtual balances',
            'Random histories of configuration and conversions.'),
    'C14': ('property-based testing: stateful model of registries and registry following',
            'Random histories over two registries and three converters.'),
    'C15': ('property-based testing: grammar-based request fuzzing against an independent request parser',
            'Generated and mutated request payloads and paths.'),
    'C16': ('property-based testing with fault injection: every step budget and every failing call of generated '
            'transactions', 'All interruption points of generated transactions (sampled when above 450).'),
    'C17': ('property-based testing: differential histories with restarts at generated points',
            'Two copies of the system, one restarted at random points, must stay identical.'),
    'C18': ('property-based testing: event logs of generated histories against the observed state change',
            'Events compared as multisets with events derived from the states around the transaction.'),
    'C19': ('property-based testing: stateful histories, holdings of contracts against a reference model',
            'Withdrawals in every combination and histories in which holdings may only fall for a listed reason.'),
    'C20': ('property-based testing: generated interfaces, recorded calls compared with the calls made',
            'Generated abstract classes and call sequences through proxies; recorded at the target contract.'),
    'C21': ('property-based testing: stateful model of declared fields over one database',
            'Random declarations, writes, reads and re-creations.'),
    'C22': ('property-based testing: every read-only method with generated arguments on generated states, purity oracle',
            'Methods found from the contract API; state, events and repeatability compared.'),
    'C23': ('property-based testing: generated build requests against an independent model of the package, deployment in '
            'a fresh process', 'Random selections, writers, working directories, pre-existing outputs.'),
    'C24': ('property-based testing: generator scripts re-run, generated code against the deployed formula '
            '(differential)', 'Generated functions and tables compared on random and boundary inputs.'),
    'C25': ('property-based testing: stateful life-cycle histories, successor equivalence (metamorphic)',
            'Random life cycles: fund, activate, trade, hand over, withdraw, upgrade.'),
    'C26': ('property-based testing: generated deployment parameters against the documented domain',
            'Random and boundary parameters of all contracts, including out-of-domain ones.'),
    'C27': ('property-based testing: generated attacker programs, no-loss oracle for honest parties',
            'Random re-entrant attacker programs in every callback.'),
    'C28': ('property-based testing: differential histories with contract updates at generated points',
            'Two copies of the system, one with contracts updated at random points, must stay identical.'),
    'C29': ('property-based testing: stateful histories followed by every exit from the state reached',
            'Random histories; every exit is tried from the state reached, up to winding up the whole system.'),
    'C30': ('property-based testing: every method called with attached ICX on generated states, conservation oracle',
            'Methods found from the contract API; plain transfers, hostile contracts as senders.'),
    'C31': ('property-based testing: requests by name against typed calls on copies of the state (differential)',
            'Generated arguments; the documented interface is transcribed in the check.'),
    'C32': ('property-based testing: cost of probe transactions before and after generated histories (metamorphic)',
            'Counts platform operations; growth is told from noise by doubling the history.'),
    'C33': ('property-based testing: interleaved histories of two systems against each alone (differential)',
            'Both systems run in one process and share its modules, a wider sharing than on a node.'),
    'C34': ('property-based testing: histories against renamed, retimed and relayed copies (metamorphic)',
            'The originator is varied for transactions in which contracts of users act.'),
    'C35': ('property-based testing: histories with and without detours to the same observable state (metamorphic)',
            'Detours from a catalogue of there-and-back sequences, kept only when all answers are as before.'),
    'C36': ('property-based testing: generated interleavings of independent histories against sequential orders (metamorphic)',
            'Two groups with converters of their own; a transaction is the unit of interleaving.'),
    'C37': ('property-based testing: quotes and deliveries against exact values computed from the getters (model-based)',
            'Exact to 130 digits; the precision granted to the formula is the one of C10.'),
    'C38': ('property-based testing: histories with updates from a kept release, against the present code from the start (differential) and a reference model',
            'The release is the copy in lib/released; a transaction is the unit between updates.'),
}
TRUST = (' Runs the real contract code on the real iconservice engine in an in-memory chain; trusts that engine, the harness '
         'in lib/ and the generators: nothing outside the generated cases is covered.')


def level_of(pid):
    with open(os.path.join(HERE, 'checks', pid.lower() + '.py')) as f:
        for node in ast.parse(f.read()).body:
            if isinstance(node, ast.Assign) and node.targets[0].id == 'LEVEL':
                return ast.literal_eval(node.value)


def main():
    with open(os.path.join(HERE, 'properties.jsonl')) as f:
        ids = [json.loads(line)['id'] for line in f]
    checks, missing = [], []
    for pid in ids:
        if not os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
            missing.append({'property': pid, 'reason': 'the check is still being built'})
            continue
        technique, note = CHECKS[pid]
        checks.append({'property': pid, 'quick_cmd': f'{PY} {pid} --tier quick',
                       'thorough_cmd': f'{PY} {pid} --tier thorough', 'evidence_file': f'evidence/{pid}.json',
                       'technique': technique, 'level': level_of(pid), 'level_note': note + TRUST})
    manifest = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B check.py --selfcheck', 'checks': checks,
                'not_applicable': missing,
                'notes': 'No hooks in /repo. Replay a violation: /opt/venv/bin/python -B check.py Cxx --replay FILE.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(missing), 'missing')


if __name__ == '__main__':
    main()
