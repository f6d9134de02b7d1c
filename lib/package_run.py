# -*- coding: utf-8 -*-
"""package_run.py PACKAGES_DIR : deploys the six packages found below a directory, without the
repository, the way the platform loads them, and trades with them.  Prints RESULT <json>."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
root = os.path.abspath(sys.argv[1])
os.environ['VERIF_REPO'] = os.path.join(root, 'no-repository')
sys.path.insert(0, HERE)
import chain  # noqa: E402

sys.path[:] = [p for p in sys.path if p not in ('', HERE, os.environ['VERIF_REPO'])]
sys.path.insert(0, root)
NAMES = ['score_registry', 'network', 'irc_token', 'icx_token', 'flexible_token', 'converter']


def load(name):
    """like the platform: package.json names the module and class, relative to the unpacked package"""
    with open(os.path.join(root, name, 'package.json')) as f:
        meta = json.load(f)
    # no package may see the files of another one: a directory of its own for each
    module = importlib.import_module(f'{name}.{meta["main_file"]}')
    path = os.path.abspath(module.__file__)
    assert path.startswith(os.path.join(root, name) + os.sep), path
    return getattr(module, meta['main_score'])


def main():
    only = sys.argv[2:] or NAMES
    out = {}
    classes = {}
    for name in NAMES:
        try:
            classes[name] = load(name)
            out[name] = 'loaded'
        except BaseException as e:
            out[name] = f'{type(e).__name__}: {e}'
    for name, module in list(sys.modules.items()):
        f = getattr(module, '__file__', None)
        if f and any(name.startswith(p) for p in ('contracts', 'contract_generator')):
            out['leak'] = f
    if all(out[n] == 'loaded' for n in NAMES):
        try:
            out['trade'] = trade(classes)
        except BaseException as e:
            out['trade'] = f'{type(e).__name__}: {e}'
    print('RESULT ' + json.dumps(out))


def trade(cls):
    c = chain.Chain()
    owner, alice = chain.eoa('owner'), chain.eoa('alice')
    c.mint_icx(owner, 10 ** 24)
    reg = c.install(cls['score_registry'], owner)
    net = c.install(cls['network'], owner)
    t1 = c.install(cls['irc_token'], owner, 'Token', 'T', 10 ** 24, 0)
    ix = c.install(cls['icx_token'], owner)
    flex = c.install(cls['flexible_token'], owner, 'Flex', 'F', 10 ** 22, 0)
    conv = c.install(cls['converter'], owner, flex, reg, 30000, t1, 500000)

    def must(sender, to, method, *args, value=0):
        r = c.call(sender, to, method, *args, value=value)
        if not r.ok:
            raise RuntimeError(f'{method}{args}: {r.error}')
        return r
    must(owner, reg, 'registerAddress', 'Network', net)
    must(owner, ix, 'deposit', value=10 ** 23)
    must(owner, net, 'registerIcxToken', ix, True)
    must(owner, conv, 'addConnector', ix, 400000, False)
    must(owner, t1, 'transfer', conv, 10 ** 21)
    must(owner, ix, 'transfer', conv, 10 ** 21)
    must(owner, flex, 'transferOwnerShip', conv)
    must(owner, conv, 'acceptTokenOwnership')
    must(owner, conv, 'setConversionFee', 1000)
    path = ','.join(str(x) for x in (t1, flex, ix))
    quote = c.query(net, 'getExpectedReturnByPath', path, 10 ** 18)
    before = c.icx(alice)
    must(owner, t1, 'transfer', alice, 10 ** 18)
    must(alice, t1, 'transfer', net, 10 ** 18, json.dumps({'path': path, 'minReturn': quote}).encode())
    assert c.icx(alice) - before == quote, (c.icx(alice) - before, quote)
    path = ','.join(str(x) for x in (ix, flex, flex))
    must(alice, net, 'convert', path, 1, value=quote)
    assert c.query(flex, 'balanceOf', alice) > 0
    must(alice, flex, 'transfer', net, c.query(flex, 'balanceOf', alice),
         json.dumps({'path': ','.join(str(x) for x in (flex, flex, t1)), 'minReturn': 1}).encode())
    got = c.query(t1, 'balanceOf', alice)
    assert 0 < got < 10 ** 18, got
    return ['ok', quote, got]


main()
