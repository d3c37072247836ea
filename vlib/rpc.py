"""Package rpc: C30-C33. The package does not compile as a whole at this commit; its parts that do are copied verbatim by
harness/cmd/salvage, the rest is left out."""
import json
import os

from .common import records
from .logs import crash
from .core import HARNESS, REPO, Infra, goenv, run, trim
from .ev import TRACE_CFG, show
from .rpcsvc import generate


def salvage(ctx, bridge=True):
    out = ctx.tmp('salvage')
    os.makedirs(out)
    ov = os.path.join(HARNESS, 'overlay')
    cmd = ['go', 'run', './cmd/salvage', '-dir', os.path.join(REPO, 'rpc'), '-pkg', 'flychain/rpc', '-out', out,
           '-standins', ov + '/rpc_standin.go.txt', '-fallbacks', ov + '/rpc_fallback.go.txt']
    if bridge:
        cmd += ['-add', ov + '/rpc_bridge.go.txt']
    r = run(cmd, cwd=ctx.module(), env=goenv(), timeout=300)
    if r.returncode != 0:
        raise Infra('salvage failed:\n' + r.stdout + r.stderr)
    ctx.note(left_out=r.stdout.splitlines())
    return json.load(open(os.path.join(out, 'overlay.json')))['Replace']


def c30(ctx):
    recs = records(ctx, 'blockparam', ctx.pick(1000, 20000), extra_overlay=salvage(ctx, False))
    ctx.note(texts_read=sum(r['kind'] in ('num', 'ref', 'raw') for r in recs), accepted=sum(r['kind'] in ('num', 'ref', 'raw') and r['ok'] for r in recs))
    ctx.sample(bytes(next(r['doc'] for r in recs if r['kind'] == 'ref')).decode())
    ctx.check_records('BlockParam', recs, what='block parameter', timeout=ctx.pick(400, 3000), chunk=10000)


CHECKS = {'C30': c30}


def c31(ctx):
    recs = records(ctx, 'rpcmsg', ctx.pick(600, 12000), extra_overlay=salvage(ctx))
    ctx.note(messages=sum(r['kind'] == 'class' for r in recs), replies=sum(r['kind'] == 'reply' for r in recs), batches=sum(r['kind'] == 'batch' for r in recs))
    ctx.sample(bytes(next(r['doc'] for r in recs if r['kind'] == 'reply')).decode())
    ctx.check_records('RpcMsg', recs, what='rpc message', timeout=ctx.pick(400, 3000), chunk=10000)


CHECKS['C31'] = c31


def c32(ctx):
    for k in range(ctx.pick(2, 12)):
        src, recv = generate(ctx.seed * 100 + k, 24)
        d = os.path.join(ctx.module(), 'drv/rpcsvc')
        open(os.path.join(d, 'gen.go'), 'w').write(src)
        types = ctx.tmp('types.ndjson')
        with open(types, 'w') as f:
            for r in recv:
                f.write(json.dumps(r) + '\n')
        recs = records(ctx, 'rpcsvc', ctx.pick(1200, 6000), extra_overlay=salvage(ctx))
        ctx.note(registries=len(recs), calls=sum(o['op'] == 'call' for r in recs for o in r['ops']), receivers=len(recv))
        ctx.sample(json.dumps(recv[0]['methods'][:3]))
        ctx.check_records('Services', recs, what='services', timeout=ctx.pick(400, 3000), chunk=1000, env={'VTYPES': types})


CHECKS['C32'] = c32


def simple(ctx, test, module, n, what, overlay, drv='rpcsub'):
    b = ctx.go_build('./drv/' + drv, extra_overlay=overlay, instrument=[f for f in overlay.values() if not f.endswith('.txt')])
    tr = []
    for k, evs in sorted(ctx.drive(b, n, test=test).items()):
        h, ev = trim(evs)
        t = {k: v for k, v in h.items() if k != 'e'}
        t.update(id=k, ev=ev)
        tr.append(t)
    ctx.note(scenarios=len(tr), events=sum(len(t['ev']) for t in tr))
    ctx.sample('%s: %s' % (what, ' '.join(show(e) for e in tr[len(tr) // 3]['ev'][:25])))
    ctx.check_traces(module, TRACE_CFG, tr, what, key=lambda t, bad: '%s refused %s' % (module, (bad or {}).get('e')), timeout=ctx.pick(240, 2400))


def c33(ctx):
    ctx.mc('ClientSubImpl', 'CONSTANTS\n N = %d\n Bad = {3}\n Max = 2\n Late = FALSE\n Slots = 1\nSPECIFICATION Spec\n'
           'INVARIANTS Order NoPanic Bounded\nPROPERTIES DispatcherFree CancelReturns\nCHECK_DEADLOCK FALSE\n' % ctx.pick(4, 7), timeout=600)
    overlay = salvage(ctx)
    simple(ctx, 'TestDrive', 'Notify', ctx.pick(4000, 40000), 'notifications', overlay)
    simple(ctx, 'TestClient', 'RpcClient', ctx.pick(4000, 40000), 'client subscriptions', overlay)
    b = ctx.go_build('./drv/rpcsub', extra_overlay=overlay)
    recs = []
    for k, evs in sorted(ctx.drive(b, ctx.pick(50, 500), test='TestIDs').items()):
        recs += crash(ctx, evs, 'rpcsub', k)
    ctx.check_records('RpcIds', recs, what='subscription identifiers', timeout=ctx.pick(200, 1000), chunk=4000)


CHECKS['C33'] = c33


def c34(ctx):
    simple(ctx, 'TestDrive', 'RpcServer', ctx.pick(8000, 80000), 'server life cycle', salvage(ctx), 'rpcsrv')


CHECKS['C34'] = c34
