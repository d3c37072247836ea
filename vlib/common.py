"""Package common and its subpackages hexutil and math: C15-C18, C26, C27."""
import json

from .logs import crash, text


def records(ctx, drv, n, env=None, **kw):
    b = ctx.go_build('./drv/' + drv, **kw)
    recs = []
    for k, evs in sorted(ctx.drive(b, n, env=env).items()):
        recs += crash(ctx, evs, drv, k)
    return recs


def c15(ctx):
    recs = records(ctx, 'hexutil', ctx.pick(12000, 150000), env={'VDRV_DEPTH': ctx.pick('4', '5')})
    for r in recs:
        r['str'] = text(r['in']) if r['kind'] == 'dec' else ''
    ctx.note(strings_decoded=sum(r['kind'] == 'dec' for r in recs), decoder_calls=sum(len(r.get('r', ())) for r in recs))
    ctx.sample(json.dumps(recs[-1])[:500])
    ctx.check_records('HexCodec', recs, what='hex codec', timeout=ctx.pick(400, 3000), chunk=4000)


CHECKS = {'C15': c15}


def c16(ctx):
    recs = records(ctx, 'types', ctx.pick(3000, 40000))
    for r in recs:
        r['str'] = text(r['in']) if r['kind'] == 'parse' else ''
    ctx.note(conversions=sum(len(r.get('out', ())) for r in recs), parses=sum(len(r.get('ps', ())) + len(r.get('ms', ())) + 1 for r in recs if r['kind'] == 'parse'))
    ctx.sample(next(r['str'] for r in recs if r['kind'] == 'parse'))
    ctx.check_records('HashAddr', recs, what='hash and address types', timeout=ctx.pick(500, 3000), chunk=800)


def c17(ctx):
    recs = records(ctx, 'bytesx', ctx.pick(1500, 20000))
    ctx.note(calls=len(recs))
    ctx.sample(json.dumps(recs[0])[:300])
    ctx.check_records('ByteOps', recs, what='byte helper', timeout=ctx.pick(500, 3000), chunk=8000)


CHECKS = {'C15': c15, 'C16': c16, 'C17': c17}


def c18(ctx):
    recs = records(ctx, 'bigmath', ctx.pick(2600, 50000), env={'VDRV_HEAVY': '12'})
    for r in recs:
        r['str'] = text(r['s']) if r['op'] == 'Parse' else ''
    ctx.note(calls=len(recs), exponentiations=sum(r['op'] == 'Exp' for r in recs))
    ctx.sample(json.dumps(recs[3])[:300])
    ctx.check_records('BigMath', recs, what='math function', timeout=ctx.pick(500, 3000), chunk=3000)


CHECKS['C18'] = c18


def c26(ctx):
    recs = records(ctx, 'solc', ctx.pick(600, 12000))
    for r in recs:
        r['str'] = text(r['in'])
    ctx.note(texts=len(recs), accepted=sum(r['ok'] for r in recs), contracts=sum(len(r['out']) for r in recs))
    ctx.sample(recs[1]['str'][:400])
    ctx.check_records('Solc', recs, what='compiler output', timeout=ctx.pick(500, 3000), chunk=400)


CHECKS['C26'] = c26


def c27(ctx):
    recs = records(ctx, 'pretty', ctx.pick(500, 8000))
    for r in recs:
        r['str'] = text([c for c in r['out'] if c < 128])
    for op in ('size', 'dur', 'age'):
        ctx.note(**{op: sum(r['op'] == op for r in recs)})
        ctx.sample(json.dumps(next(r for r in recs if r['op'] == op)))
    ctx.check_records('Pretty', recs, what='printed value', timeout=ctx.pick(500, 3000), chunk=3000)


CHECKS['C27'] = c27


def c36(ctx):
    recs = records(ctx, 'files', ctx.pick(800, 12000))
    ctx.note(**{k: sum(r['kind'] == k for r in recs) for k in ('load', 'missing', 'exist', 'abs', 'name', 'warn', 'report', 'random')})
    ctx.sample(text(next(r['doc'] for r in recs if r['kind'] == 'load' and r['line'] > 1)))
    ctx.check_records('Files', recs, what='file helper', chunk=2500, timeout=ctx.pick(300, 2400))


CHECKS['C36'] = c36
