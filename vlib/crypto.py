"""Package crypto: C19-C21."""
import json

from .common import records


def c19(ctx):
    recs = records(ctx, 'keccak', ctx.pick(1700, 30000))
    ctx.note(sums=sum(o['op'] == 'sum' for r in recs for o in r['ops']), writes=sum(o['op'] == 'write' for r in recs for o in r['ops']))
    ctx.sample(json.dumps(recs[20])[:400])
    ctx.check_records('KeccakHash', recs, what='Keccak history', timeout=ctx.pick(500, 3000), chunk=200)


def c20(ctx):
    primes = ctx.pick(7, 14)
    rows = sum(p - 1 for p in [5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53][:primes])
    recs = records(ctx, 'curve', rows + 1 + ctx.pick(360, 8000), env={'VDRV_PRIMES': str(primes), 'VDRV_HEAVY': ctx.pick('16', '40')})
    ctx.note(curves_checked_for_every_pair_of_points=rows, additions=sum(len(r.get('adds', ())) for r in recs),
             multiplications_on_predefined_curves=sum(r.get('op') == 'mul' for r in recs))
    ctx.sample(json.dumps(next(r for r in recs if r['kind'] == 'small'))[:400])
    import random
    random.Random(1).shuffle(recs)
    ctx.check_records('Curve', recs, what='curve operation', timeout=ctx.pick(600, 3400), chunk=ctx.pick(130, 400))


def c21(ctx):
    recs = records(ctx, 'mnemonic', ctx.pick(700, 12000))
    ctx.note(values=sum(r['op'] == 'code' for r in recs), word_sequences=sum(r['op'] == 'words' for r in recs))
    ctx.sample(json.dumps(recs[1])[:400])
    ctx.check_records('Mnemonic', recs, what='mnemonic', timeout=ctx.pick(400, 3000), chunk=2000)


CHECKS = {'C19': c19, 'C20': c20, 'C21': c21}
