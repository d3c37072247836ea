"""Package common/mclock: C09, C10, C28."""
import json

from .common import records
from .ev import simple

CLOCK_SRC = ['common/mclock/*.go']


def c09(ctx):
    simple(ctx, 'clock', 'SimClock', ctx.pick(20000, 200000), 'simulated clock', instrument=CLOCK_SRC)


def c10(ctx):
    ctx.mc('AlarmImpl', 'CONSTANTS\n MaxTime = %d\n MaxOps = %d\nSPECIFICATION Spec\nINVARIANT Armed\nPROPERTY Refines\nCHECK_DEADLOCK FALSE\n'
           % ctx.pick((4, 6), (6, 8)), timeout=1500)
    simple(ctx, 'alarm', 'AlarmTrace', ctx.pick(16000, 200000), 'alarm', instrument=CLOCK_SRC)


CHECKS = {'C09': c09, 'C10': c10}


def c28(ctx):
    n = ctx.pick(48, 400)
    recs = records(ctx, 'systimer', n + ctx.pick(800, 12000), env={'VDRV_LIVE': str(n)})
    for m in ('exact', 'live', 'alarm', 'now'):
        ctx.note(**{m + '_histories': sum(r['mode'] == m for r in recs)})
    ctx.sample(json.dumps(recs[-1])[:500])
    ctx.check_records('SysTimer', recs, what='system clock', timeout=ctx.pick(500, 3000), chunk=1500)


CHECKS['C28'] = c28
