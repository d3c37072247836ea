"""The rlp packages: C22, C24."""
import json
import os

from .common import records
from .core import HARNESS, REPO
from .rlpgen import c24


def overlay():
    return {os.path.join(REPO, 'rlp/rlpx/rlpx.go'): os.path.join(HARNESS, 'overlay/rlpx.go.txt')}


def c22(ctx):
    recs = records(ctx, 'rlptags', ctx.pick(2500, 40000), extra_overlay=overlay())
    ctx.note(structs=len(recs), accepted=sum(r['ok'] for r in recs), fields=sum(len(r['fields']) for r in recs))
    ctx.sample(json.dumps(recs[1])[:500])
    ctx.check_records('RlpTags', recs, what='struct tags', timeout=ctx.pick(400, 3000), chunk=4000)


CHECKS = {'C22': c22, 'C24': c24}
