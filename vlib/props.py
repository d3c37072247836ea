"""Registry: property id -> function deciding it."""
from . import clock, common, crypto, ev, logs, rlp, rpc

CHECKS = {}
for m in (ev, clock, logs, common, crypto, rlp, rpc):
    CHECKS.update(m.CHECKS)
