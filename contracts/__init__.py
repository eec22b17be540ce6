"""Contracts on the functions of /repo: preconditions (assumed symbolic inputs), postconditions (proved)."""
REG = []
def contract(pids, name, **opt):
    """register a proof: fn(ctx) explores the function symbolically and states its postconditions"""
    def d(fn):
        REG.append(dict(pids=pids.split(), name=name, fn=fn, **opt)); return fn
    return d
