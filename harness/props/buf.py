"""Shared job builders for the buffer properties."""


def jobs(ctx, behs, kinds, configs, envs, every=1, kw=None, seed0=0):
    out = []
    for k, h in enumerate(behs):
        kind = kinds[k % len(kinds)]
        n, cap = configs[(k // len(kinds)) % len(configs)]
        out.append(dict(kind=kind, n=n, cap=cap, envs=envs, ops=h,
                        every=every, seed=seed0 + k, kw=kw or {}))
    return out
