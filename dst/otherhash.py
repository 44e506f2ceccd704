"""Digests of requests made alone in a real process whose string hashing is seeded differently.

Run as `python -m dst.otherhash <seed> <n>`; prints a JSON object {key of the request: digest}.
"""

import hashlib
import json
import os
import random
import subprocess
import sys


def digest(res, exact=False):
    """Of every bit, or (when transforms are involved) of six decimals."""
    import numpy as np

    h = hashlib.blake2b(digest_size=16)
    for k in sorted(res):
        v = res[k]
        if not exact:
            if k == "name":
                v = v.split("_lam")[0]
            elif isinstance(v, np.ndarray):
                # six decimals with an irrational offset, so that exact values do not sit on the edge
                v = np.floor(np.stack((v.real, v.imag)) / max(1.0, np.abs(v).max(initial=0)) * 1e6 + 0.31830988618)
                v = v.astype(np.int64)
            elif isinstance(v, float):
                v = round(v, 5)
        h.update(k.encode())
        h.update(f"{v.dtype}{v.shape}".encode() + v.tobytes() if isinstance(v, np.ndarray) else repr(v).encode())
    return h.hexdigest()


def pool(seed, n):
    from .props import signals

    rng = random.Random(f"otherhash{seed}")
    return [signals.gen(rng, noise=0.9) for _ in range(n)]


def main():
    from . import fixtures, runner

    class Prop:
        ID = "OH"
        RUNS = {}

        @staticmethod
        def run(world, plan):
            from .props import signals

            fixtures.publish_standard(world)
            o = world.process(lambda: signals.build(plan["s"]))
            return {"d": digest(o.value, signals.exact(plan["s"])) if o.ok else "fails", "tags": []}

    from .props import common

    seed, n = int(sys.argv[1]), int(sys.argv[2])
    r = runner.Runner(Prop, seed)
    out = {}
    try:
        r.many([(common.key(s), {"s": s, "entropy": 99}, None, 5) for s in pool(seed, n)],
               lambda k, p, x: out.__setitem__(k, (x.get("info") or {}).get("d", x["status"])))
    finally:
        r.close()
    print(json.dumps(out))


def digests(seed, n):
    env = dict(os.environ, PYTHONHASHSEED=str((int(os.environ.get("PYTHONHASHSEED", "0") or 0) * 7919 + 12345) % 4294967296))
    p = subprocess.run([sys.executable, "-m", "dst.otherhash", str(seed), str(n)], env=env, capture_output=True, text=True,
                       cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), timeout=300)
    if p.returncode:
        raise RuntimeError(p.stderr[-2000:])
    return json.loads(p.stdout.splitlines()[-1])


if __name__ == "__main__":
    main()
