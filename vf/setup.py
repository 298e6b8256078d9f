"""Builds every harness once, so that the checks only rebuild what a change touches.  Nothing depends on it."""
import fcntl, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import specs
by = {}
for c in specs.CHECKS.values():
    for variant, harness, sources in c['builds']:
        assert sources is None
        by.setdefault(variant, {}).update(harness)
os.makedirs(build.ROOT, exist_ok=True)
with open(os.path.join(build.ROOT, 'lock'), 'w') as lk:
    fcntl.flock(lk, fcntl.LOCK_EX)
    for variant, harness in by.items():
        try:
            build.build(variant, harness)
        except build.BuildError as e:
            print(e)
