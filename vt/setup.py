"""setup_cmd: compiles the module overrides, compares them with the pure TLA+ definitions, warms the build cache."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import repo, tla, arm, kat    # noqa: E402

if __name__ == "__main__":
    tla.classes()
    repo.build_all(repo.CONFIGS)
    repo.build_all(repo.CONFIGS, "asan")
    print("interpreter: %d instructions compared with the host" % arm.selftest())
    arm.build_all()
    for what in ("prng", "board"):
        arm.build(arm.M0, what)
    for i in ("m4-striding/Saber", arm.M0):
        arm.build(i, "watch")
    for i in arm.CONFIGS:
        arm.host_checked(i)
    r = tla.model("FastCheck")
    print("FastCheck: %d steps" % r.distinct)
    try:
        print("published vectors accepted by the specification: %s" % kat.accepted(4))
    except AssertionError as e:
        print("WARNING: %s" % e)
