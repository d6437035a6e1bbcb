"""B02: the calls of the evaluation loop."""
import bench


def run(chk):
    bench.run(chk, set())
