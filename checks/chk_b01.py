"""B01: the result file against the states it was written for."""
import bench


def run(chk):
    bench.run(chk, {"run"})
