import pop


def run(chk):
    pop.run(chk, ["mpmc"])
