import life


def run(chk):
    life.run(chk, confined=True)
