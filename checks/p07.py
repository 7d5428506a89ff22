from vx.conc import Conc


def run(c):
    Conc(c).run()
