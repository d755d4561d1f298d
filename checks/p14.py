"""P14: extending a trajectory keeps what was already computed (spec/Worldline.tla)."""
from worldlinecommon import *
OPS = ['metric', 'init', 'ptrans', 'reset', 'set', 'copy', 'fill', 'query']
def run(c): judge(c, 'P14', ['photon', 'star'], OPS, 0., n=8000 if c.thorough else 1000)
