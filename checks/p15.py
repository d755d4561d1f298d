"""P15: positions read from a trajectory do not depend on the queries made before (spec/Worldline.tla)."""
from worldlinecommon import *
OPS = ['init', 'ptrans', 'set', 'copy', 'fill', 'query']
def run(c): judge(c, 'P15', ['photon', 'star'], OPS, 0., n=8000 if c.thorough else 1000)
