"""P08: a trajectory never answers from before its last change (spec/Worldline.tla)."""
from worldlinecommon import *
OPS = ['metric', 'mset', 'own', 'init', 'ptrans', 'reset', 'set', 'copy', 'fill', 'query']
def run(c): judge(c, 'P08', ['photon', 'star'], OPS, 1.)
