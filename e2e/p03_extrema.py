from e2e.limits import build, scaled
from e2e import bplimits

def explore(eng):
    build(eng, 'extrema')
    scaled(eng)
    bplimits.build(eng, 'extrema')
