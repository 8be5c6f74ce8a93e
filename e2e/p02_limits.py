from e2e.limits import build
from e2e import bplimits

def explore(eng):
    build(eng, 'range')
    bplimits.build(eng, 'range')
