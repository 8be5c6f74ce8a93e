from e2e.limits import build

def explore(eng): build(eng, 'pixels')
