from e2e.projections import build

def explore(eng): build(eng, 'ORTHO')
