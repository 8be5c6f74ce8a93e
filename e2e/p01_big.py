"""P01: large maps."""
from e2e.big import big_maps

def explore(eng): big_maps(eng, types=('FLOAT', 'LONG') if not eng.thorough else ('BYTE', 'SHORT', 'LONG', 'LONGLONG', 'FLOAT', 'DOUBLE'))
