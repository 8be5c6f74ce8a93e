SPECS = {
 'P01': {'harness': [('p01_map', 'san', False)], 'e2e': ['p01_maps', 'p01_big']},
 'P02': {'harness': [('p02_range', 'san', False)], 'e2e': ['p02_limits']},
 'P03': {'harness': [('p03_extrema', 'san', False)], 'e2e': ['p03_extrema']},
 'P24': {'harness': [('p24_progress', 'san', True)]},
 'P04': {'harness': [('p04_simplecyl', 'plain', False)], 'e2e': ['p04_program']},
 'P05': {'harness': [('p05_mercator', 'plain', False)], 'e2e': ['p05_program']},
 'P06': {'harness': [('p06_pstereo', 'plain', False)], 'e2e': ['p06_program']},
 'P07': {'harness': [('p07_ortho', 'plain', False)], 'e2e': ['p07_program']},
 'P08': {'harness': [('p08_grid', 'san', False)], 'e2e': ['p08_program']},
 'P28': {'harness': [('p28_root', 'plain', False)]},
 'P16': {'harness': [('p16_spheroid', 'plain', False)]},
 'P25': {'harness': [('p25_gll', 'plain', False)], 'e2e': ['p25_program']},
 'P09': {'harness': [('p09_camera', 'plain', False)], 'e2e': ['p09_entries']},
 'P10': {'harness': [('p10_inverse', 'plain', False)]},
 'P11': {'harness': [('p11_photo', 'san', False)], 'e2e': ['p11_options']},
 'P12': {'harness': [('p12_interp', 'san', False)]},
 'P13': {'harness': [('p13_mosaic', 'san', False)], 'e2e': ['p13_mosaic']},
 'P14': {'harness': [('p14_virtual', 'plain', False)], 'e2e': ['p14_program']},
 'P15': {'harness': [('p15_scale', 'san', False)], 'e2e': ['p15_backplanes']},
 'P17': {'harness': [('p17_params', 'san', True)], 'e2e': ['p17_merge']},
 'P20': {'harness': [], 'e2e': ['p20_fits', 'p20_big']},
 'P22': {'harness': [], 'e2e': ['p22_expr']},
 'P26': {'harness': [], 'e2e': ['p26_config']},
 'P18': {'harness': [], 'e2e': ['p18_history']},
 'P27': {'harness': [], 'e2e': ['p27_reruns']},
 'P23': {'harness': [], 'e2e': ['p23_photos']},
 'P19': {'harness': [], 'e2e': ['p19_input']},
 'P29': {'harness': [], 'e2e': ['p29_cmdline']},
 'P21': {'harness': [], 'e2e': ['p21_faults']},
}
from texts import TEXTS
for p, s in SPECS.items():
    q, t, o = TEXTS[p]
    s['bounds'] = {'quick': q, 'thorough': q + ' Thorough: ' + t}
    s['oracle'] = o
