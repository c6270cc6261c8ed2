"""Which module produces the sessions of each property."""
MODULE = {
    'C01': ['s_dyn'], 'C02': ['s_dyn', 's_real', 's_four'], 'C03': ['s_dyn', 's_four'], 'C04': ['s_dyn', 's_real', 's_four'],
    'C05': ['s_real'], 'C06': ['s_real'], 'C07': ['s_four'], 'C08': ['s_four'], 'C09': ['s_four'], 'C10': ['s_four'],
    'C11': ['s_dyn', 's_four'], 'C12': ['s_dyn'], 'C13': ['s_real'], 'C14': ['s_life'], 'C15': ['s_life'], 'C16': ['s_pure'], 'C17': ['s_help'], 'C18': ['s_api'],
}

# Sessions of the quick check, as multiples of the numbers in the generators
SCALE = {'C02': 2, 'C13': 3, 'C14': 3, 'C15': 2, 'C16': 3, 'C18': 1.5}

# Design models checked by TLC along with the property
TIME = [{'module': 'MC_Time.tla', 'cfg': 'MC_Time.cfg'},
        {'module': 'MC_Time.tla', 'cfg': 'MC_TimeBig.cfg', 'workers': 3, 'thorough': True}]
SPACE = [{'module': 'MC_Space.tla', 'cfg': 'MC_Space.cfg', 'workers': 3},
         {'module': 'MC_Space.tla', 'cfg': 'MC_SpaceBig.cfg', 'workers': 3, 'thorough': True}]
REAL = [{'module': 'MC_Real.tla', 'cfg': 'MC_Real.cfg', 'workers': 3}]
FOUR = [{'module': 'MC_Four.tla', 'cfg': 'MC_Four.cfg', 'workers': 3},
        {'module': 'MC_Four.tla', 'cfg': 'MC_FourBig.cfg', 'workers': 4, 'thorough': True}]
PATHS = [{'module': 'MC_Api.tla', 'cfg': 'MC_ApiPaths.cfg', 'workers': 3},
         {'module': 'MC_Api.tla', 'cfg': 'MC_ApiPathsBig.cfg', 'workers': 3, 'thorough': True}]

DESIGN = {
    'C17': [{'module': 'MC_Help.tla', 'cfg': 'MC_Help.cfg', 'workers': 3},
            {'module': 'MC_Help.tla', 'cfg': 'MC_HelpBig.cfg', 'workers': 4, 'thorough': True}],
    'C14': PATHS, 'C18': [{'module': 'MC_Api.tla', 'cfg': 'MC_ApiCli.cfg', 'workers': 3}] + PATHS,
    'C04': REAL, 'C05': REAL,
    'C07': [{'module': 'MC_Kvec.tla', 'cfg': 'MC_Kvec.cfg'},
            {'module': 'MC_Kvec.tla', 'cfg': 'MC_KvecBig.cfg', 'workers': 4, 'thorough': True}],
    'C08': FOUR, 'C09': FOUR, 'C10': FOUR,
    'C13': [{'module': 'MC_Real.tla', 'cfg': 'MC_Angle.cfg', 'workers': 3}],
    'C01': TIME, 'C02': TIME, 'C03': TIME,
    'C06': [{'module': 'MC_Cells.tla', 'cfg': 'MC_Cells.cfg', 'workers': 3},
            {'module': 'MC_Cells.tla', 'cfg': 'MC_CellsBad.cfg', 'expect': 'violation'},
            {'module': 'MC_Cells.tla', 'cfg': 'MC_CellsFine.cfg', 'workers': 3, 'thorough': True},
            {'module': 'MC_Cells.tla', 'cfg': 'MC_CellsBig.cfg', 'workers': 3, 'thorough': True}],
    'C11': SPACE, 'C12': SPACE,
    'C15': [{'module': 'MC_Life.tla', 'cfg': 'MC_Life.cfg'}],
    'C16': [{'module': 'MC_Pure.tla', 'cfg': 'MC_Pure.cfg'},
            {'module': 'MC_Pure.tla', 'cfg': 'MC_PureBad.cfg', 'expect': 'violation'}],
}
# Models whose simulated behaviours are replayed on the implementation
PREPARE = {
    'C15': [{'module': 'MC_Life', 'cfg': 'MC_LifeGen.cfg', 'num': 700, 'depth': 60}],
    'C16': [{'module': 'MC_Pure', 'cfg': 'MC_PureGen.cfg', 'num': 800, 'depth': 16}],
}
NOTES = {}
ASSUMPTIONS = [
    'TLC and the CommunityModules evaluate the specification correctly',
    'numpy, atooms and the f90 compiler are trusted; the values are compared within 3e-8',
    'inputs are lattice/dyadic configurations for which the specification has exact rational values',
]
