ID='c27-horizon'; PROPERTY='C27'
NEEDS='Age ranges for which a backup has to be kept now because it is needed for the last range at the last step of the considered future (e.g. cycles 2 4 5), after several runs.'
BREAKS='The future is considered for one backup too few; the backup that would be needed last is removed, so that later no backup exists for the last age range.'
EDITS=[('contrib/expire_backups.py','''    for step in range(max(cycles)):
''','''    for step in range(max(cycles) - 1):
''')]
LIB=False
DEMO='''
import importlib.util, itertools, os, sys
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
sys.dont_write_bytecode = True
spec = importlib.util.spec_from_file_location('eb', os.path.join(os.getcwd(), 'contrib/expire_backups.py'))
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
m.log.setLevel(100)
for cyc in itertools.combinations(range(1, 10), 3):
    state = {}
    for n in range(40):
        x = '%04d' % n
        have = set(state) | {x}
        for d in m.process_backups(have, state, list(cyc)):
            state.pop(d, None)
        for a, b in zip((0, *cyc), cyc):
            if n >= cyc[-1]:
                assert any(a <= v < b for v in state.values()), (cyc, n, (a, b), state)
'''
