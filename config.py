# per-property search parameters: cases = (quick, thorough)
CONFIG = {
    'K01': dict(cases=(150000, 3000000)),
    'U01': dict(cases=(150000, 3000000)),
    'U02': dict(passes=[dict(name='main', cases=(150000, 3000000), leak=True)]),
    'U03': dict(cases=(150000, 3000000)),
    'U04': dict(cases=(150000, 3000000)),
    'U05': dict(cases=(100000, 2000000)),
    'U06': dict(cases=(30000, 600000)),
    'U07': dict(cases=(400000, 8000000)),
    'U08': dict(cases=(150000, 3000000)),
    'O01': dict(cases=(200000, 4000000)),
    'L01': dict(cases=(100000, 2000000)),
    'T01': dict(cases=(1000000, 20000000)),
    'T02': dict(cases=(500000, 10000000)),
    'T03': dict(cases=(500000, 10000000)),
    'T04': dict(cases=(300000, 6000000)),
    'T05': dict(cases=(120000, 2500000)),
    'T06': dict(passes=[dict(name='sequential', cases=(150000, 3000000)),
                        dict(name='threads', id='T06C', cases=(30000, 1000000), flavour='tsan', schedules=True, cov=False),
                        dict(name='shared', id='T06D', cases=(50000, 1000000), flavour='tsan', schedules=True, cov=False)]),
    'N01': dict(cases=(400000, 8000000)),
    'N02': dict(cases=(400000, 8000000)),
    'N03': dict(cases=(400000, 8000000)),
    'N04': dict(cases=(150000, 3000000)),
    'N05': dict(cases=(300000, 6000000)),
    'N06': dict(cases=(300000, 6000000)),
    'N07': dict(cases=(300000, 6000000)),
    'X01': dict(cases=(150000, 3000000)),
    'X02': dict(cases=(200000, 4000000)),
    'X04': dict(cases=(100000, 4000000)),
    'X07': dict(cases=(200000, 4000000)),
    'X06': dict(cases=(100000, 2000000)),
    'X05': dict(passes=[dict(name='histories', cases=(150000, 3000000)),
                        dict(name='threads', id='X05C', cases=(30000, 800000), flavour='tsan', schedules=True, cov=False)]),
    'X08': dict(cases=(200000, 4000000)),
    'L02': dict(cases=(60000, 1500000)),
    'E01': dict(cases=(100000, 2000000)),
    'A01': dict(cases=(60000, 1200000)),
    'C01': dict(passes=[dict(name='sequential', cases=(4000, 80000)),
                        dict(name='threads', id='C01C', cases=(4000, 80000), flavour='tsan', schedules=True, cov=False, cpu=50, wall=60),
                        dict(name='growth', id='C01G', cases=(64, 1200), flavour='plain', schedules=True, cov=False, cpu=400, wall=300, **{'no-grey': True})]),
    'C02': dict(passes=[dict(name='sequential', cases=(60000, 1500000)),
                        dict(name='threads', id='C02C', cases=(60000, 1500000), flavour='asan', schedules=True, cov=False, wall=30)]),
    'C03': dict(passes=[dict(name='threads', cases=(80000, 2000000), flavour='tsan', schedules=True, cov=False, wall=25)]),
    'C04': dict(passes=[dict(name='threads', cases=(60000, 1500000), flavour='tsan', schedules=True, cov=False, wall=25)]),
    'X03': dict(passes=[dict(name='histories', cases=(150000, 3000000)),
                        dict(name='long', id='X03L', cases=(16, 200), flavour='plain', cov=False, workers=4, cpu=400, wall=300, **{'no-grey': True})]),
}
# M01 runs every single-threaded history again in leak mode: each case is repeated and its live allocations must not grow
SEQUENTIAL = ['T01', 'T02', 'T03', 'T04', 'T05', 'T06', 'N01', 'N03', 'N04', 'N05', 'N07', 'K01', 'U01', 'U02', 'U03', 'U04', 'U05', 'U06', 'U07', 'U08', 'O01', 'L02',
              'X01', 'X02', 'X03', 'X04', 'X05', 'X06', 'X07', 'X08', 'C01', 'C02', 'E01', 'A01']
CONFIG['M01'] = dict(passes=[dict(name=i.lower(), id=i, exe='m01', harnesses=[k.lower() for k in SEQUENTIAL], **{'leak-only': True}, seconds=(25, 200), shrink=40,
                                  cases={'U06': (6000, 200000), 'C01': (300, 8000)}.get(i, (40000, 1500000))) for i in SEQUENTIAL])
# C05 runs histories of these in several threads at once
BESIDE = ['T01', 'T02', 'T03', 'T04', 'T05', 'T06', 'N01', 'N03', 'N04', 'N05', 'N07', 'K01', 'U01', 'U03', 'U04', 'U05', 'U06', 'U07', 'U08', 'L02', 'X01', 'X02', 'X03', 'X05', 'X08', 'E01']
CONFIG['C05'] = dict(passes=[dict(name='threads', id='C05', exe='c05', harnesses=['c05'] + [k.lower() for k in BESIDE], cases=(20000, 400000), flavour='tsan', schedules=True, cov=False, cpu=60, seconds=(90, 500)),
                             dict(name='first-use', id='C05F', exe='c05', harnesses=['c05'] + [k.lower() for k in BESIDE], cases=(4000, 60000), flavour='tsan', schedules=True, cov=False, cpu=60, seconds=(90, 300))])
ORDER = sorted(CONFIG)
NOTES = {}   # id -> (level_note, technique)
