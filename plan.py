# property -> the monitor processes that decide it
def S(harness, mode='asan', name=None, **kw):
    return dict(harness=harness, mode=mode, name=name or harness + '/' + mode, **kw)
T = dict(quick=0.25, thorough=4.0)
U = dict(quick=3.0, thorough=200.0)   # the coordinate and time workloads are cheap
PLAN = {
 'P01': dict(stages=[S('h_card', scale=T, shards=dict(quick=4, thorough=8))]),
 'P02': dict(stages=[S('h_card', scale=T, shards=dict(quick=4, thorough=8))]),
 'P03': dict(stages=[S('h_fits', scale=T, shards=dict(quick=4, thorough=8))]),
 'P04': dict(stages=[S('h_fits', scale=T, shards=dict(quick=4, thorough=8))]),
 'P05': dict(stages=[S('h_fits', scale=T, shards=dict(quick=4, thorough=8))]),
 'P06': dict(stages=[S('h_fits', scale=T, shards=dict(quick=4, thorough=8))]),
 'P08': dict(stages=[S('h_fits', scale=T, shards=dict(quick=4, thorough=8))]),
 'P10': dict(stages=[S('h_fits', scale=T, shards=dict(quick=4, thorough=8))]),
 'P07': dict(stages=[S('h_codec', scale=T, shards=dict(quick=4, thorough=8))]),
 'P12': dict(stages=[S('h_stream', scale=T, shards=dict(quick=4, thorough=8))]),
 'P13': dict(stages=[S('h_stream', scale=T, shards=dict(quick=4, thorough=8))]),
 'P09': dict(stages=[S('h_edit', scale=T, shards=dict(quick=4, thorough=8))]),
 'P14': dict(stages=[S('h_thread', 'tsan', scale=dict(quick=0.5, thorough=40), shards=dict(quick=2, thorough=2)), S('h_thread', 'asan', scale=dict(quick=1, thorough=40), shards=dict(quick=2, thorough=2))]),
 'P15': dict(stages=[S('h_env', scale=dict(quick=.5, thorough=20), shards=dict(quick=4, thorough=8))]),
 'P16': dict(stages=[S('u_main', 'units', name='units', builds=dict(quick=('program', 'release', 'clang', 'uchar'), thorough=('program', 'release', 'clang', 'uchar', 'clang-release', 'later')), scale=dict(quick=1, thorough=40), shards=dict(quick=4, thorough=8))]),
 'P20': dict(stages=[S('h_rep', 'ubsan', scale=U, shards=dict(quick=4, thorough=8))]),
 'P21': dict(stages=[S('h_rep', 'ubsan', name='h_rep/arith', defs=('ARITH',), scale=U, shards=dict(quick=4, thorough=8))]),
 'P22': dict(stages=[S('h_diff', 'ubsan', scale=U, shards=dict(quick=4, thorough=8))]),
 'P23': dict(stages=[S('h_sky', 'ubsan', scale=U, shards=dict(quick=4, thorough=8))]),
 'P24': dict(stages=[S('h_sky', 'ubsan', scale=U, shards=dict(quick=4, thorough=8))]),
 'P25': dict(stages=[S('h_sky', 'ubsan', scale=U, shards=dict(quick=4, thorough=8))]),
 'P26': dict(stages=[S('h_time', 'ubsan', scale=U, shards=dict(quick=1, thorough=4))]),
 'P27': dict(stages=[S('h_time', 'ubsan', scale=U, shards=dict(quick=4, thorough=8))]),
 'P28': dict(stages=[S('h_time', 'ubsan', scale=U, shards=dict(quick=2, thorough=8))]),
 'P29': dict(stages=[S('h_time', 'ubsan', scale=U, shards=dict(quick=2, thorough=8))]),
 'P11': dict(stages=[S('h_hostile', scale=T, shards=dict(quick=4, thorough=8)),
                      S('h_hostile', 'plain', name='h_hostile/memcheck', valgrind=True, scale=dict(quick=0.01, thorough=0.2), shards=dict(quick=4, thorough=8)),
                      S('h_hostile', 'fuzz', tiers=('thorough',), runs=dict(thorough=40000), shards=dict(thorough=8))]),
}
