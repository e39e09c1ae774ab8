A = 'detect_odr_violation=0:abort_on_error=0:exitcode=66:detect_leaks=1:allocator_may_return_null=0:detect_stack_use_after_return=1:symbolize=1:handle_abort=1'
CHECKS = {
 'P27': dict(monitor='p27', cases=dict(quick=4000, thorough=60000), env={'ASAN_OPTIONS': A.replace('detect_stack_use_after_return=1','detect_stack_use_after_return=0')}),
 'P26': dict(monitor='p26', internal=True, cases=dict(quick=1500000, thorough=60000000)),
 'P25': dict(monitor='p25', internal=True, cases=dict(quick=30000, thorough=600000)),
 'P24': dict(monitor='p24', internal=True, cases=dict(quick=10000, thorough=120000)),
 'P23': dict(monitor='p23', extra=('tool.cpp',), tools=('gdxmerge',), cases=dict(quick=3000, thorough=30000)),
 'P22': dict(monitor='p22', extra=('tool.cpp',), tools=('gdxdiff',), cases=dict(quick=4000, thorough=40000)),
 'P21': dict(monitor='p21', extra=('tool.cpp',), tools=('gdxdump',), cases=dict(quick=2400, thorough=20000)),
 'P14': dict(monitor='p14', cases=dict(quick=12000, thorough=60000)),
 'P20': dict(runner='p20run', cases=dict(quick=2000, thorough=20000), memcheck=dict(quick=160, thorough=2000)),
 'P19': dict(monitor='p19', cases=dict(quick=15000, thorough=150000)),
 'P18': dict(monitor='p18', flavor='tsan', shards=4, cases=dict(quick=300, thorough=8000)),
 'P17': dict(monitor='p17', cases=dict(quick=4000, thorough=60000), env={'ASAN_OPTIONS': A+':max_allocation_size_mb=400'}),
 'P16': dict(monitor='p16', extra=('iofault.cpp',), cases=dict(quick=10000, thorough=60000), assumptions=['the 52-byte index at the head of the file is written at once (it lies within one sector); every other write may be torn at any byte']),
 'P15': dict(monitor='p15', extra=('iofault.cpp',), cases=dict(quick=2500, thorough=20000)),
 'P13': dict(monitor='p13', cases=dict(quick=5000, thorough=60000)),
 'P12': dict(monitor='p12', cases=dict(quick=12000, thorough=40000)),
 'P11': dict(monitor='p11', cases=dict(quick=4000, thorough=40000)),
 'P10': dict(monitor='p10', cases=dict(quick=20000, thorough=150000)),
 'P09': dict(monitor='p09', cases=dict(quick=25000, thorough=150000)),
 'P08': dict(monitor='p08', cases=dict(quick=10000, thorough=80000)),
 'P07': dict(monitor='p07', cases=dict(quick=40000, thorough=120000)),
 'P06': dict(monitor='p06', cases=dict(quick=20000, thorough=120000)),
 'P05': dict(monitor='p05', cases=dict(quick=10000, thorough=80000)),
 'P04': dict(monitor='p04', cases=dict(quick=4000, thorough=40000)),
 'P03': dict(monitor='p03', cases=dict(quick=5000, thorough=60000)),
 'P02': dict(monitor='p02', cases=dict(quick=5000, thorough=60000)),
 'P01': dict(monitor='p01', cases=dict(quick=8000, thorough=60000)),
}
NOTE = ('Exploration: the property held on every generated case of the run, judged by an oracle that is independent of the code under test '
        '(reference model of the content, return codes and error counts) with ASan+UBSan watching; trusts the model, the compiler and its sanitizer runtimes.')
NOT_APPLICABLE = {}
