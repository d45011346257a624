# Registry: build configurations, workload units, and what each check runs.
SAN = ['-O1', '-g', '-fno-omit-frame-pointer']
ASAN = SAN + ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DBOOST_USE_UCONTEXT', '-DBOOST_USE_ASAN']
TSAN = SAN + ['-fsanitize=thread', '-DBOOST_USE_UCONTEXT', '-DBOOST_USE_TSAN']
ASSERT = ['-DBOOST_ENABLE_ASSERT_HANDLER']
CONFIGS = {
    'A': dict(cxx='g++', flags=['-std=c++11', '-O3', '-DNDEBUG'], desc='g++ C++11 -O3 NDEBUG, fcontext', cost=1.2),
    'B': dict(cxx='g++', flags=['-std=c++17', '-O2', '-DNDEBUG'], desc='g++ C++17 -O2 NDEBUG, fcontext', cost=1.2),
    'C': dict(cxx='g++', flags=['-std=c++14', '-O0'] + ASSERT, desc='g++ C++14 -O0, library assertions monitored, fcontext', cost=0.6),
    'D': dict(cxx='clang++', flags=['-std=c++20', '-O2'] + ASSERT, desc='clang++ C++20 -O2, library assertions monitored, fcontext', cost=1),
    'E': dict(cxx='g++', flags=['-std=c++11'] + ASAN + ASSERT, desc='g++ C++11 ASan+UBSan, ucontext', shim=True, cost=3, scale=0.15),
    'F': dict(cxx='g++', flags=['-std=c++17'] + ASAN + ASSERT, desc='g++ C++17 ASan+UBSan, ucontext', shim=True, cost=3, scale=0.15),
    'G': dict(cxx='clang++', flags=['-std=c++20'] + ASAN + ASSERT, desc='clang++ C++20 ASan+UBSan, ucontext', shim=True, cost=3, scale=0.15),
    'H': dict(cxx='g++', flags=['-std=c++11'] + TSAN, desc='g++ C++11 TSan, ucontext', shim=True, cost=2.5, scale=0.1),
    'I': dict(cxx='clang++', flags=['-std=c++17'] + TSAN, desc='clang++ C++17 TSan, ucontext', shim=True, cost=2.5, scale=0.1),
    'V': dict(cxx='g++', flags=['-std=c++17', '-O1', '-g', '-DBOOST_USE_VALGRIND'], desc='g++ C++17 under valgrind memcheck, fcontext', valgrind=True, cost=4, scale=0.02),
    'W': dict(cxx='g++', flags=['-std=c++11', '-O1', '-g', '-DBOOST_USE_VALGRIND'], desc='g++ C++11 under valgrind memcheck, fcontext', valgrind=True, cost=4, scale=0.02),
    'J': dict(cxx='g++', flags=['-std=c++17', '-O2', '-DBOOST_NO_CXX14_GENERIC_LAMBDAS', '-DBOOST_NO_CXX14_STD_EXCHANGE'] + ASSERT, desc='g++ C++17, forced C++11 lambda fallback', cost=1),
    'K': dict(cxx='g++', flags=['-std=c++14', '-O1', '-DBOOST_NO_CXX11_STD_ALIGN'] + ASSERT, desc='g++ C++14, forced no-std::align fallback', cost=1),
    'L': dict(cxx='clang++', flags=['-std=c++11', '-O1'] + ASSERT, desc='clang++ C++11 -O1, library assertions monitored', cost=1),
    'M': dict(cxx='g++', flags=['-std=c++20', '-O2', '-DBOOST_NO_CXX17_STD_INVOKE', '-DNDEBUG'], desc='g++ C++20 -O2, forced no-std::invoke fallback', cost=1.2),
    'N': dict(cxx='clang++', flags=['-std=c++2c', '-O3', '-DNDEBUG', '-ftrivial-auto-var-init=pattern'], desc='clang++ C++26 -O3 NDEBUG, automatic variables pattern-initialised, fcontext', cost=1.2),
    'O': dict(cxx='g++', flags=['-std=c++23', '-Os', '-D_GLIBCXX_ASSERTIONS', '-ftrivial-auto-var-init=pattern'] + ASSERT, desc='g++ C++23 -Os, automatic variables pattern-initialised, library assertions monitored, fcontext', cost=1.2),
    'P': dict(cxx='g++', flags=['-std=c++17', '-O3', '-flto=auto', '-fno-semantic-interposition', '-fvisibility=hidden', '-fomit-frame-pointer', '-fstrict-aliasing', '-DNDEBUG'], desc='g++ C++17 -O3 with link-time optimisation, hidden visibility, NDEBUG', cost=2),
    'Q': dict(cxx='g++', flags=['-std=c++11', '-O1', '-fno-elide-constructors', '-funsigned-char', '-fshort-enums', '-fcf-protection=full'] + ASSERT, desc='g++ C++11 -O1 without copy elision, unsigned char, short enums, library assertions monitored', cost=1),
    'S': dict(cxx='g++', flags=['-std=c++17', '-O1', '-fsplit-stack', '-DBOOST_USE_SEGMENTED_STACKS', '-DBOOST_USE_UCONTEXT'] + ASSERT, desc='g++ C++17 split stacks, segmented_stack as default, ucontext', shim=True, cost=1),
    'T': dict(cxx='g++', flags=['-std=c++11', '-O1', '-fsplit-stack', '-DBOOST_USE_SEGMENTED_STACKS', '-DBOOST_USE_UCONTEXT'] + ASSERT, desc='g++ C++11 split stacks, segmented_stack as default, ucontext', shim=True, cost=1),
    'U': dict(cxx='g++', flags=['-std=c++17', '-O2', '-DBOOST_USE_UCONTEXT'] + ASSERT, desc='g++ C++17 -O2, ucontext', shim=True, cost=1.2, scale=0.5),
}
ANYCO = tuple(('anyco.cpp', ('-DAPART=%d' % i,)) for i in range(3))
ENGINE = tuple(('kinds.cpp', ('-DKGROUP=%d' % i,)) for i in range(5))
UNITS = {'engine': (('engine.cpp', ()),) + ENGINE}
for _u in ('t_exc', 't_unwind', 't_valid', 't_move', 't_state', 't_iso', 't_threads', 't_long', 't_exit'):
    UNITS[_u] = ((_u + '.cpp', ()),) + ANYCO
for _u in ('t_life', 't_transfer', 't_ref', 't_alloc', 't_iter', 't_align', 't_pipe', 't_stacks', 't_reads', 't_ctorfail'):
    UNITS[_u] = ((_u + '.cpp', ()),)
UNITS['t_headers'] = (('t_headers.cpp', ()),) + tuple(('t_headers.cpp', ('-DHPART=%d' % i,)) for i in range(6))
UNITS['t_counts'] = (('t_counts.cpp', ()),) + tuple(('t_counts.cpp', ('-DNPART=%d' % i,)) for i in range(5))
UNITS['t_types'] = (('t_types.cpp', ()),) + tuple(('t_types.cpp', ('-DTPART=%d' % i,)) for i in range(3))
UNITS['t_callable'] = (('t_callable.cpp', ()),) + tuple(('t_callable.cpp', ('-DCPART=%d' % i,)) for i in range(6))
MAIN = 'ACDF'          # the configurations every quick check uses
ALLF = 'ABCDJKLMNOPQ'      # fcontext, uninstrumented
ENG_RULE = ('engine: each case is one random program over a set of coroutines (payload kinds int/struct/tracked copyable/move-only/T&/T const&/T*/void x pull/push), '
            'judged online by a reference model; non-trivial: at least two coroutines and ten control transfers; distinct: by hash of the event trace. ')
COUNTS_RULE = 't_counts: long sequences (beyond 2^16 transfers), moves at every step, hundreds of handles alive, tens of thousands of lives, chains of hundreds of coroutines, value sizes 1..65536, for nine payload types; '
TYPES_RULE = 't_types: 54 kinds of value and reference, each pulled and pushed with every form of push and read, with moves of the handle, exceptions, abandonment; '
CHECKS = {}


def chk(pid, own, rule, quick, thorough, level='exploration', **kw):
    """own: codes that refute the property when the random-program engine reports them; a dedicated
    unit's oracle states the property itself, so whatever it reports counts"""
    d = dict(own=own, rule=rule, quick=quick, thorough=thorough, level=level)
    d.update(kw)
    CHECKS[pid] = d


def eng(mode, n, cfgs=MAIN, chunk=None, **o):
    return ('engine', cfgs, mode, n, chunk or max(1, n // 2), o)


def unit(name, n, cfgs=MAIN, chunk=None, mode='', **o):
    return (name, cfgs, mode, n, chunk or n, o)


def counts(cfgs=MAIN):
    return unit('t_counts', 108, cfgs, 54, fixed=True)


def far(cfgs='AD'):
    # 2^24 transfers through one handle
    return unit('t_counts', 6, cfgs, 1, 'far', fixed=True)


def farther():
    # more than 2^32 transfers through one handle
    return [unit('t_counts', 6, 'AD', 1, 'farther', fixed=True, timeout=1800)]


def dcounts():
    return [unit('t_counts', 1620, ALLF, 54, fixed=True), unit('t_counts', 1620, 'EFG', 54, fixed=True), unit('t_counts', 54, 'VW', 6, fixed=True, timeout=600), unit('t_counts', 54, 'AD', 6, mode='deep', fixed=True, timeout=600)]


def dexit():
    # no ucontext: Boost.Context's ucontext fibers cannot be used once the per-thread record is gone
    return [unit('t_exit', 36000, ALLF, 4500, timeout=600), unit('t_exit', 2700, 'VW', 270, timeout=600)]


def deep(name, n, san=None, val=None, cfgs=ALLF, mode='', **o):
    """thorough exploration of a unit over every configuration"""
    r = [unit(name, n, cfgs, max(1, n // 8), mode, **o)]
    r.append(unit(name, san or n, 'EFG', max(1, (san or n) // 8), mode, **o))
    r.append(unit(name, val or n // 10, 'VW', max(1, (val or n // 10) // 4), mode, timeout=600, **o))
    return r


def deng(mode, n, plus=False):
    r = [eng(mode, n, ALLF + 'U', n // 16), eng(mode, n, 'EFG', n // 16)]
    if plus:
        r.append(eng(mode + '+', n, ALLF, n // 16))
    return r


chk('C01', ['value', 'life', 'control.back', 'control.gain', 'ref'],
    TYPES_RULE + COUNTS_RULE + ENG_RULE + 't_transfer: payload type x direction x push form x read form, values compared with the sequence sent, copies and moves counted',
    [eng('transfer', 6000), unit('t_transfer', 12000), unit('t_types', 6000, 'ACF'), counts('CDF'), far('D')],
    deng('transfer', 200000) + deep('t_transfer', 600000) + deep('t_types', 300000) + dcounts(),
    floors={'values_transferred': 50000, 'reads': 50000})
chk('C02', ['ref', 'value', 'control.back', 'control.gain'],
    TYPES_RULE + COUNTS_RULE + ENG_RULE + 't_ref: sequences of designated objects (polymorphic, non-copyable, stack resident, repeated, null pointers), address of every delivered object compared',
    [eng('refs', 6000), unit('t_ref', 12000), unit('t_types', 6000, 'AD'), counts('CF')],
    deng('refs', 200000) + deep('t_ref', 600000) + deep('t_types', 300000) + dcounts())
chk('C03', ['control', 'state', 'unwind.context', 'unwind.pending', 'unwind.entered', 'exc.state', 'value.wrong', 'ref'],
    COUNTS_RULE + ENG_RULE + 'every gain and return of control is compared with the point the model predicts',
    [eng('mixed', 6000), eng('nest', 4000), eng('mixed+', 5000, 'AD'), counts('ACDF'), far('AD')],
    deng('mixed', 300000, True) + deng('nest', 150000, True) + deng('transfer', 60000) + deng('moves', 60000, True) + dcounts() + farther(),
    floors={'switches': 100000})
chk('C04', ['valid', 'iter', 'control'],
    TYPES_RULE + COUNTS_RULE + ENG_RULE + 't_valid: handle state x history x placement of tests, differential against the same history without tests',
    [eng('observe', 6000), unit('t_valid', 10000), unit('t_types', 3000, 'CD'), counts('ACDF'), far('A')],
    deng('observe', 200000, True) + deep('t_valid', 400000) + deep('t_types', 200000) + dcounts())
chk('C05', ['exc', 'valid', 'unwind', 'control'],
    TYPES_RULE + ENG_RULE + 't_exc: chains of coroutines x 14 exception kinds x throw points x resumers, delivered kind/contents/point checked at every level',
    [eng('exc', 6000), unit('t_exc', 12000), unit('t_types', 4000, 'ACF')],
    deng('exc', 250000, True) + deep('t_exc', 400000) + deep('t_types', 200000),
    floors={'exceptions': 1000, 'exceptions_delivered': 1000})
chk('C06', ['unwind', 'alloc.live_locals', 'exc.unwind_leak', 'exc.unwind_visible', 'control', 'functor.leaked', 'life.leak'],
    TYPES_RULE + COUNTS_RULE + ENG_RULE + 't_exit: handles held by static and thread_local objects, continued and destroyed during process exit and thread exit; t_unwind: variant x call depth x suspension point x destruction mode; non-trivial: a suspended or never started coroutine was destroyed',
    [eng('unwind', 6000), eng('unwind+', 5000, 'AD'), unit('t_unwind', 12000), unit('t_types', 3000, 'CD'), unit('t_exit', 900, 'ACD'), unit('t_exit', 90, 'V'), counts('CF')],
    deng('unwind', 250000, True) + deep('t_types', 100000) + deep('t_unwind', 400000) + dexit() + dcounts(),
    floors={'locals_unwound': 1000, 'suspended_destroyed': 1000})
chk('C07', ['life', 'alloc.live_values', 'value'],
    ENG_RULE + 't_life: random transfer histories; each history is run once per constructor call of the transferred type with that call throwing (fault sweep), live objects tracked by address',
    [eng('transfer', 5000), unit('t_life', 3000, chunk=1500)],
    deng('transfer', 150000) + deng('exc', 60000) + deep('t_life', 150000),
    level='fault_enumeration', floors={'faults_injected': 1000})
chk('C08', ['alloc', 'unwind.leaked'],
    ENG_RULE + 't_alloc: class specialisation x fourteen kinds and forms of allocator x ending x way of destruction; one ledger per coroutine records allocate, deallocate and the objects on the stack',
    [eng('unwind', 5000), eng('moves', 3000), unit('t_alloc', 12000)],
    deng('unwind', 150000, True) + deng('moves', 100000) + deep('t_alloc', 400000),
    floors={'stacks_returned': 10000})
chk('C09', ['move', 'valid', 'unwind', 'alloc', 'control', 'value', 'functor'],
    TYPES_RULE + COUNTS_RULE + ENG_RULE + 't_move: state of source x state of target x operation (construct, assign, self-assign, swap, container moves) followed by use of both handles',
    [eng('moves', 6000), eng('moves+', 3000, 'AD'), unit('t_move', 12000), unit('t_types', 4000, 'AC'), counts('CD')],
    deng('moves', 250000, True) + deep('t_move', 400000) + deep('t_types', 200000) + dcounts())
chk('C10', ['functor'],
    ENG_RULE + 't_callable: class specialisation x kind of callable x passing form x disposal; instances of the callable tracked',
    [unit('t_callable', 9000, 'ACDFJ'), eng('mixed', 2000, 'AC')],
    deep('t_callable', 300000) + deng('mixed', 60000),
    compile_owner=True)
chk('C11', ['iter', 'value', 'ref'],
    TYPES_RULE + COUNTS_RULE + ENG_RULE + 't_iter: range-for, algorithms, iterator pairs, output iterators over random sequences, compared with a plain vector',
    [unit('t_iter', 16000), unit('t_types', 3000, 'CD'), eng('observe', 5000), counts('CDF')],
    deep('t_iter', 500000) + deep('t_types', 100000) + deng('observe', 120000) + dcounts())
chk('C12', ['state', 'control'],
    ENG_RULE + 't_state: recursion, temporaries, callee-saved registers, floating-point environment and frames checked across suspensions on both sides',
    [unit('t_state', 3000, chunk=1500), eng('state', 4000)],
    deep('t_state', 100000) + deng('state', 150000))
chk('C13', ['value', 'exc', 'control', 'state', 'valid', 'unwind', 'life', 'iter', 'ref', 'functor', 'alloc'],
    COUNTS_RULE + 't_iso: 2..40 random coroutines, each run alone and then in a random interleaving with creation, completion, exceptional exit and destruction of the others; full traces compared; '
    'non-trivial: more than one coroutine; distinct: by hash of the schedule. ' + ENG_RULE,
    [unit('t_iso', 2000, chunk=1000), eng('mixed', 3000), counts('CDF')],
    deep('t_iso', 60000) + deng('mixed', 100000) + dcounts(),
    floors={'interleaved_steps': 10000})
chk('C14', ['thread', 'control'],
    't_threads: up to eight threads, each driving its own coroutines or handing coroutines over to others with random migration of resume, move and destruction; '
    'coroutines owned by thread_local and static objects at thread and process exit (t_exit); full traces compared with a single-threaded run; TSan watches memory; distinct: by plan hash',
    [unit('t_exit', 450, 'AC'), unit('t_threads', 1500, 'ACD', chunk=500), unit('t_threads', 5000, 'F', chunk=2500), unit('t_threads', 6000, 'HI', chunk=3000)],
    dexit() + [unit('t_threads', 60000, ALLF, 4000, timeout=600), unit('t_threads', 60000, 'EFG', 8000, timeout=600), unit('t_threads', 300000, 'HI', 20000, timeout=600)],
    floors={'migrations': 100})
chk('C15', ['life.use_dead', 'alloc.canary', 'align'],
    ENG_RULE + 'all engine profiles and workloads under ASan+UBSan, valgrind and with the library\'s own assertions turned into violations',
    [eng('mixed', 12000, 'CEF'), eng('unwind', 8000, 'CF'), eng('exc', 8000, 'CF'), eng('moves', 8000, 'CF'), eng('mixed', 3000, 'V', 3000), unit('t_life', 1500, 'CF'), unit('t_transfer', 6000, 'F')]
    + [unit(u, n, 'C') for u, n in (('t_iter', 3000), ('t_move', 2000), ('t_exc', 1500), ('t_unwind', 1500), ('t_types', 1500), ('t_callable', 1500), ('t_alloc', 1500), ('t_valid', 2000), ('t_ref', 2000), ('t_ctorfail', 1500), ('t_pipe', 1000), ('t_align', 1200))],
    [x for m in ('mixed', 'transfer', 'refs', 'exc', 'unwind', 'moves', 'nest', 'observe', 'state') for x in (eng(m, 60000, 'CDJKL', 6000), eng(m, 200000, 'EFG', 12500), eng(m, 30000, 'VW', 4000, timeout=600))]
    + [unit(u, n, 'EFG', n // 6, timeout=600) for u, n in (('t_life', 100000), ('t_transfer', 200000), ('t_iter', 200000), ('t_callable', 100000), ('t_align', 300000), ('t_ctorfail', 200000), ('t_pipe', 60000))],
    floors={'switches': 10000})
chk('C16', ['align', 'alloc.canary'],
    't_align: class specialisation x payload alignment 1..256 x stack address and size swept over all residues; every library and user object located by address; canaries around the block; the block is filled with a pattern; '
    'distinct: by plan. ' + ENG_RULE,
    [unit('t_align', 12000, 'ACDF', chunk=6000), eng('unwind', 2000, 'AFK'), unit('t_alloc', 1500, 'K')],
    [unit('t_align', 400000, 'ABCDJLMNO', 50000), unit('t_align', 400000, 'EFG', 10000), unit('t_align', 40000, 'VW', 400, timeout=600)] + deng('unwind', 50000) + [unit('t_alloc', 30000, 'K', 5000)])
chk('C17', ['control', 'unwind', 'value', 'exc'],
    COUNTS_RULE + 't_pipe: eleven families of composed programs with random structure, outputs compared with the direct algorithm, stages checked to unwind inside out; distinct: by structure. ' + ENG_RULE,
    [unit('t_pipe', 12000, chunk=6000), eng('nest', 3000), eng('nest+', 2000, 'AD'), counts('ADF')],
    deep('t_pipe', 400000) + deng('nest', 120000, True) + dcounts(),
    floors={'pipe_values': 50000})
chk('C18', None,
    'the same seeds are run under every configuration; each case yields a hash of its complete event trace (control points, values, exceptions, validity, destruction); any difference between two configurations is a violation; '
    'distinct: by trace hash',
    [eng('mixed', 1500, 'ACDFJKLOPQ', 1500, extra=('--trace', '1')), eng('exc', 800, 'ACDFJLOPQ', 800, extra=('--trace', '1')), unit('t_iso', 300, 'ABCDEFGJKLMNOPQU', 300, extra=('--trace', '1')),
     unit('t_headers', 1500, 'ACDLOPQST', 1500), unit('t_align', 1500, 'ACDJNO', 1500), unit('t_transfer', 2000, 'ACDJKLMNO', 2000), unit('t_stacks', 20, 'ACJNO', fixed=True), unit('t_exc', 1500, 'AJLO', 1500), unit('t_unwind', 1500, 'AJLO', 1500),
     unit('t_ref', 2000, 'AJLMO', 2000), unit('t_alloc', 2000, 'AJKLO', 2000), unit('t_iter', 3000, 'AJLMO', 3000), unit('t_callable', 2000, 'AJLMPQ', 2000), unit('t_move', 2000, 'AJLO', 2000), unit('t_life', 500, 'AJLO', 500), unit('t_types', 2000, 'AJLOQ', 2000), unit('t_ctorfail', 2000, 'AJLOPQ', 2000)],
    [eng(m, 30000, 'ABCDEFGJKLMNOPQU', 3750, extra=('--trace', '1')) for m in ('mixed', 'transfer', 'refs', 'exc', 'unwind', 'moves', 'nest', 'observe', 'state')] + [unit('t_iso', 20000, 'ABCDEFGJKLMNOPQU', 2500, extra=('--trace', '1'))]
    + [unit('t_headers', 20000, 'ABCDEFGJKLMNOUST', 5000)] + [unit(u, n, 'ABCDEFGJKLMNOPQU', n // 6) for u, n in (('t_align', 60000), ('t_transfer', 100000), ('t_ref', 60000), ('t_exc', 60000), ('t_unwind', 60000), ('t_iter', 60000), ('t_state', 12000))],
    compare=True, compile_owner=True, floors={'trace_comparisons': 1000})
chk('C19', None,
    't_stacks: lives of all specialisations on every provided allocator with frames dug to the requested size; guard page hit in a child process; pool reuse under competing allocations and after the allocator is gone; '
    'segmented stacks recursing far beyond their size; distinct: by seed',
    [unit('t_stacks', 240, 'ABCD', chunk=120, fixed=True), unit('t_stacks', 120, 'F', chunk=60, fixed=True), unit('t_stacks', 600, 'ST', fixed=True)],
    [unit('t_stacks', 8000, ALLF, 500, fixed=True, timeout=600), unit('t_stacks', 4000, 'EFG', 250, fixed=True, timeout=600), unit('t_stacks', 30000, 'ST', 4000, fixed=True, timeout=600)],
    floors={'guard_faults': 50, 'pool_reuses': 100, 'segmented_lives': 100})
chk('C20', ['read', 'value', 'valid'],
    't_reads: payload type x direction x random sequences of reads between two resumes (get, dereference, operator->, range-for, tests, moves of the handle), each compared with the value sent; distinct: by plan. ' + ENG_RULE,
    [unit('t_reads', 20000, chunk=10000), eng('observe', 3000)],
    deep('t_reads', 600000) + deng('observe', 60000),
    floors={'reads': 50000})
chk('C21', None,
    't_long: identical cycles of seven kinds of work and long-lived single coroutines; heap in use, mappings and live objects compared between runs of cycles; non-trivial: every case; distinct: by seed',
    [unit('t_long', 48, 'ACD', chunk=12, fixed=True), unit('t_long', 24, 'F', chunk=8, fixed=True)],
    [unit('t_long', 160, ALLF, 8, fixed=True, timeout=600), unit('t_long', 160, 'EFG', 8, fixed=True, timeout=600), unit('t_long', 16, 'ADJL', 1, mode='deep', fixed=True, timeout=600)],
    floors={'cycles': 1000})
chk('C22', ['exc.lost', 'unwind', 'alloc', 'functor', 'control.ctor', 'valid'],
    't_ctorfail: class specialisation x nine construction faults x callable form x allocator form x context (plain, inside a coroutine, in a handler); live callables, objects, allocators and stacks counted; distinct: by plan. ' + ENG_RULE,
    [unit('t_ctorfail', 14000, chunk=7000), eng('exc', 3000)],
    deep('t_ctorfail', 400000) + deng('exc', 80000),
    level='fault_enumeration', floors={'failed_constructions': 1000, 'empty_pulls': 500})
