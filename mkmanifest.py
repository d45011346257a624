#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry (run by hand after changing checks)."""
import json
from checks import CHECKS
T = {
 'C01': ('runtime monitoring: online reference model over random programs + sequence oracle; ASan/UBSan', 'values received are compared one by one with the values sent for thirteen payload types, both directions, all push and read forms; copies and moves are counted.'),
 'C02': ('runtime monitoring: identity oracle on every transfer; ASan/UBSan', 'address and identity of every delivered object compared with the object designated at that transfer.'),
 'C03': ('runtime monitoring: online control-flow checker over random programs', 'every gain/return of control compared with the program point predicted by a reference model of the call tree.'),
 'C04': ('runtime monitoring: model oracle + differential (with/without tests)', 'validity of every handle compared with the model in every reachable state kind; histories repeated with tests removed must be identical.'),
 'C05': ('runtime monitoring: exception delivery checker; ASan/UBSan', 'type, contents, place and number of deliveries of every exception checked along chains of coroutines.'),
 'C06': ('runtime monitoring: tracked locals, unwinding-order checker; ASan/UBSan', 'every automatic object is tracked by address, owner and order; the suspension point is checked not to continue.'),
 'C07': ('fault injection sweep + object life-cycle monitor; ASan/UBSan', 'each generated history is repeated with every single constructor call of the transferred type throwing once; addresses of live objects are tracked.'),
 'C08': ('runtime monitoring: allocator ledger with canaries; ASan/UBSan', 'one ledger per coroutine records allocate/deallocate, instances of the allocator and objects living on the stack.'),
 'C09': ('runtime monitoring: state-pair workload with model oracle; ASan/UBSan', 'all pairs of handle states x move operations, followed by use of both handles, judged by a model.'),
 'C10': ('runtime monitoring: tracked callables; ASan/UBSan', 'instances of the callable are tracked by address; every kind of callable and passing form is compiled and run.'),
 'C11': ('runtime monitoring: sequence oracle for iterators and ranges; ASan/UBSan', 'random sequences visited by range-for, iterators and standard algorithms compared with a plain vector.'),
 'C12': ('runtime monitoring: frame, register and FP-environment checker; ASan/UBSan', 'frames of recursive functions, callee-saved registers and the FP control words verified after every switch on both sides.'),
 'C13': ('runtime monitoring: differential trace checker (alone vs crowd); ASan/UBSan', 'full event trace of every coroutine in random interleavings compared with its trace when run alone.'),
 'C14': ('ThreadSanitizer + trace monitor under thread stress and migration', 'real threads, random hand-over; data races by TSan, behaviour by comparing traces with a single-threaded run. Interleavings are sampled, not enumerated.'),
 'C15': ('sanitizers (ASan, UBSan), valgrind memcheck, library assertions as monitors', 'all random-program profiles and fault sweeps run under ASan+UBSan with context-switch annotations, valgrind, and with the library assertions reported as violations.'),
 'C16': ('runtime monitoring: placement oracle with canaries over all stack residues; ASan/UBSan', 'addresses of every object the library stores are checked for alignment and containment; canaries surround the block.'),
 'C17': ('runtime monitoring: differential against the direct algorithm; ASan/UBSan', 'outputs of randomly structured composed programs compared with a coroutine-free computation; order of unwinding monitored.'),
 'C18': ('runtime monitoring: cross-configuration comparison of recorded traces', 'trace hashes of the same seeds compared over up to twelve build configurations (compilers, standards, back ends, fallbacks, assertions, sanitizers).'),
 'C19': ('runtime monitoring: allocator probes (guard page fault in a child, pool reuse, growth); ASan', 'usable stack size, guard page, pool reuse and lifetime, segmented growth observed in the running process.'),
 'C20': ('runtime monitoring: repeated-read oracle; ASan/UBSan', 'random sequences of reads compared with the value sent. get() on copyable class types is a recorded finding; moved-from reads after it are not judged further.'),
 'C21': ('runtime monitoring: steady-state checker on heap, mappings and object counters', 'identical cycles must not change heap in use or mappings; a leak of 8 bytes or more per cycle is reported.'),
 'C22': ('fault injection in construction + object, stack and allocator accounting; ASan/UBSan', 'every construction fault x specialisation x argument form x context; live callables, objects, allocators and stacks counted. A throwing move or later copy of the callable is outside the claim.'),
}
COMMON = ' Observation of sampled executions (random programs from VERIF_SEED), no exhaustiveness. Trusts the harness model, Boost.Context 1.83, the compilers and their sanitizer runtimes.'
checks = []
for p in sorted(CHECKS):
    t, n = T[p]
    checks.append({'property': p, 'quick_cmd': 'python3 run.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': t, 'level': CHECKS[p]['level'], 'level_note': n[0].upper() + n[1:] + COMMON})
json.dump({'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo: all monitors use the public interface. /repo carries six fix: commits (known_findings.txt).'}, open('MANIFEST.json', 'w'), indent=1)
