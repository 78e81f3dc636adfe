# Which harness, builds and case counts decide each property.
MIX = [('asan', 1), ('asan', 1), ('asan-avx2', 1), ('asan-scalar', 1), ('rel', 1.5), ('rel-scalar', 1.5), ('asan', 1), ('asan-avx2', 1)]
# the thorough tier adds builds the quick one leaves out
MORE = [('rel-avx2', 1), ('clang', 1), ('rel-cxx', 1), ('rel-noavx', 1), ('rel-native', 1), ('o0', 0.5)]
MEMCHECK = [('memcheck', 0.02)]
E32 = ['eng32.cpp']
E64 = ['eng64.cpp']
T_MODEL = 'runtime monitoring: random histories on ASan+UBSan, AVX2, scalar and release builds, every result compared online with an interval-set model'
N_MODEL = 'Exploration: the property held on every evaluation of the seeded histories run; the trusted base is the interval-set model, the structural reader and the sanitizers. It says nothing about inputs not generated.'
import driver
DIRECT = ['malloc', 'calloc', 'realloc', 'free', 'posix_memalign', 'aligned_alloc', 'memalign', 'reallocarray', 'strdup']
def others(*l):
    return [(f + '.cpp', f) for f in l]
ALL = others('c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c16', 'c18', 'c19', 'c20')
SPECS = {
    'C01': dict(srcs=['c01.cpp'] + E32, plan=MIX, cases=12000, technique=T_MODEL, note=N_MODEL),
    'C02': dict(srcs=['c02.cpp'] + E32, plan=MIX, cases=18000, technique=T_MODEL, note=N_MODEL),
    'C03': dict(srcs=['c03.cpp'] + E32, plan=MIX, cases=11000, technique=T_MODEL, note=N_MODEL),
    'C04': dict(srcs=['c04.cpp'] + E32, plan=MIX, cases=20000, technique='runtime monitoring: random cursor walks on sanitized and release builds, every step compared with a cursor over the model set', note=N_MODEL),
    'C09': dict(srcs=['c09.cpp'] + E64, plan=MIX, cases=10000, technique=T_MODEL, note=N_MODEL),
    'C10': dict(srcs=['c10.cpp'] + E64, plan=MIX, cases=8000, technique=T_MODEL, note=N_MODEL),
    'C05': dict(srcs=['c05.cpp'] + E32 + E64, plan=MIX, cases=12000, technique='runtime monitoring: structural invariant checker after every operation of random histories; validator compared with it on randomly damaged structures and images', note=N_MODEL),
    'C12': dict(srcs=['c12.cpp'] + E32, plan=MIX + [('rel-noatomic', 1)], cases=8000, technique='runtime monitoring: random histories over pools of copy-on-write bitmaps, every bitmap compared with its own model after every operation, allocation hooks counting owners, ASan+UBSan', note=N_MODEL),
    'C06': dict(srcs=['c06.cpp'] + E32, plan=MIX, cases=24000, technique='runtime monitoring: images written in exact-size buffers under ASan and decoded by an independent decoder of the format specification; conforming encodings of an independent encoder read by every reader; truncations', note=N_MODEL),
    'C07': dict(srcs=['c07.cpp'] + E32, plan=MIX, cases=6000, technique='runtime monitoring: images in exact-size buffers filled with two patterns, views on read-only mappings that end at a guard page, every read-only call compared with the model under ASan+UBSan and in release builds', note=N_MODEL),
    'C11': dict(srcs=['c11.cpp'] + E64, plan=MIX, cases=9000, technique='runtime monitoring: images in exact-size buffers decoded by an independent decoder and exchanged with Roaring64Map; frozen views on read-only mappings ending at a guard page, truncations in exact-size buffers, under ASan+UBSan and in release builds', note=N_MODEL),
    'C08': dict(srcs=['c08.cpp'] + E32 + E64, plan=MIX + [('memcheck', 0.012)], cases=7000, technique='runtime monitoring: structure-aware corruption of conforming images offered to every length-limited reader in exact-size buffers under ASan+UBSan with an allocation ledger; accepted bitmaps compared with an independent decoder and run through operations', note=N_MODEL),
    'C18': dict(srcs=['c18.cpp'], plan=MIX + [('memcheck', 0.012)], cases=50000, technique=T_MODEL, note=N_MODEL),
    'C13': dict(srcs=['c13.cpp'] + E32 + E64 + others('c01', 'c02', 'c04', 'c06', 'c07', 'c09', 'c10', 'c11', 'c16', 'c18', 'c19', 'c20'), plan=[('tsan', 1), ('tsan', 1), ('tsan-scalar', 1), ('tsan', 1), ('asan', 1), ('rel', 2), ('rel', 2), ('tsan', 1)], nohooks=['tsan', 'tsan-scalar'], cases=6000, technique='runtime monitoring: ThreadSanitizer over multi-threaded histories with randomized delays, each thread compared with its own sequential model, allocation hooks counting blocks in hooked builds', note='Exploration: races are reported for the interleavings (happens-before classes) that occurred; the observed orders are counted in the evidence. ThreadSanitizer and the interval-set model are trusted.'),
    'C19': dict(srcs=['c19.cpp'] + E32, plan=MIX, cases=6000, technique='runtime monitoring: random histories of member calls, copies, moves and assignments over pools of objects, every object compared with its own model after every call, allocation hooks with a block ledger, ASan+UBSan', note=N_MODEL),
    'C20': dict(srcs=['c20.cpp'] + E64, plan=MIX, cases=24000, technique='runtime monitoring: random histories of member calls over pools of maps, every map compared with its own model after every call through its portable image decoded independently, allocation hooks with a block ledger, ASan+UBSan', note=N_MODEL),
    'C16': dict(srcs=['c16.cpp'] + E32 + E64, plan=MIX, cases=9000, technique='runtime monitoring: random histories of optimisation steps, contents and answers compared with the model, image size compared with an independent encoder choosing the smallest forms, memory in use measured by allocation hooks before and after', note=N_MODEL),
    'C14': dict(srcs=['c14.cpp'] + E32 + E64 + ALL, plan=MIX + [('memcheck', 0.012)], cases=7000, opts=dict(redefine=DIRECT), technique='runtime monitoring: strict tracking allocation hooks (ledger of every block by kind), ASan+UBSan, and an alarm on any direct call of the C allocator, over the workloads of all other checks', note=N_MODEL),
    'C17': dict(srcs=['c17.cpp'] + E32 + E64 + others('c01', 'c02', 'c03', 'c04', 'c06', 'c07', 'c08', 'c09', 'c10', 'c11', 'c12', 'c16', 'c18', 'c19', 'c20'), cases=2200, workers=4, opts=dict(harness_flags=['-O2', '-g1']), custom=driver.compare_builds, custom_replay=driver.replay_compare,
                plan=[('rel', 1, 0xA5), ('rel-avx2', 1, 0), ('rel-scalar', 1, 0xFF), ('rel-noavx', 1, 0x5A), ('rel-cxx', 1, 1), ('rel-native', 1, 0x80), ('clang', 1, 0x33), ('o0', 2, 0xCC), ('amalg', 1, 0x55)],
                technique='runtime monitoring: the same seeded histories executed by nine builds of the library (AVX-512, AVX2, SSE, scalar, native tuning, C compiled as C++, clang, unoptimised, the single-file amalgamation), each recording answers, contents and portable bytes; offline comparison of the recorded digests', note='Exploration: the builds agreed on every seeded history run. Other compilers, machines and 32-bit or big-endian targets are not run.'),
    'C15': dict(srcs=['c15.cpp'] + E32 + E64, plan=MIX, cases=6000, level='fault_enumeration', technique='runtime monitoring with fault injection: every allocation request of each operation fails in turn (alone and with all later ones) through the allocation hooks, under ASan+UBSan with a block ledger, results and inputs compared with the model', note='Exploration: for each generated input of at most 40 allocation requests every failure position is run; longer ones are sampled.'),
}

# what a run has to have seen; a run that did not is an error of the check, not a verdict
for _k, _c in {
    'C01': dict(op=40), 'C02': dict(op=40), 'C03': {'q': 22, 'universe sets': 1}, 'C04': dict(step=9), 'C05': dict(op=40, op64=30, validator=30, wf32=300),
    'C06': {'foreign image': 6, 'library image': 6}, 'C07': {'frozen view': 10, 'portable-frozen view': 10, 'native': 3}, 'C08': {'corruption': 25, 'validated 32': 2, 'validated 64': 2},
    'C09': dict(op64=30), 'C10': dict(q=20, step=9), 'C11': {'frozen64 view': 7, 'foreign image': 4, 'library image': 4}, 'C12': dict(op=40, sharers=3), 'C13': {'release storm': 1, 'threads': 4, 'copy-on-write': 3, 'separate': 9},
    'C14': dict(workload=15, quiet=15, ledger=30, ledger64=25), 'C15': dict(op=45, reported=45), 'C16': dict(chain=20, chain64=15), 'C18': {'bitset_resize': 1, 'union_count': 1}, 'C19': dict(op=45, iterator=5), 'C20': {'op': 50, 'empty bucket': 1},
}.items():
    SPECS[_k]['must_cover'] = _c
for _k, _s in SPECS.items():
    if _k == 'C13':
        _s['plan_thorough'] = _s['plan'] + [('asan-avx2', 1), ('asan-scalar', 1), ('rel-scalar', 1), ('memcheck', 0.02)]
    elif _k == 'C15':
        _s['plan_thorough'] = _s['plan'] + MORE  # the faults need the hooks, which memcheck runs do without
    elif _k != 'C17':
        _s['plan_thorough'] = [v for v in _s['plan'] if v[0] != 'memcheck'] + MORE + MEMCHECK
