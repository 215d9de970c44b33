# Which contract harnesses decide which property, and what is assumed.
TRUST = [
    'clang-18 front end and the sroa/simplifycfg passes (C++ -> LLVM IR); the IR, not the optimised machine code, is what is verified',
    'irvc (this repository): LLVM-IR semantics, memory model and VC generation',
    'z3 4.8.12 / cvc5 1.1.2',
    'specstl/: assumed contracts for the C++ standard library (vector, string, map, function, mutex, ...)',
    'x86-64 little-endian data layout; no allocation failure',
]
K = [[], ['-DCHIA_K34']]
PROPS = {
    'C01': dict(units=[dict(src='harness/c01_entries.cpp', variants=K)], native_secs=4),
    'C09': dict(units=[dict(src='harness/c09_bits.cpp', shards={h: 8 for h in ('C09_write_bits', 'C09_append_bits', 'C09_slice_bits', 'C09_slice_int64_full', 'C09_slice_int128', 'C09_bits_concat', 'C09_bits_slice', 'C09_append_small', 'C09_append_park', 'C09_park_tobytes', 'C09_slice_int64', 'C09_T_append_bits', 'C09_T_slice_bits', 'C09_T_slice_int128', 'C09_T_bits_concat', 'C09_T_bits_slice')})], native_secs=6),
    'C10': dict(units=[dict(src='harness/c10_f1.cpp', variants=K, flags=['-I$V/stub', '+$R/lib/chacha8.c'], shards={'C10_compute_block': 8, 'C10_keystream': 5}), dict(src='harness/c10_wire.cpp', variants=K, flags=['-I$V/stub/seq', '-I$V/stub', '+$R/lib/chacha8.c'], native=False)], native_secs=4,
        drivers=[dict(name='plot', src='native/plot.cpp', args=['C10', '16', '$SEED', '4', '4', '4', '65536', '4096'])]),
}
S1 = ['-I$V/stub']
PLOT = lambda pid, *a: dict(name='plot', src='native/plot.cpp', args=[pid] + list(a or ('16', '$SEED', '4', '4', '4', '65536', '4096')))
MATCH = lambda pid, sec='6': dict(name='match', src='native/match.cpp', args=[pid, '$SEED', sec])
WIRE = dict(src='harness/c11_wire.cpp', pid='C11', variants=K, flags=['-I$V/stub/seq', '-I$V/stub'], native=False, shards={'C11_stages': 5})
PROPS['C11'] = dict(units=[dict(src='harness/c11_match.cpp', variants=K, flags=S1, shards={'C11_condition': 8, 'C11_find_ex': 5}, skip={'C11_condition': [1], 'C11_targets_distinct': [1]}), WIRE], drivers=[PLOT('C11'), MATCH('C11')], native_secs=6, weights={'C11_find_ex': 3, 'C11_stages': 2})
PROPS['C12'] = dict(units=[dict(src='harness/c12_fx.cpp', variants=K, flags=S1), WIRE], drivers=[PLOT('C12'), MATCH('C12')], native_secs=6)
PROPS['C06'] = dict(units=[dict(src='harness/c06_linepoint.cpp')], native_secs=4)
PROPS['C16'] = dict(units=[dict(src='harness/c16_copy.cpp')], native_secs=4)
SEQ = ['-I$V/stub/seq', '-I$V/stub']
PROPS['C03'] = dict(units=[dict(src='harness/c03_table.cpp', flags=SEQ)], native_secs=6)
PROPS['C02'] = dict(units=[dict(src='harness/c02_sort.cpp', flags=SEQ)], native_secs=10)
PROPS['C15'] = dict(units=[dict(src='harness/c15_plot.cpp', variants=K, flags=SEQ, native=False)], drivers=[PLOT('C15')])
PROPS['C17'] = dict(units=[dict(src='harness/c15_plot.cpp', pid='C15', variants=K, flags=SEQ, native=False),
    dict(src='harness/c03_table.cpp', pid='C03', flags=SEQ, native=False), dict(src='harness/c16_copy.cpp', pid='C16', only='final_copy', native=False),
    dict(src='harness/c02_sort.cpp', pid='C02', only='cache_flush|bucket_write|life', thorough_only='|cache_add|read_bucket$', flags=SEQ, native=False)],
    drivers=[dict(name='faults', src='native/faults.cpp', args=['16', '$SEED', '4', '3', '3', '65536', '4096', '2'], limit=300)])

PROPS['C05'] = dict(units=[dict(src='harness/c05_phase2.cpp', variants=K, flags=SEQ, native=False, shards={'C05_table_x': 5, 'C05_table_7': 3, 'C05_phase2': 2})], drivers=[PLOT('C05')])

PSKIP = {'C07_stage2_park': [1], 'C07_T_stage2_park': [0]}
PROPS['C07'] = dict(units=[dict(src='harness/c07_park.cpp', variants=K, flags=SEQ, native=False, shards={'C07_write_park': 8, 'C07_stage2': 4, 'C07_stage2_park': 3, 'C07_T_stage2_park': 3}, skip=PSKIP)], drivers=[PLOT('C07')])
PROPS['C13'] = dict(units=[dict(src='harness/c13_merge.cpp', variants=K, flags=SEQ, native=False, shards={'C13_stage1_first': 2, 'C13_stage1_mid': 3}), dict(src='harness/c07_park.cpp', pid='C07', only='stage2', variants=K, flags=SEQ, native=False, shards={'C07_stage2': 4, 'C07_stage2_park': 3, 'C07_T_stage2_park': 3}, skip=PSKIP),
    dict(src='harness/c06_linepoint.cpp', pid='C06', native=False)], drivers=[PLOT('C13')])

PROPS['C14'] = dict(units=[dict(src='harness/c14_p4.cpp', variants=K, flags=SEQ, native=False, shards={'C14_parks': 2, 'C14_checkpoints': 2, 'C14_tail': 2, 'C14_p7_bytes': 2}, limit=500)], weights={'C14_checkpoints': 3, 'C14_parks': 2},
    drivers=[dict(name='p4', src='native/p4.cpp', args=['$SEED', '10']), PLOT('C14')])

PROPS['C18'] = dict(units=[dict(src='harness/c18_p1.cpp', variants=K, flags=SEQ, native=False), WIRE, dict(src='harness/c15_plot.cpp', pid='C15', only='phase', variants=K, flags=SEQ, native=False), dict(src='harness/c05_phase2.cpp', pid='C05', only='phase2', variants=K, flags=SEQ, native=False, shards={'C05_phase2': 2}),
    dict(src='harness/c13_merge.cpp', pid='C13', only='stage1', variants=K, flags=SEQ, native=False, shards={'C13_stage1_first': 2, 'C13_stage1_mid': 3})], drivers=[PLOT('C18'), MATCH('C18', '3'), dict(PLOT('C18', '17', '$SEED', '3', '3', '5', '50000', '3000'), name='plot2')])

PROPS['C04'] = dict(units=[dict(src='harness/c04_thread.cpp', flags=S1, native=False)], drivers=[dict(name='threads', src='native/threads.cpp', args=['$SEED', '8'], thorough_args=['120'])],
    note='Monitor proof: every function of Thread/ThreadPool runs against all lock-time states the other parties\' guarantees allow; no bound on items, waits or schedules; pools of 1-4 threads. Progress is C19. Assumed: mutual exclusion and condition-variable contracts of the C++ library; close() has no concurrent takers (documented NOT thread-safe).')
