"""What each property's check builds and runs.

jobs: name, src (in harness/), flags, modes [(mode, quick cases, thorough cases)]
"""
O2 = ['-O2', '-g1']
O1 = ['-O1', '-g1']
ASAN = ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']

GEN_RULE = ('Polygon sets drawn by a seeded generator over 12 families (tiny and mid-size grids, wide ranges, stars, slivers, '
            'rectilinear, coincident copies, spikes, many small loops, nested, fans, octilinear), optionally magnified, with '
            'duplicated points and degenerate companions; a case is non-trivial when at least one operation was executed on it, '
            'and cases are distinct by a hash of their coordinates.')


def build_py(runner, job):
    """Cython module of the current tree, reference library and a wrapper script."""
    import os, subprocess, check as C
    d = os.path.join(runner.bdir, job['name'] + '.d')
    pkg = os.path.join(d, 'polyops')
    os.makedirs(pkg)
    py = '/opt/vp/venv/bin/python3'
    def run(cmd):
        rc, out, err, to = C.sh(cmd, 800, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
        if rc != 0:
            raise C.HarnessError('building the Python module failed (%s):\n%s' % (' '.join(cmd), (out + err)[-3000:]))
        return out
    inc = run([py, '-c', 'import sysconfig,numpy;print(sysconfig.get_paths()["include"]);print(numpy.get_include());print(sysconfig.get_config_var("EXT_SUFFIX"))']).split()
    src = os.path.join(C.REPO, 'py')
    run([py, '-m', 'cython', '--cplus', '-I' + src, '-o', os.path.join(d, '_polyops.cpp'), '--module-name', 'polyops._polyops', os.path.join(src, '_polyops.pyx')])
    with open(os.path.join(src, '__init__.py')) as f, open(os.path.join(pkg, '__init__.py'), 'w') as g:
        g.write(f.read())
    ref = os.path.join(d, 'libpyref.so')
    r = subprocess.Popen(['g++', '-std=c++20', '-w', '-O1', '-shared', '-fPIC', '-DNDEBUG', '-I' + os.path.join(C.REPO, 'include'), os.path.join(C.HARNESS, 'py_ref.cpp'), '-o', ref])
    run(['g++', '-std=gnu++20', '-w', '-fPIC', '-shared', '-fvisibility=hidden', '-DNDEBUG', '-DCYTHON_EXTERN_C=', '-DCYTHON_USE_PYLONG_INTERNALS=0', '-DNPY_1_7_API_VERSION', '-DNPY_NO_DEPRECATED_API']
        + job['flags'] + ['-I' + os.path.join(C.REPO, 'include'), '-isystem', inc[0], '-isystem', inc[1], os.path.join(d, '_polyops.cpp'), '-o', os.path.join(pkg, '_polyops' + inc[2])])
    if r.wait() != 0:
        raise C.HarnessError('compiling py_ref.cpp failed')
    exe = os.path.join(d, 'run.sh')
    pre = ''
    if any('sanitize' in f for f in job['flags']):
        libs = [subprocess.run(['g++', '-print-file-name=' + n], capture_output=True, text=True).stdout.strip() for n in ('libasan.so', 'libubsan.so', 'libstdc++.so.6')]
        pre = 'LD_PRELOAD="%s" PYTHONMALLOC=malloc ' % ' '.join(libs)
    with open(exe, 'w') as f:
        f.write('#!/bin/bash\nunset PYTHONHOME\nexport VERIF_PYREF="%s" PYTHONPATH="%s" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\n%sexec "%s" "%s" "$@"\n'
                % (ref, d, ('export ' + pre.strip() + '\n') if pre else '', py, os.path.join(C.HARNESS, 'py_check.py')))
    os.chmod(exe, 0o755)
    return exe


PYASAN = {'ASAN_OPTIONS': 'detect_leaks=0:exitcode=77:abort_on_error=0:allocator_may_return_null=1'}

PLAN = {
    'C01': dict(
        jobs=[dict(name='clip', src='clip.cpp', flags=O2, modes=[('arr', 24000, 400000)])],
        rule=GEN_RULE + ' All five operations are run per case.',
        must_observe=['output_edges', 'outputs_checked']),
    'C02': dict(
        jobs=[dict(name='clip', src='clip.cpp', flags=O2, modes=[('region', 40000, 600000)])],
        rule=GEN_RULE + ' Half of the cases are on a lattice where the result must be exact.',
        must_observe=['region_samples_inside', 'exact_region_outputs', 'sampled_region_outputs', 'cases_beyond_32_bits']),
    'C03': dict(
        jobs=[dict(name='clip', src='clip.cpp', flags=O2, modes=[('orient', 40000, 600000)])],
        rule=GEN_RULE, must_observe=['edges_side_checked', 'solid_loops', 'hole_loops', 'joints_checked', 'joints_checked_strictly']),
    'C04': dict(
        jobs=[dict(name='clip', src='clip.cpp', flags=O2, modes=[('norm', 80000, 1200000)])],
        rule=GEN_RULE, must_observe=['line_conservation_checked', 'edges_side_checked', 'region_samples_inside']),
    'C05': dict(
        jobs=[dict(name='clip', src='clip.cpp', flags=O2, modes=[('tree', 40000, 600000)])],
        rule=GEN_RULE, must_observe=['tree_nodes_depth_checked', 'tree_nodes_deep', 'containments_checked']),
    'C06': dict(
        jobs=[dict(name='track', src='track.cpp', flags=O2, modes=[('track', 24000, 400000), ('otrack', 8000, 120000)])],
        rule=GEN_RULE + ' A recording tracker logs every callback; the log is replayed against the results.',
        must_observe=['splits', 'merges', 'origin_sets_compared', 'origin_sets_merged', 'loops_conserved', 'output_points_generated']),
    'C07': dict(
        jobs=[dict(name='offset', src='offset.cpp', flags=O2, modes=[('offset', 40000, 600000)]),
              dict(name='api', src='api.cpp', flags=O2, modes=[('offways', 6000, 100000)])],
        rule='Convex, rectangular, star, skyline, holed, disjoint, open, point and two-point shapes with random magnitudes up to twice their size, arc steps, '
             'duplicated points, empty companions and input range kinds; a case is non-trivial when an offset was computed and sampled; distinct by coordinates, magnitude and step.',
        must_observe=['samples_inside', 'samples_outside', 'vertices_checked', 'samples_combined', 'offset_ways_compared']),
    'C09': dict(
        jobs=[dict(name='api', src='api.cpp', flags=O2, modes=[('reuse', 24000, 400000)]),
              dict(name='api-asan', src='api.cpp', flags=ASAN, modes=[('reuse', 2400, 40000)])],
        rule='Histories of one to six operations on one clipper (loops added one by one in several ways, every operation, flat and tree, moved and kept results, reset); every step is compared with a fresh clipper. Distinct by coordinates, step and operation.',
        must_observe=['steps_compared', 'exact_steps', 'results_nonempty', 'moved_results', 'samples']),
    'C10': dict(
        jobs=[dict(name='api', src='api.cpp', flags=O2, modes=[('equiv', 16000, 300000), ('metam', 40000, 700000), ('big', 32, 400), ('offways', 6000, 100000)])],
        rule=GEN_RULE + ' equiv: one input given to the library in 25 ways; metam: the same shape described differently on a lattice; big: thousands of small inputs side by side.',
        must_observe=['results_nonempty', 'representations_compared', 'narrow_indices', 'variants_compared', 'tiles_compared', 'offset_ways_compared', 'inputs_beyond_65536_points']),
    'C21': dict(
        jobs=[dict(name='api', src='api.cpp', flags=O2, modes=[('ident', 16000, 300000)])],
        rule=GEN_RULE + ' Half of the cases are on a lattice, where the laws of set algebra are checked exactly.',
        must_observe=['bounding_boxes', 'results_nonempty', 'law xor is union minus intersection', 'law union of a result is the result']),
    'C12': dict(
        jobs=[dict(name='memory', src='memory.cpp', flags=O2, libs=['-ldl'], modes=[('acct', 24000, 400000), ('fault', 12000, 200000)]),
              dict(name='memory-asan', src='memory.cpp', flags=ASAN, libs=['-ldl'], modes=[('fault', 600, 12000)])],
        rule=GEN_RULE + ' Every case is one use of the library (16 ways, 3 more with code of the user that throws); fault injects a failure at every or at 36 sampled points of it.',
        must_observe=['blocks', 'given_resource_cases', 'default_resource_cases', 'allocation_failures', 'user_exceptions', 'recoveries_compared', 'failures_passed_on']),
    'C13': dict(
        jobs=[dict(name='large-%s-%s' % (part.lower(), v), src='large.cpp', flags=['-O1', '-g1', '-DPART_' + part] + fl, cxx=cxx, modes=[(v, 6000, 200000)])
              for part in ('ARITH', 'MUL', 'DIV')
              for v, cxx, fl in (('gcc', 'g++', ['-fsanitize=undefined', '-fno-sanitize-recover=all']),
                                 ('noext', 'g++', ['-DPOLY_OPS_NO_COMPILER_EXTENSIONS', '-fsanitize=undefined', '-fno-sanitize-recover=all']), ('clang', 'clang++', []))],
        rule='Operands drawn from patterns of zero/one/random words, sign boundaries, small values and quotient-correction patterns, for each width and signedness; '
             'a case is non-trivial when at least one operator was compared with the oracle; distinct by operand values.',
        must_observe=[]),
    'C15': dict(
        jobs=[dict(name='raster', src='raster.cpp', flags=O2, modes=[('raster', 30000, 500000)]),
              dict(name='raster-asan', src='raster.cpp', flags=ASAN, modes=[('raster', 3000, 60000)])],
        rule=GEN_RULE + ' Loops are drawn on rasters of random size, partly outside of them.',
        must_observe=['rows_checked', 'spans_compared', 'spans_multiple_winding', 'spans_negative_winding']),
    'C14': dict(
        jobs=[dict(name='laws-pred-%s' % v, src='laws.cpp', flags=['-DPART=1', '-O1', '-g1', '-fsanitize=undefined', '-fno-sanitize-recover=all'] + fl, cxx=cxx, modes=[('pred', 24000, 1200000)])
              for v, cxx, fl in (('gcc', 'g++', []), ('noext', 'g++', ['-DPOLY_OPS_NO_COMPILER_EXTENSIONS']), ('clang', 'clang++', []))],
        rule='Triples and loops of points at the extremes of a randomly chosen width, nearly collinear triples; a case is non-trivial when a loop of at least three points was measured; distinct by the areas.',
        must_observe=['triangles_degenerate', 'triangles_clockwise', 'triangles_counter_clockwise', 'triangles_beyond_64_bits', 'winding_dirs', 'point_laws']),
    'C17': dict(
        jobs=[dict(name='laws-ranges', src='laws.cpp', flags=['-DPART=4'] + O2, modes=[('ranges', 24000, 500000)]),
              dict(name='laws-strided', src='laws.cpp', flags=['-DPART=2'] + O2, modes=[('strided', 24000, 1000000)]),
              dict(name='laws-ranges-asan', src='laws.cpp', flags=['-DPART=4', '-DFEW'] + ASAN, modes=[('ranges', 2400, 60000)]),
              dict(name='laws-strided-asan', src='laws.cpp', flags=['-DPART=2'] + ASAN, modes=[('strided', 8000, 300000)])],
        rule=GEN_RULE + ' strided: random three-dimensional layouts, distinct by layout.',
        must_observe=['loops_checked', 'ranges_checked', 'const_ranges_checked', 'tree_inner', 'results_with_several_loops', 'strided_arithmetic', 'negative_strides', 'strided_operations']),
    'C18': dict(
        jobs=[dict(name='laws', src='laws.cpp', flags=['-DPART=3'] + O2, modes=[('otset', 60000, 4000000)]),
              dict(name='laws-asan', src='laws.cpp', flags=['-DPART=3'] + ASAN, modes=[('otset', 8000, 400000)])],
        rule='Random callback histories; a case is non-trivial when points were merged; distinct by the history.',
        must_observe=['origin_sets_compared', 'origin_sets_big', 'merges', 'containers_compared', 'container_failures']),
    'C16': dict(
        jobs=[dict(name='py', build=build_py, flags=['-O1', '-g1'], modes=[('ops', 24000, 400000), ('hist', 8000, 150000), ('err', 4000, 60000), ('par', 160, 6000)]),
              dict(name='py-asan', build=build_py, flags=['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-shared-libasan'][:5], env=PYASAN,
                   modes=[('ops', 4000, 60000), ('hist', 1200, 20000), ('err', 600, 9000)])],
        rule='Random loops in 16 forms of array-like (lists, strided, reversed, transposed, byte-swapped, unaligned, broadcast, read-only, subclasses, buffers) and 11 dtypes, all functions and classes; '
             'a case is non-trivial when loops were returned and compared; distinct by the input and options.',
        must_observe=['loops_compared', 'children_compared', 'point_maps_compared', 'winding_dirs', 'casts_refused', 'failed_adds', 'executions_in_histories', 'misuses_refused', 'threaded_operations', 'leak_probes']),
    'C08': dict(
        jobs=[dict(name='safe-asan', src='safe.cpp', flags=ASAN + ['-fsanitize=float-cast-overflow'], modes=[('prog', 12000, 300000)]),
              dict(name='safe-debug', src='safe.cpp', flags=O1 + ['-D_GLIBCXX_DEBUG'], modes=[('prog', 24000, 600000)]),
              dict(name='safe-valgrind', src='safe.cpp', flags=O1 + ['-D_GLIBCXX_ASSERTIONS'], wrap=['valgrind', '-q', '--error-exitcode=77', '--leak-check=no'],
                   modes=[('prog', 640, 16000)])],
        rule='Random programs of 3 to 8 steps over the whole interface (clippers, offsets, trackers, hierarchies, iterators, rasterizers, strided ranges, results fed back, objects moved, copied and dropped half-way), '
             'over the coordinate and index types; a case is non-trivial when an operation was executed; distinct by program and input.',
        must_observe=['executions', 'loops_read', 'rasters', 'results_fed_back', 'steps']),
    'C11': dict(
        jobs=[dict(name='threads', src='threads.cpp', flags=O2, libs=['-pthread'], modes=[('det', 8000, 200000), ('threads', 2000, 60000)]),
              dict(name='threads-tsan', src='threads.cpp', flags=O1 + ['-fsanitize=thread'], libs=['-pthread'], modes=[('threads', 480, 12000)])],
        rule=GEN_RULE + ' det: each operation is repeated under seven circumstances; threads: four threads work at the same time, half of the cases on one shared input.',
        must_observe=['repeated when repeated', 'repeated with an arena', 'repeated with painted heap memory', 'repeated after other work', 'repeated in another thread', 'repeated in another process',
                      'concurrent_operations', 'concurrent_results_nonempty', 'shared_input_cases']),
    'C20': dict(
        jobs=[dict(name='cost', src='coord.cpp', flags=O2 + ['-DCOST_ONLY'], modes=[('cost', 3200, 60000)], fallback=[['-DBUILTIN_WIDE'], ['-DPLAIN']])],
        rule='Disjoint, nested, crossing, dense and adversarial (combs, fans, spirals) sets of growing size; a case is non-trivial when an operation was measured; distinct by coordinates.',
        must_observe=['clean_inputs', 'large_clean_inputs', 'crossing_inputs']),
    'C22': dict(
        jobs=[dict(name='coord', src='coord.cpp', flags=O2, modes=[('same', 4000, 80000)], fallback=[['-DBUILTIN_WIDE']])],
        rule=GEN_RULE + ' Every case is run with a class in place of the coordinate, wide and real types and with built-in types.',
        must_observe=['large_coordinates', 'results_compared', 'precise_samples', 'comparisons_watched', 'results_nonempty']),
}
