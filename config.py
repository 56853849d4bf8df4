# Build recipes of the instrumented harnesses and the per-property workloads.
SAN = ['-std=c++14', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer',
       '-DNDEBUG', '-DBOOST_BIND_GLOBAL_PLACEHOLDERS', '-w']
LIB = ['src/geomap/cppmap.cxx', 'src/geomap/cppmap_utils.cxx', 'src/geomap/crackedgemap.cxx']


def gm(name):
    return dict(sources=['@%s.cxx' % name] + LIB, includes=['src/geomap'], flags=SAN, libs=['-lvigraimpex'])


def hdr(name):
    return dict(sources=['@%s.cxx' % name], includes=['src/geomap'], flags=SAN, libs=['-lvigraimpex'])


def cells(name):
    return dict(sources=['@%s.cxx' % name, 'src/cellimage/foureightsegmentation.cxx', 'src/cellimage/cellstatistics.cxx'],
                includes=['src/geomap', 'src/cellimage'], flags=SAN, libs=['-lvigraimpex'])


import glob, sysconfig
_NUMPYCORE = (glob.glob('/usr/lib/python3/dist-packages/vigra/vigranumpycore*.so') or ['vigranumpycore'])[0]
PYMOD = dict(
    sources=['src/python_bindings/%s.cxx' % f for f in ('vectorconv', 'pythondiff2d', 'polygon', 'statistics', 'cppmapmodule_utils', 'cppmapmodule_stats', 'cppmapmodule', 'geomapmodule', 'subpixel_watersheds', 'dsl')] + LIB,
    includes=['src/python_bindings', 'src/geomap', 'src/cellimage'], shared='geomap.so', ldflags=['-shared'],
    flags=['-std=gnu++14'] + SAN[1:] + ['-fPIC', '-fno-sanitize=vptr,alignment', '-DAVOID_DUPLICATE_DEFINITION_FROM_VIGRANUMPYCORE', '-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION'],
    sysflags=['-I' + sysconfig.get_path('include'), '-I/usr/lib/python3/dist-packages/numpy/core/include'],
    libs=[_NUMPYCORE, '-lboost_python3%d' % __import__('sys').version_info[1], '-lvigraimpex', '-Wl,-rpath,' + __import__('os').path.dirname(_NUMPYCORE)])


def py(script, **kw):
    return dict(python=script, module='pygeomap', **kw)


BINS = {
    'pygeomap': PYMOD,
    'py_map': py('py_map.py'),
    'py_curve': py('py_curve.py'),
    'py_lib': py('py_lib.py', library=['maputils', 'utils']),
    'p_geomap': gm('p_geomap'),
    'p_poly': hdr('p_poly'),
    'p_crack': gm('p_crack'),
    'p_query': gm('p_query'),
    'p_utils': gm('p_utils'),
    'p_stats': gm('p_stats'),
    'p_embed': gm('p_embed'),
    'p_cell': cells('p_cell'),
    'p_pyr': cells('p_pyr'),
    'p_dsl': dict(hdr('p_dsl'), flags=[f for f in SAN if f != '-DNDEBUG']),   # with the library's own assertions
    'p_spws': hdr('p_spws'),
}

PLAIN = ['-std=c++14', '-O1', '-g', '-DNDEBUG', '-DBOOST_BIND_GLOBAL_PLACEHOLDERS', '-w']
for _b in ('p_geomap', 'p_query', 'p_embed', 'p_crack', 'p_utils', 'p_stats', 'p_poly', 'p_cell', 'p_pyr', 'p_spws', 'p_dsl'):
    BINS['vg_' + _b] = dict(BINS[_b], flags=PLAIN)


def vg(b, prop, quick):
    return dict(bin='vg_' + b, harness_prop=prop, quick=quick, thorough=quick * 12)


def asan(b, prop, quick):
    return dict(bin=b, harness_prop=prop, quick=quick, thorough=quick * 12, valgrind=False, chunks=16)


COMMON_ASSUMPTIONS = [
    'workloads are seeded random samples bounded by case count; absence of a violation is evidence, not proof',
    'harness and library are compiled with g++ -O1, AddressSanitizer and UBSan instead of the shipping flags',
]
GEN = ['geometry of generated maps keeps a minimum distance of 0.08 between non-adjacent curves and 0.16 rad between darts at a node']

CELLGEN = 'boundary images up to 22x22 pixels'

HIST_RULE = ('each case builds a random planar subdivision (jittered grids, loops, dangling edges, nested components, isolated nodes, label gaps, '
             'curves partly outside the image, half-integer snapped coordinates) or a crack-edge map and runs a random history of operations on it; '
             'one execution = one map state judged by the monitors, distinct by a hash of topology/labels (or of the label image)')

PYLIB = 'the Python 2 sources are converted by lib2to3 as the build of the repository does, and run with Python 3'

PROPS = {
    'C01': dict(bin='p_geomap', quick=5000, thorough=40000, rule=HIST_RULE, assumptions=GEN,
                must_see=['op_mergeFaces', 'op_removeBridge', 'op_mergeEdges', 'op_splitEdge', 'op_removeIsolatedNode', 'op_addNode', 'holes_nested', 'ccw_nodes']),
    'C02': dict(bin='p_geomap', quick=16000, thorough=128000, rule=HIST_RULE, assumptions=GEN,
                must_see=['op_mergeFaces', 'op_removeBridge', 'op_mergeEdges', 'op_splitEdge']),
    'C03': dict(bin='p_geomap', quick=10000, thorough=80000, rule=HIST_RULE, assumptions=GEN, must_see=['vetoed_mergeFaces', 'vetoed_mergeEdges', 'vetoed_removeBridge']),
    'C04': dict(bin='p_geomap', quick=14000, thorough=112000, rule=HIST_RULE, assumptions=GEN, must_see=['hook_associatePixels', 'associated_pixels', 'looked_at_pre', 'looked_at_post']),
    'C05': dict(bin='p_geomap', quick=14000, thorough=112000, rule=HIST_RULE, assumptions=GEN, must_see=['scanlines_verified', 'scanline_inner_pixels', 'op_setPosition', 'midcracks']),
    'C06': dict(bin='p_geomap', quick=12000, thorough=96000, rule=HIST_RULE, assumptions=GEN, must_see=['face_pixels', 'edge_pixels']),
    'C07': dict(bin='p_geomap', quick=10000, thorough=80000, rule=HIST_RULE, assumptions=GEN, must_see=['rebuilds', 'rebuilds_compared', 'relabelings']),
    'C08': dict(bin='p_geomap', quick=10000, thorough=80000, rule=HIST_RULE, assumptions=GEN, must_see=['ops_on_both', 'ops_on_one']),
    'C15': dict(bin='p_poly', quick=150000, thorough=1200000,
                rule='each case runs a random sequence of 3..40 polygon mutators and cache queries on one polygon; one execution = one polygon state after a mutator, distinct by hash of its points',
                must_see=['mut_setPoint', 'mut_split', 'mut_extend', 'mut_clear', 'mut_push_back', 'mut_insert', 'mut_erase', 'mut_reverse', 'mut_swap', 'mut_in-place']),
    'C16': dict(bin='p_poly', quick=200000, thorough=1600000,
                rule='each case rasterises a random closed or open polygon (random, star-shaped, axis-parallel, half-integer snapped, degenerate) and judges every pixel of its surroundings; distinct by hash of the points',
                must_see=['crossed_pixels', 'inside_pixels', 'inside_pixels_neg', 'outside_pixels', 'additivity_checked', 'filled_checked']),
    'C17': dict(bin='p_poly', quick=300000, thorough=2400000,
                rule='each case generates random polygons (grid-snapped, collinear, duplicate points, degenerate) for one of the polygon algorithms and compares with an independent oracle; distinct by hash of the input',
                must_see=['hulls', 'simplify_compared', 'contains_checked', 'centroids', 'linear_resampled', 'gauss_points', 'equivariance', 'spline_residuals', 'digital_lines', 'digital_curves', 'digital_closed']),
    'C11': dict(bin='p_crack', quick=20000, thorough=400000,
                rule='each case draws a random label image (noise, blobs, nested rings, checkerboards, constant, one-pixel wide), builds its crack edge map with random connectivity/protection options and judges every crack, node, face and pixel; distinct by hash of the label image and options',
                must_see=['regions', 'eight_connected', 'border_edges', 'midcrack_loops', 'midcrack_edges', 'midcrack_ops', 'face_pixels', 'scanlines_verified']),
    'C09': dict(bin='p_query', quick=3000, thorough=40000, assumptions=GEN,
                rule='each case builds a map, modifies it by a random history, and asks point location, nearest-node, dart navigation and dart position queries of random and adversarial arguments (on nodes, coincident nodes, beyond ends, negative arc lengths); one execution = one queried map state, distinct by hash',
                must_see=['points_located', 'points_in_finite_faces', 'nearest_found', 'nearest_none', 'coincident_nodes', 'nodes_moved', 'nodes_removed', 'contours', 'dart_positions',
                          'goto_arc_length', 'goto_beyond', 'goto_negative', 'goto_prev', 'leave_circle', 'intersect_circle']),
    'C10': dict(bin='p_embed', quick=3000, thorough=40000, assumptions=GEN,
                rule='each case builds one random subdivision several times with different insertion orders, directions, scales (0.01 to 100), sorting modes and removals before initialisation and compares the resulting maps; every third case is a random bundle of coinciding edges which are sorted by where they part and optionally merged; distinct by hash of the geometry',
                must_see=['scaled_down', 'scaled_up', 'sorted_eventually', 'graph_edges_removed', 'constructions_compared', 'restored', 'identical_angles', 'bundles_sorted', 'bundles_split', 'holes_nested']),
    'C12': dict(bin='p_utils', quick=2500, thorough=30000, rule=HIST_RULE, assumptions=GEN,
                must_see=['op_removeEdges', 'op_removeBridges', 'op_mergeDegree2Nodes', 'op_removeIsolatedNodes', 'op_mergeFacesCompletely', 'images_drawn', 'drawn_edge_pixels',
                          'drawn_center_pixels', 'removal_refused', 'merges_refused', 'merged_multiple_edges']),
    'C13': dict(bin='p_utils', quick=10000, thorough=80000, rule=HIST_RULE, assumptions=GEN,
                must_see=['completely_refused', 'destroyed', 'detached', 'single_refused', 'single_performed', 'merges_refused', 'removal_refused']),
    'C14': dict(bin='p_stats', quick=4000, thorough=20000, rule=HIST_RULE, assumptions=GEN,
                must_see=['merges', 'merges_vetoed', 'copies', 'destroyed', 'faces_compared', 'supersampled_faces', 'maps_with_supersampling', 'all_sampled', 'differences_compared']),
    'C18': dict(bin='p_cell', quick=30000, thorough=240000, assumptions=[CELLGEN],
                rule='each case draws a random boundary image (noise, Voronoi boundaries, rectangles and diagonals, walks, nested rings; thinned in random order, or unthinned when corners are nodes), decomposes it with either corner rule, copies and re-imports it and judges every pixel, dart and contour; distinct by hash of image and corner rule',
                must_see=['accepted', 'rejected_unthinned', 'stuffed_pixels', 'cell_holes', 'cell_isolated_nodes', 'corner_nodes', 'cell_outer_contours']),
    'C19': dict(bin='p_cell', quick=20000, thorough=160000, assumptions=[CELLGEN],
                rule='each case decomposes a random boundary image and runs 3..40 random operations on it, 15% of them inapplicable, some also on copies; one execution = one map state, distinct by hash of the cell image along the history',
                must_see=['op_removeIsolatedNode', 'op_mergeFaces', 'op_removeBridge', 'op_mergeEdges', 'refused_removeIsolatedNode', 'refused_mergeFaces', 'refused_removeBridge', 'refused_mergeEdges', 'copies_in_step', 'cell_holes']),
    'C20': dict(bin='p_pyr', quick=6000, thorough=60000, assumptions=[CELLGEN],
                rule='each case builds a pyramid on a random cell image and runs 5..70 random steps: operations, refused operations, (nested, empty, converted) composites, visits of levels in every supported way, cuts and checkpoints; one execution = one level state, distinct by hash of the history of cell images',
                must_see=['levels_compared', 'composites', 'changed_into_composite', 'nested_composites', 'empty_composites', 'cuts', 'checkpoints_used', 'user_checkpoints', 'levels_down', 'levels_up', 'partial_approach', 'ops_refused', 'removeEdge', 'removeEdgeWithEnds']),
    'C21': dict(bin='p_pyr', quick=25000, thorough=200000, assumptions=[CELLGEN, 'edge rethinning is switched off'],
                rule='each case attaches statistics of a random image to a pyramid and runs 5..60 random operations, protections, visits of levels and cuts; one execution = one level state, distinct by hash of the history of cell images',
                must_see=['face_statistics', 'edge_statistics', 'edges_merged', 'levels_visited', 'protected_merged_edges', 'auto_protected', 'auto_unprotected', 'auto_again', 'auto_cleared', 'ops_refused']),
    'C22': dict(bin='py_map', quick=2400, thorough=30000, chunks=8,
                assumptions=['cells, darts and callbacks are used while their map exists', 'callbacks do not modify the map, and raise only where an operation can still be cancelled'],
                rule='each case drives the Python module with a random map: pickling, copying and diverging copies; iterators, orbits, index ranges and cells held beyond their removal; callbacks that accept, veto, answer nonsense, raise or are disconnected during random operations; or incremental construction, protection, crack edge graphs and face statistics; distinct by hash of map, operation and observed events',
                must_see=['pickled', 'pickled_without_edges', 'copied', 'diverged_copies', 'darts', 'bad_labels_rejected', 'bad_indices_rejected', 'removed_cells', 'label_pixels', 'vetoes', 'callback_exceptions', 'remove_events', 'pixel_events', 'monitored_ops', 'constructed', 'protected', 'protection_pickled', 'crack_images', 'faces_measured', 'stats_copied', 'rejected']),
    'C23': dict(bin='py_curve', quick=24000, thorough=200000, chunks=8,
                assumptions=['smoothing filters are wider than the gaps between the points of the curve', 'digital curves are closed where they are declared to be'],
                rule='each case drives the Python module with a random polygon (list operations with valid and invalid indices, pickling, slices, swaps), box, scanned and drawn polygon, curve analysed with a random tangent, curvature, derivative or smoothing function, parabola or line statistics, clipping line, quantile list, label table or image with its watersheds, or calls functions with degenerate arguments; distinct by hash of inputs and results',
                must_see=['polygons', 'splits', 'slices', 'pickled', 'nearest', 'boxes', 'filled_pixels', 'drawn_pixels', 'clipped', 'tangents', 'curvatures', 'third_derivatives', 'scales', 'composed', 'convolved', 'constants', 'equidistant', 'cyclic', 'fits', 'intermediate_fits', 'clip_parts', 'line_statistics', 'merged', 'statistics_pickled', 'quantiles', 'merged_lists', 'digital_lines', 'critical_points', 'edges', 'edge_ends', 'degenerate_calls', 'rejected']),
    'C24': dict(bin='p_dsl', quick=100000, thorough=2000000,
                rule='each case draws a random digital line and judges every point of its surroundings and its mirrored and 4-connected versions, grows a line point by point at both ends (with deviations), computes tangents of random digital curves, or runs a random sequence of merges on a label table; distinct by hash of the line, point sequence, curve or merge history',
                must_see=['line_points', 'mirrored', 'converted', 'points_added', 'points_refused', 'tangents_closed', 'tangents_open', 'tangents_rejected', 'lut_merges', 'lut_appended', 'lut_copies']),
    'C25': dict(bin='p_spws', quick=2800, thorough=28000,
                assumptions=['images of at least (spline order + 4) pixels in each direction: smaller ones overflow inside VIGRA', 'classification and completeness are judged where the smaller curvature is at least 2% of the image range'],
                rule='each case draws a random image (waves, rotated waves, blobs, noise, plateaus) with spline order 2, 3 or 5, random search parameters and mask, judges all critical points and follows the flow lines of all saddles; one execution = one analysed image, distinct by hash of the critical points',
                must_see=['critical_points', 'expected_points', 'masked_searches', 'maximum_classified', 'minimum_classified', 'saddle_classified', 'maximum_lookups', 'flow_lines_to_maxima', 'flow_lines_leaving', 'flow_directions', 'ascents', 'pixels_classified']),
    'C26': dict(valgrind=True, memory_only=True, chunks=8,
                parts=[vg('p_geomap', 'C01', 160), vg('p_geomap', 'C02', 240), vg('p_geomap', 'C03', 160), vg('p_geomap', 'C04', 160), vg('p_geomap', 'C06', 160), vg('p_geomap', 'C07', 160), vg('p_geomap', 'C08', 240),
                       vg('p_query', 'C09', 240), vg('p_embed', 'C10', 240), vg('p_crack', 'C11', 480), vg('p_utils', 'C12', 240), vg('p_utils', 'C13', 240), vg('p_stats', 'C14', 80),
                       vg('p_poly', 'C15', 2400), vg('p_poly', 'C16', 1600), vg('p_poly', 'C17', 4800), vg('p_cell', 'C18', 800), vg('p_cell', 'C19', 320), vg('p_pyr', 'C20', 240), vg('p_pyr', 'C21', 320), vg('p_dsl', 'C24', 4000), vg('p_spws', 'C25', 32),
                       asan('p_geomap', 'C01', 800), asan('p_geomap', 'C05', 1200), asan('p_geomap', 'C08', 800), asan('p_query', 'C09', 600), asan('p_embed', 'C10', 400), asan('p_crack', 'C11', 1600), asan('p_utils', 'C12', 400),
                       asan('p_stats', 'C14', 240), asan('p_poly', 'C15', 4000), asan('p_poly', 'C16', 8000), asan('p_poly', 'C17', 16000), asan('p_cell', 'C18', 3200), asan('p_cell', 'C19', 1600), asan('p_pyr', 'C20', 800), asan('p_pyr', 'C21', 1600),
                       asan('p_dsl', 'C24', 16000), asan('p_spws', 'C25', 240)],
                assumptions=['the Python workloads run with AddressSanitizer in their own checks only'],
                rule='the workloads of C01 to C25 (without the Python ones) run with AddressSanitizer and UBSan, and uninstrumented under Valgrind memcheck, which follows every byte: invalid or freed accesses, decisions based on uninitialised values, mismatched deallocation, and blocks still allocated but unreachable after all objects of the workload have been destroyed; one execution = one workload case, distinct by the hashes of the workloads',
                must_see=['cases']),
    'C27': dict(bin='py_lib', quick=12000, thorough=100000, chunks=8, assumptions=[PYLIB],
                rule='each case builds a random map and runs one of the segmentation procedures of the Python library on it (region merging by cost, removal of small or uninteresting cells, classification of faces, region growing on the map or on labels, minimum spanning tree, regional minima, waterfall, protection of faces) with random costs, seeds, thresholds and protected edges; one execution = one map state compared with an independent model, distinct by hash',
                must_see=['region_merger', 'growing', 'merged_to_best', 'merged_by_label', 'merge_one', 'classification', 'kernels', 'merges_observed', 'merges_refused', 'spanning_trees', 'static_growing', 'trees', 'cruft', 'small_regions', 'small_left', 'holes', 'points_in_faces', 'thin_faces', 'queries', 'sparse_regions', 'coarse_costs', 'own_face_flags']),
    'C28': dict(bin='py_lib', quick=8000, thorough=80000, chunks=8, assumptions=[PYLIB],
                rule='each case copies or rebuilds a random map, records a random history of operations and replays it (directly, from files, from pickled histories) on copies, derives dual maps or trees of regions, or walks paths of darts; one execution = one map or path, distinct by hash',
                must_see=['contents_copied', 'maps_copied', 'from_edges', 'history', 'mismatches_rejected', 'tree_maps', 'dual', 'dual_edges', 'paths', 'close_nodes', 'edges_merged_unrecorded', 'refusals_reported']),
    'C29': dict(bin='py_lib', quick=4000, thorough=40000, chunks=8, assumptions=[PYLIB],
                rule='each case attaches edge costs, watershed, basin, gradient or tangent statistics to a random map, runs a random history of merges and splits and recomputes every statistic from the original edges after each operation, or evaluates shape measures and distributions; one execution = one map with its statistics, distinct by hash',
                must_see=['edge_merges', 'watersheds', 'edges_added_later', 'splits', 'dynamics', 'pickled_statistics', 'gradients', 'gradients_along_tangents', 'connected_flowlines', 'basins_without_minimum', 'quantiles', 'tangents', 'measures', 'distributions', 'flat_valleys', 'refused_operations']),
}
