"""Writes properties.jsonl and MANIFEST.json from the table below (python tools/gen.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'dynetworkx/classes/'
IVF = [D + 'intervalgraph.py', D + 'intervaldigraph.py', D + 'intervaltree.py']
IMF = [D + 'impulsegraph.py', D + 'impulsedigraph.py']
SNF = [D + 'snapshotgraph.py', D + 'snapshotdigraph.py']
ALL4 = IVF + IMF


def M(*pairs):
    return [{'name': n, 'where': w} for n, w in pairs]


P = [
 dict(id='C01', title='Interval edge queries return exactly the edges present in the window',
  statement='For every interval graph (undirected and directed) and every history that built it, asking for edges (by source, target, both, one node or several, and any window with either bound omitted) or whether two nodes are joined returns exactly the stored edges that match the endpoints and are present in the window, each once. An edge lasting [begin, end) is present in a window [b, e) if it overlaps it or starts exactly at b, so zero-length edges and single-instant windows are answered; an exact-interval question matches only an edge with exactly that begin and end. Nodes and times may be any hashable / orderable values, including 0, negative, huge and floating-point ones.',
  over=['inputs', 'histories'], text='all histories of edge additions (any order, any interval structure) and all windows and endpoint arguments',
  why='The tests query a handful of hand-built graphs; balance rotations, max-end maintenance and boundary comparisons only go wrong for particular insertion orders, interval shapes and windows.',
  files=IVF, mech=M(('window search of the balanced interval tree', D + 'intervaltree.py: IntervalTree.query/insert/leftRotate/rightRotate/updateMax'), ('node-first and interval-first retrieval', D + 'intervalgraph.py: IntervalGraph.edges, has_edge; intervaldigraph.py the same')),
  observe=['edges', 'has_edge'],
  level_note='exhaustive within the bounds: orders and shapes of up to 7 intervals, all windows; larger graphs by the longer structured families only'),
 dict(id='C02', title='Interval removals take out exactly the matching edges and nodes',
  statement='Removing an edge (everywhere, in a window, or by its exact interval) or a node (altogether or in a window) from an interval graph removes exactly the matching edges, and the node itself only once it has no edge left; removing what is not there changes nothing. Afterwards every query by node, by window, by time extent and by snapshot agrees that exactly the other edges remain.',
  over=['inputs', 'histories'], text='all histories of additions and removals, all removal windows, followed by every query',
  why='Tests remove one edge from one graph; deletion from the balanced tree, and the agreement between time index and adjacency, break only after particular sequences.',
  files=IVF, mech=M(('deletion from the balanced tree', D + 'intervaltree.py: IntervalTree.remove/discard'), ('edge and node removal', D + 'intervalgraph.py: remove_edge, remove_node; intervaldigraph.py the same')),
  observe=['edges', 'nodes', 'interval', 'has_edge', 'has_node'],
  level_note='exhaustive within the bounds: all removals from all sets of few edges, all histories of few operations, all removal orders of 7-interval trees'),
 dict(id='C03', title='Node queries: a node is present in a window iff one of its edges is',
  statement='With no window, the nodes of a temporal graph are exactly those added and not removed, explicitly or as edge endpoints. With a window, the node list, the node count and the node test report exactly the endpoints of the edges present in that window. Membership and length agree with the node list.',
  over=['inputs', 'histories'], text='all four temporal classes, all histories, all windows and inclusivities',
  why='Tests check a few nodes at a few times; agreement of list, count and test for every window and node value is not sampled.',
  files=ALL4, mech=M(('node queries', 'nodes, has_node, number_of_nodes, __contains__, __len__ of each temporal class')),
  observe=['nodes', 'has_node', 'number_of_nodes'],
  level_note='exhaustive within the bounds: sets of few edges plus isolated nodes, all windows over times and midpoints'),
 dict(id='C04', title='Impulse edge queries honour the window and its inclusivity exactly',
  statement='For every impulse graph (undirected and directed) edge and joined-by-an-edge queries return exactly the stored instantaneous edges that match the endpoint arguments and whose time lies in the window, each bound inclusive or exclusive as asked (by default begin inclusive, end exclusive), omitted bounds being unbounded. A window whose two bounds are equal asks about that one instant. Queries interleaved with additions see all edges added so far.',
  over=['inputs', 'histories'], text='all histories of additions, all windows x inclusivities x endpoint arguments',
  why='Tests use default inclusivity nearly everywhere; boundary instants with each inclusivity through each retrieval path are not covered.',
  files=IMF, mech=M(('time-indexed search', 'ImpulseGraph/ImpulseDiGraph.__search_tree'), ('per-edge window test', 'ImpulseGraph/ImpulseDiGraph.__in_interval'), ('edges, has_edge', IMF[0] + ', ' + IMF[1])),
  observe=['edges', 'has_edge'], level_note='exhaustive within the bounds: sequences of few edges over few instants, all windows and inclusivities'),
 dict(id='C05', title='Impulse removals take out exactly the matching edges and leave no trace',
  statement='Removing an edge or a node from an impulse graph, altogether or in a window with given inclusivity, removes exactly the matching edges (and the node only when none of its edges remains); removing what is absent changes nothing. Afterwards every query - by node, by time, extent, snapshots - agrees that exactly the other edges remain, including edges of other pairs at the same instant.',
  over=['inputs', 'histories'], text='all histories of additions and removals, all removal windows and inclusivities',
  why='The tests remove from one fixed graph; traces left in one of the redundant indexes show only in later queries of another kind.',
  files=IMF, mech=M(('removal', 'remove_edge, remove_node, __remove_iedge of ImpulseGraph and ImpulseDiGraph')),
  observe=['edges', 'nodes', 'interval'], level_note='exhaustive within the bounds: all removals, pairs of removals and short histories, then every query'),
 dict(id='C06', title='Degrees count the edges in the window; changes list each step in time order',
  statement="A node's degree (and in-/out-degree in directed graphs) in a window is the number of its edges present there, and the mean degree averages it over the nodes present there; in a directed graph the degree is the sum of in- and out-degree. The list of degree changes gives, in time order, the degree after each begin or end of the node's edges inside the window (for impulse graphs: the number of its edges at each instant, by time in directed graphs). A window that lies outside the graph has no changes.",
  over=['inputs', 'histories'], text='all graphs, nodes, windows and inclusivities of the four classes',
  why='Tests check a few degrees; boundary events, ties of begins and ends, self-loops and windows beyond the graph are not reached.',
  files=ALL4, mech=M(('degrees', 'degree, in_degree, out_degree of each temporal class')), observe=['degree', 'in_degree', 'out_degree'],
  level_note='exhaustive within the bounds: sets of few edges; mean degree not asked where no node is present'),
 dict(id='C07', title='Time extent and unique timestamps are those of the current edges',
  statement='The extent of a temporal graph runs from the earliest begin to the latest end (or instant) of its current edges, after any additions and removals. The lists of unique timestamps, begin timestamps and end timestamps of interval graphs are sorted, without duplicates, and contain exactly the times of current edges within the (inclusive or exclusive) bounds asked for.',
  over=['inputs', 'histories'], text='all histories of additions and removals, all bounds and inclusivities',
  why='After removals the cached bounds may be stale in only some orders; tests never remove before asking.',
  files=ALL4, mech=M(('cached tree bounds', D + 'intervaltree.py: IntervalTree.add/remove'), ('timestamps', 'IntervalTree.unique_timestamps, unique_begin_timestamps, unique_end_timestamps')),
  state=[{'name': 'begin/end', 'meaning': 'cached extent', 'where': D + 'intervaltree.py'}], observe=['interval', 'unique_timestamps'],
  level_note='exhaustive within the bounds'),
 dict(id='C08', title='Static projections hold exactly the nodes, edges and data of the window',
  statement='Projecting a temporal graph on a window gives a static graph of matching directedness (multigraph if asked) whose edges are exactly the edges present in the window and whose nodes are their endpoints. Edge attributes, begin/end or timestamp, and node attributes are included exactly when asked, each with the values of the edge or node it belongs to.',
  over=['inputs', 'configurations'], text='all graphs, windows, inclusivities and option combinations of the four classes',
  why='16 option combinations x windows x graphs; tests try a few combinations on one graph.',
  files=ALL4, mech=M(('projection', 'to_subgraph, to_networkx_graph of each temporal class')), observe=['to_subgraph', 'to_networkx_graph'],
  level_note='exhaustive within the bounds: few attributed edges, all option combinations'),
 dict(id='C09', title='Equal-length snapshots partition the extent and hold the right edges',
  statement='Splitting a temporal graph into n snapshots, or into snapshots of a given length, yields consecutive equal windows that start at the earliest time and cover the whole extent, the last one including the latest time. Snapshot i is the static projection on window i with the requested data; the returned length is the one used.',
  over=['inputs', 'configurations'], text='all graphs, all numbers and lengths of snapshots (integer and float), all options',
  why='Rounding of the number of snapshots and the inclusion of the end depend on the length/extent ratio; tests use one ratio.',
  files=ALL4, mech=M(('snapshots', 'IntervalGraph.to_snapshots, ImpulseGraph.to_snapshots')), observe=['to_snapshots'],
  level_note='exhaustive within the bounds'),
 dict(id='C10', title='Conversion to a snapshot graph keeps every change of the network',
  statement='An interval graph converts to one snapshot per pair of consecutive distinct event times of its lasting edges, each holding exactly the edges present between the two, plus one instantaneous snapshot per zero-length interval. An impulse graph converts to one instantaneous snapshot per distinct time, holding exactly that instant\'s edges. Requested edge, time and node data are included.',
  over=['inputs', 'configurations'], text='all graphs and options of the four classes',
  why='Depends on coincidence of begins, ends and instants; tests convert one graph.',
  files=ALL4 + SNF, mech=M(('conversion', 'to_snapshot_graph of IntervalGraph and ImpulseGraph')), observe=['to_snapshot_graph'],
  level_note='exhaustive within the bounds'),
 dict(id='C11', title='Building from snapshots joins consecutive appearances into intervals',
  statement='An interval graph built from a sequence of snapshots, with given begin and period, has for each edge one interval per maximal run of consecutive snapshots containing it, spanning exactly the time of the run, with the attributes of the first snapshot of the run. The result has the class it was asked of.',
  over=['inputs', 'histories'], text='all sequences of snapshots (with gaps, multi-edges, self-loops), all begins and periods',
  why='Run detection depends on the gap pattern; tests use one pattern.',
  files=IVF + SNF, mech=M(('run joining', 'IntervalGraph.from_snapshot_graph')), observe=['from_snapshot_graph'],
  level_note='exhaustive within the bounds: all appearance patterns of few edges over few snapshots'),
 dict(id='C12', title='Static graphs with time data convert to temporal graphs and back',
  statement='A temporal graph built from a static graph whose edges carry begin/end or timestamp data has exactly one edge per static edge, at those times, with all the other attributes. Projecting a temporal graph with all its data and building from it again gives the same edges and edge attributes.',
  over=['inputs'], text='all static graphs (simple, multi, directed) and attribute names; all temporal graphs',
  why='Attribute names, zero times and parallel edges vary; tests convert one graph.',
  files=ALL4, mech=M(('conversion', 'from_networkx_graph of IntervalGraph and ImpulseGraph')), observe=['from_networkx_graph', 'to_networkx_graph'],
  level_note='exhaustive within the bounds'),
 dict(id='C13', title='Interval graph text files: load what is written, save what is loaded',
  statement='Loading an interval text file gives exactly one edge per data line, for every delimiter, column order (including fixed durations), node and time type, comment marker, blank or comment-only line and attribute. Nodes that look like integers become integers and others stay text, each on its own; attributes that look like numbers become numbers. Saving a graph and loading the file gives the same edges, times and attributes.',
  over=['inputs', 'configurations'], text='all line shapes, orders, delimiters, types, comments; all graphs saved',
  why='The loader has a branch per option; tests load a couple of fixed files.',
  files=IVF, mech=M(('text input/output', 'IntervalGraph.load_from_txt, save_to_txt')), observe=['load_from_txt', 'save_to_txt'],
  level_note='exhaustive within the bounds: a grammar of lines and options'),
 dict(id='C14', title='Loading with merge joins exactly the edges within the grace period',
  statement='Loading an interval file with merging joins edges of the same pair of nodes with equal data whose gap is at most the grace period into one edge from the earliest begin to the latest end, in any order of lines, transitively. Edges of other pairs, other direction (in directed graphs), other data or larger gaps stay separate.',
  over=['inputs', 'configurations'], text='all sequences of lines in all orders, grace periods 0..2',
  why='The result must not depend on the order of lines; tests load one order.',
  files=IVF, mech=M(('merging', 'IntervalGraph.load_from_txt (merge)')), observe=['load_from_txt'],
  level_note='exhaustive within the bounds; integer times'),
 dict(id='C15', title='Impulse graph text files: load what is written, save what is loaded',
  statement='Loading an impulse text file gives exactly one edge per data line, for every delimiter, column order, node and time type, comment marker, blank or comment-only line and attribute, undirected and directed alike. Nodes that look like integers become integers and others stay text, each on its own; attributes that look like numbers become numbers. Saving a graph and loading the file gives the same edges, times and attributes.',
  over=['inputs', 'configurations'], text='all line shapes, orders, delimiters, types, comments; all graphs saved',
  why='The loader has a branch per option, duplicated for the directed class; tests load fixed files.',
  files=IMF, mech=M(('text input/output', 'ImpulseGraph/ImpulseDiGraph.load_from_txt, ImpulseGraph.save_to_txt')), observe=['load_from_txt', 'save_to_txt'],
  level_note='exhaustive within the bounds: a grammar of lines and options'),
 dict(id='C16', title='Snapshot graphs return and measure exactly the snapshots of a range',
  statement='A snapshot graph keeps its snapshots ordered by interval, one per interval, whatever the insertion order. A time range selects exactly the snapshots that overlap it (a snapshot starting at its begin included, one starting at its end not), an index list exactly those snapshots in the order listed. Order, size, degrees, node tests, direction, conversions and custom statistics are those of each selected snapshot.',
  over=['inputs', 'histories'], text='all insertion orders of snapshot intervals/instants, all ranges and index lists',
  why='Overlapping, nested, adjacent and instantaneous snapshots against every range; tests use adjacent unit intervals.',
  files=SNF, mech=M(('selection', 'SnapshotGraph._get'), ('insertion', 'SnapshotGraph.insert, add_snapshot; SnapshotDiGraph.add_snapshot')), observe=['get', 'order', 'size', 'degree', 'number_of_nodes', 'has_node', 'compute_network_statistic'],
  level_note='exhaustive within the bounds'),
 dict(id='C17', title='The subgraph of a snapshot graph is induced snapshot by snapshot',
  statement='The subgraph of a snapshot graph on some nodes has the same class and graph attributes and, for exactly the snapshots selected by the range or index list, their intervals and the subgraphs induced by those nodes with all their data. Nodes that are absent are ignored, and the original is unchanged.',
  over=['inputs', 'histories'], text='all snapshot sequences, node sets, ranges and index lists',
  why='Tests take one subgraph.', files=SNF, mech=M(('subgraph', 'SnapshotGraph.subgraph')), observe=['subgraph'], level_note='exhaustive within the bounds'),
 dict(id='C18', title='Range updates change exactly the selected part of snapshots, splitting them',
  statement='Adding nodes or edges (with attributes) to a time range of a snapshot graph changes the network at exactly the times inside the range: a snapshot that straddles a bound of the range is split there into two with equal content, of which only the part inside is changed. With an index list exactly those snapshots change; parts are independent of each other afterwards.',
  over=['inputs', 'histories'], text='all snapshot sequences, ranges and index lists, sequences of updates',
  why='Splitting depends on how range bounds fall into snapshots; tests use bounds on snapshot boundaries.',
  files=SNF, mech=M(('splitting', 'SnapshotGraph._get(split_overlaps)'), ('updates', 'SnapshotGraph.add_nodes_from, add_edges_from')), observe=['add_nodes_from', 'add_edges_from', 'get'],
  level_note='exhaustive within the bounds'),
 dict(id='C19', title='Snapshot text files: load what is written, save what is loaded',
  statement='Loading a snapshot file gives one snapshot per data line with the stated interval and exactly the edges with a non-zero matrix entry, weighted by it, directed when loaded as a directed snapshot graph; blank lines and comments are skipped and start/end may come in either order under any names. Saving a snapshot graph and loading the file gives the same intervals and the same adjacency.',
  over=['inputs', 'configurations'], text='all small matrices, intervals, delimiters, labels, comments',
  why='Tests load one file.', files=SNF, mech=M(('text input/output', 'SnapshotGraph.load_from_txt, save_to_txt')), observe=['load_from_txt', 'save_to_txt'],
  level_note='exhaustive within the bounds: all 0/1/2 matrices up to 2x2 and selected larger ones'),
 dict(id='C20', title='Motif counts equal the ordered, time-limited matches of the motif',
  statement='Counting a connected temporal motif in a directed impulse graph returns, for every tuple of nodes, exactly the number of sequences of edges with strictly increasing times, all within delta of the first, that match the motif edge by edge under a one-to-one naming of its nodes; the total and the table of how often each node takes each position follow from these counts. The result does not depend on the random choices made while enumerating, and the graph is unchanged.',
  over=['inputs', 'schedules'], text='all graphs, motifs and deltas; all outcomes of the internal random choices',
  why='Tests count a few motifs; dynamic-programming window bookkeeping and random enumeration order need every graph/choice combination.',
  files=['dynetworkx/algorithms/count_temporal_motif.py'] + IMF, mech=M(('subgraph enumeration with random choices', 'count_temporal_motif.py: __enumerate_subgraphs, __extend_subgraph'), ('sliding-window counting', 'count_temporal_motif.py: __increment_counts, __decrement_counts'), ('matching and totals', 'count_temporal_motif.py: count_temporal_motif')),
  observe=['count_temporal_motif'], level_note='exhaustive over small graphs, all motifs of <=3 edges, all random choices on 3-node graphs (deviation-bounded on larger)'),
 dict(id='C21', title='A trained predictive model never changes what a query returns',
  statement='Training the predictive model of a temporal graph, at any moment of its history or while loading it, changes neither the graph nor the answer of any query then or after later changes: whichever retrieval strategy the model predicts to be faster, the same edges come back.',
  over=['histories', 'inputs', 'schedules'], text='all histories with training at any point, all queries, both predictions and ties',
  why='The prediction depends on measured timings, so a test exercises whichever strategy the machine happens to prefer.',
  files=ALL4, mech=M(('strategy choice', '_node_first_is_faster and edges of each temporal class'), ('training', 'generate_predictive_model, __generate_training_data')), observe=['edges', 'degree'],
  level_note='exhaustive within the bounds, over every prediction outcome'),
 dict(id='C22', title='Edges are unique per identity; attributes belong to one edge or node only',
  statement='Adding an edge or node that exists updates its attributes and creates no duplicate; adding it again after removal starts with only the newly given attributes. Every node and edge keeps exactly the attributes given to it, and shares none with another, in every data form (all, one attribute with default) and window; bulk additions give every element the common attributes plus its own, which take precedence.',
  over=['histories'], text='all histories of single and bulk additions with attributes and removals on the four classes',
  why='Tests set attributes once; sharing and stale attributes show only after re-adding.',
  files=ALL4, mech=M(('attribute storage', 'add_node, add_nodes_from, add_edge, add_edges_from of each temporal class')), observe=['edges(data)', 'nodes(data)'],
  level_note='exhaustive within the bounds: all histories of <=4 of 18 operations'),
 dict(id='C23', title='Queries change nothing; graphs share nothing with callers or each other',
  statement='No query, projection, conversion, count or save changes the graph it is asked of or prints anything, so asking in any order gives the same answers. Changing a returned list, projection, snapshot or converted graph, or a container or graph that was given as input, changes no temporal graph; and a returned list, windowed answer, projection or converted graph does not change with the graph later. Two graphs never affect each other however their operations interleave.',
  over=['histories', 'schedules', 'inputs'], text='all ordered pairs of queries, all interleavings of two histories, all conversions',
  why='A side effect shows only in a later, different query; tests ask each query of a fresh graph.',
  files=ALL4 + SNF, mech=M(('copies', 'to_subgraph, to_snapshots, from_networkx_graph, from_snapshot_graph, subgraph'), ('per-instance state', '__init__ of each class')), observe=['every query'],
  level_note='exhaustive within the bounds; live attribute dictionaries and snapshots are not written to'),
 dict(id='C24', title='Refused calls raise their documented error and leave the graph unchanged',
  statement='A call that cannot be carried out - a window or edge whose end precedes its begin, an edge tuple of the wrong length, an unhashable node or incomparable time, contradictory or missing range, index or snapshot arguments, a missing bound for an exact match, an unusable delimiter, column order or value in a file, saving an empty graph - raises an error of the documented kind. The graph, and an existing file that a refused save names, are left as they were, and the graph keeps working.',
  over=['histories', 'inputs', 'fault_sequences'], text='all short histories followed by every refused call, on all six classes',
  why='Tests check a few errors and never the state left behind.',
  files=ALL4 + SNF, mech=M(('validation before change', 'add_edge, add_edges_from, edges, remove_edge, to_snapshots, save_to_txt, load_from_txt, insert, add_snapshot')), observe=['exceptions', 'every query afterwards'],
  level_note='exhaustive within the bounds: every refused call after every short history'),
 dict(id='C25', title="A graph's answers depend on its content, not on the history that built it",
  statement='Two temporal (or snapshot) graphs of the same class with the same nodes, edges and attributes give the same answer to every query, projection, conversion, count and saved file (up to order within unordered results), whatever the order in which their elements were added and whatever was added and removed, replaced or refused in between.',
  over=['histories'], text='all histories of additions, re-additions and removals leading to the same content',
  why='Residue of a detour shows in one query after one particular history; tests build graphs one way.',
  files=ALL4 + SNF, mech=M(('index maintenance', 'add/remove methods of each class, IntervalTree.insert/discard')), observe=['every query'],
  level_note='exhaustive within the bounds: all histories of <=4 operations, all insertion orders with detours'),
 dict(id='C26', title='Answers follow a renaming of nodes or a shift or scaling of time',
  statement='No node name and no time is special: if the nodes of a temporal or snapshot graph are renamed one to one, or all its times shifted or scaled (to zero, negative, fractional or huge values, or to numpy or Fraction numbers) or replaced in order by values of another orderable type such as dates or texts, then every query, projection, conversion, range update, motif count and saved file of the renamed graph is the renamed answer of the original.',
  over=['inputs', 'histories'], text='all short histories and every query, under every renaming of a list of node and time names',
  why='Tests use small positive integers; a value treated as missing, as a default or as a position shows only for other names.',
  files=ALL4 + SNF + ['dynetworkx/algorithms/count_temporal_motif.py'], mech=M(('tests for a missing argument', 'begin/end/node parameters of every method'), ('time arithmetic', 'to_snapshots, degree, from_snapshot_graph, _get')), observe=['every query'],
  technique='exhaustive bounded exploration of pairs of runs of the real code: each history and query beside its renamings',
  level_note='exhaustive within the bounds: all histories of <=2 (3) changes x 27 renamings x ~130 queries'),
]


def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            a = {'files': p['files'], 'mechanism': p['mech'], 'observe_at': p['observe'], 'hook_needed': None}
            if 'state' in p:
                a['state'] = p['state']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']},
                                'why_tests_cant': p['why'], 'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -c "import networkx, numpy, sklearn, pandas, sortedcontainers"',
         'checks': [], 'not_applicable': [],
         'notes': 'Every check imports dynetworkx from /repo\'s working tree and explores the real code; no hooks are needed. Known findings: known_findings.txt.'}
    for p in P:
        m['checks'].append({
            'property': p['id'], 'quick_cmd': '/opt/venv/bin/python check.py ' + p['id'],
            'thorough_cmd': '/opt/venv/bin/python check.py %s --thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p.get('technique', 'exhaustive bounded exploration of histories and queries on the real code against a reference model'),
            'level': 'model_checking', 'level_note': p['level_note']})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
