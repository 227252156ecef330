"""Development: sources of the planted bugs; plant.py writes them to seeded/<id>/."""
SEEDS = {}


def seed(sid, prop, edits, needs, breaks, demo):
    SEEDS[sid] = (prop, edits, needs, breaks, demo)


EXE = r'''
import os, sys, tempfile, stat
def fake_exe(d, text):
    p = os.path.join(d, 'tool.sh')
    open(p, 'w').write('#!/bin/bash\n' + text)
    os.chmod(p, 0o755)
    return p
'''

TECH = r'''
import klayout.db as kdb
from types import SimpleNamespace as NS
import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
from klayout_pex.tech_info import TechInfo
from klayout_pex.rcx25.extraction_results import *
from klayout_pex.rcx25.extraction_reporter import ExtractionReporter
from klayout_pex.rcx25.c.overlap_extractor import OverlapExtractor
from klayout_pex.rcx25.c.sidewall_and_fringe_extractor import SidewallAndFringeExtractor
def tech(names, halo=8.0):
    t = tech_pb2.Technology()
    pp = t.process_parasitics
    pp.side_halo = halo
    for i, a in enumerate(names):
        s = pp.capacitance.substrates.add(); s.layer_name = a; s.area_capacitance = 10.0 + i; s.perimeter_capacitance = 40.0 + i
        w = pp.capacitance.sidewalls.add(); w.layer_name = a; w.capacitance = 50.0 + i; w.offset = 0.1
        for j, b in enumerate(names):
            if j < i:
                o = pp.capacitance.overlaps.add(); o.top_layer_name = a; o.bottom_layer_name = b; o.capacitance = 30.0 + 5 * i + j
            if j != i:
                so = pp.capacitance.sideoverlaps.add(); so.in_layer_name = a; so.out_layer_name = b; so.capacitance = 20.0 + 3 * i + j
    return TechInfo(t, None)
def region(boxes):
    r = kdb.Region(); r.enable_properties()
    for net, *c in boxes:
        r.insert(kdb.PolygonWithProperties(kdb.Polygon(kdb.Box(*c)), {'net': net}))
    return r
def run(cls, layers, halo=8.0, **kw):
    """layers: {name: [(net, l, b, r, t)…]}, dbu 1 nm"""
    ti = tech([n for n in layers if n != 'VSUBS'], halo)
    res = CellExtractionResults('TOP')
    regs = {n: region(b) for n, b in layers.items()}
    cls(all_layer_names=list(layers), layer_regions_by_name=regs, dbu=0.001, tech_info=ti, results=res,
        report=ExtractionReporter('TOP', 0.001), **kw).extract()
    return res
'''

seed('magic-killed', 'C01', [('klayout_pex/magic/magic_runner.py', '    if proc.returncode == 0:\n', '    if proc.returncode <= 0:\n')],
     'Magic is ended by a signal (out of memory, crash), so its status is negative',
     'run_magic reports success although Magic was killed', EXE + r'''
from klayout_pex.magic.magic_runner import run_magic
with tempfile.TemporaryDirectory() as d:
    exe = fake_exe(d, 'echo started\nkill -SEGV $$\n')
    try:
        run_magic(exe, os.path.join(d, 'rc'), os.path.join(d, 's.tcl'), os.path.join(d, 'log'))
    except Exception as e:
        print('raised:', e); sys.exit(0)
print('a killed Magic counts as a success'); sys.exit(1)
''')

seed('fastercap-blank-line', 'C02', [('klayout_pex/fastercap/fastercap_runner.py', '            if not line:\n', '            if not line.strip():\n')],
     'the solver prints an empty line before more output',
     'everything after the first blank line is missing in the log file', EXE + r'''
from klayout_pex.fastercap.fastercap_runner import run_fastercap
with tempfile.TemporaryDirectory() as d:
    exe = fake_exe(d, 'trap "" PIPE\necho one\necho\necho two 2>/dev/null\nexit 0\n')
    log = os.path.join(d, 'log')
    run_fastercap(exe, os.path.join(d, 'x.lst'), log, 0.05, 0.5, 0.5, None, False, False, False)
    t = open(log).read()
    print(repr(t))
    sys.exit(0 if t.split() == ['one', 'two'] else 1)
''')

seed('lvs-cache-key', 'C06', [('klayout_pex/kpex_cli.py', "                                                os.path.splitroot(os.path.abspath(args.gds_path))[-1],\n",
                               "                                                os.path.basename(args.gds_path),\n")],
     'two layouts of the same file name and cell name in different directories are extracted one after the other with a shared cache directory',
     "the second run reuses the LVS database of the other layout", r'''
import os, sys, tempfile
from types import SimpleNamespace as NS
import klayout_pex.kpex_cli as m
class FakeDB:
    def read(self, path): self.content = open(path).read()
class FakeRunner:
    def run_klayout_lvs(self, gds_path, lvsdb_path, **kw): open(lvsdb_path, 'w').write('LVS of ' + gds_path)
m.kdb = NS(LayoutVsSchematic=FakeDB)
m.LVSRunner = FakeRunner
with tempfile.TemporaryDirectory() as d:
    got = []
    for sub in ('a', 'b'):
        os.makedirs(f"{d}/{sub}/out")
        g = f"{d}/{sub}/top.gds"
        open(g, 'w').write(sub)
        os.utime(g, (1000000000, 1000000000))
        args = NS(input_mode=m.InputMode.GDS, output_dir_path=f"{d}/{sub}/out", effective_cell_name='TOP', cache_dir_path=f"{d}/cache", pdk='sky130A',
                  gds_path=g, cache_lvs=True, klayout_exe_path='klayout', lvs_script_path='x.lvs', effective_gds_path=g, effective_schematic_path='s',
                  klayout_lvs_verbose=False)
        got.append(m.KpexCLI().create_lvsdb(args).content == 'LVS of ' + g)
    print(got)
    sys.exit(0 if got == [True, True] else 1)
''')

seed('fastcap-raw-matrix', 'C08', [('klayout_pex/kpex_cli.py', """        run_fastcap(exe_path=args.fastcap_exe_path,
                    lst_file_path=lst_file,
                    log_path=log_path)

        cap_matrix = fastcap_parse_capacitance_matrix(log_path)
        cap_matrix.write_csv(raw_csv_path)

        cap_matrix = cap_matrix.averaged_off_diagonals()
        cap_matrix.write_csv(avg_csv_path)
""", """        run_fastcap(exe_path=args.fastcap_exe_path,
                    lst_file_path=lst_file,
                    log_path=log_path)

        cap_matrix = fastcap_parse_capacitance_matrix(log_path)
        cap_matrix.write_csv(raw_csv_path)

        avg_matrix = cap_matrix.averaged_off_diagonals()
        avg_matrix.write_csv(avg_csv_path)
""")], 'a FastCap matrix that is not symmetric',
     'the netlist is expanded from the raw matrix instead of the symmetrised one', r'''
import os, sys, tempfile
from types import SimpleNamespace as NS
import klayout_pex.kpex_cli as m
LOG = """CAPACITANCE MATRIX, picofarads
                     1          2
$1%GROUP2 1       7850      -7000
$1%GROUP2 2      -5000       8000
"""
m.run_fastcap = lambda exe_path, lst_file_path, log_path, **kw: open(log_path, 'w').write(LOG)
seen = []
class Stop(Exception): pass
class Expander:
    def expand(self, extracted_netlist, top_cell_name, cap_matrix, blackbox_devices):
        seen.append(cap_matrix); raise Stop
m.NetlistExpander = Expander
with tempfile.TemporaryDirectory() as d:
    try:
        m.KpexCLI().run_fastcap_extraction(NS(output_dir_path=d, effective_cell_name='TOP', fastcap_exe_path='fastcap', blackbox_devices=False),
                                           NS(lvsdb=NS(netlist=lambda: None), annotated_top_cell=NS(name='TOP')), 'x.lst')
    except Stop:
        pass
r = seen[0].rows
print(r)
sys.exit(0 if r[0][1] == r[1][0] else 1)
''')

seed('matrix-shallow-copy', 'C10', [('klayout_pex/common/capacitance_matrix.py', '        c = copy.deepcopy(self)\n',
                                     '        c = CapacitanceMatrix(conductor_names=list(self.conductor_names), rows=list(self.rows))\n')],
     'the original matrix is used after it has been symmetrised',
     'symmetrising changes the rows of the original matrix', r'''
import sys
from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
a = CapacitanceMatrix(['g_1', 'g_2'], [[5.0, -1.0], [-3.0, 6.0]])
b = a.averaged_off_diagonals()
print(a.rows, b.rows)
sys.exit(0 if a.rows == [[5.0, -1.0], [-3.0, 6.0]] and b.rows == [[5.0, -2.0], [-2.0, 6.0]] else 1)
''')

seed('expander-unnamed-net', 'C12', [('klayout_pex/klayout/netlist_expander.py', 'name2net: Dict[str, kdb.Net] = {n.expanded_name(): n for n in top_circuit.each_net()}',
                                      'name2net: Dict[str, kdb.Net] = {n.name: n for n in top_circuit.each_net()}')],
     'a conductor on a net without a name ($1)', 'a conductor of an unnamed net is not found and the expansion fails', r'''
import sys
import klayout.db as kdb
from klayout_pex.klayout.netlist_expander import NetlistExpander
from klayout_pex.common.capacitance_matrix import CapacitanceMatrix
nl = kdb.Netlist(); c = kdb.Circuit(); c.name = 'TOP'; nl.add(c)
c.create_net('VSUBS'); c.create_net('A'); u = c.create_net()
m = CapacitanceMatrix(['g1_VSUBS', 'g2_A', f'g3_{u.expanded_name()}'], [[3., -1., -2.], [-1., 5., -3.], [-2., -3., 6.]])
try:
    e = NetlistExpander.expand(nl, 'TOP', m, True)
except Exception as x:
    print('failed:', x); sys.exit(1)
got = sorted((d.net_for_terminal('A').expanded_name(), d.net_for_terminal('B').expanded_name(), d.parameter('C'))
             for d in e.circuit_by_name('TOP').each_device() if d.device_class().name == 'PEX_CAP')
print(got)
sys.exit(0 if len(got) == 5 else 1)
''')

seed('netlist25-new-node', 'C13', [('klayout_pex/rcx25/netlist_expander.py', """        for key, _ in res_items:
            add_net_if_needed(key.net1)
            add_net_if_needed(key.net2)
""", """        for key, _ in res_items:
            add_net_if_needed(key.net1)
""")], 'a resistance whose second node is a new one (created by the R extraction) that occurs nowhere else as a first node',
     'writing the netlist fails for such a resistance', r'''
import sys
import klayout.db as kdb
from klayout_pex.rcx25.extraction_results import *
from klayout_pex.rcx25.netlist_expander import RCX25NetlistExpander
import klayout_pex.rcx25.netlist_expander as m
nl = kdb.Netlist(); c = kdb.Circuit(); c.name = 'TOP'; nl.add(c); c.create_net('A')
class R:
    def summarize(self): return ExtractionSummary(capacitances={}, resistances={NetCoupleKey('A', 'A.$node7'): 12.5})
try:
    e = RCX25NetlistExpander.expand(nl, 'TOP', R(), True)
except KeyError as x:
    print('failed', x); sys.exit(1)
got = [(d.net_for_terminal('A').name, d.net_for_terminal('B').name, d.parameter('R')) for d in e.circuit_by_name('TOP').each_device()]
print(got)
sys.exit(0 if got == [('A', 'A.$node7', 12.5)] else 1)
''')

seed('reduce-before-combine', 'C14', [('klayout_pex/klayout/netlist_reducer.py', '        reduced_netlist.combine_devices()  # merge C/R\n\n', ''),
                                      ('klayout_pex/klayout/netlist_reducer.py', "            top_circuit.remove_device(d)\n",
                                       "            top_circuit.remove_device(d)\n\n        reduced_netlist.combine_devices()  # merge C/R\n")],
     'parallel capacitors that are each below the threshold but together above it', 'parallel small capacitors are dropped instead of combined', r'''
import sys
import klayout.db as kdb
from klayout_pex.klayout.netlist_reducer import NetlistReducer
nl = kdb.Netlist(); c = kdb.Circuit(); c.name = 'TOP'; nl.add(c)
a, b = c.create_net('A'), c.create_net('B')
for n in (a, b):
    p = c.create_pin(n.name); c.connect_pin(p, n)
cc = kdb.DeviceClassCapacitor(); cc.name = 'PEX_CAP'; nl.add(cc)
for i in range(3):
    d = c.create_device(cc, f"C{i}"); d.connect_terminal('A', a); d.connect_terminal('B', b); d.set_parameter('C', 0.03e-15)
r = NetlistReducer.reduce(nl, 'TOP')
got = [d.parameter('C') for d in r.circuit_by_name('TOP').each_device()]
print(got)
sys.exit(0 if len(got) == 1 and abs(got[0] - 0.09e-15) < 1e-20 else 1)
''')

seed('csv-stops', 'C15', [('klayout_pex/klayout/netlist_csv.py', """                        info(f"Ignoring device {dn}")
                        continue
""", """                        info(f"Ignoring device {dn}")
                        break
""")], 'a capacitor of the design comes before the parasitic ones in the circuit', 'the parasitic capacitors after it are missing in the CSV', r'''
import os, sys, tempfile
import klayout.db as kdb
from klayout_pex.klayout.netlist_csv import NetlistCSVWriter
nl = kdb.Netlist(); c = kdb.Circuit(); c.name = 'TOP'; nl.add(c)
a, b = c.create_net('A'), c.create_net('B')
mim = kdb.DeviceClassCapacitor(); mim.name = 'cap_mim'; nl.add(mim)
pex = kdb.DeviceClassCapacitor(); pex.name = 'PEX_CAP'; nl.add(pex)
for cls, n in ((pex, 'X0'), (mim, 'M1'), (pex, 'X2')):
    d = c.create_device(cls, n); d.connect_terminal('A', a); d.connect_terminal('B', b); d.set_parameter('C', 1e-15)
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, 'x.csv')
    NetlistCSVWriter.write_csv(nl, 'TOP', p)
    rows = open(p).read().split('\n')
print(rows)
sys.exit(0 if [r.split(';')[0] for r in rows if r][1:] == ['X0', 'X2'] else 1)
''')

seed('via-bottom', 'C17', [('klayout_pex/tech_info.py', 'd[contact.name] = (contact.layer_below, contact.metal_above)', 'd[contact.name] = (layer_name, contact.metal_above)')],
     'a via whose lower conductor is not the layer of the process stack entry it belongs to (MIM capacitor plates)',
     'the via table names the process stack entry instead of the layer below the via', r'''
import sys
import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
from klayout_pex.tech_info import TechInfo
import klayout_pex_protobuf.kpex.tech.process_stack_pb2 as ps
t = tech_pb2.Technology()
for name, via, below, above in (('met1', 'via1', 'met1', 'met2'), ('met2_cap', 'via2_cap', 'met2', 'cmim')):
    l = t.process_stack.layers.add(); l.name = name; l.layer_type = ps.ProcessStackInfo.LAYER_TYPE_METAL
    c = l.metal_layer.contact_above; c.name = via; c.layer_below = below; c.metal_above = above
got = TechInfo(t, None).bottom_and_top_layer_name_by_via_computed_layer_name
print(got)
sys.exit(0 if got == {'via1': ('met1', 'met2'), 'via2_cap': ('met2', 'cmim')} else 1)
''')

seed('overlap-shield-last', 'C26', [('klayout_pex/rcx25/c/overlap_extractor.py', '                    shielded_region.insert(polygon_above)', '                    shielded_region = top_region')],
     'two polygons between a lower and an upper polygon', 'only the last polygon passed shields the layers behind it', TECH + r'''
import sys
r = run(OverlapExtractor, {'VSUBS': [], 'm1': [('A', 0, 0, 10000, 1000)], 'm2': [('B', 0, 0, 2000, 1000), ('C', 5000, 0, 7000, 1000)],
                           'm3': [('D', 0, 0, 10000, 1000)]})
got = sum(c.cap_value for k, cs in r.overlap_table.items() for c in cs if k.layer_top == 'm3' and k.layer_bot == 'm1')
want = (10 - 2 - 2) * 1.0 * 40.0 / 1000.0
print(got, want)
sys.exit(0 if abs(got - want) < 1e-9 else 1)
''')

seed('sidewall-whole-edge', 'C27', [('klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py', '            avg_length = edge_interval[1] - edge_interval[0]\n', '            avg_length = edge.length()\n')],
     'two wires that face each other only along a part of their edges', 'the whole edge is counted instead of the facing part', TECH + r'''
import sys
r = run(SidewallAndFringeExtractor, {'VSUBS': [], 'm1': [('A', 0, 0, 10000, 1000), ('B', 6000, 2000, 16000, 3000)]}, scale_ratio_to_fit_halo=False)
got = sum(c.cap_value for cs in r.sidewall_table.values() for c in cs)
want = 4.0 * 50.0 / (1.0 + 0.1) / 1000.0
print(got, want)
sys.exit(0 if abs(got - want) / want < 0.01 else 1)
''')

seed('fringe-shield-range', 'C28', [('klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py', '                            r = range(self.inside_layer_index + 1, child_index)\n',
                                     '                            r = range(self.inside_layer_index + 1, child_index - 1)\n')],
     'a shape on the layer directly below the outside layer covers it', 'the layer directly below the outside layer does not shield its fringe', TECH + r'''
import sys
r = run(SidewallAndFringeExtractor, {'VSUBS': [], 'm1': [('A', 0, 0, 10000, 1000)], 'm2': [('B', -9000, 1000, 19000, 12000)], 'm3': [('C', -9000, 2000, 19000, 4000)]},
        scale_ratio_to_fit_halo=False)
got = [(k, c.cap_value) for k, cs in r.sideoverlap_table.items() for c in cs if k.layer_inside == 'm1' and k.layer_outside == 'm3']
print(got)
sys.exit(0 if not got else 1)
''')

seed('normed-casefold', 'C31', [('klayout_pex/rcx25/extraction_results.py', '        if self.net1 < self.net2:\n', '        if self.net1.casefold() < self.net2.casefold():\n')],
     'two nets whose names differ only in case, coupled from both sides', 'their couplings are split over two entries of the summary', r'''
import sys
from klayout_pex.rcx25.extraction_results import *
r = CellExtractionResults('TOP')
for a, b in (('in', 'IN'), ('IN', 'in')):
    r.add_sidewall_cap(SidewallCap(SidewallKey('m1', a, b), 1.0, 1.0, 1.0, None))
s = r.summarize().capacitances
print(dict(s))
sys.exit(0 if list(s.values()) == [2.0] else 1)
''')

seed('report-counter', 'C45', [('klayout_pex/rcx25/extraction_reporter.py', """        self.category_name_counter[cat_sideoverlap_net_outside.path()] += 1

        cat_sideoverlap_cap""", """        self.category_name_counter[cat_sideoverlap_layer_outside.path()] += 1

        cat_sideoverlap_cap""")],
     'several fringe capacitances of the same value between the same two nets', 'their categories in the report have the same name', r'''
import sys, tempfile, os
import klayout.db as kdb, klayout.rdb as rdb
from klayout_pex.rcx25.extraction_results import *
from klayout_pex.rcx25.extraction_reporter import ExtractionReporter
r = ExtractionReporter('TOP', 0.001)
names = []
orig = rdb.ReportDatabase.create_category
class Rec:
    def __init__(self, inner): self.inner = inner
    def __getattr__(self, n): return getattr(self.inner, n)
    def create_category(self, *a):
        c = self.inner.create_category(*a)
        if a[-1].startswith('#'): names.append((a[0].path(), a[-1]))
        return c
r.report = Rec(r.report)
for i in range(2):
    r.output_sideoverlap(SideOverlapCap(SideOverlapKey('m1', 'A', 'm2', 'B'), 0.5), kdb.EdgeWithProperties(kdb.Edge(0, 0, 10, 0), {}) and [kdb.Edge(0, 0, 10, 0)],
                         kdb.Polygon(kdb.Box(0, 0, 10, 10)), None)
print(names)
sys.exit(0 if len(names) == 2 and len(set(names)) == 2 else 1)
''')


seed('mesh-neighbours-only', 'C33', [('klayout_pex/rcx25/r/resistor_network.py', """            for i in range(0, len(star) - 1):
                for j in range(i + 1, len(star)):
""", """            for i in range(0, len(star) - 1):
                for j in range(i + 1, min(i + 3, len(star))):
""")],
     'a node with four or more resistors is eliminated', 'only neighbouring pairs of its star get a resistor, so the resistance between the others is wrong', r'''
import sys
import klayout.db as kdb
from klayout_pex.rcx25.r.resistor_network import ResistorNetwork
from klayout_pex.rcx25.r.conductance import Conductance
n = ResistorNetwork()
ids = [n.node_id(kdb.Point(i, 0)) for i in range(6)]
for k in range(1, 6):
    n.add_cond(ids[0], ids[k], Conductance(1.0))
    n.mark_precious(ids[k])
n.eliminate_node(ids[0])
want = {(a, b) for a in ids[1:] for b in ids[1:] if a != b}
sys.exit(0 if set(n.s) == want and all(abs(c.cond - 0.2) < 1e-12 for c in n.s.values()) else 1)
''')

seed('contract-parallel', 'C33', [('klayout_pex/rcx25/r/resistor_network.py', """            if other != a:
                self.add_cond(a, other, cond)
            if other in self.node_to_s:
                self.node_to_s[other].remove((cond, b))
            del self.s[(b, other)]""", """            if other != a and (a, other) not in self.s:
                self.add_cond(a, other, cond)
            if other in self.node_to_s:
                self.node_to_s[other].remove((cond, b))
            del self.s[(b, other)]""")],
     'two nodes with a common neighbour are contracted', 'the resistor of the contracted node to the common neighbour is lost instead of being added in parallel', r'''
import sys
import klayout.db as kdb
from klayout_pex.rcx25.r.resistor_network import ResistorNetwork
from klayout_pex.rcx25.r.conductance import Conductance
n = ResistorNetwork()
a, b, c = [n.node_id(kdb.Point(i, 0)) for i in range(3)]
n.add_cond(a, c, Conductance(1.0)); n.add_cond(b, c, Conductance(2.0)); n.add_cond(a, b, Conductance(5.0))
n.connect_nodes(a, b)
sys.exit(0 if n.check() == 0 and abs(n.s[(a, c)].cond - 3.0) < 1e-12 else 1)
''')

seed('port-pins-kept', 'C32', [('klayout_pex/rcx25/r/r_extractor.py', """        for net_extraction_request in rex_request.net_extraction_requests:

            vertex_ports""", """        vertex_port_pins: Dict[int, List[Tuple[Label, NetName]]] = defaultdict(list)

        for net_extraction_request in rex_request.net_extraction_requests:

            vertex_ports"""), ('klayout_pex/rcx25/r/r_extractor.py', """            vertex_port_pins: Dict[int, List[Tuple[Label, NetName]]] = defaultdict(list)
            polygon_port_device""", """            polygon_port_device""")],
     'more than one net with a pin on the same layer', 'the pins of the second net are looked up in the list of the first net', r"""
import sys
from types import SimpleNamespace as NS
import klayout.db as kdb
import klayout_pex_protobuf.kpex.request.pex_request_pb2 as rq
import klayout_pex_protobuf.kpex.klayout.r_extractor_tech_pb2 as rt
from klayout_pex.rcx25.r.r_extractor import RExtractor
from klayout_pex.klayout.shapes_pb2_converter import ShapesConverter
sc = ShapesConverter(dbu=0.001)
r = rq.RExtractionRequest()
c = r.tech.conductors.add()
c.layer.id = 1; c.layer.canonical_layer_name = 'm1'; c.resistance = 0.1; c.triangulation_min_b = 0.5; c.triangulation_max_area = 0.5
c.algorithm = rt.RExtractorTech.Algorithm.ALGORITHM_SQUARE_COUNTING
for i, net in enumerate(('A', 'B')):
    n = r.net_extraction_requests.add(); n.net_name = net
    g = n.region_by_layer.add(); g.layer.id = 1
    sc.klayout_region_to_pb(kdb.Region(kdb.Box(0, 2000 * i, 10000, 2000 * i + 500)), g.region)
    for x in (100, 9900):
        p = n.pins.add(); p.layer.id = 1; p.label = net; p.net_name = net; p.label_point.x = x; p.label_point.y = 2000 * i + 250
res = RExtractor(pex_context=NS(dbu=0.001), substrate_algorithm=c.algorithm, wire_algorithm=c.algorithm, delaunay_b=0.5, delaunay_amax=0.5,
                 via_merge_distance=0.0, skip_simplify=False).extract(r)
got = {n.net_name: {x.net_name for x in n.nodes} for n in res.networks}
print(got)
sys.exit(0 if got == {'A': {'A'}, 'B': {'B'}} else 1)
""")

seed('contact-break', 'C34', [('klayout_pex/rcx25/r/r_extractor.py', '''                                    f"no contact found in tech info")
                                continue
''', '''                                    f"no contact found in tech info")
                                break
''')],
     'several LVS layers lie on one contact layer and the first of them has no contact', 'the other contacts of this layer get no resistor', r"""
import sys
from types import SimpleNamespace as NS
import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
import klayout_pex_protobuf.kpex.klayout.r_extractor_tech_pb2 as rt
from klayout_pex.rcx25.r.r_extractor import RExtractor
K = tech_pb2.ComputedLayerInfo.Kind
LP = tech_pb2.LayerInfo.Purpose
ci = tech_pb2.ComputedLayerInfo(); ci.kind = K.KIND_REGULAR; ci.layer_info.purpose = LP.PURPOSE_CONTACT; ci.layer_info.name = 'licon1'
tech = NS(computed_layer_info_by_gds_pair={(66, 44): ci}, canonical_layer_name_by_gds_pair={(66, 44): 'licon1'},
          contact_by_contact_lvs_layer_name={'poly_con': NS(layer_below='poly', metal_above='li1', width=0.17)},
          contact_resistance_by_device_layer_name={'poly': NS(resistance=152000.0)},
          gds_pair=lambda n: {'poly': (66, 20), 'li1': (67, 20)}[n],
          milliohm_by_cnt_to_ohm_by_square_for_contact=lambda contact, contact_resistance: contact_resistance.resistance / 1000 * contact.width ** 2)
src = [NS(lvs_layer_name=n, gds_pair=(66, 44)) for n in ('odd_con', 'poly_con')]
pc = NS(tech=tech, dbu=0.001, extracted_layers={(66, 44): NS(source_layers=src)}, annotated_layout=NS(layer=lambda a, b: a * 1000 + b))
r = rt.RExtractorTech()
RExtractor(pex_context=pc, substrate_algorithm=1, wire_algorithm=2, delaunay_b=0.5, delaunay_amax=0.5, via_merge_distance=0.0,
           skip_simplify=False).prepare_r_extractor_tech_pb(r)
print([v.layer.lvs_layer_name for v in r.vias])
sys.exit(0 if [v.layer.lvs_layer_name for v in r.vias] == ['poly_con'] else 1)
""")

L2N = r'''
import sys
from types import SimpleNamespace as NS
import klayout.db as kdb
import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
from klayout_pex.klayout.lvsdb_extractor import *
def l2n_of(layers):
    """layers: {LVS name: ((layer, datatype), [boxes])}; all of them conduct"""
    ly = kdb.Layout(); ly.dbu = 0.001
    top = ly.create_cell('TOP')
    l2n = kdb.LayoutToNetlist(kdb.RecursiveShapeIterator(ly, top, []))
    regs = {}
    for n, (gp, boxes) in layers.items():
        li = ly.layer()
        for b in boxes:
            top.shapes(li).insert(kdb.Box(*b))
        regs[n] = l2n.make_layer(li, n)
    for r in regs.values():
        l2n.connect(r)
    names = list(regs)
    for a, b in zip(names, names[1:]):
        l2n.connect(regs[a], regs[b])
    l2n.extract_netlist()
    return l2n
def tech_of(layers):
    infos = {}
    for n, (gp, boxes) in layers.items():
        ci = tech_pb2.ComputedLayerInfo(); ci.kind = tech_pb2.ComputedLayerInfo.Kind.KIND_REGULAR
        ci.layer_info.name = n
        ci.layer_info.drw_gds_pair.layer, ci.layer_info.drw_gds_pair.datatype = gp
        infos[n] = ci
    return NS(computed_layer_info_by_name=infos, gds_pair_for_computed_layer_name={n: gp for n, (gp, _) in layers.items()},
              canonical_layer_name_by_gds_pair={gp: 'c%d' % gp[0] for gp, _ in layers.values()})
'''

seed('layer-per-pair', 'C24', [('klayout_pex/klayout/lvsdb_extractor.py', 'annotated_layer_index = annotated_layout.layer()  # creates new index each time!',
                                'annotated_layer_index = annotated_layout.layer(*gds_pair)'),
                               ('klayout_pex/klayout/lvsdb_extractor.py', '                annotated_layout.set_info(annotated_layer_index, kdb.LayerInfo(*gds_pair))\n', '')],
     'two LVS layers of one layer pair', 'only the shapes of the last LVS layer of a pair are in the annotated layout', L2N + r"""
layers = {'ptap': ((65, 20), [(0, 0, 1000, 1000)]), 'ntap': ((65, 20), [(0, 5000, 1000, 6000)])}
c = KLayoutExtractionContext.prepare_extraction(lvsdb=l2n_of(layers), top_cell='TOP', tech=tech_of(layers), blackbox_devices=False)
r = c.shapes_of_layer((65, 20))
print(r, [sl.region for sl in c.extracted_layers[(65, 20)].source_layers])
sys.exit(0 if r.area() == 2000000 and r.count() == 2 else 1)
""")

seed('tied-terminals', 'C25', [('klayout_pex/klayout/lvsdb_extractor.py', '''                    if nt.terminal_id() != td.id():
                        continue
''', '''                    if nt.terminal_id() != td.id():
                        break
''')],
     'a device with two terminals on one net', 'the second terminal of a device with tied terminals is not reported', L2N + r"""
class Net:
    def __init__(self, n): self.n, self.refs = n, []
    def expanded_name(self): return self.n
    def each_terminal(self): return list(self.refs)
class Dev:
    device_abstract = NS(name='ABS')
    def __init__(self, n, nets): self.n, self.nets = n, nets
    def id(self): return 1
    def expanded_name(self): return self.n
    def device_class(self):
        return NS(name='NMOS', parameter_definitions=lambda: [], terminal_definitions=lambda: [NS(id=lambda i=i: i, name=x) for i, x in enumerate('SGD')])
    def net_for_terminal(self, i): return self.nets[i]
a, b = Net('A'), Net('B')
d = Dev('M1', [a, b, b])
for i, n in enumerate(d.nets):
    n.refs.append(NS(device=lambda: d, terminal_id=lambda i=i: i))
lvsdb = NS(netlist=lambda: NS(top_circuit=lambda: NS(each_device=lambda: [d])), shapes_of_terminal=lambda t: {})
ctx = KLayoutExtractionContext(lvsdb=lvsdb, dbu=0.001, tech=NS(), layer_index_map={}, lvsdb_regions={}, cell_mapping=None, annotated_top_cell=None,
                               annotated_layout=None, extracted_layers={}, unnamed_layers=[])
got = sorted((t.name, t.net_name) for t in ctx.devices_by_name['M1'].terminals)
print(got)
sys.exit(0 if got == [('D', 'B'), ('G', 'B'), ('S', 'A')] else 1)
""")

seed('pin-net-first', 'C25', [('klayout_pex/klayout/lvsdb_extractor.py', '''                            pin.net_name = p.property('net')
                            break
''', '''                            pin.net_name = p.property('net')
                        break
''')],
     'more than one pin shape on a layer', 'only labels on the first pin shape get a net', L2N + r"""
import klayout_pex.klayout.lvsdb_extractor as m
pins = kdb.Region(); pins.enable_properties()
for i, n in enumerate('AB'):
    pins.insert(kdb.PolygonWithProperties(kdb.Polygon(kdb.Box(0, 1000 * i, 100, 1000 * i + 100)), {'net': n}))
labels = kdb.Texts([kdb.Text(n.lower(), kdb.Trans(50, 1000 * i + 50)) for i, n in enumerate('AB')])
li = tech_pb2.ComputedLayerInfo(); li.layer_info.name = 'x'
tech = NS(canonical_layer_name_by_gds_pair={(1, 0): 'm1'}, gds_pair_for_layer_name={'m1': (1, 0)}, layer_info_by_gds_pair={(1, 0): 1},
          computed_layer_info_by_gds_pair={(1, 0): li})
src = KLayoutExtractedLayerInfo(index=0, lvs_layer_name='m1', gds_pair=(1, 0), region=pins)
ctx = KLayoutExtractionContext(lvsdb=None, dbu=0.001, tech=tech, layer_index_map={}, lvsdb_regions={}, cell_mapping=None, annotated_top_cell=None,
                               annotated_layout=NS(layer=lambda a, b: 7), unnamed_layers=[],
                               extracted_layers={(1, 0): KLayoutMergedExtractedLayerInfo(source_layers=[src], gds_pair=(1, 0))})
KLayoutExtractionContext.pins_of_layer = lambda self, gp: pins
KLayoutExtractionContext.labels_of_layer = lambda self, gp: labels
got = sorted((p.label, p.net_name) for p in ctx.pins_pb2_by_layer[(1, 0)])
print(got)
sys.exit(0 if got == [('a', 'A'), ('b', 'B')] else 1)
""")

seed('box-net-dropped', 'C41', [('klayout_pex/klayout/shapes_pb2_converter.py', '''        if len(polygon.net) >= 1:
''', '''        if polygon.net.isidentifier():
''')],
     'a net name that is no plain identifier, e.g. of an unnamed net ($5) or a bus bit (D[0])',
     'polygons of unnamed nets and bus bits lose their net when they are converted back', r'''
import sys
import klayout_pex_protobuf.kpex.geometry.shapes_pb2 as s
from klayout_pex.klayout.shapes_pb2_converter import ShapesConverter
c = ShapesConverter(dbu=0.001)
for net in ('A', '$5', 'D[0]', 'a,b'):
    p = s.Polygon(net=net)
    for x, y in ((0, 0), (0, 10), (10, 10), (10, 0)):
        p.hull_points.add(x=x, y=y)
    k = c.klayout_polygon(p)
    if not hasattr(k, 'property') or k.property('net') != net:
        print(net, 'lost'); sys.exit(1)
''')

seed('empty-variable', 'C42', [('klayout_pex/env.py', '            value = os.environ.get(env_var.value, None)\n', '            value = os.environ.get(env_var.value, None) or os.environ.get(env_var.name, None)\n')],
     'a variable of the same name without the prefix exists in the environment (e.g. MAGIC_EXE) and the documented one does not',
     'an undocumented variable decides which tool runs, instead of the default', r'''
import os, sys
for v in ('KPEX_MAGIC_EXE', 'KPEX_FASTCAP_EXE'): os.environ.pop(v, None)
os.environ['MAGIC_EXE'] = '/nowhere/magic'
from klayout_pex.env import Env, EnvVar
e = Env.from_os_environ()
print(e)
sys.exit(0 if e[EnvVar.MAGIC_EXE] == 'magic' and e[EnvVar.FASTCAP_EXE] == 'fastcap' else 1)
''')

seed('pattern-prefix', 'C43', [('klayout_pex/util/multiple_choice.py', '''        components = [c.lower().strip() for c in components]
''', '''        components = [c.lower().rstrip() for c in components]
''')],
     'blanks after the commas of a pattern', 'subpatterns after a blank are ignored', r'''
import sys
from klayout_pex.util.multiple_choice import MultipleChoicePattern as M
ok = M('all, -a, -b').filter(['a', 'b', 'c']) == ['c'] and M('none, +a , +b').filter(['a', 'b', 'c']) == ['a', 'b'] and not M('all, -a').is_included('a')
sys.exit(0 if ok else 1)
''')

seed('bool-false-word', 'C44', [('klayout_pex/util/argparse_helpers.py', '''    match str(arg).lower():
''', '''    match str(arg).strip().lower()[:5]:
''')],
     'a value that only begins with an accepted spelling, e.g. falsehood', 'misspelled values are accepted', r'''
import sys, argparse
from klayout_pex.util.argparse_helpers import true_or_false as f
for v, want in (('TRUE', True), ('f', False), ('falsehood', None), ('false?', None)):
    try:
        got = f(v)
    except argparse.ArgumentTypeError:
        got = None
    if got is not want:
        print(v, got); sys.exit(1)
''')

seed('rdb-escaped-quote', 'C46', [('klayout_pex/klayout/repair_rdb.py', '''            case '\\'':
                if within_backslash:
                    current_word += c
                    within_backslash = False
''', '''            case '\\'':
                if within_backslash:
                    current_word += c
''')],
     'an escaped quote directly before a separator', 'the separator after an escaped quote is taken as a part of the name', r'''
import sys
from klayout_pex.klayout.repair_rdb import parse_category_path as p
for s, want in (("a.b", ['a', 'b']), ("'a.b'.c", ['a.b', 'c']), ("x\\'.y", ["x'", 'y']), ("x\\'y.z", ["x'y", 'z'])):
    if p(s) != want:
        print(s, p(s)); sys.exit(1)
''')

MAG = r"""
import os, sys, tempfile
from pathlib import Path
from klayout_pex.magic.magic_runner import *
from klayout_pex.magic.magic_ext_file_parser import *
def script(mode, **kw):
    with tempfile.TemporaryDirectory() as d:
        a = dict(gds_path='/g/a.gds', cell_name='CELL', run_dir_path=d, script_path=d + '/s.tcl', output_netlist_path=d + '/o.spice', pex_mode=mode,
                 c_threshold=0.25, r_threshold=75, tolerance=3.5, halo=None, short_mode=MagicShortMode.VOLTAGE, merge_mode=MagicMergeMode.AGGRESSIVE)
        a.update(kw)
        prepare_magic_script(**a)
        return open(d + '/s.tcl').read().split('\n')
"""

seed('magic-halo-zero', 'C38', [('klayout_pex/magic/magic_runner.py', "'' if halo is None else f\"", "'' if not halo else f\"")],
     'a halo of 0 (no interaction with neighbours)', 'a halo of 0 is ignored, so Magic uses its own default', MAG + r"""
ok = 'extract halo 0' in script(MagicPEXMode.CC, halo=0.0) and 'extract halo 1600' in script(MagicPEXMode.RC, halo=8.0) and not any('halo' in l for l in script(MagicPEXMode.R))
sys.exit(0 if ok else 1)
""")

seed('magic-thresholds-rc', 'C38', [('klayout_pex/magic/magic_runner.py', '''ext2spice cthresh {c_threshold}
ext2spice rthresh {r_threshold}
''', '''ext2spice cthresh {c_threshold}
ext2spice rthresh {c_threshold}
''')],
     'mode RC with different thresholds for C and R', 'the threshold of resistances is that of capacitances', MAG + r"""
for m in MagicPEXMode:
    s = script(m)
    if m != MagicPEXMode.R and 'ext2spice cthresh 0.25' not in s or m != MagicPEXMode.CC and 'ext2spice rthresh 75' not in s:
        print(m, s); sys.exit(1)
""")

seed('ext-negative-top', 'C39', [('klayout_pex/magic/magic_ext_file_parser.py', '''                r'^device (?P<type>\\w+) (?P<model>\\w+) (?P<x_bot>-?\\d+) (?P<y_bot>-?\\d+) (?P<x_top>-?\\d+) (?P<y_top>-?\\d+) .*$',
''', '''                r'^device (?P<type>\\w+) (?P<model>\\w+) (?P<x_bot>-?\\d+) (?P<y_bot>-?\\d+) (?P<x_top>-?\\d+) (?P<y_top>\\d+) .*$',
''')],
     'a device that lies entirely below the origin of the cell', 'such devices are skipped', MAG + r"""
with tempfile.TemporaryDirectory() as d:
    p = Path(d, 'a.ext')
    p.write_text('tech t\ndevice mosfet nfet 1 2 3 4 30 84 "VSUBS" "G" 60 0 "S" 84 0 "D" 84 0\ndevice msubckt pfet -10 -20 -3 -4 l=30 w=84 "w" "G" 60 0\n')
    got = [(x.model, x.x_bot, x.y_bot, x.x_top, x.y_top) for x in parse_magic_ext_file(p).devices]
print(got)
sys.exit(0 if got == [('nfet', 1, 2, 3, 4), ('pfet', -10, -20, -3, -4)] else 1)
""")

seed('res-of-first-cell', 'C39', [('klayout_pex/magic/magic_ext_file_parser.py', '''        res_ext_path = res_paths_by_cell_name.get(cell, None)
''', '''        res_ext_path = next((p for c, p in res_paths_by_cell_name.items() if c.startswith(cell)), None)
''')],
     'two cells in the run directory, the name of one being the beginning of the other', 'a cell gets the resistances of another one', MAG + r"""
with tempfile.TemporaryDirectory() as d:
    for c in ('inv', 'inv2'):
        Path(d, c + '.ext').write_text('')
    Path(d, 'inv2.res.ext').write_text('resist "a" "b" 5\n')
    r = parse_magic_pex_run(Path(d))
ok = r.cells['inv'].res_ext_data is None and len(r.cells['inv2'].res_ext_data.resistors) == 1
sys.exit(0 if ok else 1)
""")

ANA = MAG + r"""
import klayout.rdb as rdb
from klayout_pex.magic.magic_log_analyzer import *
from klayout_pex.magic.magic_ext_data_structures import *
def analyze(ext='', res=None, dbu=0.001):
    with tempfile.TemporaryDirectory() as d:
        Path(d, 'c.ext').write_text(ext)
        if res is not None: Path(d, 'c.res.ext').write_text(res)
        rep = rdb.ReportDatabase('')
        MagicLogAnalyzer(parse_magic_pex_run(Path(d)), rep, dbu).analyze()
    return {c.path(): [str(v.box() if v.is_box() else v.polygon().bbox() if v.is_polygon() else v) for i in c.each_item() for v in i.each_value()]
            for c in rep.each_category() for c in ([c] + [s for s in c.each_sub_category()] + [t for s in c.each_sub_category() for t in s.each_sub_category()])}
"""

seed('report-node2-lost', 'C40', [('klayout_pex/magic/magic_log_analyzer.py', '''                for n in cell_data.res_ext_data.rnodes_by_name(r.node1) + \\
                         cell_data.res_ext_data.rnodes_by_name(r.node2):
''', '''                for n in cell_data.res_ext_data.rnodes_by_name(r.node1) or \\
                         cell_data.res_ext_data.rnodes_by_name(r.node2):
''')],
     'a resistor both of whose nodes are in the .res.ext file', 'only one end of a resistor is marked', ANA + r"""
r = analyze(res='rnode "a" 0 0.5 100 200 0\nrnode "b" 0 0.5 300 400 0\nresist "a" "b" 5\n')
v = [v for k, v in r.items() if 'Resistors' in k and '#0' in k]
print(v)
sys.exit(0 if len(v) == 1 and len(v[0]) == 2 else 1)
""")

seed('report-dbu-boxes', 'C40', [('klayout_pex/magic/magic_log_analyzer.py', '''            shapes.insert(kdb.Box(d.x_bot / dbu_to_um / self.dbu,
''', '''            shapes.insert(kdb.Box(d.x_bot / dbu_to_um / 0.001,
''')],
     'a layout whose database unit is not 1 nm, and a device', 'the left edge of devices is misplaced', ANA + r"""
for dbu in (0.001, 0.005):
    r = analyze('device mosfet nfet 1000 2000 3000 4000 30 84 "VSUBS" "G" 60 0\n', dbu=dbu)
    v = [v for k, v in r.items() if 'Devices' in k and 'nfet' in k]
    print(dbu, v)
    if v != [['(5,10;15,20)']]: sys.exit(1)
""")

CLI = r"""
import os, sys, tempfile
import klayout.db as kdb
from types import SimpleNamespace as NS
import klayout_pex.kpex_cli as K
from klayout_pex.kpex_cli import KpexCLI
from klayout_pex.env import Env
def gds(d, name='a.gds', cells=('TOP',)):
    l = kdb.Layout()
    for c in cells:
        l.create_cell(c).shapes(l.layer(1, 0)).insert(kdb.Box(0, 0, 10, 10))
    p = os.path.join(d, name); l.write(p); return p
def args(d, *more):
    lvs = os.path.join(d, 'x.lvs'); open(lvs, 'w').close()
    tech = os.path.join(d, 'tech.pb.json'); open(tech, 'w').write('{}')
    a = KpexCLI().parse_args(['--pdk', 'sky130A', '--out_dir', os.path.join(d, 'out'), *more], Env.from_os_environ())
    a.klayout_exe_path = '/bin/true'
    a.pdk = NS(config=NS(tech_pb_json_path=tech, pex_lvs_script_path=lvs))
    os.makedirs(a.output_dir_base_path, exist_ok=True)
    return a
"""

seed('ooc-zero', 'C03', [('klayout_pex/fastercap/fastercap_runner.py', '    if ooc_condition is not None:\n', '    if ooc_condition:\n')],
     'the out-of-core condition 0 (never out of core)', '-f0 is not handed to FasterCap', EXE + r"""
from klayout_pex.fastercap.fastercap_runner import run_fastercap
with tempfile.TemporaryDirectory() as d:
    exe = fake_exe(d, 'echo "$@" > ' + d + '/argv\n')
    run_fastercap(exe_path=exe, lst_file_path=d + '/a.lst', log_path=d + '/log', tolerance=0.05, d_coeff=0.5, mesh_refinement_value=0.5, ooc_condition=0,
                  auto_preconditioner=False, galerkin_scheme=False, jacobi_preconditioner=False)
    argv = open(d + '/argv').read().split()
print(argv)
sys.exit(0 if '-f0' in argv else 1)
""")

seed('schematic-clears-errors', 'C04', [('klayout_pex/kpex_cli.py', '''                    if not os.path.isfile(args.schematic_path):
                        error(f"Can't read schematic (LVS input) at path {args.schematic_path}")
                        found_errors = True
''', '''                    found_errors = not os.path.isfile(args.schematic_path)
                    if found_errors:
                        error(f"Can't read schematic (LVS input) at path {args.schematic_path}")
''')],
     'an invalid argument (e.g. a missing cell) together with a readable schematic', 'errors found before the schematic was checked are forgotten', CLI + r"""
with tempfile.TemporaryDirectory() as d:
    s = os.path.join(d, 's.spice'); open(s, 'w').close()
    g = gds(d)
    for cell, want in (('TOP', True), ('NOCELL', False)):
        a = args(d, '--gds', g, '--cell', cell, '--schematic', s, '--magic')
        try:
            KpexCLI().validate_args(a); ok = True
        except K.ArgumentValidationError:
            ok = False
        if cell == 'NOCELL' and ok: print('missing cell accepted'); sys.exit(1)
""")

seed('fastcap-after-magic', 'C05', [('klayout_pex/kpex_cli.py', '''        if not (args.run_fastcap or args.run_fastercap or args.run_2_5D):
            return
''', '''        if args.run_magic and not (args.run_fastercap or args.run_2_5D):
            return
''')],
     'Magic and FastCap together, without FasterCap and 2.5D', 'FastCap is silently not run', CLI + r"""
class Stop(Exception): pass
def stop(*a, **k): raise Stop
with tempfile.TemporaryDirectory() as d:
    a = args(d, '--gds', gds(d), '--magic', '--fastcap')
    a.log_level = K.LogLevel.INFO; a.tech_pbjson_path = ''
    c = KpexCLI()
    c.parse_args = lambda **k: a
    c.setup_logging = lambda a: None
    c.run_magic_extraction = lambda a: None
    c.create_lvsdb = stop
    K.TechInfo = NS(from_json=lambda *a, **k: None)
    a.halo = None
    try:
        c.main(['kpex']); sys.exit(1)
    except Stop:
        pass
""")

seed('cache-beside-gds', 'C07', [('klayout_pex/kpex_cli.py', '''os.path.splitroot(os.path.abspath(args.gds_path))[-1],
''', '''os.path.splitext(os.path.abspath(args.gds_path))[0],
''')],
     '--cache_lvs', 'the cached LVS database is written beside the layout of the user', CLI + r"""
with tempfile.TemporaryDirectory() as d:
    os.makedirs(d + '/in'); g = gds(d + '/in')
    before = set(os.listdir(d + '/in'))
    a = NS(input_mode=K.InputMode.GDS, output_dir_path=d + '/out', effective_cell_name='TOP', cache_dir_path=d + '/cache', pdk='p', gds_path=g, cache_lvs=True,
           klayout_exe_path='x', lvs_script_path='x', effective_gds_path=g, effective_schematic_path='x', klayout_lvs_verbose=False)
    os.makedirs(d + '/out')
    class R:
        def run_klayout_lvs(self, lvsdb_path, **kw): open(lvsdb_path, 'w').write('x')
    K.LVSRunner = R
    try:
        KpexCLI().create_lvsdb(a)
    except Exception:
        pass
    files = [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]
    print(files)
    sys.exit(0 if sum(f.startswith(d + '/cache/') for f in files) == 1 and set(os.listdir(d + '/in')) == before else 1)
""")

seed('csv-tiny-rows', 'C09', [('klayout_pex/kpex_cli.py', """                for idx, (key, cap_value) in enumerate(sorted(summary.capacitances.items())):
""", """                for idx, (key, cap_value) in enumerate(sorted((k, c) for k, c in summary.capacitances.items() if round(c, 3))):
""")],
     'a capacitance below 0.5 aF', 'tiny capacitances have no row in the table', CLI + r"""
from klayout_pex.rcx25.extraction_results import *
caps = {NetCoupleKey('A', 'B'): 1.5, NetCoupleKey('A', 'C'): 0.0001, NetCoupleKey('B', 'C'): 2.25}
K.RCX25Extractor = lambda **kw: NS(extract=lambda: NS(summarize=lambda: ExtractionSummary(dict(caps), {NetCoupleKey('A', 'B'): 7.0})))
K.repair_rdb = lambda p: None
with tempfile.TemporaryDirectory() as d:
    p = d + '/x.csv'
    KpexCLI().run_kpex_2_5d_engine(NS(pex_mode=None, scale_ratio_to_fit_halo=True), None, None, d + '/r.rdb', p, None)
    rows = [l.split(';')[1:3] for l in open(p).read().split('\n')[1:] if l]
print(rows)
sys.exit(0 if rows == [['A', 'B'], ['A', 'C'], ['B', 'C'], ['A', 'B']] else 1)
""")

seed('json-net-zero', 'C16', [('klayout_pex/netlistsvg/netlist_json.py', '        if i is None:\n', '        if not i:\n')],
     'the net that got the number 0 is used more than once', 'the first net of the circuit gets a new number at every use', r"""
import sys
import klayout.db as kdb
from klayout_pex.netlistsvg.netlist_json import NetlistJSONWriter
nl = kdb.Netlist(); c = kdb.Circuit(); c.name = 'TOP'; nl.add(c)
dc = kdb.DeviceClassResistor(); dc.name = 'R'; nl.add(dc)
a, b = c.create_net('A'), c.create_net('B')
for i in range(3):
    d = c.create_device(dc, f'r{i}'); d.connect_terminal('A', a); d.connect_terminal('B', b)
cells = NetlistJSONWriter().netlist_json_dict(nl, c)['modules']['TOP']['cells']
ids = {tuple(v['connections'][t][0] for t in 'AB') for v in cells.values()}
print(ids)
sys.exit(0 if len(cells) == 3 and len(ids) == 1 and len(set(*ids)) == 2 else 1)
""")

seed('substrate-net-self', 'C29', [('klayout_pex/rcx25/c/overlap_extractor.py', "                    if net_top == net_bot:\n", "                    if net_top == polygon.property('net'):\n")],
     'a polygon of the substrate net itself above the substrate', 'the substrate net is coupled to itself', TECH + r"""
import sys
r = run(OverlapExtractor, {'VSUBS': [(None, -1000, -1000, 9000, 9000)], 'm1': [('A', 0, 0, 1000, 1000), ('VSUBS', 3000, 0, 4000, 1000)]})
keys = [k for k in r.overlap_table]
print(keys)
sys.exit(0 if keys and all(k.net1 != k.net2 if hasattr(k, 'net1') else k.net_top != k.net_bot for k in keys) else 1)
""")

seed('no-vias-no-r', 'C30', [('klayout_pex/rcx25/extractor.py', "        if self.pex_mode.need_resistance():\n", "        if self.pex_mode.need_resistance() and via_regions_by_via_name:\n")],
     'mode R or RC for a cell without any via', 'no resistances are extracted for such cells', r"""
import sys
from types import SimpleNamespace as NS
import klayout.db as kdb
import klayout_pex.rcx25.extractor as m
from klayout_pex.rcx25.pex_mode import PEXMode
calls = []
class Rex:
    def __init__(self, **kw): pass
    def prepare_request(self): calls.append('R'); raise KeyboardInterrupt
m.RExtractor = Rex
class Layer:
    name = 'm1'
    metal_layer = NS(HasField=lambda f: False)
for mode in (PEXMode.R, PEXMode.RC):
    x = m.RCX25Extractor.__new__(m.RCX25Extractor)
    x.pex_mode = mode; x.delaunay_amax = 0; x.delaunay_b = 0.5; x.scale_ratio_to_fit_halo = True
    x.tech_info = NS(tech=NS(process_parasitics=NS(side_halo=8.0)), internal_substrate_layer_name='VSUBS', process_metal_layers=[Layer()],
                     canonical_layer_name_by_gds_pair={(1, 0): 'm1'}, overlap_cap_by_layer_names={}, sidewall_cap_by_layer_name={})
    x.pex_context = NS(lvsdb=NS(netlist=lambda: NS(top_circuit=lambda: NS(pin_count=lambda: 0))), dbu=0.001, top_cell_bbox=lambda: kdb.Box(0, 0, 100, 100))
    x.gds_pair = lambda n: (1, 0)
    x.shapes_of_layer = lambda n: None
    m.OverlapExtractor = m.SidewallAndFringeExtractor = lambda **kw: NS(extract=lambda: calls.append('C'))
    try:
        x.extract_cell(results=None, report=NS(output_rex_request=lambda **k: None, output_rex_result=lambda **k: None))
    except KeyboardInterrupt:
        pass
print(calls)
sys.exit(0 if calls == ['R', 'C', 'C', 'R'] else 1)
""")

FC = r'''
import sys, tempfile, os
import klayout.db as kdb
from klayout_pex.fastercap.fastercap_model_generator import *
def box(x1, y1, x2, y2):
    return kdb.Region(kdb.Box(x1, y1, x2, y2))
def build(materials, layers, dbu=0.001, k_void=1.0):
    """layers: ('+net' or '-material', region, z, height)"""
    b = FasterCapModelBuilder(dbu=dbu, k_void=k_void, delaunay_amax=0.0, delaunay_b=0.0)
    for m, k in materials.items():
        b.add_material(m, k)
    for n, r, z, h in layers:
        (b.add_conductor if n[0] == '+' else b.add_dielectric)(n[1:], r, z, h)
    return b.generate()
def volume(tris):
    v = 0.0
    for t in tris:
        a, b, c = t.p0, t.p1, t.p2
        v += a.x * (b.y * c.z - b.z * c.y) - a.y * (b.x * c.z - b.z * c.x) + a.z * (b.x * c.y - b.y * c.x)
    return v / 6
def area(tris):
    s = 0.0
    for t in tris:
        vp = vector_product(t.p1 - t.p0, t.p2 - t.p0)
        s += vp.sq_length() ** 0.5 / 2
    return s
'''

seed('interleaved-net', 'C35', [('klayout_pex/fastercap/fastercap_model_generator.py', """        cond_data_grouped_by_net = defaultdict(list)
        for k, data in self.cond_data.items():
            if len(data) == 0:
                continue
            cond_data_grouped_by_net[k.net_name].append((k.outside, data))
""", """        cond_data_grouped_by_net = defaultdict(list)
        for k, data in self.cond_data.items():
            cond_data_grouped_by_net[k.net_name].append((k.outside, data))
"""), ('klayout_pex/fastercap/fastercap_model_generator.py', """                file_num += 1
                k_outside = self.materials[outside] if outside else self.k_void
""", """                if len(data) == 0:
                    continue
                file_num += 1
                k_outside = self.materials[outside] if outside else self.k_void
""")],
     'the last surface of a net has no triangles (its layer degenerated in the triangulation)',
     'the conductor is left open (trailing +) and without a name in the solver input', FC + r"""
tri = Triangle(Point(0, 0, 0), Point(1, 0, 0), Point(0, 1, 0))
g = build({'m': 4.0}, [('+A', box(0, 0, 1000, 1000), 0.0, 0.1)])
g.cond_data = {HCondKey('A', None): [tri], HCondKey('B', None): [tri], HCondKey('A', 'm'): []}
with tempfile.TemporaryDirectory() as d:
    lst = g.write_fastcap(d, 'p')
    lines = [l.split() for l in open(lst) if l.startswith('C')]
    txt = ''.join(open(os.path.join(d, l[1])).read() for l in lines)
print(lines)
sys.exit(0 if len(lines) == 2 and not any(l[-1] == '+' for l in lines) and ' A\n' in txt else 1)
""")
seed('void-inside', 'C35', [('klayout_pex/fastercap/fastercap_model_generator.py',
     "            k_inside = self.materials[k.inside] if k.inside else self.k_void\n",
     "            k_inside = self.materials.get(k.inside, 1.0)\n")],
     'a dielectric that has the void above it, and a void permittivity other than 1',
     'the permittivity of the void is wrong on the inner side of dielectric surfaces', FC + r"""
g = build({'m': 4.0}, [('-m', box(0, 0, 1000, 1000), 0.0, 0.1)], k_void=3.5)
tri = Triangle(Point(0, 0, 0), Point(1, 0, 0), Point(0, 1, 0))
g.diel_data = {HDielKey('m', None): [tri]}
with tempfile.TemporaryDirectory() as d:
    lst = g.write_fastcap(d, 'p')
    l = [l.split() for l in open(lst) if l.startswith('D')][0]
print(l)
sys.exit(0 if [float(x) for x in l[2:4]] == [4.0, 3.5] else 1)
""")
seed('plane-rounding', 'C36', [('klayout_pex/fastercap/fastercap_model_generator.py', "math.floor(z / self.dbu + 1e-6)", "math.floor(z / self.dbu)")],
     'a height whose quotient by the database unit is just below an integer, such as 0.57 / 0.001',
     'layers that touch get a gap or an overlap of one database unit', FC + r"""
g = build({'m': 4.0}, [('+A', box(0, 0, 1000, 1000), 0.0, 0.57)])
t = [t for v in g.cond_data.values() for t in v]
top = max(p.z for x in t for p in (x.p0, x.p1, x.p2))
print(top)
sys.exit(0 if abs(top - 0.57) < 1e-9 else 1)
""")
seed('capped-dielectric', 'C36', [('klayout_pex/fastercap/fastercap_model_generator.py', """                lout -= all_cin  # handled with the conductor
                for mni in self.materials.keys():
                    lin = din.get(f"-{mni}", None)
                    if lin:
                        lout -= lin
""", """                for mni in self.materials.keys():
                    lin = din.get(f"-{mni}", None)
                    if lin:
                        lout -= lin
""")],
     'a conductor whose bottom is exactly the top of a dielectric, with nothing else above it',
     'besides the surface of the conductor there is one of the dielectric towards the void', FC + r"""
g = build({'m': 4.0}, [('-m', box(0, 0, 1000, 1000), 0.0, 1.0), ('+A', box(0, 0, 500, 1000), 1.0, 1.0)])
top = [t for k, v in g.diel_data.items() for t in v if t.p0.z == t.p1.z == t.p2.z == 1.0]
print(area(top))
sys.exit(0 if abs(area(top) - 0.5) < 1e-6 else 1)
""")
seed('vertical-order', 'C36', [('klayout_pex/fastercap/fastercap_model_generator.py', """                            if o > i:
                                d = loutside & linside
                                for e in d:
                                    # NOTE: we need to swap points as we started from "outside"
                                    self.generate_vdiel(outside=mno, inside=mni, edge=e.swapped_points())
                            linside -= loutside
""", """                            if o == i + 1:
                                d = loutside & linside
                                for e in d:
                                    # NOTE: we need to swap points as we started from "outside"
                                    self.generate_vdiel(outside=mno, inside=mni, edge=e.swapped_points())
                            linside -= loutside
""")],
     'two dielectrics that are not consecutive in the stack stand side by side', 'their common wall is missing in the model', FC + r"""
for names in (['a', 'b', 'c'], ['a', 'c', 'b']):
    g = build({n: 2.0 + i for i, n in enumerate(names)}, [('-a', box(0, 0, 1000, 1000), 0.0, 1.0), ('-c', box(1000, 0, 2000, 1000), 0.0, 1.0)])
    wall = [t for k, v in g.diel_data.items() if {k.outside, k.inside} == {'a', 'c'} for t in v]
    print(names, area(wall))
    if abs(area(wall) - 1.0) > 1e-6:
        sys.exit(1)
""")

STACK = r'''
import sys
from types import SimpleNamespace as NS
import klayout.db as kdb
import klayout_pex_protobuf.kpex.tech.tech_pb2 as tech_pb2
import klayout_pex_protobuf.kpex.tech.process_stack_pb2 as ps
from klayout_pex.tech_info import TechInfo
import klayout_pex.fastercap.fastercap_input_builder as fib
PI = ps.ProcessStackInfo
def lay(t, name, kind, **kw):
    l = t.process_stack.layers.add(); l.name = name
    l.layer_type = getattr(PI, 'LAYER_TYPE_' + kind.upper())
    m = getattr(l, {'metal': 'metal_layer', 'substrate': 'substrate_layer', 'field_oxide': 'field_oxide_layer', 'diffusion': 'diffusion_layer'}.get(kind, kind + '_layer'))
    for k, v in kw.items():
        if k == 'via':
            m.contact_above.name, m.contact_above.thickness = v
        else:
            setattr(m, k, v)
def stack(layers, computed={}, drawn={}):
    t = tech_pb2.Technology()
    for name, kind, kw in layers:
        lay(t, name, kind, **kw)
    for d, add in ((drawn, lambda: t.layers.add()), (computed, lambda: t.lvs_computed_layers.add().layer_info)):
        for n, (a, b) in d.items():
            li = add(); li.name = n; li.drw_gds_pair.layer = a; li.drw_gds_pair.datatype = b
    return TechInfo(t, None)
def run(ti, shapes, nets=('A',)):
    """shapes: {(net, gds): region}"""
    calls = []
    class B:
        def __init__(self, **kw): pass
        def add_material(self, name, k): calls.append(('material', name, k))
        def add_conductor(self, net_name, layer, z, height): calls.append(('conductor', net_name, layer.dup(), round(z, 6), round(height, 6)))
        def add_dielectric(self, material_name, layer, z, height): calls.append(('dielectric', material_name, layer.dup(), round(z, 6), round(height, 6)))
        def generate(self): return calls
    fib.FasterCapModelBuilder = B
    mk = lambda n: NS(name=n, expanded_name=lambda: n, pin_count=lambda: 0, is_floating=lambda: False, is_passive=lambda: False, each_terminal=lambda: [])
    objs = [mk(n) for n in nets]
    def merged(gds_pair):
        r = kdb.Region()
        for (n, x), v in shapes.items():
            if x == gds_pair: r += v
        return r
    ctx = NS(dbu=0.001, lvsdb=NS(netlist=lambda: NS(circuit_by_name=lambda n: NS(each_net=lambda: objs))),
             annotated_top_cell=NS(name='TOP'), top_cell_bbox=lambda: kdb.Box(0, 0, 10000, 10000),
             shapes_of_net=lambda gds_pair, net: shapes.get((net.name, gds_pair)), shapes_of_layer=merged)
    return fib.FasterCapInputBuilder(pex_context=ctx, tech_info=ti).build()
BASE = [('subs', 'substrate', dict(height=0.1, thickness=0.33)), ('fox', 'field_oxide', dict(dielectric_k=3.9)),
        ('poly', 'metal', dict(z=0.4, thickness=0.2, via=('con', 0.3))), ('ild0', 'simple_dielectric', dict(dielectric_k=4.1, reference='fox')),
        ('m1', 'metal', dict(z=0.9, thickness=0.36, via=('via', 0.5)))]
'''
seed('sidewall-pile', 'C37', [('klayout_pex/fastercap/fastercap_input_builder.py', """                                                         layer=sidewall_region,
                                                         z=metal_layer.z,
                                                         height=sidewall_height)

                        case""", """                                                         layer=sidewall_region,
                                                         z=metal_layer.z,
                                                         height=h_delta)

                        case""")],
     'a metal with two sidewall dielectrics, the second one around the first', 'the outer sidewall dielectric is only as high as its own part', STACK + r"""
ti = stack(BASE[:3] + [('sw1', 'sidewall_dielectric', dict(dielectric_k=5, height_above_metal=0.2, width_outside_sidewall=0.01, reference='poly')),
                       ('sw2', 'sidewall_dielectric', dict(dielectric_k=7, height_above_metal=0.12, width_outside_sidewall=0.05, reference='sw1'))] + BASE[3:],
           drawn={'poly': (1, 0), 'm1': (2, 0)})
got = run(ti, {('A', (1, 0)): kdb.Region(kdb.Box(0, 0, 1000, 1000))})
h = {c[1]: c[3:] for c in got if c[0] == 'dielectric' and c[1].startswith('sw')}
print(h)
sys.exit(0 if h == {'sw1': (0.4, 0.2), 'sw2': (0.4, 0.32)} else 1)
""")
seed('drawn-before-computed', 'C37', [('klayout_pex/fastercap/fastercap_input_builder.py', """        gds_pair = self.tech_info.gds_pair_for_computed_layer_name.get(layer_name, None)
        if not gds_pair:
            gds_pair = self.tech_info.gds_pair_for_layer_name.get(layer_name, None)
        if not gds_pair:
            warning""", """        gds_pair = self.tech_info.gds_pair_for_layer_name.get(layer_name, None)
        if not gds_pair:
            gds_pair = self.tech_info.gds_pair_for_computed_layer_name.get(layer_name, None)
        if not gds_pair:
            warning""")],
     'a layer name that exists both as a drawn layer and as a layer computed by LVS, under different GDS numbers',
     'the shapes of the drawn layer (without the recognition of devices) enter the model', STACK + r"""
ti = stack(BASE, drawn={'poly': (1, 0), 'm1': (2, 0)}, computed={'poly': (66, 5)})
a, b = kdb.Region(kdb.Box(0, 0, 1000, 1000)), kdb.Region(kdb.Box(0, 0, 4000, 1000))
got = run(ti, {('A', (1, 0)): b, ('A', (66, 5)): a})
c = [x for x in got if x[0] == 'conductor' and x[1] == 'A']
print(c)
sys.exit(0 if len(c) == 1 and (c[0][2] ^ a).is_empty() else 1)
""")
seed('no-metal-margin', 'C37', [('klayout_pex/fastercap/fastercap_input_builder.py', """                                no_metal_block = enlarged_top_cell_bbox.dup()
""", """                                no_metal_block = extracted_shapes.bbox()
""")],
     'a conformal dielectric with a thickness where there is no metal', 'it does not cover the fringe of the simulation window', STACK + r"""
ti = stack(BASE + [('nit', 'conformal_dielectric', dict(dielectric_k=7, thickness_over_metal=0.05, thickness_where_no_metal=0.06, thickness_sidewall=0.07, reference='m1'))],
           drawn={'poly': (1, 0), 'm1': (2, 0)})
got = run(ti, {('A', (2, 0)): kdb.Region(kdb.Box(0, 0, 1000, 1000))})
c = [x for x in got if x[0] == 'dielectric' and x[1] == 'nit' and x[4] == 0.06]
print(c)
exp = kdb.Region(kdb.Box(-8000, -8000, 18000, 18000)) - kdb.Region(kdb.Box(-70, -70, 1070, 1070))
sys.exit(0 if len(c) == 1 and (c[0][2] ^ exp).is_empty() else 1)
""")
seed('simple-any-metal', 'C37', [('klayout_pex/tech_info.py', "                    return diel_lyr, lyr.metal_layer.z - found_layer.metal_layer.z\n",
                                  "                    if diel_lyr:\n                        return diel_lyr, lyr.metal_layer.z - found_layer.metal_layer.z\n")],
     'a metal that has no simple dielectric before the next metal (two metals on the same height)',
     'it gets the dielectric above the next metal, which overlaps the next one', STACK + r"""
ti = stack(BASE + [('m1b', 'metal', dict(z=0.9, thickness=0.36)), ('ild1', 'simple_dielectric', dict(dielectric_k=4.2, reference='ild0')),
                   ('m2', 'metal', dict(z=1.9, thickness=0.36))], drawn={'poly': (1, 0), 'm1': (2, 0), 'm2': (3, 0), 'm1b': (4, 0)})
got = [x[1:2] + x[3:] for x in run(ti, {}) if x[:2] == ('dielectric', 'ild1')]
print(got)
sys.exit(0 if got == [('ild1', 0.9, 1.0)] else 1)
""")
seed('zero-elements', 'C11', [('klayout_pex/fastcap/fastcap_runner.py', "cells = list(filter(lambda c: len(c) >= 1, cells))",
                                "cells = list(filter(lambda c: len(c.strip('0')) >= 1, cells))")],
     'a matrix element that is printed as 0 (two conductors without coupling)', 'the element is dropped and those behind it move', r'''
import sys, tempfile, os
from klayout_pex.fastcap.fastcap_runner import fastcap_parse_capacitance_matrix
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'log')
    open(p, 'w').write('''+"\"\"\"CAPACITANCE MATRIX, picofarads\n              1          2          3\n$1%G2 1       7850          0      -2115\n$2%G3 2          0       7277      130.9\n$3%G4 3      -2115      130.9       6792\n\"\"\""+r''')
    m = fastcap_parse_capacitance_matrix(p)
print(m.rows)
sys.exit(0 if [len(r) for r in m.rows] == [3, 3, 3] and m.rows[0][1] == 0 and m.rows[1][1] > 0 else 1)
''')

RNET = r"""
import sys
from types import SimpleNamespace as NS
import klayout.db as kdb
import klayout_pex_protobuf.kpex.request.pex_request_pb2 as rq
import klayout_pex_protobuf.kpex.klayout.r_extractor_tech_pb2 as rt
from klayout_pex.rcx25.r.r_extractor import RExtractor
from klayout_pex.klayout.shapes_pb2_converter import ShapesConverter
sc = ShapesConverter(dbu=0.001)
r = rq.RExtractionRequest()
c = r.tech.conductors.add()
c.layer.id = 1; c.layer.canonical_layer_name = 'm1'; c.resistance = 0.1; c.triangulation_min_b = 0.5; c.triangulation_max_area = 0.5
c.algorithm = rt.RExtractorTech.Algorithm.ALGORITHM_SQUARE_COUNTING
n = r.net_extraction_requests.add(); n.net_name = 'A'
g = n.region_by_layer.add(); g.layer.id = 1
sc.klayout_region_to_pb(kdb.Region(kdb.Box(0, 0, 10000, 500)), g.region)
for x in (0, 9500):
    t = n.device_terminals.add(); t.net_name = 'A'
    l = t.region_by_layer.add(); l.layer.id = 1
    sc.klayout_region_to_pb(kdb.Region(kdb.Box(x, 0, x + 500, 500)), l.region)
def run():
    return RExtractor(pex_context=NS(dbu=0.001), substrate_algorithm=c.algorithm, wire_algorithm=c.algorithm, delaunay_b=0.5, delaunay_amax=0.5,
                      via_merge_distance=0.0, skip_simplify=False).extract(r)
"""
seed('box-net-name', 'C22', [('klayout_pex/rcx25/r/r_extractor.py', '''                        r_node.net_name = polygon_port_device_terminals[rn.layer()][port_idx].net_name
                        r_node.location.box.net = r_node.net_name
''', '''                        r_node.net_name = polygon_port_device_terminals[rn.layer()][port_idx].net_name
                        r_node.location.box.net_name = r_node.net_name
''')], 'a net with a device terminal', 'the extraction stops: a box has no field net_name', RNET + r"""
try:
    res = run()
except AttributeError as e:
    print(e); sys.exit(1)
print([n.location.box.net for n in res.networks[0].nodes])
sys.exit(0 if [n.location.box.net for n in res.networks[0].nodes] == ['A', 'A'] else 1)
""")
seed('schema-box-net', 'C22', [('protos/kpex/geometry/shapes.proto', '''    Point upper_right = 2;

    string net = 10; // property
''', '''    Point upper_right = 2;

    string net_name = 10; // property
''')], 'a net with a device terminal', 'the extraction stops: the field of the net of a box was renamed in the schema only', RNET + r"""
try:
    res = run()
except AttributeError as e:
    print(e); sys.exit(1)
sys.exit(0 if len(res.networks[0].nodes) == 2 else 1)
""")

TWICE = r'''
import os, subprocess, sys
if 'CHILD' not in os.environ:
    outs = set()
    for i in range(16):
        p = subprocess.run([sys.executable, os.path.abspath(__file__)], env={**os.environ, 'CHILD': '1', 'PYTHONHASHSEED': str(i)}, capture_output=True, text=True)
        if p.returncode:
            print(p.stderr[-2000:]); sys.exit(2)
        outs.add('\n'.join(l for l in p.stdout.splitlines() if l.startswith('@')))
    for o in sorted(outs): print('----', o[:600])
    sys.exit(0 if len(outs) == 1 else 1)
'''
seed('nets-from-set', 'C47', [('klayout_pex/rcx25/netlist_expander.py', """        for key, _ in cap_items:
            add_net_if_needed(key.net1)
            add_net_if_needed(key.net2)
""", """        for net_name in {n for key, _ in cap_items for n in (key.net1, key.net2)}:
            add_net_if_needed(net_name)
""")], 'several nets that are not in the extracted netlist, and another hash seed', 'the order of the nets of the expanded netlist, and the written SPICE file, differ from run to run', TWICE + r'''
import klayout.db as kdb
from klayout_pex.rcx25.extraction_results import *
from klayout_pex.rcx25.netlist_expander import RCX25NetlistExpander
nl = kdb.Netlist(); c = kdb.Circuit(); c.name = 'TOP'; nl.add(c)
class R:
    def summarize(self):
        return ExtractionSummary(capacitances={NetCoupleKey(f'N{i}', f'M{i}'): 1.0 + i for i in range(6)}, resistances={})
e = RCX25NetlistExpander.expand(nl, 'TOP', R(), True)
print('@NETS', [n.name for n in e.circuit_by_name('TOP').each_net()])
''')
seed('categories-by-depth', 'C47', [('klayout_pex/klayout/repair_rdb.py', '    category_paths.sort()\n', '    category_paths.sort(key=len)  # parents first\n')],
     'two broken categories of the same depth, and another hash seed', 'the order of the repaired categories differs from run to run', TWICE + r'''
import io, tempfile
from klayout_pex.klayout.repair_rdb import repair_rdb_xml
items = ''.join(f'<item><category>c{i}</category></item>' for i in range(6))
xml = f'<report-database><categories></categories><items>{items}</items></report-database>'
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'x.xml')
    repair_rdb_xml(io.StringIO(xml), p)
    import re
    print('@CATEGORIES', re.findall('<name>(.*?)</name>', open(p).read()))
''')
seed('names-from-set', 'C47', [('klayout_pex/fastercap/fastercap_model_generator.py', """        for names, prefix in ((self.net_names, '+'), (self.materials.keys(), '-')):
            for nn in names:
""", """        for names, prefix in ((self.net_names, '+'), (self.materials.keys(), '-')):
            for nn in set(names):
""")], 'two overlapping dielectrics in one plane, and another hash seed', 'the precedence of overlapping layers, which is the order of declaration, differs from run to run', TWICE + FC + r'''
g = build({'low': 4.0, 'high': 7.0, 'mid': 5.0}, [('-high', box(0, 0, 1000, 1000), 0.0, 0.1), ('-low', box(0, 0, 2000, 1000), 0.0, 0.1), ('-mid', box(0, 0, 3000, 1000), 0.0, 0.1)])
print('@AREAS', {m: sorted((k.inside if k.inside == m else k.outside or '', round(area(v), 6)) for k, v in g.diel_data.items() if m in (k.inside, k.outside)) for m in ('low', 'high', 'mid')})
''')
seed('first-region-kept', 'C48', [('klayout_pex/fastercap/fastercap_model_generator.py', """            self.layers_in[name] = kdb.Region([])
        self.layers_in[name] += layer
""", """            self.layers_in[name] = layer
        else:
            self.layers_in[name] += layer
""")], 'a net with two layers that start at the same height', 'the shapes that the caller handed over are changed: shapes of the second layer are added to those of the first',
     FC + r'''
a, b = box(0, 0, 1000, 1000), box(2000, 0, 3000, 1000)
build({'m': 4.0}, [('+A', a, 0.0, 0.1), ('+A', b, 0.0, 0.2)])
print(a.area(), b.area())
sys.exit(0 if (a.area(), b.area()) == (1000000, 1000000) else 1)
''')
seed('summary-reused', 'C48', [('klayout_pex/rcx25/extraction_results.py', """        merged_capacitances = defaultdict(float)
        merged_resistances = defaultdict(float)
        for s in summaries:
""", """        merged_capacitances = defaultdict(float)
        merged_resistances = defaultdict(float)
        if len(summaries) == 1:
            merged_capacitances = summaries[0].capacitances
        for s in summaries:
""")], 'merging a single summary', 'the capacitances of the given summary are doubled while they are merged', r'''
import sys
from klayout_pex.rcx25.extraction_results import *
s = ExtractionSummary(capacitances={NetCoupleKey('A', 'B'): 1.5}, resistances={})
m = ExtractionSummary.merged([s])
print(s, m)
sys.exit(0 if s.capacitances == {NetCoupleKey('A', 'B'): 1.5} and dict(m.capacitances) == {NetCoupleKey('A', 'B'): 1.5} else 1)
''')
seed('purged-netlist', 'C48', [('klayout_pex/fastercap/fastercap_input_builder.py', """        netlist: kdb.Netlist = lvsdb.netlist()

        def format_terminal""", """        netlist: kdb.Netlist = lvsdb.netlist()
        netlist.purge_nets()  # no floating nets in the model

        def format_terminal""")], 'a net without devices and pins (e.g. a fill or shield wire), and another engine or the netlist writer after the 3D model',
     'nets are missing in the LVS netlist for the engines that run afterwards', STACK + r'''
lvs = kdb.LayoutVsSchematic() if False else None
import inspect
src = {}
nl = kdb.Netlist(); c = kdb.Circuit(); c.name = 'TOP'; nl.add(c)
for n in ('A', 'FILL'): c.create_net(n)
ti = stack(BASE[:3] + BASE[3:], drawn={'poly': (1, 0), 'm1': (2, 0)})
import klayout_pex.fastercap.fastercap_input_builder as fb
ctx = NS(lvsdb=NS(netlist=lambda: nl), dbu=0.001, annotated_top_cell=NS(name='TOP'), top_cell_bbox=lambda: kdb.Box(0, 0, 1000, 1000),
         shapes_of_net=lambda gds_pair, net: None, shapes_of_layer=lambda gds_pair: None)
try:
    fb.FasterCapInputBuilder(pex_context=ctx, tech_info=ti, k_void=1.0, delaunay_amax=0.0, delaunay_b=0.0).build()
except Exception as x:
    print('build:', x)
names = [n.name for n in c.each_net()]
print(names)
sys.exit(0 if names == ['A', 'FILL'] else 1)
''')

# ---- the generated tech files (C18-C21, C49)
PB = r'''
import json, os, sys
def load(pdk):
    t = json.load(open(f'klayout_pex_protobuf/{pdk}_tech.pb.json'))
    assert t['name'] == pdk, t['name']
    return t
PDKS = ['sky130A', 'ihp_sg13g2']
def rows(t, table):
    return t['process_parasitics']['capacitance'][table]
def conductors(t):
    return [r['layer_name'] for r in t['process_parasitics']['resistance']['layers']]
def metals(t):
    return {l['name']: (l['metal_layer'].get('z', 0.0), l['metal_layer']['thickness'], l['metal_layer'].get('contact_above'))
            for l in t['process_stack']['layers'] if l.get('layer_type') == 'LAYER_TYPE_METAL'}
'''
PBC = 'cxx/gen_tech_pb/protobuf.cpp'
SKY = 'cxx/gen_tech_pb/pdk/sky130A.cpp'
IHP = 'cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp'

seed('pb-sideoverlap-swap', 'C18', [(PBC, '    soc->set_in_layer_name(in_layer);\n    soc->set_out_layer_name(out_layer);',
                                          '    soc->set_in_layer_name(out_layer);\n    soc->set_out_layer_name(in_layer);')],
     'a layout with sidewall overlap of layers whose two coefficients differ', 'the fringe coefficients of two layers are exchanged', PB + r'''
for p in PDKS:
    t = load(p)
    assert {r['in_layer_name'] for r in rows(t, 'sideoverlaps')} <= set(conductors(t)), 'a well or diffusion as the layer with the side wall'
''')
seed('pb-conformal-thickness', 'C18', [(PBC, '    cl->set_thickness_where_no_metal(thickness_where_mo_metal);', '    cl->set_thickness_where_no_metal(thickness_over_metal);')],
     'a conformal dielectric whose thicknesses over and beside the metal differ', 'conformal dielectrics are as thick beside the metal as above it', PB + r'''
t = load('sky130A')
d = {l['name']: l['conformal_dielectric_layer'] for l in t['process_stack']['layers'] if 'conformal_dielectric_layer' in l}
assert abs(d['topnit']['thickness_where_no_metal'] - 0.4223) < 1e-9, d['topnit']
assert d['capild'].get('thickness_where_no_metal', 0.0) == 0.0, d['capild']
''')
seed('pb-missing-sideoverlap', 'C20', [(SKY, '    addSidewallOverlapCap(ci, "met4",      "li1",       39.71);\n', '')],
     'a met4 side wall above li1 in sky130A', 'the fringe capacitance from met4 to li1 is 0', PB + r'''
for p in PDKS:
    t = load(p)
    have = {(r['in_layer_name'], r['out_layer_name']) for r in rows(t, 'sideoverlaps')}
    miss = [(a, b) for a in conductors(t) for b in conductors(t) if a != b and (a, b) not in have]
    assert not miss, (p, miss)
''')
seed('pb-swapped-rows', 'C20', [(IHP, '"TopMetal2",  "Metal4",        5.434);', '"TopMetal2",  "Metal4",        6.425);'),
                                (IHP, '"TopMetal2",  "Metal5",        6.425);', '"TopMetal2",  "Metal5",        5.434);')],
     'TopMetal2 above Metal4 or Metal5 in ihp_sg13g2', 'two overlap coefficients are exchanged', PB + r'''
for p in PDKS:
    t = load(p)
    order = conductors(t)
    c = {(r['top_layer_name'], r['bottom_layer_name']): r['capacitance'] for r in rows(t, 'overlaps')}
    for i, a in enumerate(order):
        v = [c[(a, b)] for b in order[:i]]
        assert all(x <= y * 1.03 for x, y in zip(v, v[1:])), (p, a, v)
''')
seed('pb-contact-metal', 'C19', [(IHP, '"via4_drw",      "metal4_con",    "metal5_n_cap",', '"via4_drw",      "metal4_con",    "metal5_con",  ')],
     'resistance extraction of ihp_sg13g2 (R mode)', 'the metal above Via4 is not among the computed layers', PB + r'''
t = load('ihp_sg13g2')
names = {l['layer_info']['name'] for l in t['lvs_computed_layers']}
for n, (z, th, c) in metals(t).items():
    if c: assert c['layer_below'] in names and c['metal_above'] in names, (n, c)
''')
seed('pb-gds-pair-shared', 'C19', [(IHP, '"metal5_cap",    67, 100,', '"metal5_cap",    67, 200,')],
     'an ihp_sg13g2 layout with a MIM capacitor', 'two computed layers share one GDS pair', PB + r'''
t = load('ihp_sg13g2')
seen = {}
for l in t['lvs_computed_layers']:
    i = l['layer_info']
    if i['name'] in ('metal5_n_cap', 'metal5_cap', 'topvia1_n_cap', 'mim_via', 'cmim_top'):
        k = (i['drw_gds_pair']['layer'], i['drw_gds_pair'].get('datatype', 0))
        assert k not in seen, (k, seen[k], i['name'])
        seen[k] = i['name']
''')
seed('pb-topmetal2-height', 'C49', [(IHP, 'auto topmet2_z   = topmet1_z + topmet1_thickness + topvia2_thickness;', 'auto topmet2_z   = topmet1_z + topmet1_thickness + topvia1_ncap_thickness;')],
     'an ihp_sg13g2 layout with TopMetal2', 'TopMetal2 lies too low in the 3D model', PB + r'''
t = load('ihp_sg13g2')
m = metals(t)
for low, high in (('Metal1', 'Metal2'), ('Metal2', 'Metal3'), ('Metal3', 'Metal4'), ('Metal4', 'metal5_n_cap'), ('metal5_n_cap', 'TopMetal1'), ('TopMetal1', 'TopMetal2')):
    z, th, c = m[low]
    assert abs(z + th + c['thickness'] - m[high][0]) < 1e-6, (low, high, z + th + c['thickness'], m[high][0])
''')
seed('pb-met4-thickness', 'C49', [(SKY, 'auto met4_cap  = addMetalLayer(psi, "met4_cap",  4.0211, 0.845);', 'auto met4_cap  = addMetalLayer(psi, "met4_cap",  4.0211, 0.945);')],
     'a sky130A layout with a capm2 capacitor', 'met4 below a capacitor plate is thicker than elsewhere', PB + r'''
m = metals(load('sky130A'))
assert abs(m['met4_cap'][1] - m['met4_ncap'][1]) < 1e-9, (m['met4_cap'], m['met4_ncap'])
''')
seed('pb-halo', 'C21', [(IHP, '    ex->set_side_halo(8);', '    ex->set_side_halo(0.8);')],
     'an ihp_sg13g2 layout with conductors more than 0.8 um apart', 'lateral coupling farther than 0.8 um is ignored', PB + r'''
for p in PDKS:
    t = load(p)
    m = metals(t)
    top = max(z + th for z, th, c in m.values())
    assert 2 * t['process_parasitics']['side_halo'] >= max(z for z, th, c in m.values()), (p, t['process_parasitics']['side_halo'], top)
''')
seed('pb-installed-path', 'C21', [('klayout_pex/kpex_cli.py', "tech_pb_json_dir = os.path.join(os.path.dirname(base_dir), 'klayout_pex_protobuf')", "tech_pb_json_dir = os.path.join(base_dir, 'klayout_pex_protobuf')")],
     'the installed package (no .git beside it)', 'the installed program looks for the tech files in a directory that does not exist', r'''
import os, shutil, subprocess, sys, tempfile
with tempfile.TemporaryDirectory() as d:
    site = os.path.join(d, 'site-packages')
    for m in ('klayout_pex', 'klayout_pex_protobuf'):
        shutil.copytree(m, os.path.join(site, m))
    env = dict(os.environ, PYTHONPATH=site)
    r = subprocess.run([sys.executable, '-c', 'from klayout_pex.kpex_cli import PDK\nfor p in PDK: print(p.config.tech_pb_json_path)'],
                       cwd=d, env=env, capture_output=True, text=True)
    assert r.returncode == 0, r.stderr[-500:]
    for p in r.stdout.split():
        assert os.path.exists(p), p
''')

NETCLI = r'''
import os, sys, tempfile, webbrowser, json
import klayout_pex.netlist.netlist_cli as N
SP = {'A': '.SUBCKT A X Y\nR1 X Y 100\n.ENDS A\n', 'B': '.SUBCKT B P Q\nC1 P Q 1e-12\n.ENDS B\n'}
def run(cells, *more, cwd=None):
    """(status, keyword arguments of netlistsvg, pages shown, the description it was given)"""
    calls, pages = [], []
    def stand_in(**kw):
        calls.append(dict(kw, text=open(kw['yosys_json_netlist_path']).read()))
    N.run_netlistsvg = stand_in
    webbrowser.open = lambda u, *a: pages.append(u)
    d = tempfile.TemporaryDirectory()
    old = os.getcwd()
    os.chdir(d.name)
    try:
        open('n.sp', 'w').write('* netlist\n' + ''.join(SP[c] for c in cells) + '.END\n')
        glob, sub = [a for a in more if isinstance(a, tuple)], [a for a in more if not isinstance(a, tuple)]
        argv = ['netlist'] + [x for g in glob for x in g] + ['svg', '--exe', '/bin/true', *sub, 'n.sp']
        sys.argv = argv
        try:
            N.NetlistCLI().main(argv)
            status = 0
        except SystemExit as x:
            status = x.code or 0
        except N.ArgumentValidationError:
            status = 'refused'
    finally:
        os.chdir(old)
        d.cleanup()
    return status, calls, pages
'''
NC = 'klayout_pex/netlist/netlist_cli.py'
seed('net-first-of-many', 'C51', [(NC, """            case 1:
                top_circuit = top_circuits[0]
            case _:
                info(f"Multiple top circuits found in SPICE netlist: {top_circuit_names}")
                error('Please specify the desired cell using the --cell argument')
                sys.exit(2)
""", """            case 1 | 2:
                top_circuit = top_circuits[0]
            case _:
                info(f"Multiple top circuits found in SPICE netlist: {top_circuit_names}")
                error('Please specify the desired cell using the --cell argument')
                sys.exit(2)
""")], 'a netlist with exactly two top circuits and no --cell', 'one of the two is drawn silently', NETCLI + r'''
s, calls, pages = run('AB')
assert s not in (0, None) and not calls, (s, calls)
s, calls, pages = run('A')
assert s == 0 and len(calls) == 1
''')
seed('net-output-preview', 'C51', [(NC, """        if output_svg_path is None:
            output_svg_path = os.path.join(run_dir, f"{os.path.basename(args.input_netlist_path)}.svg")
""", """        preview_svg_path = os.path.join(run_dir, f"{os.path.basename(args.input_netlist_path)}.svg")
        if output_svg_path is None:
            output_svg_path = preview_svg_path
"""), (NC, 'webbrowser.open(f"file://{os.path.abspath(output_svg_path)}")', 'webbrowser.open(f"file://{os.path.abspath(preview_svg_path)}")')],
     '--preview together with --output', 'the page shown is not the drawing that was written', NETCLI + r'''
s, calls, pages = run('A', '--preview', '-o', 'mine.svg')
assert s == 0 and len(calls) == 1 and len(pages) == 1
assert os.path.basename(pages[0]) == os.path.basename(calls[0]['output_svg_path']) == 'mine.svg', (pages, calls)
''')

LOGP = r'''
import io, logging, os, sys, tempfile
import rich.console
import klayout_pex.log.logger as L
from klayout_pex.log import *
def shown(f, *a, level=LogLevel.DEBUG):
    out = io.StringIO()
    L.console.file, L.console._width = out, 200
    set_log_level(level)
    f(*a)
    return out.getvalue()
'''
LGF = 'klayout_pex/log/logger.py'
seed('log-alias-level', 'C52', [(LGF, "    VERBOSE = 15\n", "    VERBOSE = 12\n")],
     '--log_level verbose', 'the level verbose does not hide the output of the tools: it is the same as subprocess', LOGP + r'''
assert 'xyz' not in shown(subproc, 'xyz', level=LogLevel.VERBOSE)
assert 'xyz' in shown(subproc, 'xyz', level=LogLevel.SUBPROCESS)
''')
seed('log-debug-filtered', 'C52', [(LGF, "    rich_handler.addFilter(LogLevelFilter(['SUBPROCESS'], invert=True))", "    rich_handler.addFilter(LogLevelFilter(['SUBPROCESS', 'VERBOSE', 'WARNING'], invert=True))"),
  (LGF, "    subprocess_rich_handler.addFilter(LogLevelFilter(['SUBPROCESS']))", "    subprocess_rich_handler.addFilter(LogLevelFilter(['SUBPROCESS', 'VERBOSE']))")],
     'a warning', 'warnings are not shown: the two filters are not complementary any more', LOGP + r'''
for f in (debug, info, warning, error, subproc):
    assert shown(f, 'xyz').count('xyz') == 1, f
''')
seed('log-rerun', 'C52', [('klayout_pex/kpex_cli.py', """            if os.path.exists(new_path):
                ctime""", """            if os.path.exists(new_path) and not os.path.samefile(os.path.dirname(new_path), args.output_dir_path):
                ctime""")],
     'a second run in the same output directory', 'the log files of the earlier run are overwritten', r'''
import glob, logging, os, sys, tempfile
from types import SimpleNamespace as NS
from klayout_pex.kpex_cli import KpexCLI
from klayout_pex.log import *
for n in (1, 2):
    if n == 1:
        d = tempfile.TemporaryDirectory()
    a = NS(output_dir_base_path=d.name, log_level=LogLevel.INFO)
    c = KpexCLI()
    def validate(args):
        args.output_dir_path = os.path.join(d.name, 'run')
        info(f"message {n}")
    c.validate_args = validate
    c.setup_logging(a)
text = ''.join(open(f).read() for f in glob.glob(os.path.join(d.name, 'run', 'kpex_plain*')))
assert 'message 1' in text and 'message 2' in text, text
''')

GEOM = r'''
import glob, os, sys, tempfile
import klayout.db as kdb
import klayout_pex.fastercap.fastercap_model_generator as G
from klayout_pex.fastercap.fastercap_model_generator import *
def model(*nets, materials=True):
    b = FasterCapModelBuilder(dbu=0.001, k_void=3.5, delaunay_amax=0.5, delaunay_b=0.5)
    if materials:
        b.add_material(name='nit', k=4.5)
        b.add_dielectric(material_name='nit', layer=kdb.Region(kdb.Box(-500, -500, 9000, 1500)), z=0.0, height=0.5)
    for i, n in enumerate(nets):
        b.add_conductor(net_name=n, layer=kdb.Region(kdb.Box(2000 * i, 0, 2000 * i + 1000, 1000)), z=0.1, height=0.2)
    return b.generate()
def volume(path):
    v = [[float(x) for x in l.split()[1:]] for l in open(path) if l.strip().startswith('vertex')]
    cross = lambda a, b: (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
    return sum(sum(x * y for x, y in zip(v[i], cross(v[i + 1], v[i + 2]))) for i in range(0, len(v), 3)) / 6
def stl(g):
    with tempfile.TemporaryDirectory() as d:
        g.dump_stl(output_dir_path=d, prefix='')
        return {os.path.basename(f): volume(f) for f in glob.glob(os.path.join(d, '*.stl'))}
'''
GM = 'klayout_pex/fastercap/fastercap_model_generator.py'
seed('stl-net-prefix', 'C53', [(GM, "            if k.net_name == net_name:", "            if net_name in k.net_name:")],
     'two nets, the name of one contained in that of the other', 'the surfaces of VDD contain those of VDDA', GEOM + r'''
a, b = stl(model('VDD', 'VDDA')), stl(model('VDD'))
assert abs(abs(a['cond_VDD.stl']) - abs(b['cond_VDD.stl'])) < 1e-6, (a, b)
''')
seed('stl-inner-material', 'C53', [(GM, """            elif material_name == k.inside:
                tris += [t.reversed() for t in v]
""", """            elif material_name == k.inside:
                tris += v
""")], 'a dielectric that is the inner side of an interface', 'the faces of the dielectric face both ways', GEOM + r'''
a = stl(model('A'))
want = 9.5 * 2.0 * 0.5 - 1.0 * 1.0 * 0.2
assert abs(abs(a['diel_nit.stl']) - want) < 1e-3, (a, want)
''')
seed('check-count-open', 'C53', [(GM, """                error(f"{msg}: edge {self._edge2s(e)} not connected with reverse edge (open surface)")
                errors += 1

        return errors
""", """                error(f"{msg}: edge {self._edge2s(e)} not connected with reverse edge (open surface)")

        return errors
""")], 'an open surface without duplicate edges', 'the geometry check ends with "No errors found"', GEOM + r'''
g = model('A')
k = next(iter(g.cond_data))
g.cond_data[k] = g.cond_data[k][:-1]
said = []
G.info = lambda m, *a, **k: said.append(m)
G.error = lambda m, *a, **k: None
g.check()
assert not any('No errors' in m for m in said), said
''')

RPT = r"""
import sys, os
import klayout.db as kdb, klayout.rdb as rdb
import klayout_pex_protobuf.kpex.r.r_network_pb2 as rn
import klayout_pex_protobuf.kpex.result.pex_result_pb2 as rs
import klayout_pex_protobuf.kpex.request.pex_request_pb2 as rq
import klayout_pex_protobuf.kpex.layout.location_pb2 as lo
from klayout_pex.rcx25.extraction_reporter import ExtractionReporter
from klayout_pex.klayout.shapes_pb2_converter import ShapesConverter
sc = ShapesConverter(dbu=0.001)
rep = ExtractionReporter('TOP', 0.001)
def result(nodes, elements):
    r = rs.RExtractionResult()
    n = r.networks.add(); n.net_name = 'A'
    for i, name in nodes:
        x = n.nodes.add(); x.node_id = i; x.node_name = name; x.net_name = 'A'; x.layer_name = 'm1'
        x.location.kind = lo.Location.Kind.LOCATION_KIND_POINT
        x.location.point.x = 1000 * i; x.location.point.y = 0
    for i, (a, b, v) in enumerate(elements):
        e = n.elements.add(); e.element_id = i; e.node_a.node_id = a; e.node_b.node_id = b; e.resistance = v
    return r
def names():
    return [c.name() for c in rep.report.each_category() for c in walk(c)]
def walk(c):
    yield c
    for s in c.each_sub_category():
        yield from walk(s)
"""
REPR = 'klayout_pex/rcx25/extraction_reporter.py'
seed('report-node-position', 'C45', [(REPR, "        a = node_id_to_node[element.node_a.node_id]\n        b = node_id_to_node[element.node_b.node_id]\n",
                                      "        nodes = list(node_id_to_node.values())\n        a = nodes[element.node_a.node_id - nodes[0].node_id]\n        b = nodes[element.node_b.node_id - nodes[0].node_id]\n")],
     'a network whose node numbers have gaps, after it was simplified', 'the report shows its resistors between other nodes, or the run stops', RPT + r'''
try:
    rep.output_rex_result(result([(0, 'P'), (2, 'Q'), (3, 'S'), (5, 'T')], [(0, 2, 1.0), (2, 3, 2.0)]))
except IndexError as e:
    print(e); sys.exit(1)
p = names(); print(p)
for a, b, v in (('P', 'Q', 1.0), ('Q', 'S', 2.0)):
    assert any(f'{a} (' in x and f'{b} (' in x and str(v) in x for x in p), (a, b)
''')
seed('report-small-resistance', 'C45', [(REPR, "round(element.resistance * 1000.0, 6)} mΩ", "round(element.resistance, 6)} mΩ")],
     'an element with a resistance below a milliohm', 'the report shows a thousandth of it', RPT + r'''
rep.output_rex_result(result([(0, 'P'), (1, 'Q')], [(0, 1, 0.0005)]))
p = names(); print(p)
assert any('0.5 mΩ' in x or '0.0005 Ω' in x for x in p)
''')
seed('report-terminal-layers', 'C45', [(REPR, "            for l2r in t.region_by_layer:\n                r = self", "            for l2r in t.region_by_layer[:1]:\n                r = self")],
     'a device terminal with shapes on more than one layer', 'its shapes on the other layers are not in the report', RPT + r'''
r = rq.RExtractionRequest()
d = r.devices.add(); d.device_name = 'M1'; d.device_class_name = 'nmos'
t = d.terminals.add(); t.name = 'D'; t.net_name = 'A'
for i, n in ((1, 'm1'), (2, 'm2')):
    l = t.region_by_layer.add(); l.layer.id = i; l.layer.canonical_layer_name = n
    sc.klayout_region_to_pb(kdb.Region(kdb.Box(0, 0, 500, 500)), l.region)
rep.output_rex_request(r)
p = names(); print(p)
assert any('layer m1' in x for x in p) and any('layer m2' in x for x in p)
''')
seed('repair-gz-keyword', 'C54', [('klayout_pex/klayout/repair_rdb.py', "        with gzip.open(rdb_path, 'r') as f:\n            repair_rdb_xml(f, new_xml_path)",
                                   "        with gzip.open(rdb_path, 'r') as f:\n            repair_rdb_xml(f, new_path=new_xml_path)")],
     'a compressed marker database that has to be repaired', 'the repair ends with a TypeError', r'''
import gzip, os, sys, tempfile
from klayout_pex.klayout.repair_rdb import repair_rdb
X = b"<?xml version='1.0'?><report-database><categories><category><name>A</name><description/><categories/></category></categories><cells/><items/></report-database>"
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, 'r.rdb.gz')
    with gzip.open(p, 'wb') as f: f.write(X)
    repair_rdb(p)
    assert os.path.exists(p + '.repair.xml')
''')
OVL = 'klayout_pex/rcx25/c/overlap_extractor.py'
seed('overlap-warning-table', 'C55', [(OVL, 'warning(f"No overlap cap specified for layer top={top_layer_name}")',
                                       'warning(f"No overlap cap specified for layer top={top_layer_name}, only for {sorted(top_overlap_specs.keys())}")')],
     'a conductor without overlap capacitances in the technology, above another', 'the warning about it ends the run', TECH + r'''
import sys
from klayout_pex.tech_info import TechInfo
f = TechInfo.overlap_cap_by_layer_names.func
TechInfo.overlap_cap_by_layer_names = property(lambda s: {k: v for k, v in f(s).items() if k != 'mX'})
r = run(OverlapExtractor, {'VSUBS': [], 'm1': [('A', 0, 0, 10000, 1000)], 'mX': [('D', 0, 0, 4000, 1000)], 'm2': [('B', 0, 0, 10000, 1000)]})
assert any(k.layer_top == 'm2' and k.layer_bot == 'm1' for k in r.overlap_table)
''')
seed('fringe-last-piece', 'C28', [('klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py',
                                   "                    for up in unshielded_region.each():\n                        up = kdb.PolygonWithProperties(up, {'net': outside_net})\n                        polygons_by_net[outside_net].append(up)\n",
                                   "                    for up in unshielded_region.each():\n                        up = kdb.PolygonWithProperties(up, {'net': outside_net})\n                        polygons_by_net[outside_net] = [up]\n")],
     'a shield that divides an outer shape into two pieces', 'only one of the pieces is coupled', TECH + r'''
import sys
def caps(*ys):
    r = run(SidewallAndFringeExtractor, {'VSUBS': [], 'm1': [('A', 0, 0, 10000, 1000)], 'm2': [('B', -9000, 4000, 19000, 5000)],
            'm3': [('C', -9000, a, 19000, b) for a, b in ys]}, scale_ratio_to_fit_halo=False)
    return sum(c.cap_value for k, cs in r.sideoverlap_table.items() for c in cs if k.layer_inside == 'm1' and k.layer_outside == 'm3')
a, b, c = caps((2000, 7000)), caps((2000, 4000)), caps((5000, 7000))
print(a, b, c)
assert b > 0 and c > 0 and abs(a - b - c) < 1e-6 * a, (a, b, c)
''')
