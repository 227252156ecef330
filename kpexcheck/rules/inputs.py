"""C48: functions whose callers keep using the arguments do not modify them.

For each such function the events of the value-flow engine (with all calls into the program inlined) are scanned for
mutations; the object that is mutated is traced back, through attributes, elements, accessor calls, shallow copies,
containers and loop-carried values, to fresh objects or to one that the caller owns."""
from __future__ import annotations
from typing import *

from ..core import check
from ..vfa import T, show, subterms

K = 'klayout_pex.'
# functions, and the parameters (or fields of the receiver) that the caller keeps
CONTRACTS: List[Tuple[str, Tuple[str, ...]]] = [
    ('common.capacitance_matrix.CapacitanceMatrix.averaged_off_diagonals', ('self',)),
    ('common.capacitance_matrix.CapacitanceMatrix.write_csv', ('self',)),
    ('klayout.netlist_expander.NetlistExpander.expand', ('extracted_netlist', 'cap_matrix')),
    ('klayout.netlist_reducer.NetlistReducer.reduce', ('netlist',)),
    ('klayout.netlist_csv.NetlistCSVWriter.write_csv', ('netlist',)),
    ('netlistsvg.netlist_json.NetlistJSONWriter.netlist_json_dict', ('netlist', 'top_circuit')),
    ('rcx25.netlist_expander.RCX25NetlistExpander.expand', ('extracted_netlist', 'extraction_results')),
    ('rcx25.extraction_results.NetCoupleKey.normed', ('self',)),
    ('rcx25.extraction_results.ExtractionSummary.merged', ('summaries',)),
    ('rcx25.extraction_results.CellExtractionResults.summarize', ('self',)),
    ('rcx25.extraction_results.ExtractionResults.summarize', ('self',)),
    ('rcx25.extractor.RCX25Extractor.extract', ('self.pex_context', 'self.tech_info')),
    ('rcx25.extractor.RCX25Extractor.extract_cell', ('self.pex_context', 'self.tech_info')),
    ('rcx25.c.overlap_extractor.OverlapExtractor.extract', ('self.layer_regions_by_name', 'self.all_layer_names', 'self.tech_info')),
    ('rcx25.c.overlap_extractor.OverlapExtractor.PEXPolygonNeighborhoodVisitor.neighbors', ('self.tech_info', 'self.layer_names', 'polygon', 'neighborhood')),
    ('rcx25.c.sidewall_and_fringe_extractor.SidewallAndFringeExtractor.extract', ('self.layer_regions_by_name', 'self.all_layer_names', 'self.tech_info')),
    ('rcx25.c.sidewall_and_fringe_extractor.SidewallAndFringeExtractor.PEXEdgeNeighborhoodVisitor.on_edge',
     ('self.tech_info', 'self.all_layer_names', 'edge', 'neighborhood')),
    ('rcx25.c.geometry_restorer.GeometryRestorer.restore_edge', ('edge', 'self')),
    ('rcx25.c.geometry_restorer.GeometryRestorer.restore_edge_interval', ('edge_interval', 'self')),
    ('rcx25.c.geometry_restorer.GeometryRestorer.restore_polygon', ('polygon', 'self')),
    ('rcx25.c.geometry_restorer.GeometryRestorer.restore_region', ('region', 'self')),
    ('rcx25.c.polygon_utils.find_polygon_with_nearest_edge', ('polygons_on_same_layer',)),
    ('rcx25.c.polygon_utils.nearest_edge', ('polygon',)),
    ('rcx25.r.r_extractor.RExtractor.prepare_request', ('self',)),
    ('rcx25.r.r_extractor.RExtractor.extract', ('rex_request', 'self')),
    ('rcx25.r.conductance.Conductance.parallel', ('self', 'other')),
    ('rcx25.r.conductance.Conductance.serial', ('self', 'other')),
    ('rcx25.r.conductance.Conductance.add_parallel', ('other',)),
    ('rcx25.r.conductance.Conductance.add_serial', ('other',)),
    ('rcx25.r.conductance.Conductance.copy', ('self',)),
    ('rcx25.r.resistor_network.ResistorNetwork.to_string', ('self',)),
    ('rcx25.r.resistor_network.ResistorNetwork.check', ('self',)),
    ('rcx25.r.resistor_network.ResistorNetwork.expand_skinny_tris', ('p',)),
    ('rcx25.r.resistor_network.ResistorNetworks.find_network_nodes', ('self', 'location')),
    ('klayout.rex_core.klayout_r_extractor_tech', ('pb_tech',)),
    ('klayout.shapes_pb2_converter.ShapesConverter.klayout_region', ('region', 'self')),
    ('klayout.shapes_pb2_converter.ShapesConverter.klayout_polygon', ('polygon', 'self')),
    ('klayout.shapes_pb2_converter.ShapesConverter.klayout_box', ('box', 'self')),
    ('klayout.shapes_pb2_converter.ShapesConverter.klayout_region_to_pb', ('region_kly', 'self')),
    ('klayout.shapes_pb2_converter.ShapesConverter.klayout_polygon_to_pb', ('polygon_kly', 'self')),
    ('klayout.lvsdb_extractor.KLayoutExtractionContext.prepare_extraction', ('lvsdb', 'tech')),
    ('klayout.lvsdb_extractor.KLayoutExtractionContext.shapes_of_layer', ('self',)),
    ('klayout.lvsdb_extractor.KLayoutExtractionContext.shapes_of_net', ('self', 'net')),
    ('klayout.lvsdb_extractor.KLayoutExtractionContext.pins_of_layer', ('self',)),
    ('klayout.lvsdb_extractor.KLayoutExtractionContext.labels_of_layer', ('self',)),
    ('klayout.lvsdb_extractor.KLayoutExtractionContext.pins_pb2_by_layer', ('self',)),
    ('klayout.lvsdb_extractor.KLayoutExtractionContext.devices_by_name', ('self',)),
    ('fastercap.fastercap_input_builder.FasterCapInputBuilder.build', ('self.pex_context', 'self.tech_info')),
    ('fastercap.fastercap_model_generator.FasterCapModelBuilder.add_conductor', ('layer',)),
    ('fastercap.fastercap_model_generator.FasterCapModelBuilder.add_dielectric', ('layer',)),
    ('fastercap.fastercap_model_generator.FasterCapModelBuilder.generate', ('self',)),
    ('fastercap.fastercap_model_generator.FasterCapModelGenerator.write_fastcap', ('self',)),
    ('fastercap.fastercap_model_generator.FasterCapModelGenerator.dump_stl', ('self',)),
    ('fastercap.fastercap_model_generator.FasterCapModelGenerator.check', ('self',)),
    ('fastercap.fastercap_model_generator.Triangle.reversed', ('self',)),
    ('fastercap.fastercap_model_generator.HDielKey.reversed', ('self',)),
    ('fastercap.fastercap_model_generator.Edge.reversed', ('self',)),
    ('magic.magic_log_analyzer.MagicLogAnalyzer.analyze', ('self.magic_pex_run',)),
    ('util.multiple_choice.MultipleChoicePattern.filter', ('self', 'choices')),
    ('util.multiple_choice.MultipleChoicePattern.is_included', ('self',)),
]
CONTRACTS += [('rcx25.extraction_reporter.ExtractionReporter.' + m, (p,)) for m, p in [
    ('output_shapes', 'shapes'), ('output_overlap', 'overlap_cap'), ('output_sidewall', 'sidewall_cap'), ('output_sideoverlap', 'sideoverlap_cap'),
    ('output_rex_request', 'request'), ('output_rex_result', 'result'), ('output_devices', 'devices'), ('output_edge_neighborhood', 'neighborhood')]]

# classes that may keep what these methods are given, but then must not modify it later
RETAINED = [
    ('fastercap.fastercap_model_generator.FasterCapModelGenerator', (('add_in', 'layer'), ('add_out', 'layer'), ('__init__', 'materials'), ('__init__', 'net_names'))),
    ('fastercap.fastercap_model_generator.FasterCapModelBuilder', (('add_conductor', 'layer'), ('add_dielectric', 'layer'))),
]

CONTAINER = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'add', 'discard', 'popitem',
             'appendleft', 'popleft', 'extendleft', 'rotate', 'move_to_end', 'intersection_update', 'difference_update',
             'symmetric_difference_update', '__setitem__', '__delitem__', '__setattr__'}
MESSAGE = {'CopyFrom', 'MergeFrom', 'Clear', 'ClearField', 'ParseFromString', 'MergeFromString', 'SetInParent', 'DiscardUnknownFields'}
KLAYOUT = {'merge', 'move', 'move_to', 'transform', 'transform_icplx', 'snap', 'smooth', 'round_corners', 'break_polygons', 'swap', 'assign', 'flatten',
           'remove_properties', 'map_properties', 'filter_properties', 'erase', 'delete', 'destroy', 'replace', 'set_parameter', 'size', 'insert_hole',
           'assign_hole', 'assign_hull', 'compress', 'create_net', 'create_device', 'create_pin', 'create_subcircuit', 'remove_device', 'remove_net',
           'remove_pin', 'remove_subcircuit', 'connect_terminal', 'disconnect_terminal', 'connect_pin', 'disconnect_pin', 'combine_devices',
           'purge', 'purge_nets', 'purge_circuit', 'purge_devices', 'simplify', 'make_top_level_pins', 'join_nets', 'rename_pin', 'rename_device',
           'blank', 'blank_circuit', 'flatten_subcircuit', 'flatten_circuit', 'flatten_circuits', 'read', 'load', 'set_property', 'delete_property',
           'delete_properties', 'create_cell', 'delete_cell', 'delete_cells', 'delete_layer', 'insert_layer', 'insert_layer_at', 'clear_layer',
           'move_layer', 'copy_layer', 'swap_layers', 'add_parallel', 'add_serial', 'remove_parameter', 'add_parameter', 'extend', 'enlarge',
           'shift', 'swap_points', 'duplicate', 'prune_cell', 'prune_subcells', 'set_layer_properties', 'reset_layers', 'insert_vertex',
           'nor', 'join_symmetric_nets'}
MUTATORS = CONTAINER | MESSAGE | KLAYOUT
# methods whose result is a new object, whatever the receiver
FRESH = {'dup', 'copy_deep', 'deepcopy', 'merged', 'sized', 'moved', 'transformed', 'transformed_icplx', 'snapped', 'smoothed', 'rounded_corners', 'edges',
         'hulls', 'holes', 'bbox', 'enlarged', 'extents', 'interacting', 'not_interacting', 'inside', 'outside', 'overlapping', 'not_overlapping',
         'covering', 'selected_interacting', 'decompose_trapezoids', 'decompose_convex', 'decompose_trapezoids_to_region',
         'decompose_convex_to_region', 'delaunay', 'and_', 'or_', 'andnot', 'extended', 'extended_in', 'extended_out', 'extents_edges', 'corners',
         'complex_op', 'processed', 'filtered', 'split', 'strip', 'lower', 'upper', 'format', 'expanded_name', 'to_s', 'to_str', 'encode', 'decode',
         'join', 'reversed', 'union', 'intersection', 'difference', 'symmetric_difference', 'SerializeToString', 'area', 'perimeter', 'count',
         'length', 'center', 'sq_length', 'to_itype', 'to_dtype', 'clipped', 'swapped_points', 'shifted', 'normed', 'inverted', 'rectangles',
         'begin_shapes_rec', 'each_edge', 'each_point_hull', 'each_point_hole', 'each_point', 'with_area', 'squares', 'texts', 'polygons'}
SHALLOW = {'list', 'tuple', 'set', 'frozenset', 'dict', 'sorted', 'reversed', 'enumerate', 'zip', 'filter', 'map', 'iter', 'copy.copy', 'copy',
           'defaultdict', 'collections.defaultdict', 'itertools.chain', 'chain', 'collections.OrderedDict', 'collections.deque', 'typing.cast', 'cast'}
PICK = {'min', 'max', 'next'}


class Owner:
    """traces a term back to the protected objects that it may be, or be a part of"""

    def __init__(self, eng, roots: Dict[T, str]):
        self.e, self.roots = eng, roots
        self.memo: Dict[T, FrozenSet[str]] = {}
        self.pmemo: Dict[T, Tuple[T, ...]] = {}

    def top(self, t, stack=frozenset()) -> FrozenSet[str]:
        if not isinstance(t, T) or t in stack or len(stack) > 60:
            return frozenset()
        if t in self.memo:
            return self.memo[t]
        r = self._top(t, stack | {t})
        if not stack:
            self.memo[t] = r
        return r

    def many(self, ts, s):
        r = frozenset()
        for x in ts:
            r |= self.top(x, s)
        return r

    def _top(self, t, s):
        if t in self.roots:
            return frozenset({self.roots[t]})
        o, a = t.op, t.a
        ty = self.e.cls_of(t)
        if ty in ('int', 'float', 'str', 'bool', 'bytes'):
            return frozenset()
        if o == 'attr':
            return self.top(a[0], s) or self.many(self.fields(a[0], a[1], s), s)
        if o in ('item', 'elem', 'key', 'val'):
            b = self.top(a[0], s)
            if b:
                return b
            i = a[1] if o == 'item' else None
            return self.many(self.parts(a[0], s, i), s)
        if o == 'ite':
            return self.many(a[1:], s)
        if o in ('or', 'and'):
            return self.many(a, s)
        if o == 'mu':
            return self.many(self.e.mu_info.get(t) or (), s)
        if o == 'call':
            q, args = a[0], a[1]
            if isinstance(q, str) and q.startswith('.'):
                m = q[1:]
                if m in FRESH or m in ('items', 'keys', 'values', 'copy'):
                    return frozenset()
                r = self.top(args[0], s)
                if not r and m in ('get', 'pop', 'setdefault', '__getitem__', 'popleft', 'popitem'):
                    r = self.many(self.parts(args[0], s), s) | self.many(args[2:], s)
                return r
            if q in PICK:
                if len(args) == 1 or q == 'next':
                    return self.top(args[0], s) or self.many(self.parts(args[0], s), s)
                return self.many(args, s)
        return frozenset()

    def parts(self, t, s=frozenset(), i=None) -> List[T]:
        """what an element of t may be"""
        if not isinstance(t, T) or (t, 'parts') in s or len(s) > 60:
            return []
        s = s | {(t, 'parts')}
        if self.top(t, s):
            return [t]
        o, a = t.op, t.a
        out: List[T] = []
        if o == 'lit':
            for x in a[1]:
                out += list(x) if isinstance(x, tuple) else [x]
        elif o == 'tuple':
            if i is not None and i.op == 'const' and isinstance(i.a[0], int) and -len(a) <= i.a[0] < len(a) and not any(x.op == 'star' for x in a):
                out = [a[i.a[0]]]
            else:
                out = list(a)
        elif o == 'comp':
            info = self.e.comps.get(a[1])
            if info:
                out = [info['elt']]
        elif o == 'slice':
            out = self.parts(a[0], s)
        elif o == 'ite':
            out = self.parts(a[1], s, i) + self.parts(a[2], s, i)
        elif o == 'mu':
            for x in (self.e.mu_info.get(t) or ()):
                out += self.parts(x, s, i)
        elif o in ('item', 'elem', 'key', 'val'):
            for p in self.parts(a[0], s, a[1] if o == 'item' else None):
                out += self.parts(p, s, i)
        elif o == 'attr':
            for p in self.fields(a[0], a[1], s):
                out += self.parts(p, s, i)
        elif o == 'bin' and a[0] in ('+', '|', '*') and not any((self.e.cls_of(x) or '').startswith('klayout.') for x in a[1:]):
            out = self.parts(a[1], s) + self.parts(a[2], s)
        elif o in ('call', 'new'):
            q, args, kw = a[0], a[1], a[2]
            if isinstance(q, str):
                last = q.rsplit('.', 1)[-1]
                if q.startswith('.'):
                    if last == 'items':
                        out = [T('tuple', p, p) for p in self.parts(args[0], s)]
                    elif last in ('keys', 'values', 'copy'):
                        out = self.parts(args[0], s)
                    elif last in ('get', 'pop', 'setdefault'):
                        for p in self.parts(args[0], s):
                            out += self.parts(p, s, i)
                        for p in args[2:]:
                            out += self.parts(p, s, i)
                elif last == 'deepcopy':
                    out = []
                elif last == 'enumerate':
                    out = [T('tuple', T('const', 0), p) for x in args[:1] for p in self.parts(x, s)]
                elif last == 'zip':
                    out = [T('tuple', *ps) for ps in [[p for x in args for p in self.parts(x, s)]] if ps]
                elif q in SHALLOW or last == 'copy':
                    for x in args:
                        out += self.parts(x, s, i)
        for x in [x for x in out if x.op == 'star']:
            out.remove(x)
            out += self.parts(x.a[0], s)
        if o in ('lit', 'new', 'comp', 'call') and not self.value_type(t):
            for ev in self.e.by_recv.get(t, ()):
                if ev.kind == 'setitem':
                    out.append(ev.args[1])
                elif ev.kind == 'call' and ev.name in ('append', 'add', 'insert', 'setdefault', 'appendleft'):
                    out += [x for x in list(ev.args) + list(ev.kw.values()) if isinstance(x, T)]
                elif ev.kind == 'call' and ev.name in ('extend', 'update', 'extendleft', '__i+__', '__i|__'):
                    for x in ev.args:
                        out += self.parts(x, s)
        return out

    def value_type(self, t) -> bool:
        """protobuf and KLayout containers copy what is stored"""
        q = t.a[0] if t.op == 'new' else ''
        c = q if isinstance(q, str) else ''
        c = self.e.cls_of(t) or c
        return c.startswith(('klayout_pex_protobuf.', 'klayout.', 'kdb.', '.add', '.new_'))

    def fields(self, t, name, s=frozenset()) -> List[T]:
        """what the field of t may be"""
        if not isinstance(t, T) or (t, name) in s or len(s) > 60:
            return []
        s = s | {(t, name)}
        o, a = t.op, t.a
        out: List[T] = []
        if o == 'new':
            if self.value_type(t):
                return []
            q = a[0] if isinstance(a[0], str) else ''
            last = q.rsplit('.', 1)[-1]
            if last == 'copy' and a[1]:
                out.append(T('attr', a[1][0], name))
            elif last != 'deepcopy' and not q.startswith('.'):
                c = self.e.prog.classes.get(q)
                kw = dict(a[2])
                if name in kw:
                    out.append(kw[name])
                elif c is not None and name in c.ann_order and c.ann_order.index(name) < len(a[1]):
                    out.append(a[1][c.ann_order.index(name)])
            for ev in self.e.by_recv.get(t, ()):
                if ev.kind == 'store' and ev.callee == name:
                    out.append(ev.args[0])
        elif o == 'ite':
            out = self.fields(a[1], name, s) + self.fields(a[2], name, s)
        elif o == 'mu':
            for x in (self.e.mu_info.get(t) or ()):
                out += self.fields(x, name, s)
        elif o in ('item', 'elem', 'key', 'val'):
            for p in self.parts(a[0], s, a[1] if o == 'item' else None):
                out += [T('attr', p, name)] if self.top(p, s) else self.fields(p, name, s)
        elif o == 'attr':
            for p in self.fields(a[0], a[1], s):
                out += self.fields(p, name, s)
        elif o == 'call' and isinstance(a[0], str) and a[0] in ('.get', '.pop', '.setdefault'):
            for p in self.parts(a[1][0], s):
                out += [T('attr', p, name)] if self.top(p, s) else self.fields(p, name, s)
        return out


def mutations(e, own: Owner):
    """(event, roots, what) of everything that changes an object which the caller owns"""
    for ev in e.events:
        if ev.kind in ('store', 'setitem', 'delitem', 'delattr') and ev.recv is not None:
            r = own.top(ev.recv)
            if r:
                yield ev, r, {'store': f"assigns .{ev.callee}", 'setitem': 'assigns an item', 'delitem': 'deletes an item', 'delattr': 'deletes a field'}[ev.kind]
        elif ev.kind == 'call':
            if ev.recv is not None and (ev.callee.startswith('.__i') or (ev.name in MUTATORS and not (ev.name == 'size' and not ev.args))):
                r = own.top(ev.recv)
                if r:
                    yield ev, r, f"calls {ev.name}()"
            elif ev.recv is None and ev.args and (ev.callee in ('random.shuffle', 'bisect.insort', 'setattr', 'delattr') or ev.callee.startswith('heapq.')
                                                  or ev.callee.rsplit('.', 1)[0] in ('list', 'dict', 'set') and ev.name in CONTAINER):
                r = own.top(ev.args[0])
                if r:
                    yield ev, r, f"calls {ev.callee}()"


def fields_of(e):
    return {t.a[1] for ev in e.events if ev.recv is not None for t in subterms(ev.recv) if t.op == 'attr' and t.a[0] is T('param', 'self')}


@check('C48', 'ownership (alias) analysis of all mutating operations reachable from functions with a no-modification contract',
       'Mutating operations of KLayout and protobuf objects are recognized by name; in-place operators of objects of unknown type are not.')
def c48(ctx):
    """Functions that callers hand objects to which they keep using: no operation modifies such an object or a part of it."""
    for qual, protected in CONTRACTS:
        q = K + qual
        f = ctx.prog.funcs.get(q)
        if f is None:
            continue
        e = ctx.analyse(q)
        roots = {}
        for p in protected:
            base, *fields = p.split('.')
            if base not in f.params:
                continue
            t = T('param', base)
            for x in fields:
                t = T('attr', t, x)
            roots[t] = p
        own = Owner(e, roots)
        bad = {}
        n = 0
        for ev in e.events:
            n += ev.kind in ('store', 'setitem', 'delitem', 'delattr') or (ev.kind == 'call' and (ev.name in MUTATORS))
        for ev, r, what in mutations(e, own):
            for x in r:
                bad.setdefault(x, []).append((ev, what))
        for p in roots.values():
            if p in bad:
                ev, what = bad[p][0]
                ctx.fail('modified', f"{qual}({p})", f"{ev.func.replace(K, '')} {what} of {show(ev.recv if ev.recv is not None else ev.args[0])[:120]}, "
                         f"which belongs to {p} of the caller", ev.loc)
            else:
                ctx.ob('modified', True, f"{qual}({p}): {n} mutating operations")
    for cls, methods in RETAINED:
        c = ctx.prog.classes.get(K + cls)
        if c is None:
            continue
        kept: Dict[str, str] = {}
        for m, p in methods:
            f = c.methods.get(m)
            if f is None or p not in f.params:
                continue
            e = ctx.analyse(f.qual)
            own = Owner(e, {T('param', p): p})
            me = Owner(e, {T('attr', T('param', 'self'), n): n for n in fields_of(e)})
            for ev in e.events:
                if ev.kind in ('store', 'setitem') or ev.kind == 'call' and ev.name in ('append', 'insert', 'setdefault', 'add'):
                    if any(own.top(x) or any(own.top(y) for y in own.parts(x)) for x in ev.args) and ev.recv is not None and not own.value_type(ev.recv):
                        for n in me.top(ev.recv) or ([ev.callee] if ev.kind == 'store' and ev.recv is T('param', 'self') else []):
                            kept[n] = f"{m}({p})"
            ctx.ob('retained', True, f"{cls}.{m}({p})")
        for m, f in sorted(c.methods.items()):
            if not kept or m == '__init__':
                continue
            e = ctx.analyse(f.qual)
            roots = {T('attr', T('param', 'self'), n): n for n in kept}
            own = Owner(e, roots)
            for ev, r, what in mutations(e, own):
                t = ev.recv
                if t in roots or ev.kind != 'call' or ev.name in CONTAINER and not ev.callee.startswith('.__i'):
                    continue
                n = sorted(r)[0]
                ctx.fail('retained', f"{cls}.{m}: {n}", f"{what} of {show(t)[:100]}, where {kept[n]} keeps an object of the caller", ev.loc)
    ctx.need(len(ctx.obligations) > 20, 'the functions with this contract were not found')
