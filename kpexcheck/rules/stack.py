"""The model that is built from the process stack (C37)."""
from __future__ import annotations
from typing import *
from ..absint import Interp, Inst, LObj, ClassV, Union_, FuncV, Unmodelled
from ..core import check, Ctx
from ..messages import MsgV, enum_value
from ..model import AnalysisBroken
from ..q import pnorm
from ..regions import Obj, sym
from ..shapes import Shape, ShapeDomain, Box, EMPTY, num, union, diff, sized
from ..vfa import T, const

INPUT = 'klayout_pex.fastercap.fastercap_input_builder.FasterCapInputBuilder'
BUILDER = 'klayout_pex.fastercap.fastercap_model_generator.FasterCapModelBuilder'
TECH = 'klayout_pex.tech_info.TechInfo'
PS = 'klayout_pex_protobuf.kpex.tech.process_stack_pb2.ProcessStackInfo'
TP = 'klayout_pex_protobuf.kpex.tech.tech_pb2'


# ---------------------------------------------------------------- the abstract process
METALS = ['poly', 'm1', 'm2', 'm3', 'mx', 'm4']     # mx: not in the layout's layer tables


def process(c: Ctx):
    """(message, layers, GDS pair by layer, positive numbers) of an abstract process: numbers are symbols"""
    P = c.prog.protos
    M = lambda q, **f: MsgV(P, q, **f)
    E = lambda n: enum_value(P, 'ProcessStackInfo.' + n)
    pos = set()

    def n(*k):
        t = sym(*k)
        pos.add(t)
        return t
    L = []

    def layer(name, kind, **kw):
        L.append(M(PS + '.LayerInfo', name=name, layer_type=E('LAYER_TYPE_' + kind.upper()),
                   **{dict(metal='metal_layer', substrate='substrate_layer', nwell='nwell_layer', diffusion='diffusion_layer',
                           field_oxide='field_oxide_layer').get(kind, kind + '_layer'): M(PS + '.' + {
                               'metal': 'MetalLayer', 'substrate': 'SubstrateLayer', 'nwell': 'NWellLayer',
                               'diffusion': 'DiffusionLayer', 'field_oxide': 'FieldOxideLayer',
                               'simple_dielectric': 'SimpleDielectricLayer', 'conformal_dielectric': 'ConformalDielectricLayer',
                               'sidewall_dielectric': 'SidewallDielectricLayer'}[kind], **kw)}))

    def contact(name, below, above):
        return M(PS + '.Contact', name=name, layer_below=below, metal_above=above, thickness=n('via', name), width=n('w', name),
                 spacing=n('s', name), border=n('b', name))

    def metal(name, via=None, above=''):
        kw = dict(contact_above=contact(via, name, above)) if via else {}
        layer(name, 'metal', z=n('z', name), thickness=n('t', name), **kw)

    def simple(name, ref):
        layer(name, 'simple_dielectric', dielectric_k=n('k', name), reference=ref)

    def side(name, ref, h=None):
        layer(name, 'sidewall_dielectric', dielectric_k=n('k', name), reference=ref, width_outside_sidewall=n('out', name),
              height_above_metal=n('h', name) if h is None else h)

    def conf(name, ref, no=None):
        layer(name, 'conformal_dielectric', dielectric_k=n('k', name), reference=ref, thickness_over_metal=n('over', name),
              thickness_sidewall=n('side', name), thickness_where_no_metal=n('no', name) if no is None else no)

    layer('subs', 'substrate', height=n('sub-h'), thickness=n('sub-t'), reference='fox')
    layer('nwell', 'nwell', z=n('z', 'nwell'), reference='fox', contact_above=contact('wcon', 'nwell', 'm1'))
    layer('ndif', 'diffusion', z=n('z', 'ndif'), reference='fox', contact_above=contact('ncon', 'ndif', 'm1'))
    layer('pdif', 'diffusion', z=n('z', 'pdif'), reference='fox', contact_above=contact('pcon', 'pdif', 'm1'))
    layer('fox', 'field_oxide', dielectric_k=n('k', 'fox'))
    metal('poly', 'ycon', 'm1')
    side('sw1', 'poly')
    side('sw2', 'sw1')
    simple('ild0', 'fox')
    metal('m1', 'v1', 'm2')
    side('sw3', 'm1', 0.0)
    simple('ild1', 'ild0')
    metal('m2', 'v2', 'm3')
    conf('cf1', 'm2')
    simple('ild2', 'ild1')
    metal('m3')
    conf('cf2', 'm3', 0.0)
    metal('mx', 'vx', 'm4')
    simple('ild3', 'ild2')
    metal('m4')
    side('sw4', 'm4')
    conf('cf3', 'sw4')
    simple('air', 'cf3')

    comp = {k: (100 + i, 1) for i, k in enumerate(['poly', 'm1', 'm2', 'ndif', 'pdif', 'ycon', 'v1', 'v2', 'ncon', 'pcon'])}
    lay = {k: (200 + i, 2) for i, k in enumerate(['poly', 'm1', 'm2', 'm3', 'm4', 'v1', 'v2'])}
    li = lambda k, p: M(TP + '.LayerInfo', name=k, drw_gds_pair=M(TP + '.GDSPair', layer=p[0], datatype=p[1]))
    tech = M(TP + '.Technology', name='abstract', process_stack=M(PS, layers=L),
             layers=[li(k, p) for k, p in lay.items()],
             lvs_computed_layers=[M(TP + '.ComputedLayerInfo', layer_info=li(k, p), original_layer_name=k)
                                  for k, p in comp.items()])
    gds = {k: comp.get(k, lay.get(k)) for k in {*comp, *lay}}
    return tech, L, gds, pos


# ---------------------------------------------------------------- the layout
class Filter(Obj):
    klass = 'MultipleChoicePattern'

    def __init__(self, excluded):
        self.excluded = excluded

    def m_is_included(self, I, pc, choice):
        return choice not in self.excluded


class Named(Obj):
    def __init__(self, **kw):
        self.kw = kw
        self.klass = kw.get('klass', 'object')

    def getattr(self, I, name, pc):
        from ..absint import Meth
        if name in self.kw:
            return self.kw[name]
        if 'call_' + name in self.kw:
            f = self.kw['call_' + name]
            return Meth(lambda I_, a, k, p: f(I_, p, *a, **k), name)
        return Unmodelled(f"{I.where}: {self.klass}.{name} is not modelled")

    def has(self, name):
        return name in self.kw or 'call_' + name in self.kw


class Recorder(Obj):
    klass = 'FasterCapModelBuilder'

    def __init__(self, c, args, kw):
        self.c, self.args, self.kw = c, args, kw
        self.calls: List[tuple] = []
        self.result = Named(klass='FasterCapModelGenerator')

    def getattr(self, I, name, pc):
        from ..absint import Meth
        f = self.c.prog.funcs.get(f"{BUILDER}.{name}")
        if f is None:
            raise AnalysisBroken(f"{I.where}: FasterCapModelBuilder.{name}")

        def call(I_, a, k, p):
            if name == 'generate':
                self.calls.append((p, name, {}))
                return self.result
            b = bind(f, a, k)
            for v in ('layer',):
                if isinstance(b.get(v), Shape):
                    b[v] = Shape(b[v].alts)           # as it is at this time
            self.calls.append((p, name, b))
        return Meth(call, name)

    def has(self, name):
        return False


def bind(f, a, k):
    names = [x.arg for x in f.node.args.args if x.arg != 'self']
    d = dict(zip(names, a))
    d.update(k)
    defaults = f.node.args.defaults
    for p, v in zip(names[len(names) - len(defaults):], defaults):
        import ast
        if p not in d and isinstance(v, ast.Constant):
            d[p] = v.value
    return d


class StackDomain(ShapeDomain):
    def __init__(self, c):
        self.c = c
        self.recorders = []

    def construct(self, I, cls, args, kw, pc):
        if cls.qual == BUILDER:
            r = Recorder(self.c, args, kw)
            f = self.c.prog.funcs.get(BUILDER + '.__init__')
            r.bound = bind(f, args, kw) if f else dict(kw)
            self.recorders.append((pc, r))
            return r
        return None


class Build:
    def __init__(self, c: Ctx, excluded, nets):
        self.c = c
        self.dom = StackDomain(c)
        self.I = I = Interp(c.prog, self.dom)
        self.tech, self.layers, self.gds, pos = process(c)
        self.dbu = sym('dbu')
        I.positive |= pos | {self.dbu}
        self.nets = nets
        self.shared = {}
        cls, tcls = c.prog.classes.get(INPUT), c.prog.classes.get(TECH)
        c.need(cls is not None and tcls is not None, 'FasterCapInputBuilder')
        ti = I.call(ClassV(tcls), [], dict(tech=self.tech, dielectric_filter=Filter(excluded)), 1)
        self.netobj = {n: self.net(n) for n in nets}
        circuit = Named(klass='Circuit', name='TOP', call_each_net=lambda I_, p: LObj([(1, x) for x in self.netobj.values()]))
        other = Named(klass='Circuit', name='OTHER', call_each_net=lambda I_, p: LObj([(1, self.net('wrong'))]))

        def by_name(I_, p, name):
            return circuit if name == 'TOP' else other
        netlist = Named(klass='Netlist', call_circuit_by_name=by_name, call_each_circuit=lambda I_, p: LObj([(1, other), (1, circuit)]),
                        call_top_circuit=lambda I_, p: circuit)
        lvsdb = Named(klass='LayoutVsSchematic', call_netlist=lambda I_, p: netlist)

        def shapes_of_net(I_, p, gds_pair=None, net=None):
            n = next((k for k, o in self.netobj.items() if o is net), net)
            return self.open_shape(('shapes', gds_pair, n))

        ctx = Named(klass='KLayoutExtractionContext', dbu=self.dbu, lvsdb=lvsdb,
                    annotated_top_cell=Named(klass='Cell', name='TOP'), top_circuit=circuit, tech=ti,
                    call_top_cell_bbox=lambda I_, p: Box(num(0)),
                    call_shapes_of_net=shapes_of_net,
                    call_shapes_of_layer=lambda I_, p, gds_pair=None: self.open_shape(('layer', gds_pair)))
        self.par = {k: sym(k) for k in ('k_void', 'delaunay_amax', 'delaunay_b')}
        b = I.call(ClassV(cls), [], dict(pex_context=ctx, tech_info=ti, **self.par), 1)
        self.gen = I.call(I.getattr(b, 'build', 1), [], {}, 1)
        live = [(g, r) for g, r in self.dom.recorders if g]
        if len(live) != 1 or live[0][0] != 1:
            raise AnalysisBroken('build() does not make one model')
        self.rec = live[0][1]

    def net(self, n):
        return Named(klass='Net', call_expanded_name=lambda I_, p: sym('expanded', n), name=sym('name', n), n=n,
                     cluster_id=sym('cluster', n))

    def open_shape(self, key):
        I = self.I
        if key[1] is None:
            return None
        if key[0] == 'layer' and key in self.shared:
            return self.shared[key]
        has = I.var(('has', key))
        r = Union_([(has, Shape([(1, key)])), (I.Not(has), None)])
        if key[0] == 'layer':
            self.shared[key] = r                    # the region of the database itself
        return r

    # ------------------------------------------------------------ calls by their meaning
    def got(self):
        """{(kind, name, region, z, height): condition}"""
        I = self.I
        out = {}
        for pc, name, b in self.rec.calls:
            if name not in ('add_conductor', 'add_dielectric'):
                continue
            who = b.get('net_name' if name == 'add_conductor' else 'material_name')

            def one(g, who, layer, z, h):
                if not isinstance(layer, Shape):
                    raise AnalysisBroken(f"{name}() without shapes")
                for c, e in layer.alts:
                    g2 = I.And(g, c, layer.some(I, e))
                    if g2:
                        k = (name[4:], who, e, num(z), num(h))
                        out[k] = I.Or(out.get(k, 0), g2)
            I.lift(one, pc, who, b.get('layer'), b.get('z'), b.get('height'))
        return out


def expected(B: Build, excluded):
    I = B.I
    out = {}
    add = lambda a, b: T('bin', '+', a if isinstance(a, T) else const(a), b if isinstance(b, T) else const(b))
    sub = lambda a, b: T('bin', '-', a if isinstance(a, T) else const(a), b if isinstance(b, T) else const(b))
    S = Shape([])

    def put(kind, who, e, z, h, g=1):
        g = I.And(g, S.some(I, e))
        if g:
            k = (kind, who, e, num(z), num(h))
            out[k] = I.Or(out.get(k, 0), g)

    def val(m, *path):
        for p in path:
            m = I.getattr(m, p, 1)
        return m

    def present(key):
        return I.And(I.var(('has', key)), I.var(('some', key)))
    lt = lambda n: enum_value(B.c.prog.protos, 'ProcessStackInfo.LAYER_TYPE_' + n)
    by = lambda n: [l for l in B.layers if val(l, 'layer_type') == lt(n)]
    diffs = [(1, EMPTY)]
    q = lambda n: T('call', 'math.floor', (T('bin', '/', const(n) if not isinstance(n, T) else n, B.dbu),), ())
    for n in B.nets:
        who = sym('expanded', n)
        for l in by('METAL'):
            nm, m = val(l, 'name'), val(l, 'metal_layer')
            if B.gds.get(nm):
                k = ('shapes', B.gds[nm], n)
                put('conductor', who, k, val(m, 'z'), val(m, 'thickness'), present(k))
            if 'contact_above' in m.fields:
                via = val(m, 'contact_above')
                if B.gds.get(val(via, 'name')):
                    k = ('shapes', B.gds[val(via, 'name')], n)
                    put('conductor', who, k, add(val(m, 'z'), val(m, 'thickness')), val(via, 'thickness'), present(k))
        for l in by('DIFFUSION'):
            k = ('shapes', B.gds[val(l, 'name')], n)
            put('conductor', who, k, 0, 0.1, present(k))
            diffs = [(I.And(c, g), x) for c, e in diffs for g, x in ((present(k), union(e, sized(k, num(q(1))))),
                                                                     (I.Not(present(k)), e))]
            via = val(l, 'diffusion_layer', 'contact_above')
            k = ('shapes', B.gds[val(via, 'name')], n)
            put('conductor', who, k, 0, val(via, 'thickness'), present(k))
    box = ('box', num(q(8)))
    sl = val(by('SUBSTRATE')[0], 'substrate_layer')
    for g, e in diffs:
        put('conductor', 'VSUBS', diff(box, e), sub(sub(0, val(sl, 'height')), val(sl, 'thickness')), val(sl, 'thickness'), g)
    put('dielectric', 'fox', box, 0, val(by('METAL')[0], 'metal_layer', 'z'))
    inc = [l for l in B.layers if val(l, 'name') not in excluded]
    kinds = {lt('SIDEWALL_DIELECTRIC'): 'sidewall_dielectric_layer', lt('CONFORMAL_DIELECTRIC'): 'conformal_dielectric_layer'}
    for l in by('METAL'):
        nm, m = val(l, 'name'), val(l, 'metal_layer')
        k = ('layer', B.gds[nm]) if B.gds.get(nm) else None
        has = present(k) if k else 0
        side, hgt, nometal, ref = k, const(0), None, nm
        while True:
            d = [x for x in inc if val(x, 'layer_type') in kinds and val(x, kinds[val(x, 'layer_type')], 'reference') == ref]
            if not d or not k:
                break
            ref = val(d[0], 'name')
            p = val(d[0], kinds[val(d[0], 'layer_type')])
            if val(d[0], 'layer_type') == lt('SIDEWALL_DIELECTRIC'):
                side = sized(side, num(q(val(p, 'width_outside_sidewall'))))
                hh = val(p, 'height_above_metal')
                hgt = add(hgt, hh if hh != 0 else val(m, 'thickness'))
                put('dielectric', ref, side, val(m, 'z'), hgt, has)
            else:
                side = sized(side, num(q(val(p, 'thickness_sidewall'))))
                hgt = add(hgt, add(val(m, 'thickness'), val(p, 'thickness_over_metal')))
                put('dielectric', ref, side, val(m, 'z'), hgt, has)
                if val(p, 'thickness_where_no_metal') != 0:
                    nometal = val(p, 'thickness_where_no_metal')
                    put('dielectric', ref, diff(box, side), val(m, 'z'), nometal, has)
        # the dielectric between this metal and the next
        at = B.layers.index(l)
        simple = nxt = None
        for x in B.layers[at + 1:]:
            if val(x, 'layer_type') == lt('SIMPLE_DIELECTRIC') and simple is None:
                simple = val(x, 'name')
            if val(x, 'layer_type') == lt('METAL'):
                nxt = x
                break
        if simple is None or simple in excluded:
            continue
        h = sub(val(nxt, 'metal_layer', 'z'), val(m, 'z')) if nxt is not None else const(5.0)
        if k:
            put('dielectric', simple, side, add(val(m, 'z'), hgt), sub(h, hgt), has)
            if nometal is not None:
                put('dielectric', simple, diff(box, side), add(val(m, 'z'), nometal), sub(h, nometal), has)
            else:
                put('dielectric', simple, diff(box, side), val(m, 'z'), h, has)
        put('dielectric', simple, box, val(m, 'z'), h, I.Not(has))
    return out


def show(e):
    if e[0] == 'union':
        return ' + '.join(sorted(map(show, e[1]))) or 'nothing'
    if e[0] == 'diff':
        return f"({show(e[1])} - {' - '.join(sorted(map(show, e[2])))})"
    if e[0] == 'sized':
        return f"sized {show(e[1])}"
    if e[0] == 'shapes':
        return f"shapes of net {e[2]} on {e[1]}"
    if e[0] == 'layer':
        return f"shapes on {e[1]}"
    return e[0]


def poly(k):
    return ' + '.join(f"{c}" if not m else f"{'' if c == 1 else str(c) + '*'}{'*'.join(_s(t) for t, _ in m)}" for m, c in k) or '0'


def _s(t):
    return '.'.join(map(str, t.a)) if isinstance(t, T) and t.op == 'sym' else str(t)


CONFIGS = [((), ['n1', 'n2']), (('ild1', 'sw2', 'cf1'), ['n1']), (('air', 'ild0', 'sw1', 'sw4'), [])]


@check('C37', 'abstract interpretation of the input builder on an abstract process stack (symbolic dimensions, regions as expressions, '
       'present and absent shapes open)',
       'one process stack with every kind of layer, two nets, three choices of dielectrics; KLayout regions are modelled')
def c37(c: Ctx):
    """FasterCapInputBuilder.build() is interpreted, together with TechInfo, for a process stack with every kind of layer:
    the conductors and dielectrics that it adds, with net or material, region, height and thickness, are exactly those that
    the stack describes, under exactly the conditions that their shapes exist."""
    loc = _loc(c)
    for excluded, nets in CONFIGS:
        tag = f" without {', '.join(excluded)}" if excluded else ''
        B = Build(c, excluded, nets)
        I = B.I
        got, exp = B.got(), expected(B, excluded)
        ob = lambda rule, ok, construct, msg: c.ob(rule, ok, construct, msg, loc)
        for k in sorted(set(got) | set(exp), key=str):
            g, x = got.get(k, 0), exp.get(k, 0)
            kind, who, e, z, h = k
            name = who if isinstance(who, str) else _s(who)
            what = f"{kind} {name}: {show(e)}, z={poly(z)}, height={poly(h)}{tag}"
            if x == 0:
                ob('only-stack', False, what, 'the process stack describes no such layer')
            elif g == 0:
                ob('every-layer', False, what, 'the layer of the process stack is missing in the model')
            else:
                ob('every-layer', I.implies(x, g), what, 'the layer of the process stack is not always in the model')
                ob('only-stack', I.implies(g, x), what, 'the layer is in the model where it should not be')
        ob('database', all(x.alts == [(1, k)] for k, u in B.shared.items() for _, x in u.alts if x is not None),
           f"shapes of the layers{tag}", 'the shapes of the layout database are modified')
        # materials
        val = lambda m, *p: m if not p else val(I.getattr(m, p[0], 1), *p[1:])
        kinds = ['field_oxide_layer', 'simple_dielectric_layer', 'conformal_dielectric_layer', 'sidewall_dielectric_layer']
        mats = []
        for l in B.layers:
            f = next((x for x in kinds if x in l.fields), None)
            if f and val(l, 'name') not in excluded:
                mats.append((val(l, 'name'), num(val(l, f, 'dielectric_k'))))
        calls = [(p, b) for p, n, b in B.rec.calls if n == 'add_material']
        ob('materials', all(p == 1 for p, _ in calls) and [(b.get('name'), num(b.get('k'))) for _, b in calls] == mats,
           f"materials{tag}", 'the materials are not the dielectrics of the stack, in its order, with their permittivities')
        first = {}
        for i, (p, n, b) in enumerate(B.rec.calls):
            if n == 'add_material':
                first.setdefault(b.get('name'), i)
        ob('materials', all(first.get(b.get('material_name'), 10 ** 6) < i for i, (p, n, b) in enumerate(B.rec.calls)
                            if n == 'add_dielectric' and isinstance(b.get('material_name'), str)), f"materials{tag}",
           'a dielectric is added before its material')
        bd = B.rec.bound
        for k, v in [('dbu', B.dbu)] + list(B.par.items()):
            ob('parameters', bd.get(k) is v, f"FasterCapModelBuilder({k}=…){tag}", 'the parameter is not handed to the model')
        gen = [i for i, (p, n, b) in enumerate(B.rec.calls) if n == 'generate']
        ob('generated', B.gen is B.rec.result and gen == [len(B.rec.calls) - 1] and B.rec.calls[-1][0] == 1, f"build(){tag}",
           'the model that is returned is not generated after every layer was added')


def _loc(c):
    f = c.prog.funcs.get(INPUT + '.build')
    return f"{f.module.rel}:{f.node.lineno}" if f else ''
