"""C49: the process stack and the parasitics tables of a technology describe the same process."""
from __future__ import annotations
from statistics import median
from typing import *

from ..core import check, Ctx
from ..cxx import Msg
from .tables import each_tech, loc_of, Tech, EPS0, IMPLICIT

OVERLAP_TOLERANCE = 0.20
CONTACT_TOLERANCE = 1e-3          # um
METAL_SHEET = 1000.0              # mOhm/sq: below it is an (aluminium) metal
RESISTIVITY_FACTOR = 1.35


def root_metal(t: Tech, entries, name):
    """metal that a dielectric is (indirectly) attached to"""
    seen = set()
    while name in entries and name not in seen:
        seen.add(name)
        k, d = t.part(entries[name])
        if k == 'metal_layer':
            return name
        name = d.get('reference') if d is not None else None
    return None


class Profile:
    """permittivity over the height"""

    def __init__(self, t: Tech):
        self.t = t
        self.entries = {}
        for l in t.stack:
            self.entries.setdefault(l.get('name'), l)
        self.field = next((d.get('dielectric_k', 0.0) for _, d in t.of_kind('field_oxide_layer')), 1.0)
        self.base: List[Tuple[float, float]] = []
        self.conformal = []            # (metal, over, where none, k)
        seen = set()
        z = 0.0
        for l in t.stack:
            k, d = t.part(l)
            if k == 'metal_layer':
                z = max(z, d.get('z', 0.0))
            elif k == 'simple_dielectric_layer' and l.get('name') not in seen:
                self.base.append((z, d.get('dielectric_k', 0.0)))
            elif k == 'conformal_dielectric_layer':
                m = root_metal(t, self.entries, d.get('reference'))
                if m:
                    self.conformal.append((m, d.get('thickness_over_metal', 0.0), d.get('thickness_where_no_metal', 0.0), d.get('dielectric_k', 0.0)))
            seen.add(l.get('name'))
        self.base.sort(key=lambda p: p[0])

    def k(self, z, special):
        for a, b, k in special:
            if a <= z < b:
                return k
        r = self.field
        for a, k in self.base:
            if z >= a - 1e-9:
                r = k
        return r

    def plates(self, z0, z1, below):
        """capacitance per area (aF/um^2) between a plate that ends at z0 and one that starts at z1"""
        special = []
        for m, over, none, k in self.conformal:
            c = self.t.canonical(m)
            zm, th = self.t.z_of(c)
            if c == below:
                if m == below:
                    top = max([b for a, b, _ in special if abs(a - z0) < 1e-9] or [z0])
                    special.append((top, top + over, k))
            elif z0 - 1e-9 <= zm < z1 and none > 0:
                special.append((zm, zm + none, k))
        cuts = sorted({z0, z1} | {p for a, b, _ in special for p in (a, b) if z0 < p < z1} | {a for a, _ in self.base if z0 < a < z1})
        s = 0.0
        for a, b in zip(cuts, cuts[1:]):
            k = self.k((a + b) / 2, special)
            if k <= 0:
                return None
            s += (b - a) / k
        return EPS0 / s if s > 0 else None


@check('C49', 'constants propagated through the table builders of the generator (clang syntax tree); geometry of the stack against the coefficient tables',
       'Every PDK that the generator writes. Overlap coefficients within 20 % of the parallel plate value of the stack, resistivities of the metals '
       'within a factor of 1.35, contacts fill the gap between their layers exactly; no foundry data is consulted.')
def c49(ctx: Ctx):
    for t in each_tech(ctx):
        n = t.name
        L = lambda m, f=None: loc_of(ctx, m, f)
        # one z and thickness for each layout metal
        at: Dict[str, tuple] = {}
        for l, m in t.of_kind('metal_layer'):
            nm, c = l.get('name'), t.canonical(l.get('name'))
            z, th = m.get('z', 0.0), m.get('thickness', 0.0)
            ctx.ob('extent', z > 0 and th > 0, f"{n}: {nm}", f"{n}: {nm} is {th} um thick, at {z} um", L(m, 'thickness'))
            if t.purpose(nm) == 'METAL' and c in t.canon and t.purpose(c) == 'METAL':
                if c in at:
                    ctx.ob('same-metal', abs(at[c][0] - z) < 1e-6 and abs(at[c][1] - th) < 1e-6, f"{n}: {nm}",
                           f"{n}: {nm} is at {z} um and {th} um thick, {at[c][2]} is at {at[c][0]} um and {at[c][1]} um thick, but both are {c}", L(m))
                at.setdefault(c, (z, th, nm))
        up = t.conductors()
        order = [l.get('name') for l, m in t.of_kind('metal_layer') if t.canonical(l.get('name')) in up]
        zs = [t.z_of(t.canonical(x))[0] for x in order]
        for (a, za), (b, zb) in zip(zip(order, zs), list(zip(order, zs))[1:]):
            ctx.ob('stack-order', za <= zb + 1e-9, f"{n}: {a}, {b}", f"{n}: {b} ({zb} um) follows {a} ({za} um) in the process stack")
        for a, b in zip(up, up[1:]):
            za, ta = t.z_of(a)
            zb, _ = t.z_of(b)
            ctx.ob('gap', za + ta < zb, f"{n}: {a}, {b}", f"{n}: {a} ends at {za + ta:.4f} um, {b} starts at {zb} um")
        # dielectrics
        for l in t.stack:
            k, d = t.part(l)
            if d is not None and 'dielectric_k' in (ctx.prog.protos.messages.get(d.qual) or {}):
                v = d.get('dielectric_k', 0.0)
                ctx.ob('permittivity', 1.0 <= v < 30, f"{n}: {l.get('name')}", f"{n}: the relative permittivity of {l.get('name')} is {v}", L(d, 'dielectric_k'))
                for f in ('thickness_over_metal', 'thickness_where_no_metal', 'thickness_sidewall', 'height_above_metal', 'width_outside_sidewall'):
                    x = d.get(f, 0.0)
                    ctx.ob('thickness', 0 <= x < 10, f"{n}: {l.get('name')}: {f}", f"{n}: {l.get('name')}: {f} is {x} um", L(d, f))
        # contacts fill the gap
        for l, k, d, co in t.contacts():
            if k == 'nwell_layer' and not co.get('name'):
                continue
            nm = co.get('name')
            above = t.z_of(t.canonical(co.get('metal_above')))
            if above is None:
                ctx.fail('contact-gap', f"{n}: {nm}", f"{n}: {nm} goes to {co.get('metal_above')}, which is not in the stack", L(co))
                continue
            z0 = d.get('z', 0.0) + d.get('thickness', 0.0) if k == 'metal_layer' else 0.0
            th = co.get('thickness', 0.0)
            ctx.ob('contact-gap', abs(z0 + th - above[0]) < CONTACT_TOLERANCE, f"{n}: {nm}",
                   f"{n}: the contact {nm} is {th} um thick, from {l.get('name')} (up to {z0:.4f} um) to {co.get('metal_above')} (from {above[0]:.4f} um) it takes {above[0] - z0:.4f} um",
                   L(co, 'thickness'))
            for f in ('width', 'spacing'):
                x = co.get(f, 0.0)
                ctx.ob('contact-size', 0 < x < 10, f"{n}: {nm}: {f}", f"{n}: {f} of {nm} is {x}", L(co, f))
            x = co.get('border', 0.0)
            ctx.ob('contact-size', 0 <= x < 10, f"{n}: {nm}: border", f"{n}: border of {nm} is {x}", L(co, 'border'))
        # plates of MIM capacitors lie on their dielectric
        pr = Profile(t)
        for l, m in t.of_kind('metal_layer'):
            nm = l.get('name')
            if t.purpose(nm) != 'MIM_CAP' or any(x == nm for x, _, _, _ in pr.conformal):
                continue
            z = m.get('z', 0.0)
            under = [(x, d) for x, d in t.of_kind('metal_layer') if x is not l and d.get('z', 0.0) < z]
            if not ctx.ob('mim-plate', under, f"{n}: {nm}", f"{n}: nothing is below the capacitor plate {nm}", L(m)):
                continue
            zb = max(d.get('z', 0.0) for _, d in under)
            plates = {x.get('name'): d for x, d in under if abs(d.get('z', 0.0) - zb) < 1e-6}
            on = [(x, over) for x, over, none, k in pr.conformal if x in plates]
            if ctx.ob('mim-plate', on, f"{n}: {nm}", f"{n}: no dielectric between the capacitor plate {nm} and the metal below it", L(m)):
                top = zb + plates[on[0][0]].get('thickness', 0.0) + sum(o for x, o in on if x == on[0][0])
                ctx.ob('mim-plate', abs(top - z) < CONTACT_TOLERANCE, f"{n}: {nm}",
                       f"{n}: the capacitor plate {nm} is at {z:.4f} um, its dielectric over {on[0][0]} ends at {top:.4f} um", L(m, 'z'))
        # overlap coefficients
        gate = t.z_of(up[0])[0] if up else 0.0
        wells = set(t.wells()) | {IMPLICIT}
        for m in t.table('capacitance.overlaps'):
            a, b, v = m.get('top_layer_name'), m.get('bottom_layer_name'), m.get('capacitance', 0.0)
            if a not in up:
                continue
            if b in up:
                z0 = sum(t.z_of(b))
            elif b in t.diffs():
                z0 = gate
            elif b in wells:
                z0 = 0.0
            else:
                continue
            c = pr.plates(z0, t.z_of(a)[0], b)
            who = f"{n}: {a}/{b}"
            if ctx.ob('overlap', c is not None, who, f"{n}: {a} is not above {b} in the stack", L(m)):
                ctx.ob('overlap', abs(v - c) <= OVERLAP_TOLERANCE * c, who,
                       f"{n}: the overlap capacitance of {a} and {b} is {v:.3f} aF/um^2, plates of this distance have {c:.3f}", L(m, 'capacitance'))
        # sidewall coefficients
        for m in t.table('capacitance.sidewalls'):
            a, v = m.get('layer_name'), m.get('capacitance', 0.0)
            if a in up:
                _, th = t.z_of(a)
                c = EPS0 * 4.0 * th            # oxides and nitrides: 3.5 to 7.5
                ctx.ob('sidewall', 0.8 * c <= v <= 8 * c, f"{n}: {a}", f"{n}: the sidewall coefficient of {a} is {v:.3f}, plates of its thickness have {c:.3f}", L(m, 'capacitance'))
        # resistivities
        rho = {}
        for m in t.table('resistance.layers'):
            a, v = m.get('layer_name'), m.get('resistance', 0.0)
            if a in up and 0 < v < METAL_SHEET:
                rho[a] = (v * t.z_of(a)[1], m)
        if len(rho) >= 3:
            mid = median(r for r, _ in rho.values())
            for a, (r, m) in rho.items():
                ctx.ob('resistivity', mid / RESISTIVITY_FACTOR <= r <= mid * RESISTIVITY_FACTOR, f"{n}: {a}",
                       f"{n}: sheet resistance and thickness of {a} give {r:.1f} nOhm m, the other metals have about {mid:.1f}", L(m, 'resistance'))
        ctx.ob('resistivity', len(rho) >= 3, f"{n}: metals", f"{n}: only {len(rho)} metals have a sheet resistance below {METAL_SHEET} mOhm")
