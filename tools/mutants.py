"""Edits for tools/mutate.py: (property, file, [(old, new)...], 'bug' | 'ok')."""
MUTANTS = []
K = 'klayout_pex/'


def bug(pid, path, *edits):
    MUTANTS.append((pid, path, list(edits), 'bug'))


def ok(pid, path, *edits):
    MUTANTS.append((pid, path, list(edits), 'ok'))


# ---- C12
F = K + 'klayout/netlist_expander.py'
bug('C12', F, ("if j > i:", "if j >= i + 2:"))
bug('C12', F, ("if j > i:", "if j < i:"))if False else None
bug('C12', F, ("if i > 0:", "if i > 1:"))
bug('C12', F, ("if i > 0:", "if i >= 0:"))
bug('C12', F, ("cap_ii -= cap_value", "cap_ii += cap_value"))
bug('C12', F, ("cap_value = -row[j]", "cap_value = abs(row[j])"))
bug('C12', F, ("cap_threshold = 0.0", "cap_threshold = 1e-18"))
bug('C12', F, ("extracted_netlist.dup()", "extracted_netlist"))
bug('C12', F, ("                raise Exception(f\"No net found with name {nn}, net names are: {list(name2net.keys())}\")", "                continue"))
bug('C12', F, ("r'^g\\d+_(.*)$'", "r'^g\\d_(.*)$'"))
bug('C12', F, ("r'^g\\d+_(.*)$'", "r'^g\\d+_(\\w*)$'"))
bug('C12', F, ("r'^g\\d+_(.*)$'", "r'^.*_(.*)$'"))
bug('C12', F, ("n.expanded_name(): n for", "n.name: n for"))
bug('C12', F, ("net1=nets[i], net2=nets[0],", "net1=nets[i], net2=nets[i-1],"))
bug('C12', F, ("net1=nets[i], net2=nets[j],", "net1=nets[i], net2=nets[0],"))
bug('C12', F, ("                cap_ii -= cap_value  # subtract summands to filter out Cii\n                if j > i:\n", "                if j > i:\n                    cap_ii -= cap_value\n"))
bug('C12', F, ("            row = cap_matrix[i]\n            cap_ii = row[i]", "            row = cap_matrix[i]\n            cap_ii = row[0]"))
bug('C12', F, ("f\"Cext_{i}_{j}\"", "f\"Cext_{i}\""))
bug('C12', F, ("c.set_parameter('C', cap_value)", "c.set_parameter('C', cap_value * 1e-15)"))
bug('C12', F, ("        expanded_netlist.add(cap)\n", ""))
bug('C12', F, ("if not blackbox_devices:", "if blackbox_devices:"))
bug('C12', F, ("range(0, cap_matrix.dimension):\n                if", "range(1, cap_matrix.dimension):\n                if"))
ok('C12', F, ("if j > i:", "if i < j:"))
ok('C12', F, ("            for j in range(0, cap_matrix.dimension):\n                if i == j:\n                    continue\n                cap_value = -row[j]  # off-diagonals are always stored as negative values\n                cap_ii -= cap_value  # subtract summands to filter out Cii\n                if j > i:\n",
   "            for j, entry in enumerate(row):\n                if i != j:\n                    cap_ii += entry\n                cap_value = -entry\n                if j > i:\n"))
ok('C12', F, ("        for idx, nn in enumerate(cap_matrix.conductor_names):\n            m = pattern.match(nn)\n            nn = m.group(1)\n            if nn not in name2net:\n                raise Exception(f\"No net found with name {nn}, net names are: {list(name2net.keys())}\")\n            n = name2net[nn]\n            nets.append(n)\n",
   "        for conductor in cap_matrix.conductor_names:\n            net_name = re.match(r'^g\\d+_(.*)$', conductor).group(1)\n            net = name2net.get(net_name)\n            if net is None:\n                raise Exception(f\"No net found with name {net_name}\")\n            nets.append(net)\n"))
ok('C12', F, ("            if cap_value > cap_threshold:\n                c: kdb.Device", "            if not cap_value > cap_threshold:\n                warning('x')\n                return\n            if True:\n                c: kdb.Device"), ("            else:\n                warning(f\"Ignoring capacitance matrix cell [{i},{j}], \"\n                        f\"{'%.12g' % cap_value} is below threshold {'%.12g' % cap_threshold}\")\n", ""))
ok('C12', F, ("            for j in range(0, cap_matrix.dimension):\n                if i == j:\n                    continue\n                cap_value = -row[j]  # off-diagonals are always stored as negative values\n                cap_ii -= cap_value  # subtract summands to filter out Cii\n                if j > i:\n                    add_parasitic_cap(i=i, j=j,\n                                      net1=nets[i], net2=nets[j],\n                                      cap_value=cap_value)\n",
   "            for j in range(i + 1, cap_matrix.dimension):\n                add_parasitic_cap(i=i, j=j, net1=nets[i], net2=nets[j], cap_value=-row[j])\n            cap_ii = sum(row)\n"))
ok('C12', F, ("        nets: List[kdb.Net] = []\n", ""), ("        for idx, nn in enumerate(cap_matrix.conductor_names):\n            m = pattern.match(nn)\n            nn = m.group(1)\n            if nn not in name2net:\n                raise Exception(f\"No net found with name {nn}, net names are: {list(name2net.keys())}\")\n            n = name2net[nn]\n            nets.append(n)\n",
   "        def net_for(conductor):\n            nn = pattern.match(conductor).group(1)\n            if nn not in name2net:\n                raise Exception(f\"No net found with name {nn}\")\n            return name2net[nn]\n        nets = [net_for(cn) for cn in cap_matrix.conductor_names]\n"))

# ---- C13
F = K + 'rcx25/netlist_expander.py'
bug('C13', F, ("cap_value * 1e-15", "cap_value"))
bug('C13', F, ("cap_value * 1e-15", "cap_value * 1e-18"))
bug('C13', F, ("r.set_parameter('R', res_value)", "r.set_parameter('R', res_value * 1e-3)"))
bug('C13', F, ("            net2 = name2net[key.net2]\n\n            r:", "            net2 = name2net[key.net1]\n\n            r:"))
bug('C13', F, ("extracted_netlist.dup()", "extracted_netlist"))
bug('C13', F, ("            if net_name in name2net:\n                return\n", ""))
bug('C13', F, ("            name2net[net_name] = top_circuit.create_net(net_name)", "            top_circuit.create_net(net_name)"))
bug('C13', F, ("        for key, _ in res_items:\n            add_net_if_needed(key.net1)\n            add_net_if_needed(key.net2)\n", ""))
bug('C13', F, ("        for key, _ in res_items:\n            add_net_if_needed(key.net1)\n            add_net_if_needed(key.net2)\n", "        for key, _ in res_items:\n            add_net_if_needed(key.net1)\n"))
bug('C13', F, ("f\"ext_{idx+1}\"", "f\"ext_1\""))
bug('C13', F, ("                    case kdb.DeviceClassResistor | kdb.DeviceClassResistorWithBulk:\n                        pass\n", "                    case kdb.DeviceClassResistor | kdb.DeviceClassResistorWithBulk:\n                        top_circuit.remove_device(d)\n"))
bug('C13', F, ("kdb.DeviceClassCapacitor | kdb.DeviceClassCapacitorWithBulk", "kdb.DeviceClassCapacitor"))
bug('C13', F, ("if not blackbox_devices:", "if True:"))
bug('C13', F, ("            if net1 == net2:\n                warning(f\"Invalid attempt to create cap", "            if cap_value < 1e-3:\n                break\n            if net1 == net2:\n                warning(f\"Invalid attempt to create cap"))
bug('C13', F, ("            c: kdb.Device = top", "            if cap_value < 0.01:\n                continue\n            c: kdb.Device = top"))
bug('C13', F, ("summary.resistances.items()", "summary.capacitances.items()"))
ok('C13', F, ("            net1 = name2net[key.net1]\n            net2 = name2net[key.net2]\n\n            c: kdb.Device = top_circuit.create_device(cap, f\"ext_{idx+1}\")\n            c.connect_terminal('A', net1)\n            c.connect_terminal('B', net2)\n            c.set_parameter('C', cap_value * 1e-15)  # fF -> F\n",
   "            c = top_circuit.create_device(cap, f\"ext_{1+idx}\")\n            farads = cap_value / 1e15\n            c.set_parameter('C', farads)\n            net1, net2 = name2net[key.net1], name2net[key.net2]\n            for tn, nt in (('A', net1), ('B', net2)):\n                c.connect_terminal(tn, nt)\n"))
ok('C13', F, ("            if net_name in name2net:\n                return\n            name2net[net_name] = top_circuit.create_net(net_name)", "            if net_name not in name2net:\n                net = top_circuit.create_net(net_name)\n                name2net[net_name] = net"))
ok('C13', F, ("        for key, _ in cap_items:\n            add_net_if_needed(key.net1)\n            add_net_if_needed(key.net2)\n        for key, _ in res_items:\n            add_net_if_needed(key.net1)\n            add_net_if_needed(key.net2)\n",
   "        for key in list(summary.capacitances) + list(summary.resistances):\n            add_net_if_needed(key.net1)\n            add_net_if_needed(key.net2)\n"))
ok('C13', F, ("        for key, _ in cap_items:\n            add_net_if_needed(key.net1)\n            add_net_if_needed(key.net2)\n        for key, _ in res_items:\n            add_net_if_needed(key.net1)\n            add_net_if_needed(key.net2)\n",
   "        for items in (cap_items, res_items):\n            for key, _ in items:\n                for nn in (key.net1, key.net2):\n                    add_net_if_needed(nn)\n"))
ok('C13', F, ("                match d.device_class().__class__:\n                    case kdb.DeviceClassResistor | kdb.DeviceClassResistorWithBulk:\n                        pass\n\n                    case kdb.DeviceClassCapacitor | kdb.DeviceClassCapacitorWithBulk:\n                        info(f\"Removing whiteboxed device {name}\")\n                        top_circuit.remove_device(d)\n\n                    case kdb.DeviceClassInductor:\n                        pass\n\n                    case kdb.DeviceClassBJT3Transistor | kdb.DeviceClassBJT4Transistor | kdb.DeviceClassDiode | \\\n                         kdb.DeviceClassMOS3Transistor | kdb.DeviceClassMOS4Transistor:\n                        pass\n",
   "                if d.device_class().__class__ in (kdb.DeviceClassCapacitor, kdb.DeviceClassCapacitorWithBulk):\n                    info(f\"Removing whiteboxed device {name}\")\n                    top_circuit.remove_device(d)\n"))
ok('C13', F, ("        name2net: Dict[str, kdb.Net] = {n.expanded_name(): n for n in top_circuit.each_net()}\n", "        name2net: Dict[str, kdb.Net] = {}\n        for n in top_circuit.each_net():\n            name2net[n.expanded_name()] = n\n"))

# ---- C14
F = K + 'klayout/netlist_reducer.py'
bug('C14', F, ("c_value < cap_threshold", "c_value <= cap_threshold"))
bug('C14', F, ("c_value < cap_threshold", "abs(c_value) < cap_threshold"))
bug('C14', F, ("0.05e-15", "0.5e-15"))
bug('C14', F, ("        reduced_netlist.combine_devices()  # merge C/R\n", ""))
bug('C14', F, ("        reduced_netlist.combine_devices()  # merge C/R\n", ""), ("        return reduced_netlist", "        reduced_netlist.combine_devices()\n        return reduced_netlist"))
bug('C14', F, ("netlist.dup()", "netlist"))
bug('C14', F, ("                    devices_to_remove.append(d)\n", "                    devices_to_remove.append(d)\n                    break\n"))
bug('C14', F, ("                # TODO\n                pass", "                if d.parameter('R') < 1e-3:\n                    devices_to_remove.append(d)"))
bug('C14', F, ("isinstance(dc, kdb.DeviceClassCapacitor)", "isinstance(dc, kdb.DeviceClassResistor)"))
bug('C14', F, ("d.parameter('C')\n", "d.parameter('A')\n"))
bug('C14', F, ("        return reduced_netlist", "        reduced_netlist.simplify()\n        return reduced_netlist"))
ok('C14', F, ("        devices_to_remove: List[kdb.Device] = []\n\n        for d in top_circuit.each_device():\n            d: kdb.Device\n            dc = d.device_class()\n            if isinstance(dc, kdb.DeviceClassCapacitor):\n                # net_a = d.net_for_terminal('A')\n                # net_b = d.net_for_terminal('B')\n                c_value = d.parameter('C')\n                if c_value < cap_threshold:\n                    devices_to_remove.append(d)\n\n            elif isinstance(dc, kdb.DeviceClassResistor):\n                # TODO\n                pass\n",
   "        def negligible(d):\n            if not isinstance(d.device_class(), kdb.DeviceClassCapacitor):\n                return False\n            return cap_threshold > d.parameter('C')\n        devices_to_remove = [d for d in top_circuit.each_device() if negligible(d)]\n"))
ok('C14', F, ("            if isinstance(dc, kdb.DeviceClassCapacitor):\n", "            if not isinstance(dc, kdb.DeviceClassCapacitor):\n                continue\n            if True:\n"), ("            elif isinstance(dc, kdb.DeviceClassResistor):\n                # TODO\n                pass\n", ""))

# ---- C15
F = K + 'klayout/netlist_csv.py'
bug('C15', F, ("net_for_terminal('B')", "net_for_terminal('A')"))
bug('C15', F, ("1e15, 2", "1e12, 2"))
bug('C15', F, ("1e15, 2", "1e15, 0"))
bug('C15', F, ("1e15, 2", "1e15"))
bug('C15', F, ("                        continue\n", "                        break\n"))
bug('C15', F, ("if dc.name != 'PEX_CAP':", "if dc.name == 'PEX_CAP':"))
bug('C15', F, ("params['C']", "params['A']"))
bug('C15', F, ("'w', encoding", "'w', encoding"), ("{net2.expanded_name()};{cap_femto}", "{cap_femto};{net2.expanded_name()}"))
bug('C15', F, ("{net1.expanded_name()}", "{net1.name}"))
bug('C15', F, ("{cap_femto}\\n", "{cap_femto}"))
bug('C15', F, ("Net1;Net2;", "Net1,Net2;"))
bug('C15', F, ("                    cap = params['C']\n", "                    cap = params['C']\n                    if cap < 1e-17:\n                        continue\n"))
ok('C15', F, ("                    param_defs = dc.parameter_definitions()\n                    params = {p.name: d.parameter(p.id()) for p in param_defs}\n", ""), ("params['C']", "d.parameter('C')"))
ok('C15', F, ("f.write(f\"{dn};{net1.expanded_name()};{net2.expanded_name()};{cap_femto}\\n\")", "row = [dn, net1.expanded_name(), net2.expanded_name(), str(cap_femto)]\n                    f.write(';'.join(row) + '\\n')"))
ok('C15', F, ("f.write(f\"{dn};{net1.expanded_name()};{net2.expanded_name()};{cap_femto}\\n\")", "print(dn, net1.expanded_name(), net2.expanded_name(), cap_femto, sep=';', file=f)"))
ok('C15', F, ("                if isinstance(dc, kdb.DeviceClassCapacitor):\n", "                if not isinstance(dc, kdb.DeviceClassCapacitor):\n                    continue\n                if True:\n"))

# ---- C16
F = K + 'netlistsvg/netlist_json.py'
bug('C16', F, ("        i = self.id_for_net.get(net_name, None)\n        if i is None:\n", "        i = self.id_for_net.get(net_name, None)\n        if not i:\n"))
bug('C16', F, ("            self.next_id += 1\n", ""))
bug('C16', F, ("            self.id_for_net[net_name] = i\n", ""))
bug('C16', F, ("net.expanded_name() or net.name", "net.name"))if False else None
bug('C16', F, ("f\"X{sc.expanded_name()}\"", "f\"X{subcircuit.name}\""))
bug('C16', F, ("sc.net_for_pin(pin.id())", "subcircuit.net_for_pin(pin.id())"))
bug('C16', F, ("net2: kdb.Net = d.net_for_terminal('B')\n                ohm", "net2: kdb.Net = d.net_for_terminal('A')\n                ohm"))
bug('C16', F, ("'A': [self._get_or_create_id(net1)],\n                        'B': [self._get_or_create_id(net2)],\n                    },\n                    'attributes': {\n                        'value': f\"{cap", "'A': [self._get_or_create_id(net2)],\n                        'B': [self._get_or_create_id(net1)],\n                    },\n                    'attributes': {\n                        'value': f\"{cap"))
bug('C16', F, ("1e15, 3", "1e12, 3"))
bug('C16', F, ("f\"R{dn}\"", "f\"C{dn}\""))
bug('C16', F, ("params['R']", "params['L']"))
bug('C16', F, ("f\"{round(ohm, 3)}\"", "f\"{round(ohm)}\""))
bug('C16', F, ("for gnd_name in ('VSUBS', 'GND'):\n            gnd_id = self.id_for_net.get(gnd_name, None)", "for gnd_name in ('VSUBS', 'GND'):\n            gnd_id = self.id_for_net.get('GND', None)"))
bug('C16', F, ("            net = circuit.net_for_pin(pin)\n", "            net = circuit.net_for_pin(0)\n"))
ok('C16', F, ("        i = self.id_for_net.get(net_name, None)\n        if i is None:\n            i = self.next_id\n            self.next_id += 1\n            self.id_for_net[net_name] = i\n        return i\n",
   "        if net_name not in self.id_for_net:\n            self.id_for_net[net_name] = self.next_id\n            self.next_id += 1\n        return self.id_for_net[net_name]\n"))
ok('C16', F, ("        i = self.id_for_net.get(net_name, None)\n        if i is None:\n            i = self.next_id\n            self.next_id += 1\n            self.id_for_net[net_name] = i\n        return i\n",
   "        existing = self.id_for_net.get(net_name)\n        if existing is not None:\n            return existing\n        new_id = self.next_id\n        self.id_for_net[net_name] = new_id\n        self.next_id = new_id + 1\n        return new_id\n"))
ok('C16', F, ("            if isinstance(dc, kdb.DeviceClassCapacitor):\n                net1: kdb.Net = d.net_for_terminal('A')\n                net2: kdb.Net = d.net_for_terminal('B')\n", "            net1: kdb.Net = d.net_for_terminal('A')\n            net2: kdb.Net = d.net_for_terminal('B')\n            if isinstance(dc, kdb.DeviceClassCapacitor):\n"),
   ("            elif isinstance(dc, kdb.DeviceClassResistor):\n                net1: kdb.Net = d.net_for_terminal('A')\n                net2: kdb.Net = d.net_for_terminal('B')\n", "            elif isinstance(dc, kdb.DeviceClassResistor):\n"))
ok('C16', F, ("            port_dict[name] = {\n                'direction': 'input',\n                'bits': [bit]\n            }\n", "            entry = {}\n            entry['direction'] = 'input'\n            entry['bits'] = [bit]\n            port_dict[name] = entry\n"))
ok('C16', F, ("    def dict_for_cells(", "    def _conns(self, d):\n        return {t: [self._get_or_create_id(d.net_for_terminal(t))] for t in ('A', 'B')}\n\n    def dict_for_cells("),
   ("                    'connections': {\n                        'A': [self._get_or_create_id(net1)],\n                        'B': [self._get_or_create_id(net2)],\n                    },\n", "                    'connections': self._conns(d),\n"))

# ---- C17
F = K + 'tech_info.py'
bug('C17', F, ("return {lyr.layer_info.name: lyr for lyr", "return {lyr.original_layer_name: lyr for lyr"))
bug('C17', F, (": lyr.original_layer_name", ": lyr.layer_info.name"))
bug('C17', F, ("(lyr.drw_gds_pair.layer, lyr.drw_gds_pair.datatype): (lyr.pin_gds_pair.layer, lyr.pin_gds_pair.datatype)", "(lyr.pin_gds_pair.layer, lyr.pin_gds_pair.datatype): (lyr.drw_gds_pair.layer, lyr.drw_gds_pair.datatype)"))
bug('C17', F, ("            self.gds_pair_for_layer_name[lyr.name]: lyr\n            for lyr in self.tech.process_stack.layers", "            self.gds_pair_for_computed_layer_name.get(lyr.name): lyr\n            for lyr in self.tech.process_stack.layers"))
bug('C17', F, ("            if lyr.HasField('pin_gds_pair')", "            if lyr.HasField('label_gds_pair')"))
bug('C17', F, ("            if lyr.HasField('pin_gds_pair')\n", ""))
bug('C17', F, ("return {lyr.name: (lyr.drw_gds_pair.layer, lyr.drw_gds_pair.datatype) for", "return {lyr.name: (lyr.drw_gds_pair.layer, 20) for"))
bug('C17', F, ("return {lyr.name: lyr for lyr in self.tech.layers}", "return {lyr.name: lyr for lyr in self.tech.layers if lyr.drw_gds_pair.datatype != 44}"))
bug('C17', F, ("LAYER_TYPE_DIFFUSION,", "LAYER_TYPE_NWELL,"))
bug('C17', F, ("self.process_metal_layers[0]", "self.process_metal_layers[1]"))
bug('C17', F, ("if self.dielectric_filter.is_included(pl.name):", "if pl.name and self.dielectric_filter.is_included(pl.name) or pl.name == 'air':"))
bug('C17', F, ("diel_by_name[pl.name] = pl.conformal_dielectric_layer.dielectric_k", "diel_by_name[pl.name] = pl.simple_dielectric_layer.dielectric_k"))
bug('C17', F, ("if lyr.conformal_dielectric_layer.reference == layer_name", "if lyr.sidewall_dielectric_layer.reference == layer_name"))
bug('C17', F, ("if len(found_layers) >= 2", "if len(found_layers) > 2"))
bug('C17', F, ("return found_layers[0]", "return found_layers[-1] if len(found_layers[-1].name) > 3 else None"))
bug('C17', F, ("if not diel_lyr and lyr.layer_type", "if lyr.layer_type"))
bug('C17', F, ("lyr.metal_layer.z - found_layer.metal_layer.z", "lyr.metal_layer.z - found_layer.metal_layer.z - found_layer.metal_layer.thickness"))
bug('C17', F, ("if lyr.layer_type == process_stack_pb2.ProcessStackInfo.LAYER_TYPE_METAL:\n                    return", "if lyr.layer_type == process_stack_pb2.ProcessStackInfo.LAYER_TYPE_METAL and diel_lyr:\n                    return"))
bug('C17', F, ("d[lyr.name] = lyr.nwell_layer.contact_above", "d[lyr.nwell_layer.contact_above.name] = lyr.nwell_layer.contact_above"))
bug('C17', F, ("d[lyr.nwell_layer.contact_above.name] = lyr.nwell_layer.contact_above", "d[lyr.name] = lyr.nwell_layer.contact_above"))
bug('C17', F, ("gds_pair = self.gds_pair_for_computed_layer_name.get(layer_name, None)\n        if not gds_pair:\n            gds_pair = self.gds_pair_for_layer_name.get", "gds_pair = self.gds_pair_for_layer_name.get(layer_name, None)\n        if not gds_pair:\n            gds_pair = self.gds_pair_for_computed_layer_name.get"))
bug('C17', F, ("d[contact.name] = (contact.layer_below, contact.metal_above)", "d[contact.name] = (contact.metal_above, contact.layer_below)"))
bug('C17', F, ("d[contact.name] = (contact.layer_below, contact.metal_above)", "d[contact.name] = (layer_name, contact.metal_above)"))
bug('C17', F, ("return {r.via_name: r", "return {r.via_name.lower(): r"))
bug('C17', F, ("return milliohm / 1000.0", "return milliohm / 100.0"))
bug('C17', F, ("via_resistance.resistance / 1000.0 * contact.width ** 2", "via_resistance.resistance / 1000.0 * contact.width"))
bug('C17', F, ("contact_resistance.resistance / 1000.0 * contact.width ** 2", "contact_resistance.resistance / 1000.0 / contact.width ** 2"))
bug('C17', F, ("oc.capacitance = sc.area_capacitance", "oc.capacitance = sc.perimeter_capacitance"))
bug('C17', F, ("soc.capacitance = sc.perimeter_capacitance", "soc.capacitance = sc.area_capacitance"))
bug('C17', F, ("oc_bot.bottom_layer_name: oc_bot", "oc_bot.top_layer_name: oc_bot"))
bug('C17', F, (" if oc_bot.top_layer_name == oc.top_layer_name", ""))
bug('C17', F, ("if oc_bot.in_layer_name == oc.in_layer_name", "if oc_bot.out_layer_name != oc.in_layer_name"))
bug('C17', F, ("                if k1 not in d:\n                    d[k1] = {k2: v}\n                else:\n                    d[k1][k2] = v", "                if k1 in d:\n                    d[k1][k2] = v"))
bug('C17', F, ("                if k1 not in d:\n                    d[k1] = {k2: v}\n                else:\n                    d[k1][k2] = v", "                if k1 not in d:\n                    d[k1] = {k2: v}\n                elif k2 not in d[k1]:\n                    d[k1][k2] = v")) if False else None
bug('C17', F, ("return {sc.layer_name: sc for sc in self.tech.process_parasitics.capacitance.sidewalls}", "return {sc.layer_name: sc for sc in self.tech.process_parasitics.capacitance.sidewalls if sc.capacitance > 1}"))
bug('C17', F, ("return 'VSUBS'", "return 'SUBS'"))
ok('C17', F, ("                if k1 not in d:\n                    d[k1] = {k2: v}\n                else:\n                    d[k1][k2] = v", "                d.setdefault(k1, {})[k2] = v"))
ok('C17', F, ("        return list(\n            filter(lambda lyr: lyr.layer_type is process_stack_pb2.ProcessStackInfo.LAYER_TYPE_DIFFUSION,\n                   self.tech.process_stack.layers)\n        )", "        return [lyr for lyr in self.tech.process_stack.layers if lyr.layer_type == process_stack_pb2.ProcessStackInfo.LAYER_TYPE_DIFFUSION]"))
ok('C17', F, ("        return list(\n            filter(lambda lyr: lyr.layer_type is process_stack_pb2.ProcessStackInfo.LAYER_TYPE_SUBSTRATE,\n                   self.tech.process_stack.layers)\n        )[0]", "        return next(lyr for lyr in self.tech.process_stack.layers if lyr.layer_type == process_stack_pb2.ProcessStackInfo.LAYER_TYPE_SUBSTRATE)"))
ok('C17', F, ("        return {lyr.name: lyr for lyr in self.tech.layers}", "        d = {}\n        for lyr in self.tech.layers:\n            d[lyr.name] = lyr\n        return d"))
ok('C17', F, ("        return {lyr.name: lyr for lyr in self.tech.layers}", "        return dict((lyr.name, lyr) for lyr in self.tech.layers)"))
ok('C17', F, ("        if len(found_layers) == 0:\n            return None\n        if len(found_layers) >= 2:\n            raise Exception(f\"found multiple sidewall dielectric layers for {layer_name}\")\n        return found_layers[0]", "        if len(found_layers) > 1:\n            raise Exception(f\"found multiple sidewall dielectric layers for {layer_name}\")\n        return found_layers[0] if found_layers else None"))
ok('C17', F, ("        gds_pair = self.gds_pair_for_computed_layer_name.get(layer_name, None)\n        if not gds_pair:\n            gds_pair = self.gds_pair_for_layer_name.get(layer_name, None)\n        if not gds_pair:", "        gds_pair = self.gds_pair_for_computed_layer_name.get(layer_name) or \\\n            self.gds_pair_for_layer_name.get(layer_name)\n        if gds_pair is None:"))
ok('C17', F, ("            gds_pair = self.gds_pair(layer_name)\n\n            if metal_layer.metal_layer.HasField('contact_above'):\n                contact = metal_layer.metal_layer.contact_above\n", "            if not metal_layer.metal_layer.HasField('contact_above'):\n                continue\n            if True:\n                contact = metal_layer.metal_layer.contact_above\n"))
ok('C17', F, ("            match pl.layer_type:\n                case process_stack_pb2.ProcessStackInfo.LAYER_TYPE_SIMPLE_DIELECTRIC | \\\n                     process_stack_pb2.ProcessStackInfo.LAYER_TYPE_CONFORMAL_DIELECTRIC | \\\n                     process_stack_pb2.ProcessStackInfo.LAYER_TYPE_SIDEWALL_DIELECTRIC:\n                    if self.dielectric_filter.is_included(pl.name):\n                        layers.append(pl)", "            if pl.layer_type in (process_stack_pb2.ProcessStackInfo.LAYER_TYPE_SIMPLE_DIELECTRIC, process_stack_pb2.ProcessStackInfo.LAYER_TYPE_CONFORMAL_DIELECTRIC, process_stack_pb2.ProcessStackInfo.LAYER_TYPE_SIDEWALL_DIELECTRIC) and self.dielectric_filter.is_included(pl.name):\n                layers.append(pl)"))
ok('C17', F, ("                if not diel_lyr and lyr.layer_type == process_stack_pb2.ProcessStackInfo.LAYER_TYPE_SIMPLE_DIELECTRIC:", "                if diel_lyr is None and lyr.layer_type == process_stack_pb2.ProcessStackInfo.LAYER_TYPE_SIMPLE_DIELECTRIC:"))
ok('C17', F, ("            if lyr.name == layer_name:\n                found_layer = lyr\n            elif found_layer:", "            if lyr.name == layer_name:\n                found_layer = lyr\n                continue\n            if found_layer is not None:"))
ok('C17', F, ("        return list(\n            filter(lambda lyr: lyr.layer_type is process_stack_pb2.ProcessStackInfo.LAYER_TYPE_FIELD_OXIDE,\n                   self.tech.process_stack.layers)\n        )[0]", "        for lyr in self.tech.process_stack.layers:\n            if lyr.layer_type == process_stack_pb2.ProcessStackInfo.LAYER_TYPE_FIELD_OXIDE:\n                return lyr\n        raise IndexError()"))

# ---------------------------------------------------------------- C26-C29
F = 'klayout_pex/rcx25/c/overlap_extractor.py'
bug('C26', F, ("range(self.inside_layer_index + 1, len(self.layer_names))", "range(len(self.layer_names) - 1, self.inside_layer_index, -1)"))
bug('C26', F, ("range(self.inside_layer_index + 1, len(self.layer_names))", "range(self.inside_layer_index, len(self.layer_names))"))
bug('C26', F, ("range(self.inside_layer_index + 1, len(self.layer_names))", "range(self.inside_layer_index + 1, len(self.layer_names) - 1)"))
bug('C26', F, ("                polygons_above = neighborhood.get(other_layer_index, None)", "                shielded_region = kdb.Region()\n                polygons_above = neighborhood.get(other_layer_index, None)"))
bug('C26', F, ("top_region.__and__(bottom_region) - shielded_region", "top_region.__and__(bottom_region)"))
bug('C26', F, ("top_region.__and__(bottom_region) - shielded_region", "top_region - shielded_region"))
bug('C26', F, ("* overlap_cap_spec.capacitance / 1000.0", "* overlap_cap_spec.capacitance"))
bug('C26', F, ("self.dbu ** 2", "self.dbu"))
bug('C26', F, ("                    shielded_region.insert(polygon_above)", "                        shielded_region.insert(polygon_above)"))
bug('C26', F, ("net_top=net_top,", "net_top=net_bot,"))
bug('C26', F, ("layer_top=top_layer_name,\n                                         net_top=net_top,\n                                         layer_bot=bot_layer_name,\n                                         net_bot=net_bot", "layer_top=bot_layer_name,\n                                         net_top=net_top,\n                                         layer_bot=top_layer_name,\n                                         net_bot=net_bot"))
bug('C26', F, ("if cap_femto > 0.0:", "if cap_femto > 0.01:"))
bug('C26', F, ("                    net_top = polygon_above.property('net')\n\n                    if net_top == net_bot:\n                        continue", "                    net_top = polygon_above.property('net')\n\n                    if net_top == net_bot:\n                        break"))
bug('C26', F, ("for r in self.layer_regions_by_name.values()]", "for r in self.layer_regions_by_name.values() if not r.is_empty()]"))
bug('C26', F, ("overlap_cap_spec = top_overlap_specs.get(bot_layer_name, None)", "overlap_cap_spec = self.tech_info.overlap_cap_by_layer_names[bot_layer_name].get(top_layer_name, None)"))
bug('C26', F, ("                    shielded_region.insert(polygon_above)", "                shielded_region.insert(polygon_above)"))
bug('C29', F, ("                    if net_top == net_bot:\n                        continue", "                    if net_top == polygon.property('net') and top_layer_name_is_own:\n                        continue".replace('top_layer_name_is_own','self.inside_layer_index > 0')))
bug('C29', F, ("                    if net_top == net_bot:\n                        continue\n", ""))
bug('C26', 'klayout_pex/rcx25/extractor.py', ("enlarged(side_halo_um / dbu)", "enlarged(side_halo_um)"))
bug('C26', 'klayout_pex/rcx25/extractor.py', ("layer_regions_by_name[canonical_layer_name] += all_layer_shapes", "layer_regions_by_name[canonical_layer_name] = all_layer_shapes"))
bug('C26', 'klayout_pex/rcx25/extractor.py', ("        layer_regions_by_name[self.tech_info.internal_substrate_layer_name] = substrate_region\n", ""), ("        all_layer_names = list(", "        layer_regions_by_name[self.tech_info.internal_substrate_layer_name] = substrate_region\n        all_layer_names = list("))
bug('C26', 'klayout_pex/rcx25/extractor.py', ("all_layer_names = list(layer_regions_by_name.keys())", "all_layer_names = sorted(layer_regions_by_name.keys())"))
ok('C26', F, ("if cap_femto > 0.0:", "if overlap_area_um2 > 0:"))
ok('C26', F, ("                    shielded_region.insert(polygon_above)", "                    shielded_region += kdb.Region(polygon_above)"))
ok('C26', F, ("polygons_above = neighborhood.get(other_layer_index, None)\n                if polygons_above is None:\n                    continue", "polygons_above = neighborhood.get(other_layer_index) or []"))
ok('C26', F, ("            for other_layer_index in range(self.inside_layer_index + 1, len(self.layer_names)):\n                polygons_above", "            for other_layer_index in range(len(self.layer_names)):\n                if other_layer_index <= self.inside_layer_index:\n                    continue\n                polygons_above"))
ok('C26', F, ("top_region.__and__(bottom_region) - shielded_region", "(bottom_region & top_region) - shielded_region"))
ok('C26', F, ("            ovl_children = [kdb.CompoundRegionOperationNode.new_secondary(r)\n                            for r in self.layer_regions_by_name.values()]", "            ovl_children = []\n            for r in self.layer_regions_by_name.values():\n                ovl_children.append(kdb.CompoundRegionOperationNode.new_secondary(r))"))
ok('C26,C29', F, ("                    if net_top == net_bot:\n                        continue\n", "                    same_net = net_bot == net_top\n                    if same_net:\n                        continue\n"))
ok('C26,C29', F, ("                    top_layer_name = self.layer_names[other_layer_index]\n", ""), ("                for polygon_above in polygons_above:\n", "                top_layer_name = self.layer_names[other_layer_index]\n                for polygon_above in polygons_above:\n"))
F = 'klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py'
bug('C27', F, ("en_children[idx] = kdb.CompoundRegionOperationNode.new_foreign()", "en_children[0] = kdb.CompoundRegionOperationNode.new_foreign()"))
bug('C27', F, ("en_children[idx] = kdb.CompoundRegionOperationNode.new_foreign()", "pass"))
bug('C27', F, ("en_children.append(kdb.CompoundRegionOperationNode.new_primary())", "en_children.insert(0, kdb.CompoundRegionOperationNode.new_primary())"))
bug('C27', F, ("for r in self.all_layer_regions]", "for r in other_layer_regions]"))
bug('C27', F, ("int(side_halo_um / self.dbu) + 1", "int(side_halo_um) + 1"))
bug('C27', F, ("bext=-1,", "bext=0,"))
bug('C27', F, ("                         / 2.0  # non", "                         / 1.0  # non"))
bug('C27', F, ("(distance_um + sidewall_cap_spec.offset)", "(distance_um - sidewall_cap_spec.offset)"))
bug('C27', F, ("distance_um = avg_distance * self.dbu", "distance_um = avg_distance"))
bug('C27', F, ("avg_length = edge_interval[1] - edge_interval[0]", "avg_length = edge.length()"))
bug('C27', F, ("avg_distance = min(polygon.bbox().p1.y, polygon.bbox().p2.y)", "avg_distance = max(polygon.bbox().p1.y, polygon.bbox().p2.y)"))
bug('C27', F, ("swk = SidewallKey(layer=layer_name, net1=net1, net2=net2)", "swk = SidewallKey(layer=layer_name, net1=net1, net2=net1)"))
bug('C27', F, ("if edge_interval_length <= 1:", "if edge_interval_length <= 100:"))
bug('C27', F, ("            net2 = polygon.property('net')\n", "            net2 = polygon.property('net')\n            if net2 is None:\n                return\n"))
bug('C27', 'klayout_pex/rcx25/c/polygon_utils.py', ("if dnear < nearest_lateral_shape[0]:", "if dnear > nearest_lateral_shape[0]:"))
bug('C27', 'klayout_pex/rcx25/c/polygon_utils.py', ("            nearest_lateral_shape = (dnear, p)\n", "            nearest_lateral_shape = (dnear, p)\n            break\n"))
bug('C27', 'klayout_pex/rcx25/c/polygon_utils.py', ("distance_near = min(bbox.p1.y, bbox.p2.y)", "distance_near = min(bbox.p1.x, bbox.p2.x)"))
bug('C29', F, ("            if net1 == net2:\n                return\n", ""))
bug('C29', F, ("                if is_same_net:\n                    # TODO: log?\n                    continue\n", ""))
bug('C29', F, ("                inside_net_name == outside_net_name\n", "                edge.property('net') == outside_net_name\n"))
bug('C28', F, ("distance_far = bbox.p2.y  # - 2\n                    if distance_far < 0:\n                        distance_far = 0", "distance_far = bbox.p2.y  # - 2"))
bug('C28', F, ("distance_near = bbox.p1.y  # + 1", "distance_near = bbox.p1.x"))
bug('C28', F, ("cnear /= full_halo_ratio\n", "pass\n"))
bug('C28', F, ("if full_halo_ratio < 1.0", "if full_halo_ratio > 1.0"))
bug('C28', F, ("0.02 * 0.01 * 0.5 * 200.0", "0.02 * 0.01 * 0.5 * 100.0"))
bug('C28', F, ("if self.scale_ratio_to_fit_halo:", "if not self.scale_ratio_to_fit_halo:"))
bug('C28', F, ("cfrac = cfar - cnear", "cfrac = cfar"))
bug('C28', F, ("distance_near_um = distance_near * self.dbu", "distance_near_um = distance_near"))
bug('C28', F, ("range(child_index + 1, self.inside_layer_index)", "range(child_index, self.inside_layer_index)"))
bug('C28', F, ("range(self.inside_layer_index + 1, child_index)", "range(self.inside_layer_index + 2, child_index)"))
bug('C28', F, ("if child_index < len(self.all_layer_names):\n                        layer_fringe_shields", "if child_index < self.inside_layer_index:\n                        layer_fringe_shields"))
bug('C28', F, ("                            fringe_shield.insert(lateral_shield)", "                            pass"))
bug('C28', F, ("distance < nearest_distance:\n                            nearest_distance = distance\n                            nearest_lateral_edge", "distance > nearest_distance:\n                            nearest_distance = distance\n                            nearest_lateral_edge"))
bug('C28', F, ("                            nearest_distance = distance\n", ""))
bug('C28', F, ("if child_index == len(self.all_layer_names):  # TODO", "if child_index == len(self.all_layer_names) + 1:  # TODO"))
bug('C28', F, ("(self.side_halo + 10)", "(self.side_halo - 1)"), ("(self.side_halo + 10)", "(self.side_halo - 1)"))
bug('C28', F, ("self.tech_info.side_overlap_cap_by_layer_names[inside_layer_name][\n                outside_layer_name]", "self.tech_info.side_overlap_cap_by_layer_names[outside_layer_name][\n                inside_layer_name]"))
bug('C28', F, ("            if not overlap_cap_spec:\n                overlap_cap_spec", "            if overlap_cap_spec:\n                overlap_cap_spec"))
bug('C28', F, ("if cap_femto > 0.0001:", "if cap_femto > 0.1:"))
bug('C28', F, ("unshielded_region -= shield", "unshielded_region &= shield"))
bug('C28', F, ("                polygons_by_net[outside_net].append(p)\n                else", "                polygons_by_net[outside_net] = [p]\n                else"))
bug('C28', F, ("outside_net = outside_net_names[idx]", "outside_net = outside_net_names[0]"))
bug('C28', F, ("net_outside=outside_net_name)\n                        soc", "net_outside=inside_net_name)\n                        soc"))
bug('C28', F, ("                    if distance_far == distance_near:\n                        continue", "                    if distance_far == distance_near:\n                        break"))
bug('C28', F, ("                for child_index, polygons in polygons_by_child.items():\n                    if self.inside_layer_index == child_index:\n                        continue", "                for child_index, polygons in polygons_by_child.items():\n                    if self.inside_layer_index == child_index:\n                        break"))
ok('C28', F, ("distance_near = bbox.p1.y  # + 1\n                    if distance_near < 0:\n                        distance_near = 0", "distance_near = max(0, bbox.p1.y)"))
ok('C28', F, ("                        if child_index < self.inside_layer_index:\n                            r = range(child_index + 1, self.inside_layer_index)\n                            for idx in r:\n                                fringe_shield += layer_fringe_shields[idx]\n                        elif self.inside_layer_index < child_index:\n                            r = range(self.inside_layer_index + 1, child_index)\n                            for idx in r:\n                                fringe_shield += layer_fringe_shields[idx]\n", "                        lo, hi = min(child_index, self.inside_layer_index), max(child_index, self.inside_layer_index)\n                        for idx in range(lo + 1, hi):\n                            fringe_shield += layer_fringe_shields[idx]\n"))
ok('C28', F, ("            for idx, p in enumerate(outside_polygons):\n                outside_net = outside_net_names[idx]\n                is_same_net = same_net_markers[idx]\n", "            for p, outside_net, is_same_net in zip(outside_polygons, outside_net_names, same_net_markers):\n"))
ok('C28,C29', F, ("            for idx, p in enumerate(outside_polygons):\n                outside_net = outside_net_names[idx]\n                is_same_net = same_net_markers[idx]\n", "            for p in outside_polygons:\n                outside_net = self.tech_info.internal_substrate_layer_name if outside_layer_name == self.tech_info.internal_substrate_layer_name else p.property('net')\n                is_same_net = inside_net_name == outside_net\n"))
ok('C28', F, ("            if not overlap_cap_spec:\n                overlap_cap_spec", "            if overlap_cap_spec is None:\n                overlap_cap_spec"))
ok('C28', F, ("            cnear = (2.0 / math.pi) * math.atan(alpha_c * distance_near_um)\n            cfar = (2.0 / math.pi) * math.atan(alpha_c * distance_far_um)\n", "            def frac(d):\n                return (2.0 / math.pi) * math.atan(alpha_c * d)\n            cnear = frac(distance_near_um)\n            cfar = frac(distance_far_um)\n"))
ok('C28', F, ("                    if distance_far == distance_near:\n                        continue", "                    if distance_far <= distance_near:\n                        continue"))
ok('C27', F, ("            en_children[idx] = kdb.CompoundRegionOperationNode.new_foreign()  # sidewall of other nets on the same layer\n", ""), ("            en_children = [kdb.CompoundRegionOperationNode.new_secondary(r)\n                           for r in self.all_layer_regions]", "            en_children = []\n            for i, r in enumerate(self.all_layer_regions):\n                if i == idx:\n                    en_children.append(kdb.CompoundRegionOperationNode.new_foreign())\n                else:\n                    en_children.append(kdb.CompoundRegionOperationNode.new_secondary(r))"))
ok('C27,C28', F, ("                    if child_index == len(self.all_layer_names):  # TODO, fix index, same layer, same polygon\n                        distance, nearby_polygon = find_polygon_with_nearest_edge(polygons_on_same_layer=polygons)\n\n                        if nearest_distance is None or \\\n                           distance < nearest_distance:\n                            nearest_distance = distance\n                            nearest_lateral_edge = nearest_edge(nearby_polygon)\n                    elif self.inside_layer_index == child_index:   # SIDEWALL!", "                    if child_index not in (len(self.all_layer_names), self.inside_layer_index):\n                        continue\n                    if True:"), ("                        self.emit_sidewall(\n                            layer_name=self.inside_layer_name,\n                            edge=edge,\n                            edge_interval=edge_interval,\n                            polygon=nearby_polygon,\n                            geometry_restorer=geometry_restorer\n                        )", "                        if child_index == self.inside_layer_index:\n                          self.emit_sidewall(\n                            layer_name=self.inside_layer_name,\n                            edge=edge,\n                            edge_interval=edge_interval,\n                            polygon=nearby_polygon,\n                            geometry_restorer=geometry_restorer\n                        )"))
ok('C27,C29', F, ("            if net1 == net2:\n                return\n", "            if not net1 != net2:\n                return None\n"))
ok('C27', F, ("            cap_femto = ((length_um * sidewall_cap_spec.capacitance)\n                         / (distance_um + sidewall_cap_spec.offset)\n                         / 2.0  # non-bidirectional (half)\n                         / 1000.0)  # aF -> fF", "            cap_femto = 0.5 * sidewall_cap_spec.capacitance * length_um / (sidewall_cap_spec.offset + distance_um)\n            cap_femto *= 0.001"))

# ---------------------------------------------------------------- C30, C31, C45
F = 'klayout_pex/rcx25/pex_mode.py'
bug('C30', F, ("case PEXMode.R | PEXMode.RC:\n                return True", "case PEXMode.R:\n                return True"), ("case PEXMode.CC | PEXMode.DEFAULT:\n                return False", "case PEXMode.CC | PEXMode.DEFAULT | PEXMode.RC:\n                return False"))
bug('C30', F, ("case PEXMode.CC | PEXMode.RC | PEXMode.DEFAULT:", "case PEXMode.CC | PEXMode.DEFAULT:"))
ok('C30', F, ("        match self:\n            case PEXMode.R | PEXMode.RC:\n                return True\n            case PEXMode.CC | PEXMode.DEFAULT:\n                return False\n            case _:\n                raise NotImplementedError()", "        return self in (PEXMode.R, PEXMode.RC)"))
ok('C30', F, ("        match self:\n            case PEXMode.CC | PEXMode.RC | PEXMode.DEFAULT:\n                return True\n            case PEXMode.R:\n                return False\n            case _:\n                raise NotImplementedError()", "        return self != PEXMode.R"))
F = 'klayout_pex/rcx25/extractor.py'
bug('C30', F, ("if self.pex_mode.need_resistance():", "if self.pex_mode.need_capacitance():"))
bug('C30', F, ("if self.pex_mode.need_resistance():", "if self.pex_mode == PEXMode.RC:"))
bug('C30', F, ("            sidewall_and_fringe_extractor.extract()\n\n", "            sidewall_and_fringe_extractor.extract()\n            return results\n\n"))
bug('C30', F, ("            results.r_extraction_result = rex_result\n", ""))
bug('C30', F, ("        extraction_results.cell_extraction_results[cell_name] = cell_extraction_results\n", ""))
bug('C45', F, ("            report.output_rex_result(result=rex_result)\n", ""))
bug('C45', F, ("        extraction_report.save(self.report_path)\n", "        if self.pex_mode.need_capacitance():\n            extraction_report.save(self.report_path)\n"))
ok('C30,C45', F, ("        if self.pex_mode.need_resistance():\n            c:", "        resistance = self.pex_mode.need_resistance()\n        if not resistance:\n            return results\n        if True:\n            c:"))
F = 'klayout_pex/rcx25/extraction_results.py'
bug('C31', F, ("        if self.net1 < self.net2:\n            return self", "        if self.net1.casefold() < self.net2.casefold():\n            return self"))
bug('C31', F, ("        if self.net1 < self.net2:\n            return self", "        if self.net1 != self.net2:\n            return self"))
bug('C31', F, ("return NetCoupleKey(self.net2, self.net1)", "return NetCoupleKey(self.net2, self.net2)"))
bug('C31', F, ("NetCoupleKey(key.net_bot, key.net_top).normed()", "NetCoupleKey(key.net_bot, key.net_top)"))
bug('C31', F, ("normalized_overlap_table[normalized_key] += sum", "normalized_overlap_table[normalized_key] = sum"))
bug('C31', F, ("normalized_sidewall_table[normalized_key] += sum((e.cap_value for e in entries))", "normalized_sidewall_table[normalized_key] += sum((e.cap_value for e in entries if e.distance > 0))"))
bug('C31', F, ("overlap_summary, sidewall_summary, sideoverlap_summary,", "overlap_summary, sidewall_summary, overlap_summary,"))
bug('C31', F, ("merged_capacitances[couple_key.normed()] += cap", "merged_capacitances[couple_key.normed()] = cap"))
bug('C31', F, ("merged_capacitances[couple_key.normed()] += cap", "merged_capacitances[couple_key] += cap"))
bug('C31', F, ("        merged_capacitances = defaultdict(float)\n", "        merged_capacitances = summaries[0].capacitances\n"))
bug('C31', F, ("NetCoupleKey(key.net_inside, key.net_outside).normed()", "NetCoupleKey(key.net_inside, key.net_inside).normed()"))
bug('C31', F, ("        self.sidewall_table[cap.key].append(cap)", "        self.sidewall_table[cap.key] = [cap]"))
bug('C31', F, ("@dataclass(frozen=True)\nclass SidewallKey:\n    layer: LayerName\n", "@dataclass(frozen=True)\nclass SidewallKey:\n"), ("@dataclass(frozen=True)\nclass OverlapKey", "@dataclass(frozen=True)\nclass OverlapKey"))
bug('C31', F, ("node_b = node_by_id[element.node_b.node_id]", "node_b = node_by_id[element.node_a.node_id]"))
bug('C31', F, ("        for network in self.r_extraction_result.networks:\n", "        for network in self.r_extraction_result.networks[:1]:\n"))
ok('C31', F, ("        if self.net1 < self.net2:\n            return self\n        else:\n            return NetCoupleKey(self.net2, self.net1)", "        if self.net1 <= self.net2:\n            return self\n        return NetCoupleKey(net1=self.net2, net2=self.net1)"))
ok('C31', F, ("        if self.net1 < self.net2:\n            return self\n        else:\n            return NetCoupleKey(self.net2, self.net1)", "        return NetCoupleKey(min(self.net1, self.net2), max(self.net1, self.net2))"))
ok('C31', F, ("            normalized_sidewall_table[normalized_key] += sum((e.cap_value for e in entries))", "            for entry in entries:\n                normalized_sidewall_table[normalized_key] += entry.cap_value"))
ok('C31', F, ("                merged_capacitances[couple_key.normed()] += cap", "                k = couple_key.normed()\n                merged_capacitances[k] = merged_capacitances.get(k, 0.0) + cap"))
ok('C31', F, ("        subsummaries = [s.summarize() for s in self.cell_extraction_results.values()]\n        return ExtractionSummary.merged(subsummaries)", "        subs = []\n        for cell_name, s in self.cell_extraction_results.items():\n            subs.append(s.summarize())\n        return ExtractionSummary.merged(subs)"))
F = 'klayout_pex/rcx25/extraction_reporter.py'
bug('C45', F, ('return self.report.create_category("[C] Sidewall")', 'return self.report.create_category("[C] Overlap")'))
bug('C45', F, ("        self.category_name_counter[cat_overlap_nets.path()] += 1\n", ""))
bug('C45', F, ("self.report.create_category(self.cat_fringe,", "self.report.create_category(self.cat_sidewall,"))
bug('C45', F, ("        for element in network.elements:\n            self.output_element(element, node_id_to_node, category=cat_elements)", "        for element in network.elements:\n            if element.resistance > 0:\n                self.output_element(element, node_id_to_node, category=cat_elements)"))
bug('C45', F, ("f'outside_net={sideoverlap_cap.key.net_outside}'", "f'outside_net={sideoverlap_cap.key.net_inside}'"))
bug('C45', 'klayout_pex/rcx25/c/overlap_extractor.py', ("                        self.report.output_overlap(overlap_cap=cap,", "                        if cap_femto > 0.001: self.report.output_overlap(overlap_cap=cap,"))
ok('C45', F, ("        self.category_name_counter[cat_overlap_nets.path()] += 1\n        cat_overlap_cap = self.report.create_category(\n            cat_overlap_nets,\n            f\"#{self.category_name_counter[cat_overlap_nets.path()]} \"", "        path = cat_overlap_nets.path()\n        n = self.category_name_counter[path] + 1\n        self.category_name_counter[path] = n\n        cat_overlap_cap = self.report.create_category(\n            cat_overlap_nets,\n            f\"#{n} \""))
bug('C26', 'klayout_pex/rcx25/c/overlap_extractor.py', ("                    shielded_region.insert(polygon_above)", "                    shielded_region = top_region"))
ok('C26', 'klayout_pex/rcx25/c/overlap_extractor.py', ("                    shielded_region.insert(polygon_above)", "                    shielded_region = shielded_region + top_region"))
ok('C26', 'klayout_pex/rcx25/c/overlap_extractor.py', ("                    shielded_region.insert(polygon_above)", "                    shielded_region += top_region"))
bug('C28', 'klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py', ("                        elif self.inside_layer_index < child_index:\n                            r = range(self.inside_layer_index + 1, child_index)\n                            for idx in r:\n                                fringe_shield += layer_fringe_shields[idx]",
 "                        elif self.inside_layer_index < child_index:\n                            r = range(self.inside_layer_index + 1, child_index)\n                            for idx in r:\n                                fringe_shield = layer_fringe_shields[idx]"))
ok('C28', 'klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py', ("                        elif self.inside_layer_index < child_index:\n                            r = range(self.inside_layer_index + 1, child_index)\n                            for idx in r:\n                                fringe_shield += layer_fringe_shields[idx]",
 "                        elif self.inside_layer_index < child_index:\n                            r = range(self.inside_layer_index + 1, child_index)\n                            for idx in r:\n                                fringe_shield = layer_fringe_shields[idx] + fringe_shield"))

# ---- C32, C34
F = K + 'rcx25/r/r_extractor.py'
bug('C32', F, ("get_or_create_net_request(net.expanded_name()).region", "get_or_create_net_request(net.name).region"))
bug('C32', F, ("get_or_create_net_request(pin.net_name).pins", "get_or_create_net_request(pin.label).pins"))
bug('C32', F, ("        for pin_list in self.pex_context.pins_pb2_by_layer.values():\n            rex_request.pins.MergeFrom(pin_list)\n", "        for pin_list in self.pex_context.pins_pb2_by_layer.values():\n            rex_request.pins.MergeFrom(pin_list)\n            break\n"))
bug('C32', F, ("                net_request_by_name[net_name] = v\n", ""))
bug('C32', F, ("            if not v:\n                v = rex_request.net_e", "            if v:\n                v = rex_request.net_e"))
bug('C32', F, ("case LK.KIND_REGULAR | LK.KIND_DEVICE_CAPACITOR | LK.KIND_DEVICE_RESISTOR:", "case LK.KIND_REGULAR | LK.KIND_DEVICE_RESISTOR:"))
bug('C32', F, ("self.pex_context.shapes_of_net(lyr.gds_pair, net)", "self.pex_context.shapes_of_layer(lyr.gds_pair)"))
bug('C32', F, ("                            if not r:\n                                continue\n", "                            if not r:\n                                break\n"))
bug('C32', F, ("l2r.layer.lvs_layer_name = lyr.lvs_layer_name", "l2r.layer.lvs_layer_name = l2r.layer.canonical_layer_name"))
bug('C32', F, ("vertex_ports[pin.layer.id].append(p)", "if p not in vertex_ports[pin.layer.id]: vertex_ports[pin.layer.id].append(p)"))
bug('C32', F, ("vertex_port_pins[pin.layer.id].append((pin.label, pin.net_name))", "vertex_port_pins[pin.layer.id].append((pin.net_name, pin.label))"))
bug('C32', F, ("polygon_port_device_terminals[l2r.layer.id].append(t)\n", "pass\n                    polygon_port_device_terminals[l2r.layer.id].append(t)\n"))
bug('C32', F, ("rex = klp.RNetExtractor(self.pex_context.dbu)", "rex = klp.RNetExtractor(1.0)"))
bug('C32', F, ("                                           vertex_ports,\n                                           polygon_ports)", "                                           polygon_ports,\n                                           vertex_ports)"))
bug('C32', F, ("result_network.net_name = net_extraction_request.net_name", "result_network.net_name = net_extraction_request.net_name.upper()"))
bug('C32', F, ("r_element.node_b.node_id = el.b()", "r_element.node_b.node_id = el.a()"))
bug('C32', F, ("r_element.resistance = el.resistance()", "r_element.resistance = el.conductance()"))
bug('C32', F, ("r_element.resistance = el.resistance()", "r_element.resistance = el.resistance() / 1000"))
bug('C32', F, ("            for el in resistor_network.each_element():\n", "            for el in resistor_network.each_element():\n                if el.resistance() == 0:\n                    continue\n"))
bug('C32', F, ("r_node.location.box.lower_left.y = p1.y", "r_node.location.box.lower_left.y = p1.x"))
bug('C32', F, ("p2 = loc.p2.to_itype", "p2 = loc.p1.to_itype"))
bug('C32', F, ("        for v in rex_request.tech.vias:\n            layer_names[v.layer.id] = v.layer.canonical_layer_name\n", ""))
bug('C32', F, ("            vertex_ports: Dict[int, List[kdb.Point]] = defaultdict(list)\n", ""), ("        for net_extraction_request in rex", "        vertex_ports: Dict[int, List[kdb.Point]] = defaultdict(list)\n        for net_extraction_request in rex"))
bug('C32', F, ("polygon_port_device_terminals[rn.layer()][port_idx].net_name", "polygon_port_device_terminals[rn.layer()][0].net_name"))
bug('C32', F, ("device_terminals.add().CopyFrom(terminal)", "device_terminals.add().CopyFrom(device.terminals[0])"))
bug('C32', F, ("            for terminal in device.terminals:\n                get", "            for terminal in device.terminals[:3]:\n                get"))
ok('C32', F, ("            v = net_request_by_name.get(net_name, None)\n            if not v:\n", "            if net_name in net_request_by_name:\n                return net_request_by_name[net_name]\n            else:\n"))
ok('C32', F, ("                r_element.element_id = el.object_id()\n                r_element.node_a.node_id = el.a().object_id()\n", "                r_element.node_a.node_id = el.a().object_id()\n                r_element.element_id = el.object_id()\n"))
ok('C32', F, ("vertex_port_pins[pin.layer.id].append((pin.label, pin.net_name))", "vertex_port_pins[pin.layer.id].append(pin)"), ("vertex_port_pins[rn.layer()][port_idx][1]", "vertex_port_pins[rn.layer()][port_idx].net_name"))
ok('C32', F, ("r_node.net_name = vertex_port_pins[rn.layer()][port_idx][1]", "r_node.net_name = net_extraction_request.net_name"))
ok('C32', F, ("                    match li.kind:\n                        case LK.KIND_PIN:\n                            continue  # skip\n                        case LK.KIND_REGULAR | LK.KIND_DEVICE_CAPACITOR | LK.KIND_DEVICE_RESISTOR:\n", "                    if True:\n                        if li.kind in (LK.KIND_REGULAR, LK.KIND_DEVICE_CAPACITOR, LK.KIND_DEVICE_RESISTOR):\n"))
ok('C32', F, ("        for device in rex_request.devices:\n            for terminal in device.terminals:\n                get_or_create_net_request(terminal.net_name).device_terminals.add().CopyFrom(terminal)\n", "        for device in devices_by_name.values():\n            for terminal in device.terminals:\n                req = get_or_create_net_request(terminal.net_name)\n                req.device_terminals.append(terminal)\n"))
ok('C32', F, ("                r_node = result_network.nodes.add()\n                r_node.node_id = rn.object_id()\n                r_node.node_name = rn.to_s()\n", "                r_node = result_network.nodes.add(node_id=rn.object_id(), node_name=rn.to_s())\n"))
bug('C34', F, ("bot_gds_pair = tech.gds_pair(contact.layer_below)", "bot_gds_pair = tech.gds_pair(contact.metal_above)"))
bug('C34', F, ("(bot, top) = bot_top", "(top, bot) = bot_top"))
bug('C34', F, ("                            via.merge_distance = self.via_merge_distance\n\n                    case LP.PURPOSE_VIA", "\n                    case LP.PURPOSE_VIA"))
bug('C34', F, ("cond.resistance = self.pex_context.tech.milliohm_to_ohm(layer_resistance.resistance)", "cond.resistance = layer_resistance.resistance"))
bug('C34', F, ("tech.via_resistance_by_layer_name.get(canonical_layer_name, None)", "tech.via_resistance_by_layer_name.get(computed_layer_info.original_layer_name, None)"))
bug('C34', F, ("tech.contact_resistance_by_device_layer_name.get(contact.layer_below,", "tech.contact_resistance_by_device_layer_name.get(contact.metal_above,"))
bug('C34', F, ("                                    f\"no contact resistance found in tech info\")\n                                continue", "                                    f\"no contact resistance found in tech info\")\n                                break"))
bug('C34', F, ("case LP.PURPOSE_N_IMPLANT | LP.PURPOSE_P_IMPLANT:", "case LP.PURPOSE_N_IMPLANT:"))
bug('C34', F, ("if canonical_layer_name == tech.internal_substrate_layer_name:", "if canonical_layer_name != tech.internal_substrate_layer_name:"))
bug('C34', F, ("cond.triangulation_max_area = self.delaunay_amax\n\n                            if", "cond.triangulation_max_area = self.delaunay_b\n\n                            if"))
bug('C34', F, ("        rex_tech.skip_simplify = self.skip_simplify\n", ""))
bug('C34', K + 'klayout/rex_core.py', ("kly_v.top_conductor = pb_v.top_conductor.id", "kly_v.top_conductor = pb_v.bottom_conductor.id"))
bug('C34', K + 'klayout/rex_core.py', ("kly_c.algorithm = klp.Algorithm.SquareCounting", "kly_c.algorithm = klp.Algorithm.Tesselation"))
bug('C34', K + 'klayout/rex_core.py', ("        kly_tech.add_via(kly_v)", "    kly_tech.add_via(kly_v)"))
bug('C34', K + 'tech_info.py', ("ohm_by_square = via_resistance.resistance / 1000.0 * contact.width ** 2", "ohm_by_square = via_resistance.resistance / 1000.0 * contact.width"))
ok('C34', K + 'tech_info.py', ("ohm_by_square = via_resistance.resistance / 1000.0 * contact.width ** 2", "ohm_by_square = via_resistance.resistance * contact.width * contact.width * 0.001"))
ok('C34', F, ("            if computed_layer_info.kind != tech_pb2.ComputedLayerInfo.Kind.KIND_PIN:\n", "            if computed_layer_info.kind == tech_pb2.ComputedLayerInfo.Kind.KIND_PIN:\n                continue\n            if True:\n"))
ok('C34', F, ("                            (bot, top) = bot_top\n                            bot_gds_pair = tech.gds_pair(bot)\n", "                            bot = bot_top[0]\n                            top = bot_top[1]\n                            bot_gds_pair = tech.gds_pair(bot)\n"))
ok('C34', F, ("                            if canonical_layer_name == tech.internal_substrate_layer_name:\n                                cond.algorithm = self.substrate_algorithm\n                            else:\n                                cond.algorithm = self.wire_algorithm\n", "                            cond.algorithm = self.wire_algorithm if canonical_layer_name != tech.internal_substrate_layer_name else self.substrate_algorithm\n"))
ok('C34', K + 'klayout/rex_core.py', ("        kly_c.layer = pb_c.layer.id\n", "        layer = pb_c.layer\n        kly_c.layer = layer.id\n"))

# ---- C33
F = K + 'rcx25/r/resistor_network.py'
bug('C33', F, ("self.s[(a, b)] = self.s[(b, a)] = cond", "self.s[(a, b)] = cond"))
bug('C33', F, ("self.s[(a, b)] = self.s[(b, a)] = cond", "self.s[(a, b)] = cond\n            self.s[(b, a)] = cond.copy()"))
bug('C33', F, ("self.node_to_s[b].append((cond, a))", "self.node_to_s[b].append((cond, b))"))
bug('C33', F, ("for i in range(0, len(star) - 1):\n                for j in range(i + 1, len(star))", "for i in range(0, len(star) - 1):\n                for j in range(i + 1, len(star) - 1)"))
bug('C33', F, ("c = s1[0].cond * s2[0].cond / s_sum", "c = (s1[0].cond + s2[0].cond) / s_sum"))
bug('C33', F, ("if abs(s_sum) > 1e-10:", "if abs(s_sum) > 1e-3:"))
bug('C33', F, ("            del self.s[(other, nid)]\n", ""))
bug('C33', F, ("        del self.nodes[self.locations[nid]]\n        del self.locations[nid]\n", "        del self.locations[nid]\n"))
bug('C33', F, ("            if other != a:\n                self.add_cond(a, other, cond)\n", "            self.add_cond(a, other, cond)\n"))
bug('C33', F, ("                    if nid not in self.precious:\n                        n =", "                    if True:\n                        n ="))
bug('C33', F, ("        self.next_id += 1\n", "        self.next_id = len(self.nodes)\n"))
bug('C33', F, ("for nid in sorted(self.node_to_s.keys()):\n                    if", "for nid in self.precious:\n                    if"))
bug('C33', K + 'rcx25/r/conductance.py', ("self.cond += other.cond", "self.cond = 1.0 / (1.0 / self.cond + 1.0 / other.cond)"))
bug('C33', K + 'rcx25/r/conductance.py', ("return self.copy().add_parallel(other)", "return self.add_parallel(other)"))
ok('C33', F, ("            for i in range(0, len(star) - 1):\n                for j in range(i + 1, len(star)):\n                    s1 = star[i]\n                    s2 = star[j]\n", "            for i, s1 in enumerate(star):\n                for s2 in star[i + 1:]:\n"))
ok('C33', F, ("        s_sum = 0.0\n        for s in star:\n            s_sum += s[0].cond\n", "        s_sum = sum(cond.cond for cond, _ in star)\n"))
ok('C33', F, ("        del self.nodes[self.locations[nid]]\n        del self.locations[nid]\n", "        loc = self.locations.pop(nid)\n        del self.nodes[loc]\n"))
ok('C33', F, ("            if a not in self.node_to_s:\n                self.node_to_s[a] = []\n            self.node_to_s[a].append((cond, b))", "            self.node_to_s.setdefault(a, []).append((cond, b))"))
ok('C33', F, ("                        if n <= nmax:\n                            to_eliminate.append(nid)\n                        elif nmax_next is None or n < nmax_next:\n                            nmax_next = n\n", "                        if n > nmax:\n                            nmax_next = n if nmax_next is None else min(nmax_next, n)\n                        else:\n                            to_eliminate.append(nid)\n"))

# ---- C24, C25
F = K + 'klayout/lvsdb_extractor.py'
bug('C24', F, ("                    entry.source_layers.append(linfo)\n", "                    entry.source_layers = [linfo]\n"))
bug('C24', F, ("                if entry:\n                    entry.source_layers.append(linfo)\n                else:\n                    nonempty_layers[gds_pair]", "                if True:\n                    nonempty_layers[gds_pair]"))
bug('C24', F, ("                    case tech_pb2.ComputedLayerInfo.Kind.KIND_DEVICE_RESISTOR:\n                        continue\n                    case tech_pb2.ComputedLayerInfo.Kind.KIND_DEVICE_CAPACITOR:\n                        continue\n\n            gds", "                    case tech_pb2.ComputedLayerInfo.Kind.KIND_DEVICE_RESISTOR:\n                        break\n                    case tech_pb2.ComputedLayerInfo.Kind.KIND_DEVICE_CAPACITOR:\n                        continue\n\n            gds"))
bug('C24', F, ("                    case tech_pb2.ComputedLayerInfo.Kind.KIND_DEVICE_CAPACITOR:\n                        continue\n\n            gds", "                    case tech_pb2.ComputedLayerInfo.Kind.KIND_REGULAR:\n                        continue\n\n            gds"))
bug('C24', F, ("            if computed_layer_info and blackbox_devices:\n", "            if computed_layer_info:\n"))
bug('C24', F, ("            if computed_layer_info and blackbox_devices:\n", "            if computed_layer_info and not blackbox_devices:\n"))
bug('C24', F, ("not blackbox_devices)  # with_device_cells", "blackbox_devices)"))
bug('C24', F, ("layer_index_map[layer_index] = annotated_layer_index", "layer_index_map[layer_index] = layer_index"))
bug('C24', F, ("region = lvsdb.layer_by_index(layer_index)", "region = lvsdb.layer_by_name(lname)"))if False else None
bug('C24', F, ("annotated_layer_index = annotated_layout.layer()", "annotated_layer_index = annotated_layout.layer(*gds_pair)"))
bug('C24', F, ("                gds_pair = (computed_layer_info.layer_info.drw_gds_pair.layer,\n                            computed_layer_info.layer_info.drw_gds_pair.datatype)\n", "                gds_pair = (computed_layer_info.layer_info.pin_gds_pair.layer,\n                            computed_layer_info.layer_info.drw_gds_pair.datatype)\n"))
bug('C24', F, ("            li = layer_index_map[li]\n", "            li = idx\n"))
bug('C24', F, ("            if layer.count() >= 1:\n", "            if layer.count() > 1:\n"))
bug('C24', F, ("            layer.enable_properties()\n            if layer.count", "            if layer.count"))
bug('C24', F, ("                    lvs_layer_name=ln,\n                    gds_pair=gds_pair,\n                    region=layer\n                )\n\n                entry", "                    lvs_layer_name=computed_layer_info.original_layer_name,\n                    gds_pair=gds_pair,\n                    region=layer\n                )\n\n                entry"))
bug('C24', F, ("                    unnamed_layers.append(linfo)\n                    continue\n", "                    unnamed_layers.append(linfo)\n                    break\n"))
bug('C24', F, ("net_name == requested_net_name", "net_name.lower() == requested_net_name.lower()"))
bug('C24', F, ("shapes.insert(transform *     # NOTE: this is a global/initial iterator-wide transformation\n                                  iter.trans() *  # NOTE: this is local during the iteration (due to sub hierarchy)\n                                  shape.polygon)", "shapes.insert(shape.polygon)"))
bug('C24', F, ("                shapes = lyr.source_layers[0].region\n            case _:\n                # NOTE", "                shapes = lyr.source_layers[0].region\n            case 2:\n                shapes = lyr.source_layers[1].region\n            case _:\n                # NOTE"))
bug('C24', F, ("            case _:\n                for sl in lyr.source_layers:\n                    add", "            case _:\n                for sl in lyr.source_layers[:1]:\n                    add"))
bug('C24', F, ("{'net': iter.shape().property('net')}", "{'net': None}"))
bug('C24', F, ("hier_mode=hier_mode,", "hier_mode=kdb.LayoutToNetlist.BuildNetHierarchyMode.BNH_SubcircuitCells,"))
bug('C24', F, ("net_name_prop = \"net\"", "net_name_prop = \"NET\""))
ok('C24', F, ("                entry = nonempty_layers.get(gds_pair, None)\n                if entry:\n                    entry.source_layers.append(linfo)\n                else:\n                    nonempty_layers[gds_pair] = KLayoutMergedExtractedLayerInfo(\n                        source_layers=[linfo],\n                        gds_pair=gds_pair,\n                    )\n",
  "                if gds_pair not in nonempty_layers:\n                    nonempty_layers[gds_pair] = KLayoutMergedExtractedLayerInfo(source_layers=[], gds_pair=gds_pair)\n                nonempty_layers[gds_pair].source_layers.append(linfo)\n"))
ok('C24', F, ("            if computed_layer_info and blackbox_devices:\n                match computed_layer_info.kind:\n                    case tech_pb2.ComputedLayerInfo.Kind.KIND_DEVICE_RESISTOR:\n                        continue\n                    case tech_pb2.ComputedLayerInfo.Kind.KIND_DEVICE_CAPACITOR:\n                        continue\n\n            gds",
  "            if blackbox_devices and computed_layer_info is not None and computed_layer_info.kind in (tech_pb2.ComputedLayerInfo.Kind.KIND_DEVICE_RESISTOR, tech_pb2.ComputedLayerInfo.Kind.KIND_DEVICE_CAPACITOR):\n                continue\n\n            gds"))
ok('C24', F, ("        for idx, ln in enumerate(lvsdb.layer_names()):\n            li = lvsdb_layer_indexes[idx]\n", "        for idx, (li, ln) in enumerate(zip(lvsdb_layer_indexes, lvsdb.layer_names())):\n"))
ok('C24', F, ("            if gds_pair is not None:\n                annotated_layer_index", "            if gds_pair is None:\n                continue\n            if True:\n                annotated_layer_index"))
ok('C24', F, ("        match len(lyr.source_layers):\n            case 0:\n                raise AssertionError('Internal error: Empty list of source_layers')\n            case _:\n                for sl in lyr.source_layers:\n                    add_shapes_from_region(sl.region)\n", "        if not lyr.source_layers:\n            raise AssertionError('Internal error: Empty list of source_layers')\n        for sl in lyr.source_layers:\n            add_shapes_from_region(sl.region)\n"))
ok('C24', F, ("            if layer.count() >= 1:\n                computed", "            if layer.is_empty():\n                continue\n            if True:\n                computed"))
ok('C24', F, ("                if net_name == requested_net_name:\n                    shapes.insert(transform *     # NOTE: this is a global/initial iterator-wide transformation\n                                  iter.trans() *  # NOTE: this is local during the iteration (due to sub hierarchy)\n                                  shape.polygon)\n", "                if requested_net_name == net_name:\n                    t = transform * iter.trans()\n                    shapes.insert(shape.polygon.transformed(t))\n"))
ok('C24', F, ("            case 1:\n                shapes = lyr.source_layers[0].region\n            case _:\n                # NOTE", "            case _:\n                # NOTE"))

bug('C25', F, ("                    if nt.terminal_id() != td.id():\n                        continue\n", ""))
bug('C25', F, ("                    if nt.device().expanded_name() != d_kly.expanded_name():\n                        continue\n", ""))
bug('C25', F, ("                    if nt.terminal_id() != td.id():\n                        continue\n", "                    if nt.terminal_id() != td.id():\n                        break\n"))
bug('C25', F, ("                    terminal.net_name = ''  # TODO\n                    continue\n", "                    terminal.net_name = ''  # TODO\n                    break\n"))
bug('C25', F, ("                    terminal = d.terminals.add()\n                    terminal.device_id = d.id\n                    terminal.terminal_id = td.id()\n                    terminal.name = td.name\n                    terminal.net_name = ''  # TODO\n", ""))
bug('C25', F, ("terminal.net_name = n.expanded_name()", "terminal.net_name = n.name"))
bug('C25', F, ("p.value = d_kly.parameter(pd.id())", "p.value = pd.default_value"))
bug('C25', F, ("d.device_class_name = d_kly.device_class().name", "d.device_class_name = d_kly.device_abstract.name"))
bug('C25', F, ("dd[d.device_name] = d\n", "dd[d.device_class_name] = d\n"))
bug('C25', F, ("                        if lyr_idx is None:\n                            continue\n", "                        if lyr_idx is None:\n                            break\n"))
bug('C25', F, ("region_by_layer.layer.id = lyr_idx", "region_by_layer.layer.id = idx"))
bug('C25', F, ("                                    f\"on layer {lyr_info}, no computed layer info found in tech info\")\n                            continue\n", "                                    f\"on layer {lyr_info}, no computed layer info found in tech info\")\n                            break\n"))
bug('C25', F, ("                        if p.inside(pos):\n                            pin.net_name = p.property('net')\n                            break\n", "                        if p.inside(pos):\n                            pin.net_name = p.property('net')\n                        break\n"))
bug('C25', F, ("                        if p.inside(pos):\n                            pin.net_name = p.property('net')\n", "                        if p.bbox().contains(pos):\n                            pin.net_name = p.property('net')\n"))
bug('C25', F, ("pin.net_name = p.property('net')", "pin.net_name = l.string"))
bug('C25', F, ("pin_labels: kdb.Texts = labels & pins", "pin_labels: kdb.Texts = labels - pins"))
bug('C25', F, ("pin_labels: kdb.Texts = labels & pins", "pin_labels: kdb.Texts = labels"))
bug('C25', F, ("pin.label_point.y = pos.y", "pin.label_point.y = pos.x"))
bug('C25', F, ("pin.layer.id = klayout_index", "pin.layer.id = lyr.index"))
bug('C25', F, ("d[gds_pair].append(pin)", "d[gds_pair] = [pin]"))
bug('C25', F, ("                    pin = pin_pb2.Pin()\n                    pin.label", "                    pin.label"), ("                for l in pin_labels:\n", "                pin = pin_pb2.Pin()\n                for l in pin_labels:\n"))
bug('C25', F, ("self.tech.layer_info_by_gds_pair[gds_pair].pin_gds_pair", "self.tech.layer_info_by_gds_pair[gds_pair].drw_gds_pair"))
bug('C25', F, ("self.tech.layer_info_by_gds_pair[gds_pair].label_gds_pair", "self.tech.layer_info_by_gds_pair[gds_pair].pin_gds_pair"))
bug('C25', F, ("            if gds_pair is None:\n                continue\n            if gds_pair not in", "            if gds_pair is None:\n                break\n            if gds_pair not in"))
ok('C25', F, ("            d.id = d_kly.id()\n            d.device_name = d_kly.expanded_name()\n", "            name = d_kly.expanded_name()\n            d.device_name = name\n            d.id = d_kly.id()\n"), ("dd[d.device_name] = d\n", "dd[name] = d\n"))
ok('C25', F, ("                    if nt.device().expanded_name() != d_kly.expanded_name():\n                        continue\n                    if nt.terminal_id() != td.id():\n                        continue\n", "                    if nt.device().expanded_name() != d_kly.expanded_name() or nt.terminal_id() != td.id():\n                        continue\n"))
ok('C25', F, ("                p = d.parameters.add()\n                p.id = pd.id()\n                p.name = pd.name\n                p.value = d_kly.parameter(pd.id())\n", "                pid = pd.id()\n                d.parameters.add(id=pid, name=pd.name, value=d_kly.parameter(pid))\n"))
ok('C25', F, ("                    terminal.net_name = ''  # TODO\n                    continue\n\n                for nt in n.each_terminal():", "                    terminal.net_name = ''  # TODO\n\n                for nt in (n.each_terminal() if n is not None else []):")) if False else None
ok('C25', F, ("                        lyr_idx = self.layer_index_map.get(idx, None)\n                        if lyr_idx is None:\n                            continue\n", "                        if idx not in self.layer_index_map:\n                            continue\n                        lyr_idx = self.layer_index_map[idx]\n"))
ok('C25', F, ("                        lyr_info: kdb.LayerInfo = self.annotated_layout.layer_infos()[lyr_idx]\n", "                        lyr_info = self.annotated_layout.get_info(lyr_idx)\n"))
ok('C25', F, ("                    for p in pins:\n                        p: kdb.PolygonWithProperties\n                        if p.inside(pos):\n                            pin.net_name = p.property('net')\n                            break\n", "                    pin.net_name = self._net_at(pins, pos)\n"), ("    @cached_property\n    def pins_pb2_by_layer", "    @staticmethod\n    def _net_at(pins, pos):\n        for p in pins:\n            if p.inside(pos):\n                return p.property('net')\n        return ''\n\n    @cached_property\n    def pins_pb2_by_layer"))
ok('C25', F, ("                    pin.label_point.x = pos.x\n                    pin.label_point.y = pos.y\n                    pin.label_point.net = pin.net_name\n", "                    pt = pin.label_point\n                    pt.x = pos.x\n                    pt.y = pos.y\n                    pt.net = pin.net_name\n"))
ok('C25', F, ("                pins = self.pins_of_layer(gds_pair)\n                labels = self.labels_of_layer(gds_pair)\n\n                pin_labels: kdb.Texts = labels & pins\n", "                pins = self.pins_of_layer(gds_pair)\n                pin_labels = self.labels_of_layer(gds_pair) & pins\n"))
ok('C25', F, ("            if gds_pair is None:\n                continue\n            if gds_pair not in self.tech.layer_info_by_gds_pair:\n                continue\n", "            if gds_pair is None or gds_pair not in self.tech.layer_info_by_gds_pair:\n                continue\n"))
ok('C25', F, ("        if len(lyr.source_layers) != 1:\n            raise NotImplementedError(f\"currently only supporting 1 pin layer mapping, \"\n                                      f\"but got {len(lyr.source_layers)}\")\n        return lyr.source_layers[0].region\n", "        if len(lyr.source_layers) == 1:\n            return lyr.source_layers[0].region\n        raise NotImplementedError(f\"currently only supporting 1 pin layer mapping, \"\n                                  f\"but got {len(lyr.source_layers)}\")\n"))

# ---- C41
F = K + 'klayout/shapes_pb2_converter.py'
bug('C41', F, ("point_pb.y = point_kly.y", "point_pb.y = point_kly.x"))
bug('C41', F, ("kdb.Point(point.x, point.y)", "kdb.Point(point.y, point.x)"))
bug('C41', F, ("polygon_kly.resolved_holes().each_point_hull()", "polygon_kly.each_point_hull()"))
bug('C41', F, ("            polygon_pb.net = net_name\n", "            polygon_pb.net = net_name.lower()\n"))
bug('C41', F, ("        if box.net:\n", "        if len(box.net) > 1:\n"))
bug('C41', F, ("if len(polygon.net) >= 1:", "if len(polygon.net) >= 2:"))
bug('C41', F, ("                          box.upper_right.x,\n", "                          box.lower_left.x,\n"))
bug('C41', F, ("{'net': box.net}", "{'name': box.net}"))
bug('C41', F, ("for polygon in region.polygons:", "for polygon in region.polygons[:-1]:"))
bug('C41', F, ("            region_kly.insert(self.klayout_polygon(polygon))", "            if len(polygon.net) >= 1:\n                region_kly.insert(self.klayout_polygon(polygon))"))
bug('C41', F, ("for pt in polygon.hull_points]", "for pt in polygon.hull_points[1:]]"))
bug('C41', F, ("region_kly.insert(self.klayout_polygon(polygon))", "region_kly.insert(self.klayout_polygon(polygon))\n        region_kly.merge()"))
bug('C41', F, ("        if net_name:\n            polygon_pb.net = net_name\n", "        polygon_pb.net = str(net_name)\n"))
bug('C41', F, ("for pgn_kly in region_kly:", "for pgn_kly in region_kly.each_merged():"))
bug('C41', F, ("kdb.Point(point.x, point.y)", "kdb.Point(point.x * self.dbu, point.y * self.dbu)"))
ok('C41', F, ("        points_kly = [self.klayout_point(pt) for pt in polygon.hull_points]\n", "        points_kly = []\n        for pt in polygon.hull_points:\n            points_kly.append(self.klayout_point(pt))\n"))
ok('C41', F, ("if len(polygon.net) >= 1:", "if polygon.net:"))
ok('C41', F, ("if len(polygon.net) >= 1:", "if polygon.net != '':"))
ok('C41', F, ("            region_kly.insert(self.klayout_polygon(polygon))", "            p = self.klayout_polygon(polygon)\n            region_kly.insert(p)"))
ok('C41', F, ("        if net_name:\n", "        if net_name is not None and net_name != '':\n"))
ok('C41', F, ("kdb.Box(box.lower_left.x,\n                          box.lower_left.y,\n                          box.upper_right.x,\n                          box.upper_right.y)", "kdb.Box(self.klayout_point(box.lower_left), self.klayout_point(box.upper_right))"))
ok('C41', F, ("        if box.net:\n            box_kly = kdb.BoxWithProperties(box_kly, {'net': box.net})\n        return box_kly\n", "        if not box.net:\n            return box_kly\n        return kdb.BoxWithProperties(box_kly, {'net': box.net})\n"))
ok('C41', F, ("for pgn_kly in region_kly:", "for pgn_kly in region_kly.each():"))
ok('C41', F, ("            self.klayout_point_to_pb(p_kly, polygon_pb.hull_points.add())", "            pt = polygon_pb.hull_points.add()\n            pt.x = p_kly.x\n            pt.y = p_kly.y"))
ok('C41', F, ("self.klayout_polygon_to_pb(pgn_kly, region_pb.polygons.add())", "polygon_pb = region_pb.polygons.add()\n            self.klayout_polygon_to_pb(pgn_kly, polygon_pb)"))
# ---- C42
F = K + 'env.py'
bug('C42', F, ("FASTCAP_EXE = 'KPEX_FASTCAP_EXE'", "FASTCAP_EXE = 'KPEX_FASTERCAP_EXE'"), ("FASTERCAP_EXE = 'KPEX_FASTERCAP_EXE'", "FASTERCAP_EXE = 'KPEX_FASTCAP_EXE'")) if False else None
bug('C42', F, ("return 'FasterCap'", "return 'fastcap'"))
bug('C42', F, ("case EnvVar.MAGIC_EXE: return 'magic'", "case EnvVar.MAGIC_EXE: return None"))
bug('C42', F, ("env_var.value, None)", "env_var.name, None)"))
bug('C42', F, ("            if value is None:\n                value = env_var.default_value\n", ""))
bug('C42', F, ("            if value is None:\n", "            if value is not None:\n"))
bug('C42', F, ("            d[env_var] = value\n", "            d[env_var.value] = value\n            break\n"))
bug('C42', F, ("Defaults to '{cls.KLAYOUT_EXE.default_value}'", "Defaults to '{cls.MAGIC_EXE.default_value}'"))
bug('C42', F, ("    PDK_PATH = 'PDKPATH'", "    PDK_PATH = 'PDK_PATH'"))
bug('C42', F, ("return self._data[env_var]", "return self._data.get(EnvVar.PDK)"))
bug('C42', F, ("case EnvVar.PDK: return None", "case EnvVar.PDK: return 'sky130A'"))
G = K + 'kpex_cli.py'
bug('C42', G, ("args.fastcap_exe_path = env[EnvVar.FASTCAP_EXE]", "args.fastcap_exe_path = env[EnvVar.FASTERCAP_EXE]"))
ok('C42', F, ("            value = os.environ.get(env_var.value, None)\n            if value is None:\n                value = env_var.default_value\n            d[env_var] = value\n", "            d[env_var] = os.environ.get(env_var.value, env_var.default_value)\n"))
ok('C42', F, ("        d = {}\n        for env_var in EnvVar:\n            value = os.environ.get(env_var.value, None)\n            if value is None:\n                value = env_var.default_value\n            d[env_var] = value\n        return Env(d)", "        return Env({v: os.environ.get(v.value, v.default_value) for v in EnvVar})"))
ok('C42', F, ("            value = os.environ.get(env_var.value, None)\n            if value is None:\n                value = env_var.default_value\n", "            if env_var.value in os.environ:\n                value = os.environ[env_var.value]\n            else:\n                value = env_var.default_value\n"))
ok('C42', F, ("            case EnvVar.PDK_PATH: return None\n            case EnvVar.PDK: return None\n", "            case EnvVar.PDK_PATH | EnvVar.PDK: return None\n"))
ok('C42', F, ("        match self:\n            case EnvVar.FASTCAP_EXE:  return 'fastcap'\n", "        if self == EnvVar.FASTCAP_EXE:\n            return 'fastcap'\n        match self:\n"))
ok('C42', F, ("                return 'klayout_app' if os.name == 'nt' \\\n                                     else 'klayout'\n", "                if os.name == 'nt':\n                    return 'klayout_app'\n                return 'klayout'\n"))
ok('C42', F, ("os.environ.get(env_var.value, None)", "os.getenv(env_var.value)"))
ok('C42', F, ("        return Env(d)\n", "        env = Env(d)\n        return env\n"))
# ---- C43
F = K + 'util/multiple_choice.py'
bug('C43', F, ("'all' in components", "'all' in pattern.split(',')"))
bug('C43', F, ("startswith('-')", "startswith('!')"))
bug('C43', F, ("            return [c for c in choices if c.lower() not in self.excluded]", "            return choices"))
bug('C43', F, ("            return choice.lower() not in self.excluded", "            return True"))
bug('C43', F, ("        return [c for c in choices if c.lower() in self.included]", "        return [c for c in choices if c in self.included]"))
bug('C43', F, ("        return choice.lower() in self.included", "        return choice.lower() in self.included or not self.has_none"))
bug('C43', F, ("        if self.has_all and len(self.included) >= 1:", "        if self.has_all and len(self.included) > 1:"))
bug('C43', F, ("        if self.has_none and len(self.excluded) >= 1:", "        if self.has_none and len(self.included) >= 1:"))
bug('C43', F, ("        if self.has_none and self.has_all:", "        if self.has_none and not self.has_all:"))
bug('C43', F, ("c.lower().strip()", "c.lower()"))
bug('C43', F, ("c[1:] for c in components if c.startswith('+')", "c for c in components if c.startswith('+')"))
bug('C43', F, ("sep=','", "sep=', '"))
bug('C43', F, ("        return [c for c in choices if c.lower() in self.included]", "        return self.included"))
ok('C43', F, ("c.lower().strip()", "c.strip().lower()"))
ok('C43', F, ("        if self.has_all:\n            return choice.lower() not in self.excluded\n        return choice.lower() in self.included", "        name = choice.lower()\n        return (name not in self.excluded) if self.has_all else (name in self.included)"))
ok('C43', F, ("        if self.has_all:\n            return [c for c in choices if c.lower() not in self.excluded]\n        return [c for c in choices if c.lower() in self.included]", "        return [c for c in choices if self.is_included(c)]"))
ok('C43', F, ("        if self.has_all:\n            return [c for c in choices if c.lower() not in self.excluded]\n        return [c for c in choices if c.lower() in self.included]", "        result = []\n        for c in choices:\n            if self.is_included(c):\n                result.append(c)\n        return result"))
ok('C43', F, ("        components = pattern.split(sep=',')\n        components = [c.lower().strip() for c in components]\n", "        components = [c.lower().strip() for c in pattern.split(',')]\n"))
ok('C43', F, ("        self.excluded = [c[1:] for c in components if c.startswith('-')]", "        self.excluded = {c[1:] for c in components if c[:1] == '-'}"))
ok('C43', F, ("        if self.has_none and len(self.excluded) >= 1:", "        if self.has_none and self.excluded:"))
ok('C43', F, ("        self.included = [c[1:] for c in components if c.startswith('+')]\n        self.excluded = [c[1:] for c in components if c.startswith('-')]\n", "        self.included = []\n        self.excluded = []\n        for c in components:\n            if c.startswith('+'):\n                self.included.append(c[1:])\n            elif c.startswith('-'):\n                self.excluded.append(c[1:])\n"))
# ---- C44
F = K + 'util/argparse_helpers.py'
bug('C44', F, ("case 'yes' | 'true' | 't' | 'y' | '1':", "case 'yes' | 'true' | 'y' | '1':"))
bug('C44', F, ("case 'no' | 'false' | 'f' | 'n' | '0':", "case 'no' | 'false' | 'f' | 'n' | '0' | '':"))
bug('C44', F, ("            raise argparse.ArgumentTypeError('Boolean value expected.')", "            return bool(arg)"))
bug('C44', F, ("str(arg).lower()", "str(arg)"))
bug('C44', F, ("        return arg\n", "        return True\n"))
bug('C44', F, ("            raise argparse.ArgumentTypeError('Boolean value expected.')", "            raise NotImplementedError('Boolean value expected.')"))
bug('C44', F, ("                 if name.lower() != 'default']", "                 if member.lower() != 'none']")) if False else None
bug('C44', F, ("                default_value = default_value.lower()\n", "                pass\n"))
bug('C44', F, ("            default_value = default_case.name.lower()\n", "            default_value = default_case.name\n"))
bug('C44', F, ("        return name.lower()\n", "        return name\n"))
bug('C44', F, ("enum_cls.__members__.items()", "list(enum_cls.__members__.items())[1:]"))
bug('C44', F, ("member.lower() if lowercase_strenum else member", "member if lowercase_strenum else member.lower()"))
ok('C44', F, ("    if isinstance(arg, bool):\n        return arg\n\n    match str(arg).lower():\n        case 'yes' | 'true' | 't' | 'y' | '1':\n            return True\n        case 'no' | 'false' | 'f' | 'n' | '0':\n            return False\n        case _:\n            raise", "    if isinstance(arg, bool):\n        return arg\n\n    s = str(arg).lower()\n    if s in ('yes', 'true', 't', 'y', '1'):\n        return True\n    if s in ('no', 'false', 'f', 'n', '0'):\n        return False\n    raise"))
ok('C44', F, ("            raise argparse.ArgumentTypeError('Boolean value expected.')", "            raise argparse.ArgumentTypeError(f\"Boolean value expected, but got {arg}\")"))
ok('C44', F, ("    if not hasattr(enum_cls, 'DEFAULT'):\n        print_default = False\n", "    print_default = print_default and hasattr(enum_cls, 'DEFAULT')\n"))
ok('C44', F, ("            default_value: str = default_case.value\n            if lowercase_strenum:\n                default_value = default_value.lower()\n", "            default_value = default_case.value.lower() if lowercase_strenum else default_case.value\n"))
# ---- C46
F = K + 'klayout/repair_rdb.py'
bug('C46', F, ("                    current_word += c\n                    within_backslash = False\n                elif within_escaped:", "                    current_word += c\n                elif within_escaped:"))
bug('C46', F, ("            case _:\n                current_word += c\n                within_backslash = False\n", "            case _:\n                current_word += c\n"))
bug('C46', F, ("                elif within_escaped:\n                    current_word += c\n", ""))
bug('C46', F, ("    if len(current_word) >= 1:\n", "    if len(current_word) >= 2:\n"))
bug('C46', F, ("    new_xml_path = rdb_path + '.repair.xml'", "    new_xml_path = rdb_path"))
bug('C46', F, ("                elem = new_category\n", ""))
bug('C46', F, ("                elem = subelem\n", "                elem = elemcats\n"))
bug('C46', F, ("        elem = root\n", ""), ("    for p in category_paths:\n", "    elem = root\n    for p in category_paths:\n"))
bug('C46', F, ("                new_cname.text = c\n", "                new_cname.text = p[0]\n"))
bug('C46', F, ("                ET.SubElement(new_category, 'categories')\n", ""))
bug('C46', F, ("    if suffix == '.gz':", "    if suffix == '.xml.gz':"))
bug('C46', F, ("    et.write(new_xml_path)\n", "    for item in root.findall('./items/item'):\n        if item.find('values') is None:\n            root.find('items').remove(item)\n    et.write(new_xml_path)\n"))
bug('C46', F, ("root.findall('./items/item/category')", "root.findall('./items/item[1]/category')"))
bug('C46', F, ("[parse_category_path(c) for c in categories]", "[parse_category_path(c) for c in categories if '.' in c]"))
ok('C46', F, ("    category_paths = [parse_category_path(c) for c in categories]\n    category_paths.sort()\n", "    category_paths = sorted(parse_category_path(c) for c in categories)\n"))
ok('C46', F, ("            subelem = next((e for e in elemcats.findall(\"./category\") if e.findtext(\"./name\") == c), None)\n", "            subelem = None\n            for e in elemcats.findall(\"./category\"):\n                if e.findtext(\"./name\") == c:\n                    subelem = e\n                    break\n"))
ok('C46', F, ("    if len(current_word) >= 1:\n", "    if current_word:\n"))
ok('C46', F, ("                elem = new_category\n            else:\n                elem = subelem\n", "                subelem = new_category\n            elem = subelem\n"))
ok('C46', F, ("    categories: Set[str] = set(\n        [e.text for e in root.findall('./items/item/category')]\n    )\n", "    categories = {e.text for e in root.findall('./items/item/category')}\n"))
ok('C46', F, ("    for c in category_path:\n        match c:\n            case '.':\n                if within_backslash:\n                    current_word += c\n                    within_backslash = False\n                elif within_escaped:\n                    current_word += c\n                else:\n                    path_list.append(current_word)\n                    current_word = ''\n            case '\\\\':\n                if within_backslash:\n                    current_word += c\n                    within_backslash = False\n                else:\n                    within_backslash = True\n            case '\\'':\n                if within_backslash:\n                    current_word += c\n                    within_backslash = False\n                else:\n                    within_escaped = not within_escaped\n            case _:\n                current_word += c\n                within_backslash = False\n", "    for c in category_path:\n        if within_backslash:\n            current_word += c\n            within_backslash = False\n        elif c == '\\\\':\n            within_backslash = True\n        elif c == '\\'':\n            within_escaped = not within_escaped\n        elif c == '.' and not within_escaped:\n            path_list.append(current_word)\n            current_word = ''\n        else:\n            current_word += c\n"))

# ---- C38
F = K + 'magic/magic_runner.py'
bug('C38', F, ("ext2spice cthresh {c_threshold}", "ext2spice cthresh {r_threshold}"))
bug('C38', F, ("halo_scale = 200.0", "halo_scale = 100.0"))
bug('C38', F, ("round(halo * halo_scale)", "int(halo * halo_scale)"))
bug('C38', F, ("'' if halo is None else", "'' if not halo else"))
bug('C38', F, ("extract path {run_dir_path}{halo_decl}\nextract do resistance\nextract all", "extract path {run_dir_path}{halo_decl}\nextract all\nextract do resistance"))
bug('C38', F, ("extract no coupling\n", ""))
bug('C38', F, ("extresist tolerance {tolerance}", "extresist tolerance 10"))
bug('C38', F, ("ext2spice extresist on\n", ""))
bug('C38', F, ("        case MagicPEXMode.RC:", "        case MagicPEXMode.R:"), ("        case MagicPEXMode.R:\n            script = f\"\"\"# Generated by kpex {__version__}\ncrashbackups stop\ndrc off\ngds read {gds_path}\nload {cell_name}\nselect top cell\nflatten {cell_name}_flat\nload {cell_name}_flat\ncellname delete {cell_name} -noprompt\ncellname rename {cell_name}_flat {cell_name}\nselect top cell\nextract path {run_dir_path}{halo_decl}\nextract do resistance\nextract no", "        case MagicPEXMode.RC:\n            script = f\"\"\"# Generated by kpex {__version__}\ncrashbackups stop\ndrc off\ngds read {gds_path}\nload {cell_name}\nselect top cell\nflatten {cell_name}_flat\nload {cell_name}_flat\ncellname delete {cell_name} -noprompt\ncellname rename {cell_name}_flat {cell_name}\nselect top cell\nextract path {run_dir_path}{halo_decl}\nextract do resistance\nextract no"))
bug('C38', F, ("load {cell_name}_flat\n", ""))
bug('C38', F, ("ext2spice -p {run_dir_path} -o {output_netlist_path}", "ext2spice -p {run_dir_path}"))
bug('C38', F, ("extract path {run_dir_path}{halo_decl}\nextract all", "extract path {run_dir_path}\nextract all{halo_decl}"))
bug('C38', F, ("ext2spice short {short_mode}\next2spice merge {merge_mode}", "ext2spice short {merge_mode}\next2spice merge {short_mode}"))
ok('C38', F, ("extract halo {round(halo * halo_scale)}", "extract halo {int(round(halo * halo_scale))}"))
ok('C38', F, ("    halo_decl = '' if halo is None else f\"\\nextract halo {round(halo * halo_scale)}\"\n", "    halo_decl = ''\n    if halo is not None:\n        halo_decl = f\"\\nextract halo {round(halo_scale * halo)}\"\n"))
ok('C38', F, ("# Generated by kpex {__version__}", "# Generated by kpex {__version__}, mode CC"))
ok('C38', F, ("    script: str = \"\"\n", "    header = f\"# Generated by kpex {__version__}\\ncrashbackups stop\\ndrc off\\n\"\n    script: str = header\n"))
ok('C38', F, ("ext2spice short {short_mode}\next2spice merge {merge_mode}", "ext2spice merge {merge_mode}\next2spice short {short_mode}"))
ok('C38', F, ("        f.write(script)\n", "        f.writelines(script)\n")) if False else None
# ---- C39
F = K + 'magic/magic_ext_file_parser.py'
bug('C39', F, ("x_top=int(m.group('x_top')),\n                                  y_top=int(m.group('y_top')),", "x_top=int(m.group('y_top')),\n                                  y_top=int(m.group('x_top')),"))
bug('C39', F, ('(?P<x_bot>-?\\d+) (?P<y_bot>-?\\d+) (?P<x_top>', '(?P<y_bot>-?\\d+) (?P<x_bot>-?\\d+) (?P<x_top>'))
bug('C39', F, ('(node|substrate)', '(node)'))
bug('C39', F, ('[^"]+', '\\w+'))
bug('C39', F, ('(?P<x_bot>-?\\d+)', '(?P<x_bot>\\d+)'))
bug('C39', F, ("node2=m.group('node2')", "node2=m.group('node1')"))
bug('C39', F, ("value_ohm=float(m.group('value'))", "value_ohm=int(float(m.group('value')))"))
bug('C39', F, ("for line in f.readlines():", "for line in f.readlines()[1:]:"))
bug('C39', F, ("            if m:\n                nodes.append", "            if m and m.group('net') != 'VSUBS':\n                nodes.append"))
bug('C39', F, ("            res_paths_by_cell_name[cell] = ef\n        else:\n            main_paths", "            main_paths_by_cell_name[cell] = ef\n        else:\n            main_paths"))
bug('C39', F, ("parse_magic_res_ext_file(res_ext_path)", "parse_magic_res_ext_file(ext_path)"))
bug('C39', F, ("run_dir.glob('*.ext')", "run_dir.glob('[a-z]*.ext')"))
bug('C39', F, (".*?)(?P<res>", ".*)(?P<res>"))
bug('C39', F, ("(?P<int_r>\\d+) (?P<fin_c>[", "(?P<fin_c>[\\d.eE+-]+) (?P<int_r>["))
ok('C39', F, ("            if m:\n                ports.append(Port(net=m.group('net'),\n                                  x_bot=int(m.group('x_bot')),", "            if m is not None:\n                ports.append(Port(net=m['net'],\n                                  x_bot=int(m.group('x_bot')),"))
ok('C39', F, ("        for line in f.readlines():\n            # port", "        for line in f:\n            # port"))
ok('C39', F, ("                t = m.group('type')\n                device_type = DeviceType(t)\n                devices.append(Device(device_type=device_type,", "                devices.append(Device(device_type=DeviceType(m.group('type')),"))
ok('C39', F, ("        res_ext_data = None if res_ext_path is None else parse_magic_res_ext_file(res_ext_path)\n", "        if res_ext_path is None:\n            res_ext_data = None\n        else:\n            res_ext_data = parse_magic_res_ext_file(res_ext_path)\n"))
ok('C39', F, ("    regex = r'(?P<cell>.*?)(?P<res>\\.res)?\\.ext'\n", "    regex = r'^(?P<cell>.*?)(?P<res>\\.res)?\\.ext$'\n"))
ok('C39', F, ("        if not m:\n            continue\n\n        cell = m.group('cell')\n        res = m.group('res')\n\n        if res:", "        if m is None:\n            continue\n        cell, res = m.group('cell'), m.group('res')\n        if res is not None:"))
ok('C39', F, ('(node|substrate) "', '(?:node|substrate) "'))
ok('C39', F, ("            m = re.match(\n                r'^resist \"(?P<node1>[^\"]+)\" \"(?P<node2>[^\"]+)\" (?P<value>[\\d.eE+-]+)$',\n                line.strip())\n", "            m = RESIST.match(line.strip())\n"), ("def parse_magic_pex_run", "RESIST = re.compile(r'^resist \"(?P<node1>[^\"]+)\" \"(?P<node2>[^\"]+)\" (?P<value>[\\d.eE+-]+)$')\n\n\ndef parse_magic_pex_run"))
# ---- C40
F = K + 'magic/magic_log_analyzer.py'
bug('C40', F, ("dbu_to_um = 200.0", "dbu_to_um = 100.0"))
bug('C40', F, ("category_id=node_cat.rdb_id()", "category_id=nodes_cat.rdb_id()"))
bug('C40', F, ("parent=rnodes_cat", "parent=nodes_cat"))
bug('C40', F, ("                                  p.y_bot / dbu_to_um / self.dbu,\n", "                                  p.x_bot / dbu_to_um / self.dbu,\n"))
bug('C40', F, ("p.x_bot / dbu_to_um / self.dbu", "p.x_bot / dbu_to_um"))
bug('C40', F, ("cell_data.res_ext_data.rnodes_by_name(r.node2)", "cell_data.res_ext_data.rnodes_by_name(r.node1)"))
bug('C40', F, ("        if cell_data.res_ext_data is not None:\n", "        if True:\n"))
bug('C40', F, ("            shapes = kdb.Shapes()\n            shapes.insert(box_for_point_dbu(n", "            shapes.insert(box_for_point_dbu(n"))
bug('C40', F, ("        args.output_rdb_path = os", "        os"))
bug('C40', F, ("    c.analyze()\n    report.save(args.output_rdb_path)", "    report.save(args.output_rdb_path)\n    c.analyze()"))
bug('C40', F, ("    def analyze(self):\n        for cell, cell_data in self.magic_pex_run.cells.items():\n            self.analyze_cell(cell=cell, cell_data=cell_data)", "    def analyze(self):\n        for cell, cell_data in self.magic_pex_run.cells.items():\n            self.analyze_cell(cell=cell, cell_data=cell_data)\n            break"))
bug('C40', F, ("        for n in cell_data.ext_data.nodes:\n", "        for n in cell_data.ext_data.nodes:\n            if n.fin_c == 0:\n                continue\n"))
bug('C40', F, ("{r.node1}↔︎{r.node2}", "{r.node1}↔︎{r.node1}"))
bug('C40', F, ("trans=kdb.CplxTrans(mag=self.dbu)", "trans=kdb.CplxTrans(self.dbu * 2)"))
ok('C40', F, ("        dbu_to_um = 200.0\n", "        dbu_to_um = 200.0\n        scale = 1 / dbu_to_um / self.dbu\n"), ("kdb.Box(p.x_bot / dbu_to_um / self.dbu,", "kdb.Box(p.x_bot * scale,"))
ok('C40', F, ("            port_cat = self.report.create_category(parent=ports_cat, name=f\"{p.net} ({p.layer})\")\n", "            name = f\"{p.net} ({p.layer})\"\n            port_cat = self.report.create_category(ports_cat, name)\n"))
ok('C40', F, ("kdb.Box(p.x_bot / dbu_to_um / self.dbu,", "kdb.Box(round(p.x_bot / dbu_to_um / self.dbu),"))
ok('C40', F, ("        if cell_data.res_ext_data is not None:\n", "        if cell_data.res_ext_data is None:\n            return\n        if cell_data.res_ext_data:\n"))
ok('C40', F, ("                for n in cell_data.res_ext_data.rnodes_by_name(r.node1) + \\\n                         cell_data.res_ext_data.rnodes_by_name(r.node2):\n                    box = box_for_point_dbu(n.x_bot / dbu_to_um / self.dbu,\n                                            n.y_bot / dbu_to_um / self.dbu)\n                    shapes.insert(box)\n", "                for end in (r.node1, r.node2):\n                    for n in cell_data.res_ext_data.rnodes_by_name(end):\n                        shapes.insert(box_for_point_dbu(n.x_bot / dbu_to_um / self.dbu,\n                                                        n.y_bot / dbu_to_um / self.dbu))\n"))
ok('C40', F, ("        for d in cell_data.ext_data.devices:\n            device_cat = self.report.create_category(parent=devices_cat,\n                                                     name=f\"Type={d.device_type} Model={d.model}\")\n            shapes = kdb.Shapes()\n            shapes.insert(kdb.Box(d.x_bot / dbu_to_um / self.dbu,\n                                  d.y_bot / dbu_to_um / self.dbu,\n                                  d.x_top / dbu_to_um / self.dbu,\n                                  d.y_top / dbu_to_um / self.dbu))\n            self.report.create_items(cell_id=rdb_cell.rdb_id(), category_id=device_cat.rdb_id(),\n                                     trans=kdb.CplxTrans(mag=self.dbu), shapes=shapes)\n", "        def add(parent, name, box):\n            c = self.report.create_category(parent=parent, name=name)\n            s = kdb.Shapes()\n            s.insert(box)\n            self.report.create_items(cell_id=rdb_cell.rdb_id(), category_id=c.rdb_id(),\n                                     trans=kdb.CplxTrans(mag=self.dbu), shapes=s)\n\n        for d in cell_data.ext_data.devices:\n            add(devices_cat, f\"Type={d.device_type} Model={d.model}\",\n                kdb.Box(d.x_bot / dbu_to_um / self.dbu,\n                        d.y_bot / dbu_to_um / self.dbu,\n                        d.x_top / dbu_to_um / self.dbu,\n                        d.y_top / dbu_to_um / self.dbu))\n"))

# ---- C35
F = K + 'fastercap/fastercap_model_generator.py'
bug('C35', F, ("""            k_outside = self.materials[k.outside] if k.outside else self.k_void

            k_inside""".replace('\n\n', '\n'), "            k_outside = self.materials[k.inside] if k.inside else self.k_void\n            k_inside"))
bug('C35', F, ("rename_conductor=(idx == last_cond_index))", "rename_conductor=(idx == 0))"))
bug('C35', F, ("collation_operator = '' if idx == last_cond_index else ' +'", "collation_operator = '' if idx == 0 else ' +'"))
bug('C35', F, ("            cond_num += 1\n            last", "            last"))
bug('C35', F, ("                                          cond_number=cond_num,", "                                          cond_number=file_num,"))
bug('C35', F, ("cond_data_grouped_by_net[k.net_name].append((k.outside, data))", "cond_data_grouped_by_net[k.outside].append((k.net_name, data))"))
bug('C35', F, ("rp = Point(self.p0.x + vp.x / vp_abs,", "rp = Point(self.p0.x - vp.x / vp_abs,"))
bug('C35', F, ("        return ' '.join([p.to_fastcap() for p in (self.p0, self.p1, self.p2)])", "        return ' '.join([p.to_fastcap() for p in (self.p0, self.p1, self.p1)])"))
bug('C35', F, ("        return '%.12g %.12g %.12g' % (self.x, self.y, self.z)", "        return '%.12g %.12g %.12g' % (self.x, self.z, self.y)"))
ok('C35', F, ("            lst_file.append(f\"D {fn} {'%.12g' % k_outside} {'%.12g' % k_inside} 0 0 0 {rp_s}\")", "            lst_file.append('D %s %.12g %.12g 0 0 0 %s' % (fn, k_outside, k_inside, rp_s))"))
ok('C35', F, ("        for k, data in self.cond_data.items():\n            if len(data) == 0:\n                continue\n            cond_data_grouped_by_net[k.net_name].append((k.outside, data))",
              "        for k in self.cond_data:\n            triangles = self.cond_data[k]\n            if triangles:\n                cond_data_grouped_by_net[k.net_name].append((k.outside, triangles))"))
ok('C35', F, ("                f.write(f\"T {cond_number}\")\n                f.write(' ' + t.to_fastcap())\n", "                line = [f\"T {cond_number}\", t.to_fastcap()]\n                f.write(' '.join(line))\n"))
ok('C35', F, ("            v2 = self.p2 - self.p0".replace("            ", "        "), "        v2 = self.p2 - self.p1"))
ok('C35', F, ("        vp = Point(v1.y  * v2.z - v1.z * v2.y,\n                   -v1.x * v2.z + v1.z * v2.x,\n                   v1.x  * v2.y - v1.y * v2.x)", "        vp = vector_product(v1, v2)"))
# ---- C36
bug('C36', F, ("                    if l[1] <= zcurr < l[2]:\n                        gen.add_in(name=f\"+{nn}\"", "                    if l[1] <= zcurr <= l[2]:\n                        gen.add_in(name=f\"+{nn}\""))
bug('C36', F, ("                    if l[1] < zcurr <= l[2]:\n                        gen.add_out(name=f\"-{mn}\"", "                    if l[1] < zcurr < l[2]:\n                        gen.add_out(name=f\"-{mn}\""))
bug('C36', F, ("((self.net_names, '+'), (self.materials.keys(), '-'))", "((self.materials.keys(), '-'), (self.net_names, '+'))"))
bug('C36', F, ("                lout += current & all_in\n", ""))
bug('C36', F, ("                lin += current_before & all_out\n", ""))
bug('C36', F, ("                lin -= lout_org\n", ""))
bug('C36', F, ("                lout &= self.state[mk]\n", ""))
bug('C36', F, ("                lin -= all_cout  # handled with the conductor\n", ""))
bug('C36', F, ("                linside -= all_cond  # handled with the conductor\n", ""))
bug('C36', F, ("                        lin -= lout\n                if not lin.is_empty():\n                    self.generate_hdiel", "                if not lin.is_empty():\n                    self.generate_hdiel"))
bug('C36', F, ("                                    self.generate_vdiel(outside=mno, inside=mni, edge=e.swapped_points())", "                                    self.generate_vdiel(outside=mno, inside=mni, edge=e)"))
bug('C36', F, ("                            linside -= loutside\n\n                for e in linside:\n                    self.generate_vdiel", "                            if o > i:\n                                linside -= loutside\n\n                for e in linside:\n                    self.generate_vdiel"))
bug('C36', F, ("            # now it is facing outside (to \"above\")\n            tri = tri.reversed()\n", ""))
bug('C36', F, ("                dk[kk] += list(map(lambda t: t.reversed(), v))", "                dk[kk] += v"))
bug('C36', F, ("            ne = kdb".replace('            ', '        '), "        ne = -1 * kdb")) if False else None
bug('C36', F, ("ne = kdb.DVector(edge.d().y / el, -edge.d().x / el)", "ne = kdb.DVector(-edge.d().y / el, -edge.d().x / el)"))
bug('C36', F, ("            pxy = (p0 + de * pt.x) * self.dbu", "            pxy = (p0 - de * pt.x) * self.dbu"))
bug('C36', F, ("                    self.generate_hcond_in(net_name=nn, below=None, layer=lin)", "                    self.generate_hcond_in(net_name=nn, below=mno, layer=lin)"))
bug('C36', F, ("        lin = pyra[0] - past\n", "        lin = pyra[0].dup()\n"))
bug('C36', F, ("        self.dlayers[name].append((layer, self._z2norm(zstart), self._z2norm(zstop)))".replace('        self', '            self'), "            self.dlayers[name].append((layer, self._z2norm(zstart), self._z2norm(height)))"))
ok('C36', F, ("                    if l[1] <= zcurr < l[2]:\n                        gen.add_in(name=f\"+{nn}\"", "                    bottom, top = l[1:]\n                    if zcurr >= bottom and zcurr < top:\n                        gen.add_in(name=f\"+{nn}\""))
ok('C36', F, ("        z = sorted([*{*z}])  # sort & uniq", "        z = sorted(set(z))"))
ok('C36', F, ("        all_cond = kdb.Region()\n        for nn in self.net_names:\n            mk = f\"+{nn}\"\n            if mk in self.state:\n                all_cond += self.state[mk]\n        all_cond = all_cond.edges()\n",
              "        conductors = kdb.Region()\n        for nn in self.net_names:\n            conductors += self.state.get('+' + nn, kdb.Region())\n        all_cond = conductors.edges()\n"))
ok('C36', F, ("        if key not in self.cond_vdata:\n            self.cond_vdata[key] = kdb.Region()\n\n        self.cond_vdata[key].insert(surface)", "        self.cond_vdata.setdefault(key, kdb.Region()).insert(surface)"))
ok('C36', F, ("        for k in self.diel_data.keys():\n            kk = k.reversed()\n            if kk not in dk:\n                dk[k] = []\n            else:\n                debug(f\"Combining dielectric surfaces {kk} with reverse\")\n\n        for k, v in self.diel_data.items():\n            kk = k.reversed()\n            if kk in dk:\n                dk[kk] += list(map(lambda t: t.reversed(), v))\n            else:\n                dk[k] += v\n",
              "        for k, v in self.diel_data.items():\n            kk = k.reversed()\n            if kk in dk:\n                dk[kk].extend(t.reversed() for t in v)\n            else:\n                dk[k] = list(v)\n"))
# ---- C37
F = K + 'fastercap/fastercap_input_builder.py'
bug('C37', F, ("                metal_z_top = metal_z_bottom + metal_layer.thickness\n", "                metal_z_top = metal_z_bottom\n"))
bug('C37', F, ("                                                    z=metal_layer.z,\n                                                    height=metal_layer.thickness)", "                                                    z=metal_layer.thickness,\n                                                    height=metal_layer.z)"))
bug('C37', F, ("                                                height=contact.thickness)", "                                                height=0.1)"))
bug('C37', F, ("net_name = net.expanded_name()", "net_name = net.name"))
bug('C37', F, ("                    diffusion_regions.append(shapes)\n", ""))
bug('C37', F, ("enlarged(math.floor(8 / self.dbu))", "enlarged(math.floor(8))"))
bug('C37', F, ("substrate_block = enlarged_top_cell_bbox.dup()", "substrate_block = self.top_cell_bbox().dup()"))
bug('C37', F, ("z=0 - substrate_layer.height - substrate_layer.thickness,\n", "z=0 - substrate_layer.height,\n"))
bug('C37', F, ("                            sidewall_height += h_delta\n                            info(f\"Sidewall", "                            sidewall_height = h_delta\n                            info(f\"Sidewall"))
bug('C37', F, ("                            d = math.floor(conf_diel.thickness_sidewall / self.dbu)\n", "                            d = math.floor(conf_diel.thickness_over_metal / self.dbu)\n"))
bug('C37', F, ("                    diel_region -= sidewall_region\n", ""))
bug('C37', F, ("                                no_metal_region -= sidewall_region\n", ""))
bug('C37', F, ("                                                 z=metal_z_bottom + sidewall_height,\n                                                 height=diel_height - sidewall_height)", "                                                 z=metal_z_bottom + sidewall_height,\n                                                 height=diel_height)"))
bug('C37', F, ("                    sidewallee = sidewall.name\n", "                    break\n"))
bug('C37', F, ("gds_pair = self.tech_info.gds_pair_for_computed_layer_name.get(layer_name, None)", "gds_pair = self.tech_info.gds_pair_for_layer_name.get(layer_name, None)"))
bug('C37', F, ("            k_void=self.k_void,\n", "            k_void=3.9,\n"))
bug('C37', F, ("delaunay_b=self.delaunay_b          #", "delaunay_b=self.delaunay_amax          #"))
bug('C37', F, ("        model_builder.add_material(name=fox_layer.name, k=fox_layer.field_oxide_layer.dielectric_k)\n        for diel_name, diel_k in self.tech_info.dielectric_by_name.items():\n            model_builder.add_material(name=diel_name, k=diel_k)\n",
               "        for diel_name, diel_k in self.tech_info.dielectric_by_name.items():\n            model_builder.add_material(name=diel_name, k=diel_k)\n        model_builder.add_material(name=fox_layer.name, k=fox_layer.field_oxide_layer.dielectric_k)\n"))
bug('C37', F, ("                            sidewall_region = sidewall_region.sized(d)\n                            h_delta = sidewall", "                            sidewall_region.size(d)\n                            h_delta = sidewall"))
FT = K + 'tech_info.py'
bug('C37', FT, ("return diel_lyr, lyr.metal_layer.z - found_layer.metal_layer.z", "return diel_lyr, lyr.metal_layer.z"))
bug('C37', FT, ("diel_by_name[pl.name] = pl.conformal_dielectric_layer.dielectric_k", "diel_by_name[pl.name] = pl.simple_dielectric_layer.dielectric_k"))
bug('C37', FT, ("                if not diel_lyr and lyr.layer_type", "                if lyr.layer_type"))if False else None
ok('C37', F, ("                if shapes:\n                    if shapes.count() >= 1:\n                        info(f\"Conductor {net_name}, metal {metal_layer_name}, \"\n                             f\"z={metal_layer.z}, height={metal_layer.thickness}\")\n                        model_builder.add_conductor(net_name=net_name,\n                                                    layer=shapes,\n                                                    z=metal_layer.z,\n                                                    height=metal_layer.thickness)\n",
              "                if shapes is not None and not shapes.is_empty():\n                    model_builder.add_conductor(net_name, shapes, metal_z_bottom, metal_z_top - metal_z_bottom)\n"))
ok('C37', F, ("        for d in diffusion_regions:\n            substrate_region -= d.sized(diffusion_margin)\n", "        holes = kdb.Region()\n        for d in diffusion_regions:\n            holes += d.sized(diffusion_margin)\n        substrate_region = substrate_region - holes\n"))
ok('C37', F, ("        substrate_region = kdb.Region()\n\n        substrate_block = enlarged_top_cell_bbox.dup()\n        substrate_region.insert(substrate_block)\n", "        substrate_region = kdb.Region(enlarged_top_cell_bbox)\n"))
ok('C37', F, ("                            h_delta = sidewall.sidewall_dielectric_layer.height_above_metal or metal_layer.thickness\n", "                            h_delta = sidewall.sidewall_dielectric_layer.height_above_metal\n                            if h_delta == 0:\n                                h_delta = metal_layer.thickness\n"))
ok('C37', F, ("                if no_metal_region:", "                if no_metal_region is not None and not no_metal_region.is_empty():"))
ok('C37', F, ("                while True:\n                    sidewall = self.tech_info.sidewall_dielectric_layer(sidewallee)\n                    if not sidewall:\n                        break\n", "                while (sidewall := self.tech_info.sidewall_dielectric_layer(sidewallee)):\n"))
ok('C37', FT, ("        return list(\n            filter(lambda lyr: lyr.layer_type == process_stack_pb2.ProcessStackInfo.LAYER_TYPE_METAL,\n                   self.tech.process_stack.layers)\n        )", "        return [lyr for lyr in self.tech.process_stack.layers if lyr.layer_type == process_stack_pb2.ProcessStackInfo.LAYER_TYPE_METAL]"))

# ---- C22
F = K + 'rcx25/r/r_extractor.py'
bug('C22', F, ("v.net_name = net_name", "v.net = net_name"))
bug('C22', F, ("l2r.layer.lvs_layer_name = lyr.lvs_layer_name", "l2r.layer_name = lyr.lvs_layer_name"))
bug('C22', F, ("self.shapes_converter.klayout_region_to_pb(r, l2r.region)", "l2r.region = self.shapes_converter.klayout_region_to_pb(r, l2r.region)"))
bug('C22', F, ("rex_request.devices.MergeFrom(devices_by_name.values())", "rex_request.devices = list(devices_by_name.values())"))
bug('C22', F, ("r_node.location.kind = location_pb2.Location.Kind.LOCATION_KIND_POINT", "r_node.location.kind = location_pb2.Location.Kind.LOCATION_KIND_VERTEX"))
bug('C22', F, ("r_network_pb2.RNode.Kind.KIND_UNSPECIFIED", "r_network_pb2.RNode.Kind.KIND_VERTEX"))
bug('C22', F, ("polygon_port_device_terminals[l2r.layer.id].append(t)", "polygon_port_device_terminals[t.layer.id].append(t)"))
bug('C22', F, ("r_node.net_name = r_node.node_name", "r_node.net_name = r_node.node_id"))
bug('C22', F, ("case LK.KIND_PIN:", "case tech_pb2.LayerInfo.Purpose.PURPOSE_CONTACT:"))
bug('C22', F, (".pins.add().CopyFrom(pin)", ".pins.append(pin.net_name)"))
bug('C22', F, (".device_terminals.add().CopyFrom(terminal)", ".device_terminals.add().CopyFrom(device)"))
ok('C22', F, (".pins.add().CopyFrom(pin)", ".pins.append(pin)"))
ok('C22', F, ("            v = net_request_by_name.get(net_name, None)\n            if not v:\n                v = rex_request.net_extraction_requests.add()\n                v.net_name = net_name\n",
   "            v = net_request_by_name.get(net_name)\n            if v is None:\n                v = rex_request.net_extraction_requests.add(net_name=net_name)\n"))
ok('C22', F, ("result_network = rex_result.networks.add()\n            result_network.net_name = net_extraction_request.net_name", "result_network = r_network_pb2.RNetwork(net_name=net_extraction_request.net_name)\n            rex_result.networks.append(result_network)"))
bug('C22', F, ("result_network = rex_result.networks.add()\n            result_network.net_name = net_extraction_request.net_name", "result_network = rex_result.networks.add(name=net_extraction_request.net_name)"))
bug('C22', F, ("result_network = rex_result.networks.add()\n            result_network.net_name = net_extraction_request.net_name", "result_network = r_network_pb2.RNetwork(net=net_extraction_request.net_name)\n            rex_result.networks.append(result_network)"))
F = K + 'tech_info.py'
bug('C22', F, ("LAYER_TYPE_SIDEWALL_DIELECTRIC", "LAYER_TYPE_SIDEWALL"))
bug('C22', F, ("HasField('pin_gds_pair')", "HasField('pin_layer')"))
bug('C22', F, ("lyr.HasField('pin_gds_pair')", "lyr.HasField('name')"))
bug('C22', 'protos/kpex/tech/tech.proto', ("repeated ComputedLayerInfo lvs_computed_layers", "repeated ComputedLayerInfo computed_layers"))
bug('C22', 'protos/kpex/r/r_network.proto', ("resistance", "r_value"))
bug('C22', K + 'fastercap/fastercap_input_builder.py', ("HasField('contact_above')", "HasField('via_above')"))
bug('C22', K + 'rcx25/extractor.py', ("HasField('contact_above')", "HasField('contact')"))
bug('C22', K + 'klayout/lvsdb_extractor.py', ("d.parameters.add()", "d.terminals.add()"))
bug('C22', K + 'klayout/lvsdb_extractor.py', ("pin = pin_pb2.Pin()", "pin = pin_pb2.Pin(name='')"))
bug('C22', K + 'klayout/shapes_pb2_converter.py', ("polygon_pb.hull_points.add()", "polygon_pb.points.add()"))
bug('C22', K + 'rcx25/extraction_reporter.py', ("location_pb2.Location.Kind.LOCATION_KIND_BOX", "r_network_pb2.RNode.Kind.LOCATION_KIND_BOX"))

# ---- C18 helpers of the generator
F = 'cxx/gen_tech_pb/protobuf.cpp'
bug('C18', F, ("gds->set_layer((uint32_t)pin_gds_layer);\n        gds->set_datatype((uint32_t)pin_gds_datatype);", "gds->set_layer((uint32_t)pin_gds_layer);\n        gds->set_datatype((uint32_t)label_gds_datatype);"))
bug('C18', F, ("gds->set_layer((uint32_t)label_gds_layer);", "gds->set_layer((uint32_t)pin_gds_layer);"))
bug('C18', F, ("if (pin_gds_layer >= 0 && pin_gds_datatype >= 0) {", "if (pin_gds_layer > 0 && pin_gds_datatype > 0) {"))
bug('C18', F, ("if (label_gds_layer >= 0 && label_gds_datatype >= 0) {", "if (label_gds_layer >= 0 || label_gds_datatype >= 0) {"))
bug('C18', F, ("if (label_gds_layer >= 0 && label_gds_datatype >= 0) {", "if (pin_gds_layer >= 0 && label_gds_layer >= 0 && label_gds_datatype >= 0) {"))
bug('C18', F, ("sl->set_height(height);\n    sl->set_thickness(thickness);", "sl->set_height(thickness);\n    sl->set_thickness(height);"))
bug('C18', F, ("    co->set_spacing(spacing);\n    co->set_border(border);", "    co->set_spacing(border);\n    co->set_border(spacing);"))
bug('C18', F, ("    co->set_layer_below(layer_below);\n    co->set_metal_above(layer_above);", "    co->set_layer_below(layer_above);\n    co->set_metal_above(layer_below);"))
bug('C18', F, ("    li->set_layer_type(kpex::tech::ProcessStackInfo::LAYER_TYPE_SIMPLE_DIELECTRIC);", "    li->set_layer_type(kpex::tech::ProcessStackInfo::LAYER_TYPE_CONFORMAL_DIELECTRIC);"))
bug('C18', F, ("    cl->set_thickness_where_no_metal(thickness_where_mo_metal);\n    cl->set_thickness_sidewall(thickness_sidewall);", "    cl->set_thickness_where_no_metal(thickness_sidewall);\n    cl->set_thickness_sidewall(thickness_where_mo_metal);"))
bug('C18', F, ("    swc->set_offset(offset);\n", "    if (offset > 0.0) {\n        swc->set_offset(offset);\n    }\n"))
bug('C18', F, ("    if (corner_adjustment_fraction != 0.0) {\n        lr->set", "    if (corner_adjustment_fraction > 0.25) {\n        lr->set"))
bug('C18', F, ("    soc->set_in_layer_name(in_layer);\n    soc->set_out_layer_name(out_layer);", "    soc->set_in_layer_name(out_layer);\n    soc->set_out_layer_name(in_layer);"))
bug('C18', F, ("    oc->set_capacitance(cap);", "    oc->set_capacitance((int)cap);"))
bug('C18', F, ("    sc->set_area_capacitance(area_cap);\n    sc->set_perimeter_capacitance(perimeter_cap);", "    sc->set_area_capacitance(perimeter_cap);\n    sc->set_perimeter_capacitance(area_cap);"))
bug('C18', F, ("    vr->set_layer_above(layer_above);\n", ""))
bug('C18', F, ("                     float area_cap,\n", "                     int area_cap,\n"))
bug('C18', F, ("    cl->set_original_layer_name(original_layer_name);", "    cl->set_original_layer_name(name);"))
bug('C18', F, ("    return ml;", "    return psi->mutable_layers(0)->mutable_metal_layer();"))
ok('C18', F, ("    gds = layer->mutable_drw_gds_pair();\n    gds->set_layer(drw_gds_layer);\n    gds->set_datatype(drw_gds_datatype);", "    layer->mutable_drw_gds_pair()->set_datatype(drw_gds_datatype);\n    layer->mutable_drw_gds_pair()->set_layer(drw_gds_layer);"))
ok('C18', F, ("void addLayer(kpex::tech::Technology *tech,", "static void setPair(kpex::tech::GDSPair *gds, uint32_t layer, uint32_t datatype)\n{\n    gds->set_datatype(datatype);\n    gds->set_layer(layer);\n}\n\nvoid addLayer(kpex::tech::Technology *tech,"),
   ("        gds = layer->mutable_pin_gds_pair();\n        gds->set_layer((uint32_t)pin_gds_layer);\n        gds->set_datatype((uint32_t)pin_gds_datatype);", "        setPair(layer->mutable_pin_gds_pair(), static_cast<uint32_t>(pin_gds_layer), static_cast<uint32_t>(pin_gds_datatype));"))
ok('C18', F, ("    kpex::tech::CapacitanceInfo::SideOverlapCapacitance *soc = ci->add_sideoverlaps();\n    soc->set_in_layer_name(in_layer);\n    soc->set_out_layer_name(out_layer);\n    soc->set_capacitance(cap);",
   "    kpex::tech::CapacitanceInfo::SideOverlapCapacitance entry;\n    entry.set_capacitance(cap);\n    entry.set_out_layer_name(out_layer);\n    entry.set_in_layer_name(in_layer);\n    *ci->add_sideoverlaps() = entry;"))
ok('C18', F, ("                        double resistance)\n{\n    kpex::tech::ResistanceInfo::LayerResistance *lr = ri->add_layers();\n    lr->set_layer_name(layer_name);\n    lr->set_resistance(resistance);\n}", "                        double resistance)\n{\n    addLayerResistance(ri, layer_name, resistance, 0.0);\n}"), ) if False else None
ok('C18', F, ("    if (pin_gds_layer >= 0 && pin_gds_datatype >= 0) {", "    const bool has_pin = !(pin_gds_layer < 0) && pin_gds_datatype > -1;\n    if (has_pin) {"))
ok('C18,C19,C20,C49', F, ("    li->set_layer_type(kpex::tech::ProcessStackInfo::LAYER_TYPE_METAL);\n    kpex::tech::ProcessStackInfo::MetalLayer *ml = li->mutable_metal_layer();\n    ml->set_z(z);\n    ml->set_thickness(thickness);\n    return ml;",
   "    auto *ml = li->mutable_metal_layer();\n    ml->set_thickness(thickness);\n    ml->set_z(z);\n    li->set_layer_type(kpex::tech::ProcessStackInfo::LAYER_TYPE_METAL);\n    return ml;"))

# ---- C19 names
S, I = 'cxx/gen_tech_pb/pdk/sky130A.cpp', 'cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp'
bug('C19', S, ('"met3_ncap", 70, 20,  "met3",', '"met3_ncap", 70, 20,  "met4",'))
bug('C19', S, ('"via2_con",  69, 44,  "via2",', '"via2_con",  70, 44,  "via2",'))
bug('C19', S, ('KCAP, "via3_cap",  70, 244, "via3"', 'KREG, "via3_cap",  70, 244, "via3"'))
bug('C19', S, ('KPIN, "met2_pin_con", 69, 16,  "met2.pin"', 'KPIN, "met2_pin_con", 69, 16,  "met3.pin"'))
bug('C19', S, ('KLBL, "met4_label",   71, 5,', 'KLBL, "met4_label",   71, 16,'))
bug('C19', S, ('"via2_con",       "met2",      "met3",', '"via2_con",       "met2",      "met4",'))
bug('C19', S, ('"via1_con",       "met1",      "met2",', '"via2_con",       "met1",      "met2",'))
bug('C19', S, ('"capild", capild_k, capild_thickness,          0.0,        0.0,   "met4_cap"', '"capild", capild_k, capild_thickness,          0.0,        0.0,   "met4_mim"'))
bug('C19', S, ('addSimpleDielectric(psi, "nild2",  4.05,         "lint");', 'addSimpleDielectric(psi, "nild2",  4.05,         "nild2");'))
bug('C19', S, ('addLayer(tech, METAL,   "met5",   72,20,  72,16,  72,5,', 'addLayer(tech, METAL,   "met5",   72,20,  71,16,  72,5,'))
bug('C19', S, ('addSidewallOverlapCap(ci, "li1",       "met3",      15.08);', 'addSidewallOverlapCap(ci, "li1",       "met3_con",      15.08);'))
bug('C19', I, ('setContact(topvia1_n_cap, "topvia1_n_cap", "metal5_n_cap",', 'setContact(topvia1_n_cap, "topvia1_n_cap", "metal4_con",'))
bug('C19', I, ('KPIN, "metal3_pin_con",     30, 2,  "Metal3.pin"', 'KPIN, "metal3_pin_con",     30, 25,  "Metal3.pin"'))
bug('C19', I, ('"metal5_n_cap",  67, 200, "Metal5"', '"metal5_n_cap",  67, 100, "Metal5"'))
ok('C19,C20,C49,C18', S, ('    addComputedLayer(tech, METAL,   KLBL, "poly_label",   66, 5,  "poly.label", "Poly label");\n', ''), ('    addComputedLayer(tech, METAL,   KLBL, "li_label",', '    addComputedLayer(tech, METAL,   KLBL, "poly_label",   66, 5,  "poly.label", "Poly label");\n    addComputedLayer(tech, METAL,   KLBL, "li_label",'))
ok('C19,C20,C49,C18', S, ('    addLayerResistance(ri, "poly", 48200);  // allpolynonres\n    addLayerResistance(ri, "li1",  12800);\n    addLayerResistance(ri, "met1",   125);\n',
   '    struct Sheet { const char *layer; double mOhm; };\n    const Sheet sheets[] = { { "poly", 48200 }, { "li1", 12800 }, { "met1", 125 } };\n    for (const auto &s : sheets) {\n        addLayerResistance(ri, s.layer, s.mOhm);\n    }\n'))
ok('C19,C20,C49,C18', S, ('    addSidewallCap(ci, "poly",     16.0, 0.0);\n    addSidewallCap(ci, "li1",      25.5, 0.14);\n',
   '    auto sidewall = [ci](const std::string &layer, float cap, float offset) {\n        addSidewallCap(ci, layer, cap, offset);\n    };\n    sidewall("poly", 16.0, 0.0);\n    sidewall("li1", 25.5, 0.14);\n'))
ok('C19,C20,C49,C18', S, ('    addSidewallCap(ci, "met3",     74.0, 0.4);\n    addSidewallCap(ci, "met4",     94.0, 0.57);\n    addSidewallCap(ci, "met5",     155,  0.5);\n',
   '    const std::vector<std::tuple<std::string, float, float>> upper = { {"met3", 74.0f, 0.4f}, {"met4", 94.0f, 0.57f}, {"met5", 155.0f, 0.5f} };\n    for (size_t i = 0; i < upper.size(); ++i) {\n        addSidewallCap(ci, std::get<0>(upper[i]), std::get<1>(upper[i]), std::get<2>(upper[i]));\n    }\n'))
ok('C19,C20,C49,C18', S, ('    addSidewallCap(ci, "met3",     74.0, 0.4);\n    addSidewallCap(ci, "met4",     94.0, 0.57);\n    addSidewallCap(ci, "met5",     155,  0.5);\n',
   '    const std::string prefix = "met";\n    const float caps[3] = { 74.0f, 94.0f, 155.0f };\n    const float offsets[3] = { 0.4f, 0.57f, 0.5f };\n    for (int i = 3; i <= 5; i++) {\n        addSidewallCap(ci, prefix + std::to_string(i), caps[i - 3], offsets[i - 3]);\n    }\n'))
ok('C19,C20,C49,C18', S, ('void buildProcessParasiticsInfo(kpex::tech::ProcessParasiticsInfo *ex) {', 'static void buildSheetResistances(kpex::tech::ResistanceInfo *ri) {\n    addLayerResistance(ri, "poly", 48200);\n    addLayerResistance(ri, "li1",  12800);\n    addLayerResistance(ri, "met1",   125);\n}\n\nvoid buildProcessParasiticsInfo(kpex::tech::ProcessParasiticsInfo *ex) {'),
   ('    addLayerResistance(ri, "poly", 48200);  // allpolynonres\n    addLayerResistance(ri, "li1",  12800);\n    addLayerResistance(ri, "met1",   125);\n', '    buildSheetResistances(ri);\n'))
ok('C19,C20,C49,C18', S, ('    setContact(via,        "via1_con",       "met1",      "met2",      0.27,                    0.15,    0.17,  0.055);\n', '    const double via1_height = 2.0061 - (1.3761 + 0.36);\n    setContact(via,        "via1_con",       "met1",      "met2",      via1_height,                    0.15,    0.17,  0.055);\n'))
ok('C19,C20,C49,C18', S, ('    auto via = met1->mutable_contact_above();\n', '    kpex::tech::ProcessStackInfo::Contact *via = met1->mutable_contact_above();\n'))
ok('C19,C20,C49,C18', S, ('    addSidewallCap(ci, "met3",     74.0, 0.4);\n', '    addSidewallCap(ci, "met3",     74.0, 0.4);\n    if (ci->sidewalls_size() < 1) {\n        std::cerr << "no sidewalls" << std::endl;\n    }\n'), ('#include "protobuf.h"', '#include <iostream>\n#include "protobuf.h"'))
ok('C19,C20,C49,C18', S, ('    addSidewallCap(ci, "met3",     74.0, 0.4);\n', '    addSidewallCap(ci, "met3",     74.0, 0.4);\n    (void)ci;\n    { int unused = 0; (void)unused; }\n'))

# ---- C20 tables
bug('C20', S, ('    addLayerResistance(ri, "met4",    47);\n', ''))
bug('C20', S, ('    addSidewallOverlapCap(ci, "met2",      "met4",      22.33);\n', ''))
bug('C20', S, ('    addSidewallOverlapCap(ci, "met2",      "met5",      15.69);', '    addSidewallOverlapCap(ci, "met2",      "met5",      25.69);'))
bug('C20', S, ('    addSidewallOverlapCap(ci, "met4",      "pwell",     36.68);', '    addSidewallOverlapCap(ci, "met4",      "pwell",     38.66);'))
bug('C20', S, ('    addSidewallOverlapCap(ci, "met3",      "met2",      69.85);\n    addSidewallOverlapCap(ci, "met2",      "met3",      44.43);', '    addSidewallOverlapCap(ci, "met3",      "met2",      44.43);\n    addSidewallOverlapCap(ci, "met2",      "met3",      69.85);')) if False else None
bug('C20', S, ('    addContactResistance(ri, "licon_psd_con",  "psdm",', '    addContactResistance(ri, "licon_psd_con",  "nsdm",'))
bug('C20', S, ('    addSidewallCap(ci, "met2",     50,   0.3);\n', ''))
bug('C20', I, ('    addLayerResistance(ri, "Metal3",', '    addLayerResistance(ri, "Metal2",'))

# ---- C49
bug('C49', S, ('auto met2 = addMetalLayer(psi, "met2", 2.0061, 0.36);', 'auto met2 = addMetalLayer(psi, "met2", 2.0061, 0.26);'))
bug('C49', S, ('auto met5 = addMetalLayer(psi, "met5", 5.3711, 1.26);', 'auto met5 = addMetalLayer(psi, "met5", 5.3711, 0.26);'))
bug('C49', S, ('auto li1 = addMetalLayer(psi, "li1", 0.9361, 0.1);', 'auto li1 = addMetalLayer(psi, "li1", 0.9631, 0.1);'))
bug('C49', S, ('"via2_con",       "met2",      "met3",      0.42,', '"via2_con",       "met2",      "met3",      0.24,'))
bug('C49', S, ('addSimpleDielectric(psi, "nild4",  4.2,         "nild3");', 'addSimpleDielectric(psi, "nild4",  2.4,         "nild3");'))
bug('C49', S, ('addLayerResistance(ri, "met3",    47);', 'addLayerResistance(ri, "met3",    74);'))
bug('C49', S, ('double capild_thickness = 0.02;', 'double capild_thickness = 0.002;')) if False else None
bug('C49', S, ('psi, "capm", 2.7861 + 0.845 + capild_thickness, capm_thickness', 'psi, "capm", 2.7861 + 0.845, capm_thickness'))
bug('C49', I, ('4.1,         1.5,            1.5,      0.3,    "TopMetal2"', '0.41,         1.5,            1.5,      0.3,    "TopMetal2"'))
bug('C49', I, ('"nitride",', '"nitride2",')) if False else None

# ---- C21
F = K + 'kpex_cli.py'
bug('C21', F, ("'kpex', 'sg13g2.lvs'", "'kpex', 'sky130.lvs'"))
bug('C21', F, ("os.path.join(os.path.dirname(base_dir), 'klayout_pex_protobuf')", "os.path.join(base_dir, 'klayout_pex_protobuf')"))
bug('C21', F, ("            base_dir = os.path.dirname(base_dir)\n            tech_pb_json_dir = os.path.join(base_dir, 'klayout_pex_protobuf')", "            tech_pb_json_dir = os.path.join(os.path.dirname(base_dir), 'klayout_pex_protobuf')"))
bug('C21', F, ("            case PDK.SKY130A:\n", "            case _:\n"), ("tech_pb_json_path=os.path.join(tech_pb_json_dir, f\"{self}_tech.pb.json\")\n                )\n\n", "tech_pb_json_path=os.path.join(tech_pb_json_dir, f\"{self}_tech.pb.json\")\n                )\n\n")) if False else None
bug('C21', F, ("                    tech_pb_json_path=os.path.join(tech_pb_json_dir, f\"{self}_tech.pb.json\")\n                )\n            case PDK.SKY130A:", "                    tech_pb_json_path=os.path.join(tech_pb_json_dir, f\"{self.lower()}_tech.pbjson\")\n                )\n            case PDK.SKY130A:"))
bug('C21', F, ("        args.lvs_script_path = pdk_config.pex_lvs_script_path", "        args.lvs_script_path = pdk_config.tech_pb_json_path"))
bug('C21', F, ("        args.tech_pbjson_path = pdk_config.tech_pb_json_path", "        args.tech_pbjson_path = PDK.SKY130A.config.tech_pb_json_path"))
bug('C21', 'cxx/gen_tech_pb/main.cpp', ('writeTech(output_directory, "ihp_sg13g2", tech);', 'writeTech(output_directory, "ihp-sg13g2", tech);'))
bug('C21', 'cxx/gen_tech_pb/main.cpp', ('        sky130A::buildTech(tech);', '        ihp_sg13g2::buildTech(tech);'))
bug('C21', S, ('ex->set_side_halo(8.0);', 'ex->set_side_halo(0.8);'))
bug('C21', S, ('tech.set_name("sky130A");', 'tech.set_name("sky130");'))
ok('C21', F, ("        match self:\n            case PDK.IHP_SG13G2:\n                return PDKConfig(\n                    name=self,\n                    pex_lvs_script_path=os.path.join(base_dir, 'pdk', self, 'libs.tech', 'kpex', 'sg13g2.lvs'),\n                    tech_pb_json_path=os.path.join(tech_pb_json_dir, f\"{self}_tech.pb.json\")\n                )\n            case PDK.SKY130A:\n                return PDKConfig(\n                    name=self,\n                    pex_lvs_script_path=os.path.join(base_dir, 'pdk', self, 'libs.tech', 'kpex', 'sky130.lvs'),\n                    tech_pb_json_path=os.path.join(tech_pb_json_dir, f\"{self}_tech.pb.json\")\n                )\n",
   "        decks = {\n            PDK.IHP_SG13G2: 'sg13g2.lvs',\n            PDK.SKY130A: 'sky130.lvs',\n        }\n        kpex_dir = os.path.join(base_dir, 'pdk', self.value, 'libs.tech', 'kpex')\n        return PDKConfig(self, os.path.join(kpex_dir, decks[self]), os.path.join(tech_pb_json_dir, self + '_tech.pb.json'))\n"))
ok('C21', F, ("        match self:\n            case PDK.IHP_SG13G2:\n                return PDKConfig(\n                    name=self,\n                    pex_lvs_script_path=os.path.join(base_dir, 'pdk', self, 'libs.tech', 'kpex', 'sg13g2.lvs'),\n                    tech_pb_json_path=os.path.join(tech_pb_json_dir, f\"{self}_tech.pb.json\")\n                )\n            case PDK.SKY130A:\n                return PDKConfig(\n                    name=self,\n                    pex_lvs_script_path=os.path.join(base_dir, 'pdk', self, 'libs.tech', 'kpex', 'sky130.lvs'),\n                    tech_pb_json_path=os.path.join(tech_pb_json_dir, f\"{self}_tech.pb.json\")\n                )\n",
   "        if self == PDK.IHP_SG13G2:\n            deck = 'sg13g2.lvs'\n        elif self == PDK.SKY130A:\n            deck = 'sky130.lvs'\n        else:\n            raise NotImplementedError(self)\n        return PDKConfig(name=str(self), pex_lvs_script_path=os.path.join(base_dir, 'pdk', str(self), 'libs.tech', 'kpex', deck),\n                         tech_pb_json_path=os.path.join(tech_pb_json_dir, '%s_tech.pb.json' % self))\n"))
ok('C21', F, ("        args.tech_pbjson_path = pdk_config.tech_pb_json_path\n        args.lvs_script_path = pdk_config.pex_lvs_script_path", "        args.lvs_script_path = args.pdk.config.pex_lvs_script_path\n        args.tech_pbjson_path = args.pdk.config.tech_pb_json_path"))
ok('C21', 'cxx/gen_tech_pb/main.cpp', ('    {\n        kpex::tech::Technology tech;\n        ihp_sg13g2::buildTech(tech);\n        writeTech(output_directory, "ihp_sg13g2", tech);\n    }\n', '    kpex::tech::Technology ihp;\n    ihp_sg13g2::buildTech(ihp);\n    writeTech(output_directory, ihp.name(), ihp);\n'))

# ---- C23, C50 decks
DS, DI = 'pdk/sky130A/libs.tech/kpex/sky130.lvs', 'pdk/ihp_sg13g2/libs.tech/kpex/sg13g2.lvs'
DL = 'pdk/ihp_sg13g2/libs.tech/kpex/rule_decks/layers_definitions.lvs'
DG = 'pdk/ihp_sg13g2/libs.tech/kpex/rule_decks/general_derivations.lvs'
DC = 'pdk/ihp_sg13g2/libs.tech/kpex/rule_decks/general_connections.lvs'
bug('C23', DS, ("  %w(licon_poly_con licon_nsd_con licon_psd_con).each", "  %w(licon_poly_con licon_nsd_con).each"))
bug('C23', DS, ("met3_pin    = polygons(70 , 16 )", "met3_pin    = polygons(70 , 20 )"))
bug('C23', DS, ("met4_cap  = met4_con.and(capm2)", "met4_cap  = met3_con.and(capm2)"))
bug('C23', DS, ("met2_label      = labels(69 , 5)", "met2_label      = labels(69 , 6)"))
bug('C23', DS, ("via2        = polygons(69 , 44 )", "via2        = polygons(68 , 44 )"))
bug('C23', DS, ("li_con    = li.not( li_res ).not(vpp)", "li_con    = li.or(met1).not( li_res ).not(vpp)"))
bug('C23', DI, ("metal5_n_cap = metal5_drw.not(mim_drw)", "metal5_n_cap = metal4_drw.not(mim_drw)"))
bug('C23', DI, ("  cont_poly_con cont_nsd_con cont_psd_con\n)", "  cont_poly_con cont_nsd_con\n)"))
bug('C23', DI, ("cont_nsd_con = cont_drw.and(nsd_fet)", "cont_nsd_con = nsd_fet.and(cont_drw)"))
bug('C23', DG, ("metal3_con    = metal3.not(metal3_res)", "metal3_con    = metal2.not(metal3_res)"))
bug('C50', DS, ("connect(via2_con    ,     met3_ncap)\n", ""))
bug('C50', DS, ("connect(met4_ncap   ,     via4_ncap)", "connect(met3_ncap   ,     via4_ncap)"))
bug('C50', DS, ("connect(met2_con    ,     met2_label)", "connect(met3_ncap    ,     met2_label)"))
bug('C50', DS, ("connect(met5_con    ,      met5_pin_con)", "connect(met4_ncap    ,      met5_pin_con)"))
bug('C50', DC, ("connect(via4_drw, metal5_con)", "connect(via4_drw, topmetal1_con)"))
bug('C50', DC, ("connect(metal2_con, via2_drw)", "connect(metal1_con, via2_drw)"))
bug('C50', DI, ("connect(metal5_n_cap, metal5_con)\n", "connect(metal5_n_cap, metal4_con)\n"))
bug('C50', 'pdk/ihp_sg13g2/libs.tech/kpex/rule_decks/cap_connections.lvs', ("connect(mim_via, topmetal1_con)\n", ""))
ok('C23,C50', DS, ("  %w(licon_poly_con licon_nsd_con licon_psd_con).each do |l|\n    name(eval(l), l)\n  end", "  ['licon_poly_con', 'licon_nsd_con', 'licon_psd_con'].each { |l| name(eval(l), l) }"))
ok('C23,C50', DS, ("  %w(licon_poly_con licon_nsd_con licon_psd_con).each do |l|\n    name(eval(l), l)\n  end", "  name(licon_poly_con, 'licon_poly_con')\n  name(licon_nsd_con, 'licon_nsd_con')\n  name(licon_psd_con, \"licon_psd_con\")"))
ok('C23,C50', DS, ("met3_ncap = met3_con.not(capm)", "met3_ncap = met3_con - capm"))
ok('C23,C50', DS, ("via2_con  = via2.not(vpp)", "via2_open = via2.\n  not(vpp)   # no MOM cap\nvia2_con  = via2_open"))
ok('C23,C50', DS, ("connect(via2_con    ,     met3_ncap)", "connect(met3_ncap, via2_con)"))
ok('C23,C50', DI, ("  all_layer_names.each do |l|\n    name(eval(l), l)\n  end", "  for_export = all_layer_names\n  all_layer_names.each { |n| name(eval(n), n) }"))

# ---- C47
X = K + 'rcx25/extractor.py'
bug('C47', X, ("all_layer_names = list(layer_regions_by_name.keys())", "all_layer_names = list(set(layer_regions_by_name.keys()))"))
bug('C47', X, ("all_layer_names = list(layer_regions_by_name.keys())", "all_layer_names = list(layer_regions_by_name.keys() | {self.tech_info.internal_substrate_layer_name})"))
bug('C47', X, ("all_layer_names = list(layer_regions_by_name.keys())", "all_layer_names = sorted({n for n in layer_regions_by_name}, key=len)"))
ok('C47', X, ("all_layer_names = list(layer_regions_by_name.keys())", "all_layer_names = list(dict.fromkeys(layer_regions_by_name))"))
ok('C47', X, ("all_layer_names = list(layer_regions_by_name.keys())", "all_layer_names = [n for n in layer_regions_by_name]"))
ok('C47', X, ("all_layer_names = list(layer_regions_by_name.keys())", "seen = set()\n        all_layer_names = []\n        for n in layer_regions_by_name:\n            if n not in seen:\n                seen.add(n)\n                all_layer_names.append(n)"))
ok('C47', X, ("all_layer_names = list(layer_regions_by_name.keys())", "all_layer_names = sorted(set(layer_regions_by_name), key=list(layer_regions_by_name).index)")) if False else None
F = K + 'klayout/repair_rdb.py'
bug('C47', F, ("    category_paths.sort()\n", ""))
bug('C47', F, ("    category_paths.sort()\n", "    category_paths.sort(key=len)\n"))
ok('C47', F, ("    category_paths = [parse_category_path(c) for c in categories]\n    category_paths.sort()\n", "    category_paths = sorted(parse_category_path(c) for c in categories)\n"))
ok('C47', F, ("    category_paths = [parse_category_path(c) for c in categories]\n    category_paths.sort()\n", "    category_paths = []\n    for c in categories:\n        category_paths.append(parse_category_path(c))\n    category_paths.sort()\n"))
ok('C47', F, ("    category_paths = [parse_category_path(c) for c in categories]\n    category_paths.sort()\n", "    category_paths = [parse_category_path(c) for c in sorted(categories)]\n"))
F = K + 'fastercap/fastercap_model_generator.py'
bug('C47', F, ("net_names=list(self.clayers.keys()))", "net_names=list(set(self.clayers)))"))
bug('C47', F, ("for names, prefix in ((self.net_names, '+'), (self.materials.keys(), '-')):", "for names, prefix in ((set(self.net_names), '+'), (self.materials.keys(), '-')):"))
bug('C47', F, ("        for mni in self.materials.keys():\n", "        for mni in set(self.materials):\n"))
ok('C47', F, ("z = sorted([*{*z}])", "z = sorted(set(z))"))
bug('C47', F, ("z = sorted([*{*z}])  # sort & uniq", "z = [*{*z}]"))
F = K + 'rcx25/extraction_results.py'
bug('C47', F, ("            for couple_key, cap in s.capacitances.items():\n                merged_capacitances[couple_key.normed()] += cap\n", "            for couple_key in set(s.capacitances):\n                merged_capacitances[couple_key.normed()] += s.capacitances[couple_key]\n"))
bug('C47', F, ("        merged_capacitances = defaultdict(float)\n", "        keys = {k.normed() for s in summaries for k in s.capacitances}\n        merged_capacitances = defaultdict(float, {k: 0.0 for k in keys})\n"))
ok('C47', F, ("        subsummaries = [s.summarize() for s in self.cell_extraction_results.values()]\n", "        subsummaries = []\n        for name, s in self.cell_extraction_results.items():\n            subsummaries.append(s.summarize())\n"))
bug('C47', F, ("        subsummaries = [s.summarize() for s in self.cell_extraction_results.values()]\n", "        names = frozenset(self.cell_extraction_results)\n        subsummaries = [self.cell_extraction_results[n].summarize() for n in names]\n"))
F = K + 'rcx25/netlist_expander.py'
bug('C47', F, ("        for key, _ in cap_items:\n            add_net_if_needed(key.net1)\n            add_net_if_needed(key.net2)\n", "        for n in {k.net1 for k, _ in cap_items} | {k.net2 for k, _ in cap_items}:\n            add_net_if_needed(n)\n"))
ok('C47', F, ("        for key, _ in cap_items:\n            add_net_if_needed(key.net1)\n            add_net_if_needed(key.net2)\n", "        for n in sorted({k.net1 for k, _ in cap_items} | {k.net2 for k, _ in cap_items}):\n            add_net_if_needed(n)\n"))
ok('C47', F, ("            add_net_if_needed(key.net1)\n            add_net_if_needed(key.net2)\n        for key, _ in res_items", "            nets = {key.net1, key.net2}\n            if len(nets) < 2:\n                warning('same net')\n            add_net_if_needed(key.net1)\n            add_net_if_needed(key.net2)\n        for key, _ in res_items"))
F = K + 'rcx25/r/resistor_network.py'
bug('C47', F, ("for nid in sorted(self.node_to_s.keys()):", "for nid in {id(n) for n in self.node_to_s}:"))
F = K + 'magic/magic_ext_file_parser.py'
bug('C47', F, ("sorted(run_dir.glob('*.ext'))", "run_dir.glob('*.ext')"))
bug('C47', F, ("sorted(run_dir.glob('*.ext'))", "[run_dir / n for n in os.listdir(run_dir) if n.endswith('.ext')]"), ("import re\n", "import os\nimport re\n"))
bug('C47', F, ("sorted(run_dir.glob('*.ext'))", "sorted(run_dir.glob('*.ext'), key=lambda p: len(p.name))"))
ok('C47', F, ("sorted(run_dir.glob('*.ext'))", "sorted(run_dir.iterdir())"))
F = K + 'fastercap/fastercap_input_builder.py'
bug('C47', F, ("        netlist: kdb.Netlist = lvsdb.netlist()\n", "        netlist: kdb.Netlist = lvsdb.netlist()\n        import random\n        seed = random.random()\n"))

# ---- C48
F = K + 'common/capacitance_matrix.py'
bug('C48', F, ("copy.deepcopy(self)", "copy.copy(self)"))
bug('C48', F, ("copy.deepcopy(self)", "CapacitanceMatrix(conductor_names=self.conductor_names, rows=list(self.rows))"))
bug('C48', F, ("copy.deepcopy(self)", "CapacitanceMatrix(self.conductor_names, self.rows[:])"))
ok('C48', F, ("copy.deepcopy(self)", "CapacitanceMatrix(conductor_names=list(self.conductor_names), rows=[list(r) for r in self.rows])"))
ok('C48', F, ("copy.deepcopy(self)", "CapacitanceMatrix(conductor_names=list(self.conductor_names), rows=[r[:] for r in self.rows])"))
bug('C48', F, ("            for row in self.rows:\n                cells =", "            for row in self.rows:\n                row[0] = abs(row[0])\n                cells ="))
F = K + 'klayout/netlist_expander.py'
bug('C48', F, ("extracted_netlist.dup()", "extracted_netlist"))
bug('C48', F, ("top_circuit: kdb.Circuit = expanded_netlist.circuit_by_name(top_cell_name)", "top_circuit: kdb.Circuit = extracted_netlist.circuit_by_name(top_cell_name)"))
bug('C48', F, ("                cap_ii -= cap_value  # subtract summands to filter out Cii\n", "                cap_ii -= cap_value  # subtract summands to filter out Cii\n                row[i] = cap_ii\n"))
bug('C48', F, ("        for idx, nn in enumerate(cap_matrix.conductor_names):\n", "        names = cap_matrix.conductor_names\n        names.reverse()\n        for idx, nn in enumerate(names):\n"))
ok('C48', F, ("        for idx, nn in enumerate(cap_matrix.conductor_names):\n", "        names = list(cap_matrix.conductor_names)\n        names.append('')\n        names.pop()\n        for idx, nn in enumerate(names):\n"))
ok('C48', F, ("        expanded_netlist: kdb.Netlist = extracted_netlist.dup()\n", "        work = extracted_netlist\n        work = work.dup()\n        expanded_netlist: kdb.Netlist = work\n"))
F = K + 'klayout/netlist_reducer.py'
bug('C48', F, ("netlist.dup()", "netlist"))
bug('C48', F, ("        reduced_netlist.combine_devices()  # merge C/R\n", "        netlist.combine_devices()\n        reduced_netlist = netlist.dup()\n"))
F = K + 'rcx25/netlist_expander.py'
bug('C48', F, ("extracted_netlist.dup()", "extracted_netlist"))
bug('C48', F, ("                    case kdb.DeviceClassCapacitor | kdb.DeviceClassCapacitorWithBulk:\n", "                    case kdb.DeviceClassCapacitor | kdb.DeviceClassCapacitorWithBulk:\n                        extracted_netlist.circuit_by_name(top_cell_name).blank()\n"))
F = K + 'rcx25/extraction_results.py'
bug('C48', F, ("        merged_capacitances = defaultdict(float)\n", "        merged_capacitances = summaries[0].capacitances\n"), ("        for s in summaries:\n", "        for s in summaries[1:]:\n"))
bug('C48', F, ("        for s in summaries:\n", "        for s in summaries:\n            s.resistances.pop(None, None)\n"))
bug('C48', F, ("            return NetCoupleKey(self.net2, self.net1)", "            object.__setattr__(self, 'net1', self.net2)\n            return self")) if False else None
ok('C48', F, ("        merged_capacitances = defaultdict(float)\n", "        merged_capacitances = defaultdict(float)\n        merged_capacitances.update({})\n"))
bug('C48', F, ("            node_by_id: Dict[int, r_network_pb2.RNode] = {n.node_id: n for n in network.nodes}\n", "            node_by_id: Dict[int, r_network_pb2.RNode] = {n.node_id: n for n in network.nodes}\n            for n in node_by_id.values():\n                n.net_name = n.net_name.strip()\n"))
bug('C48', F, ("        for key, entries in self.overlap_table.items():\n", "        self.overlap_table.pop(None, None)\n        for key, entries in self.overlap_table.items():\n"))
F = K + 'rcx25/r/conductance.py'
bug('C48', F, ("return self.copy().add_parallel(other)", "return self.add_parallel(other)"))
bug('C48', F, ("return self.copy().add_serial(other)", "return other.add_serial(self)"))
bug('C48', F, ("        return Conductance(self.cond)", "        return self"))
F = K + 'rcx25/extractor.py'
bug('C48', F, ("                layer_regions_by_name[canonical_layer_name] += all_layer_shapes\n", "                layer_regions_by_name[canonical_layer_name] = all_layer_shapes\n                layer_regions_by_name[canonical_layer_name] += kdb.Region()\n"))
bug('C48', F, ("                all_layer_shapes.enable_properties()\n", "                all_layer_shapes.enable_properties()\n                all_layer_shapes.merge()\n"))
bug('C48', F, ("        all_region = kdb.Region()\n        all_region.enable_properties()\n", "        all_region = self.shapes_of_layer(self.tech_info.process_metal_layers[0].name)\n"))
ok('C48', F, ("                all_layer_shapes.enable_properties()\n", "                all_layer_shapes.enable_properties()\n                all_layer_shapes = all_layer_shapes.dup()\n                all_layer_shapes.merge()\n"))
bug('C48', F, ("        side_halo_um = self.tech_info.tech.process_parasitics.side_halo\n", "        self.tech_info.tech.process_parasitics.side_halo = max(1.0, self.tech_info.tech.process_parasitics.side_halo)\n        side_halo_um = self.tech_info.tech.process_parasitics.side_halo\n"))
F = K + 'rcx25/c/sidewall_and_fringe_extractor.py'
F = K + 'fastercap/fastercap_model_generator.py'
bug('C48', F, ("            self.layers_in[name] = kdb.Region([])\n        self.layers_in[name] += layer", "            self.layers_in[name] = layer\n        else:\n            self.layers_in[name] += layer"))
bug('C48', F, ("            self.layers_out[name] = kdb.Region([])\n        self.layers_out[name] += layer", "            self.layers_out[name] = layer\n        else:\n            self.layers_out[name].insert(layer)"))
ok('C48', F, ("            self.layers_in[name] = kdb.Region([])\n        self.layers_in[name] += layer", "            self.layers_in[name] = layer.dup()\n        else:\n            self.layers_in[name] += layer"))
bug('C48', F, ("        self.materials = materials\n", "        self.materials = materials\n        self.materials['(void)'] = k_void\n"))if False else None
bug('C48', F, ("        if len(z) == 0:\n            return None\n", "        if len(z) == 0:\n            return None\n        self.clayers.pop('', None)\n"))
F = K + 'fastercap/fastercap_input_builder.py'
bug('C48', F, ("        shapes = self.pex_context.shapes_of_layer(gds_pair=gds_pair)\n        if not shapes:\n            debug(f\"Nothing extracted for layer {layer_name}\")\n        return shapes\n\n    def top", "        shapes = self.pex_context.shapes_of_layer(gds_pair=gds_pair)\n        if not shapes:\n            debug(f\"Nothing extracted for layer {layer_name}\")\n        else:\n            shapes.merge()\n        return shapes\n\n    def top"))
bug('C48', F, ("        netlist: kdb.Netlist = lvsdb.netlist()\n", "        netlist: kdb.Netlist = lvsdb.netlist()\n        netlist.purge()\n"))
bug('C48', F, ("        netlist: kdb.Netlist = lvsdb.netlist()\n", "        netlist: kdb.Netlist = lvsdb.netlist()\n        netlist.flatten_circuits('*')\n"))
ok('C48', F, ("        netlist: kdb.Netlist = lvsdb.netlist()\n", "        netlist: kdb.Netlist = lvsdb.netlist().dup()\n        netlist.purge()\n"))
F = K + 'klayout/lvsdb_extractor.py'
bug('C48', F, ("                for sl in lyr.source_layers:\n                    add_shapes_from_region(sl.region)\n", "                shapes = lyr.source_layers[0].region\n                for sl in lyr.source_layers[1:]:\n                    add_shapes_from_region(sl.region)\n"))if False else None
bug('C48', F, ("                shapes = kdb.Region()\n                shapes.enable_properties()\n                for sl in lyr.source_layers:\n                    iter,", "                shapes = lyr.source_layers[0].region\n                shapes.enable_properties()\n                for sl in lyr.source_layers[1:]:\n                    iter,"))
F = K + 'util/multiple_choice.py'
F = K + 'rcx25/r/r_extractor.py'
bug('C48', F, ("        for net_extraction_request in rex_request.net_extraction_requests:\n", "        for net_extraction_request in rex_request.net_extraction_requests:\n            net_extraction_request.ClearField('pins')\n"))
F = K + 'klayout/netlist_csv.py'
F = K + 'tech_info.py'


# ---------------------------------------------------------------- C01, C02, C03, C08, C11 runners
LOOP = """        while True:
            line = proc.stdout.readline()
            if not line:
                break
            subproc(line[:-1])  # remove newline
            f.writelines([line])
    proc.wait()
"""
POPEN = """    proc = subprocess.Popen(args,
                            stdin=subprocess.DEVNULL,
                            stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT,
                            universal_newlines=True,
                            text=True)
"""
for F, N in ((K + 'fastercap/fastercap_runner.py', 'FasterCap'), (K + 'fastcap/fastcap_runner.py', 'FastCap2'), (K + 'magic/magic_runner.py', 'MAGIC')):
    R = 'C01,C02,C03,C08'
    ERR = f"""    if proc.returncode == 0:
        info(f"{N} succeeded after {{'%.4g' % duration}}s")
    else:
        raise Exception("""
    bug('C01', F, ("if proc.returncode == 0:", "if proc.returncode != 1:"))
    bug('C01', F, ("if proc.returncode == 0:", "if proc.returncode <= 0:"))
    bug('C01', F, ("if proc.returncode == 0:", "if not proc.returncode or proc.returncode == -9:"))
    bug('C01', F, ("if proc.returncode == 0:", "if proc.returncode >= 0:"))
    bug('C01', F, ("if proc.returncode == 0:", "if proc.poll() is not None:"))
    bug('C01', F, ("    proc.wait()\n", "    proc.wait()\n    if duration_limit_reached():\n        return\n".replace('duration_limit_reached()', 'os.path.getsize(log_path) > 100')))
    bug('C01', F, ("        raise Exception(f", "        info(f"))
    bug('C01', F, ("    proc.wait()\n", "    proc.poll()\n")) if False else None
    bug('C01', F, ("    proc.wait()\n", ""))
    bug('C01', F, (LOOP, "        try:\n" + ''.join('    ' + l + '\n' for l in LOOP.splitlines()[:-1]) + "        except OSError:\n            return\n    proc.wait()\n"))
    bug('C02', F, ("            f.writelines([line])\n", "            if len(line) > 1:\n                f.writelines([line])\n"))
    bug('C02', F, ("            f.writelines([line])\n", "            f.writelines([line.strip()])\n"))
    bug('C02', F, ("            if not line:\n", "            if not line.strip():\n"))
    bug('C02', F, ("            if not line:\n                break\n", "            if not line and proc.poll() is not None:\n                break\n            if not line.isascii():\n                continue\n"))
    bug('C02', F, ("stderr=subprocess.STDOUT", "stderr=subprocess.DEVNULL"))
    bug('C02', F, ("stderr=subprocess.STDOUT", "stderr=subprocess.PIPE"))
    bug('C02', F, ("        while True:\n", "        while proc.poll() is None:\n"))
    bug('C02', F, ("            if not line:\n                break\n            subproc", "            if not line or proc.poll() is not None:\n                break\n            subproc"))
    ok(R, F, (LOOP, "        for line in proc.stdout:\n            subproc(line[:-1])\n            f.write(line)\n    proc.wait()\n"))
    ok(R, F, (LOOP, "        while (line := proc.stdout.readline()):\n            subproc(line.rstrip('\\n'))\n            f.write(line)\n    proc.wait()\n"))
    ok(R, F, (LOOP, "        line = proc.stdout.readline()\n        while line:\n            f.write(line)\n            subproc(line[:-1])\n            line = proc.stdout.readline()\n    proc.wait()\n"))
    ok(R, F, (LOOP, "        for line in iter(proc.stdout.readline, ''):\n            f.write(line)\n            subproc(line[:-1])\n    proc.wait()\n"))
    ok(R, F, (LOOP, "        stdout = proc.stdout\n" + LOOP.replace('proc.stdout.', 'stdout.').replace("if not line:", "if line == '':")))
    ok(R, F, (LOOP, LOOP.replace("    proc.wait()\n", "    returncode = proc.wait()\n")), ("if proc.returncode == 0:", "if returncode == 0:"), ("status code {proc.returncode}", "status code {returncode}"))
    ok(R, F, ("if proc.returncode == 0:", "succeeded = proc.returncode == 0\n    if succeeded:"))
    ok(R, F, ("    if proc.returncode == 0:\n", "    if proc.returncode != 0:\n        raise Exception(f\"failed with status code {proc.returncode}, see log file: {log_path}\")\n    if proc.returncode == 0:\n"))
    ok(R, F, ("    if proc.returncode == 0:\n", "    if proc.returncode:\n        raise RuntimeError(f\"failed with status code {proc.returncode}, see log file: {log_path}\")\n    if not proc.returncode:\n"))
    ok(R, F, ("                            universal_newlines=True,\n", ""))
    ok(R, F, ("    proc = subprocess.Popen(args,", "    options = {'bufsize': 1}\n    proc = subprocess.Popen(args, **options,"))
    ok(R, F, ("    with open(log_path, 'w', encoding='utf-8') as f:\n" + LOOP, "    _log_output(proc, log_path)\n    proc.wait()\n"),
       ("\n\ndef run_", "\n\ndef _log_output(proc, log_path):\n    with open(log_path, 'w', encoding='utf-8') as f:\n" + LOOP.replace("    proc.wait()\n", '') + "\n\ndef run_"))
    ok(R, F, ("    with open(log_path, 'w', encoding='utf-8') as f:\n" + LOOP, "    with proc, open(log_path, 'w', encoding='utf-8') as f:\n" + LOOP.replace("    proc.wait()\n", '')))
    ok(R, F, ("    with open(log_path, 'w', encoding='utf-8') as f:\n" + LOOP, "    f = open(log_path, 'w', encoding='utf-8')\n    try:\n" + LOOP.replace("    proc.wait()\n", '') + "    finally:\n        f.close()\n    proc.wait()\n"))
    ok(R, F, ("    duration = time.time() - start\n", "    duration = time.time() - start\n    log_size = len(args)\n"))
    ok(R, F, ("    if proc.returncode == 0:\n", "    _check(proc, duration, log_path)\n\n\ndef _check(proc, duration, log_path):\n    if proc.returncode == 0:\n"))
F = K + 'fastercap/fastercap_runner.py'
bug('C03', F, ('f"-m{mesh_refinement_value}"', 'f"-m{d_coeff}"'))
bug('C03', F, ('f"-a{tolerance}"', 'f"-a{tolerance:.2f}"'))
bug('C03', F, ("if ooc_condition is not None:", "if ooc_condition:"))
bug('C03', F, ("if galerkin_scheme:", "if galerkin_scheme and not auto_preconditioner:"))
bug('C03', F, ("if jacobi_preconditioner:", "elif jacobi_preconditioner:")) if False else None
bug('C03', F, ("args += ['-pj']", "args += ['-p']"))
bug('C03', F, ("        args += ['-g']\n\n    if jacobi", "        args += ['-g']\n    elif jacobi"))
bug('C03', F, ("    args += [\n        lst_file_path\n    ]\n", "    args.insert(1, lst_file_path)\n")) if False else None
ok('C03', F, ("    if galerkin_scheme:\n        args += ['-g']\n\n    if jacobi_preconditioner:\n        args += ['-pj']\n\n    args += [\n        lst_file_path\n    ]\n",
              "    args.extend(flag for flag, on in (('-g', galerkin_scheme), ('-pj', jacobi_preconditioner)) if on)\n    args.append(lst_file_path)\n"))
ok('C03', F, ("    if galerkin_scheme:\n        args += ['-g']\n", "    args += ['-g'] if galerkin_scheme else []\n"))
ok('C03', F, ("    if ooc_condition is not None:\n        args += [f\"-f{ooc_condition}\"]\n", "    if ooc_condition is None:\n        pass\n    else:\n        args.append('-f' + str(ooc_condition))\n"))
ok('C03', F, ('f"-a{tolerance}"', '"-a%s" % tolerance'))
ok('C03', F, ('f"-a{tolerance}"', '"-a{}".format(tolerance)'))
bug('C11', F, ("idx-1-dim, idx-1)):", "idx-1-dim, idx-2)):"))
bug('C11', F, ("rlines.reverse()", "pass"))
bug('C11', F, ("/1e6", "/1e3"))
bug('C11', F, ("in reversed(range", "in (range"))
bug('C11', F, ("cells[1:]", "cells[2:]"))
bug('C11', F, ("int(m.group(1))", "int(m.group(1)[0])"))
bug('C11', F, ("                return cm\n", "                break\n        return cm\n")) if False else None
ok('C11', F, ("                    cells = [cell.strip() for cell in line.split(' ')]\n                    cells = list(filter(lambda c: len(c) >= 1, cells))\n", "                    cells = line.split()\n"))
ok('C11', F, ("                    conductor_names.append(cells[0])\n                    row = [float(cell)/1e6 for cell in cells[1:]]\n", "                    name, *values = cells\n                    conductor_names.append(name)\n                    row = [float(v) / 1e6 for v in values]\n"))
ok('C11', F, ("float(cell)/1e6", "float(cell) * 1e-6"))
ok('C11', F, ("        rlines = f.readlines()\n        rlines.reverse()\n", "        rlines = list(reversed(f.readlines()))\n"))
ok('C11', F, ("        rlines = f.readlines()\n        rlines.reverse()\n", "        rlines = f.readlines()[::-1]\n"))
ok('C11', F, ("        rlines = f.readlines()\n        rlines.reverse()\n", "        rlines = f.readlines()\n    rlines.reverse()\n    if True:\n"))
ok('C11', F, ("                for i in reversed(range(idx-1-dim, idx-1)):\n                    line = rlines[i].strip()\n", "                for i in range(dim):\n                    line = rlines[idx - 2 - i].strip()\n"))
ok('C11', F, ("                for i in reversed(range(idx-1-dim, idx-1)):\n                    line = rlines[i].strip()\n", "                for i in range(idx - 2, idx - 2 - dim, -1):\n                    line = rlines[i].strip()\n"))
ok('C11', F, ("            if line.strip() == \"Capacitance matrix is:\":\n", "            if line.strip() != \"Capacitance matrix is:\":\n                continue\n            if True:\n"))
ok('C11', F, ("                for i in reversed(range(idx-1-dim, idx-1)):\n                    line = rlines[i].strip()\n", "                for line in reversed(rlines[idx-1-dim:idx-1]):\n                    line = line.strip()\n"))
ok('C11', F, ("def fastercap_parse", "_DIM = re.compile(r'^Dimension (\\d+) x (\\d+)$')\n\n\ndef fastercap_parse"), ("re.match(r'^Dimension (\\d+) x (\\d+)$', rlines[idx-1])", "_DIM.match(rlines[idx - 1])"))
F = K + 'fastcap/fastcap_runner.py'
bug('C11', F, ("'femtofarads': 1e-15", "'femtofarads': 1e-12"))
bug('C11', F, ("rlines.reverse()", "pass"))
bug('C11', F, ("cells.pop(1)", "cells.pop(0)"))
bug('C11', F, ("cells[1:]]", "cells[1:dim]]"))
bug('C11', F, ("                    cells.pop(1)\n", "                    if cells[1] == str(row_number):\n                        cells.pop(1)\n"))
bug('C11', F, ("UNIT_FACTOR_BY_NAME.get(unit_str, None)", "UNIT_FACTOR_BY_NAME.get(unit_str, 1e-12)"))
ok('C11', F, ("                    cells = [cell.strip() for cell in line.split(' ')]\n                    cells = list(filter(lambda c: len(c) >= 1, cells))\n", "                    cells = line.split()\n"))
ok('C11', F, ("                    cells.pop(1)\n", "                    del cells[1]\n"))
ok('C11', F, ("                    cells.pop(1)\n                    conductor_names.append(cells[0])\n                    row = [float(cell)*unit_factor/1e6 for cell in cells[1:]]\n", "                    conductor_names.append(cells[0])\n                    row = [unit_factor / 1e6 * float(cell) for cell in cells[2:]]\n"))
ok('C11', F, ("                unit_factor = UNIT_FACTOR_BY_NAME.get(unit_str, None)\n                if unit_factor is None:\n", "                unit_factor = UNIT_FACTOR_BY_NAME.get(unit_str)\n                if not unit_factor:\n"))
ok('C11', F, ("                unit_factor = UNIT_FACTOR_BY_NAME.get(unit_str, None)\n                if unit_factor is None:\n                    raise Exception(f\"Unknown capacitor unit '{unit_str}'\")\n", "                if unit_str not in UNIT_FACTOR_BY_NAME:\n                    raise Exception(f\"Unknown capacitor unit '{unit_str}'\")\n                unit_factor = UNIT_FACTOR_BY_NAME[unit_str]\n"))
ok('C11', F, ("for i in reversed(range(idx-1-dim, idx-1)):\n                    line", "for row_number, i in enumerate(reversed(range(idx-1-dim, idx-1)), start=1):\n                    line"), ("                    row_number = len(rows) + 1\n", ""))
bug('C03,C08', F, ('f"-l{lst_file_path}"', 'f"-l{log_path}"'))
bug('C08', F, ("cwd=work_dir", "cwd='.'"))
bug('C08,C02', F, ("log_path = os.path.abspath(log_path)\n", "os.chdir(work_dir)\n"))
bug('C03,C08', F, ('f"-t{iterative_tolerance}"', 'f"-t{permittivity_factor}"'))
ok('C08,C03,C02', F, ("    log_path = os.path.abspath(log_path)\n", ""))
ok('C08,C03,C02', F, ("work_dir = os.path.abspath(os.path.dirname(lst_file_path))", "work_dir = os.path.dirname(os.path.abspath(lst_file_path))"))
ok('C08,C03,C02', F, ("    work_dir = os.path.abspath(os.path.dirname(lst_file_path))\n    log_path = os.path.abspath(log_path)\n    lst_file_path = os.path.basename(lst_file_path)\n", "    directory, lst_file_name = os.path.split(os.path.abspath(lst_file_path))\n    work_dir = directory\n    log_path = os.path.abspath(log_path)\n"), ('{lst_file_path}",', '{lst_file_name}",'))


# ---------------------------------------------------------------- C03-C08 command line
F = K + 'kpex_cli.py'
A = 'C03,C04,C05,C06,C07,C08,C30,C38,C47'
# C04
bug('C04', F, ("            error(f\"Can't read technology file at path {args.tech_pbjson_path}\")\n            found_errors = True\n", "            error(f\"Can't read technology file at path {args.tech_pbjson_path}\")\n"))
bug('C04', F, ("if not os.path.isfile(args.lvs_script_path):", "if args.run_2_5D and not os.path.isfile(args.lvs_script_path):"))
bug('C04', F, ("        if found_errors:\n            raise", "        if found_errors and args.input_mode == InputMode.GDS:\n            raise"))
bug('C04', F, ("                    if not found_cell:\n                        error(f\"Could not find cell {args.cell_name} in GDS {args.gds_path}\")\n                        found_errors = True\n", "                    if not found_cell:\n                        error(f\"Could not find cell {args.cell_name} in GDS {args.gds_path}\")\n                        found_errors = len(top_cells) > 1\n"))
bug('C04', F, ("            sys.exit(1)\n        reregister", "            sys.exit(0)\n        reregister"))
bug('C04', F, ("            sys.exit(1)\n        reregister", "            pass\n        reregister"))
bug('C04', F, ("            case (True, _, _, _, None, _):\n", "            case (True, False, False, False, None, _):\n"))
bug('C04', F, ("            case (_, _, _, _, None, None):\n                error(f\"Neither GDS nor LVSDB was provided\")\n                found_errors = True\n", ""))
bug('C04', F, ("                    if len(top_cells) == 1:\n                        args.effective", "                    if len(top_cells) >= 1:\n                        args.effective"))
bug('C04', F, ("                    if not os.path.isfile(args.schematic_path):\n                        error", "                    if not os.path.exists(args.schematic_path) and args.cache_lvs is False:\n                        error"))
bug('C04', F, ("            error(\"Failed to parse --diel arg\", e)\n            found_errors = True\n", "            error(\"Failed to parse --diel arg\", e)\n"))
ok(A, F, ("        if found_errors:\n            raise ArgumentValidationError(\"Argument validation failed\")", "        if not found_errors:\n            return\n        raise ArgumentValidationError(\"Argument validation failed\")"))
ok(A, F, ("""                    found_cell: Optional[kdb.Cell] = None
                    for cell in args.layout.cells('*'):
                        if cell.name == args.effective_cell_name:
                            found_cell = cell
                            break
""", """                    found_cell: Optional[kdb.Cell] = next(
                        (c for c in args.layout.cells('*') if c.name == args.effective_cell_name), None)
"""))
ok(A, F, ("                    if not found_cell:\n", "                    if found_cell is None:\n"))
ok(A, F, ("        if not os.path.isfile(args.tech_pbjson_path):\n            error(f\"Can't read technology file at path {args.tech_pbjson_path}\")\n            found_errors = True\n\n        if not os.path.isfile(args.lvs_script_path):\n            error(f\"Can't locate LVS script path at {args.lvs_script_path}\")\n            found_errors = True\n",
          "        for path, message in ((args.tech_pbjson_path, \"Can't read technology file at path\"),\n                              (args.lvs_script_path, \"Can't locate LVS script path at\")):\n            if not os.path.isfile(path):\n                error(f\"{message} {path}\")\n                found_errors = True\n"))
ok(A, F, ("        if not os.path.isfile(args.lvs_script_path):\n            error(f\"Can't locate LVS script path at {args.lvs_script_path}\")\n            found_errors = True\n",
          "        found_errors |= KpexCLI._missing(args.lvs_script_path)\n"),
   ("    @staticmethod\n    def validate_args(", "    @staticmethod\n    def _missing(path: str) -> bool:\n        if os.path.isfile(path):\n            return False\n        error(f\"Can't locate LVS script path at {path}\")\n        return True\n\n    @staticmethod\n    def validate_args("))
ok(A, F, ("            case (_, _, _, _, None, None):\n                error(f\"Neither GDS nor LVSDB was provided\")\n                found_errors = True\n", ""),
   ("        # input mode: LVS or existing LVSDB?\n", "        if args.gds_path is None and args.lvsdb_path is None:\n            error('Neither GDS nor LVSDB was provided')\n            found_errors = True\n\n"))
ok(A, F, ("        try:\n            args.log_level = LogLevel[args.log_level.upper()]\n        except KeyError:\n", "        if args.log_level.upper() in LogLevel.__members__:\n            args.log_level = LogLevel[args.log_level.upper()]\n        else:\n"))
ok(A, F, ("                    with open(args.effective_schematic_path, 'w', encoding='utf-8') as f:\n                        f.writelines([\n                            f\".subckt {args.effective_cell_name} VDD VSS\\n\",\n                            '.ends\\n',\n                            '.end\\n'\n                        ])\n",
          "                    dummy = f\".subckt {args.effective_cell_name} VDD VSS\\n.ends\\n.end\\n\"\n                    Path(args.effective_schematic_path).write_text(dummy, encoding='utf-8')\n"))
ok(A, F, ("        try:\n            self.validate_args(args)\n        except ArgumentValidationError:\n            if hasattr(args, 'output_dir_path'):\n                reregister_log_file_handler(file_handler_plain, cli_log_path_plain, None)\n                reregister_log_file_handler(file_handler_formatted, cli_log_path_formatted, formatter)\n            sys.exit(1)\n        reregister_log_file_handler(file_handler_plain, cli_log_path_plain, None)\n        reregister_log_file_handler(file_handler_formatted, cli_log_path_formatted, formatter)\n",
          "        valid = True\n        try:\n            self.validate_args(args)\n        except ArgumentValidationError:\n            valid = False\n        if valid or hasattr(args, 'output_dir_path'):\n            reregister_log_file_handler(file_handler_plain, cli_log_path_plain, None)\n            reregister_log_file_handler(file_handler_formatted, cli_log_path_formatted, formatter)\n        if not valid:\n            sys.exit(1)\n"))
# C05
bug('C05', F, ("        if args.run_magic:\n", "        if args.run_magic and not args.run_2_5D:\n"))
bug('C05', F, ("if not (args.run_fastcap or args.run_fastercap or args.run_2_5D):", "if not (args.run_fastercap or args.run_2_5D):"))
bug('C05', F, ("            if args.run_fastcap:\n", "            elif args.run_fastcap:\n"))
bug('C05', F, ("        if args.run_2_5D:\n", "        if args.run_2_5D and len(pex_context.unnamed_layers) == 0:\n"))
ok(A, F, ("        if not (args.run_fastcap or args.run_fastercap or args.run_2_5D):", "        if not any((args.run_fastcap, args.run_fastercap, args.run_2_5D)):"))
ok(A, F, ("        if not (args.run_fastcap or args.run_fastercap or args.run_2_5D):", "        run_3d = args.run_fastcap or args.run_fastercap\n        if not run_3d and not args.run_2_5D:"), ("        if args.run_fastcap or args.run_fastercap:\n", "        if run_3d:\n"))
ok(A, F, ("        if args.run_2_5D:\n            rule(", "        self._finish(args, pex_context, tech_info)\n\n    def _finish(self, args, pex_context, tech_info):\n        if args.run_2_5D:\n            rule("))
ok(A, F, ("        rule('Prepare LVSDB')\n        lvsdb = self.create_lvsdb(args)\n", "        lvsdb = self._prepare(args)\n"), ("    def main(self, argv", "    def _prepare(self, args):\n        rule('Prepare LVSDB')\n        return self.create_lvsdb(args)\n\n    def main(self, argv"))
ok(A, F, ("        if args.run_magic:\n            rule('MAGIC')\n            self.run_magic_extraction(args)\n\n        # no need to run LVS etc if only running magic engine\n        if not (args.run_fastcap or args.run_fastercap or args.run_2_5D):\n            return\n",
          "        if args.run_magic:\n            rule('MAGIC')\n            self.run_magic_extraction(args)\n            if not (args.run_fastcap or args.run_fastercap or args.run_2_5D):\n                return\n"))
# C06
bug('C06', F, ("                        lvsdb_path = lvsdb_cache_path\n", ""))
bug('C06', F, ("<= self.modification_date(args.gds_path)", "<= self.modification_date(args.effective_gds_path)")) if False else None
bug('C06', F, ("self.modification_date(lvsdb_cache_path) <= self", "self.modification_date(lvsdb_cache_path) >= self"))
bug('C06', F, ("os.path.getmtime(filename)", "os.path.getctime(filename)"))
bug('C06', F, ("os.path.getmtime(filename)", "os.path.getatime(filename)"))
bug('C06', F, ("args.cache_dir_path, args.pdk,\n", "args.cache_dir_path,\n"))
bug('C06', F, ("shutil.copy(lvsdb_path, lvsdb_cache_path)", "shutil.copy(lvsdb_cache_path, lvsdb_path)"))
bug('C06', F, ("os.path.splitroot(os.path.abspath(args.gds_path))[-1]", "os.path.basename(args.gds_path)"))
bug('C06', F, ("f\"{args.effective_cell_name}.lvsdb.gz\")\n\n                lvs_needed", "f\"{args.cell_name}.lvsdb.gz\")\n\n                lvs_needed"))
bug('C06', F, ("                if args.cache_lvs:\n                    if not", "                if True:\n                    if not"))
ok(A, F, ("                lvs_needed = True\n\n                if args.cache_lvs:\n                    if not os.path.exists(lvsdb_cache_path):\n                        info(f\"Cache miss: extracted LVSDB does not exist\")\n                        subproc(lvsdb_cache_path)\n                    elif self.modification_date(lvsdb_cache_path) <= self.modification_date(args.gds_path):\n                        info(f\"Cache miss: extracted LVSDB is older than the input GDS\")\n                        subproc(lvsdb_cache_path)\n                    else:\n                        warning(f\"Cache hit: Reusing cached LVSDB\")\n                        subproc(lvsdb_cache_path)\n                        lvs_needed = False\n                        lvsdb_path = lvsdb_cache_path\n",
          "                lvs_needed = not (args.cache_lvs and self._cache_is_fresh(lvsdb_cache_path, args.gds_path))\n                if not lvs_needed:\n                    lvsdb_path = lvsdb_cache_path\n"),
   ("    def create_lvsdb(self", "    def _cache_is_fresh(self, lvsdb_cache_path, gds_path):\n        if not os.path.exists(lvsdb_cache_path):\n            return False\n        return self.modification_date(lvsdb_cache_path) > self.modification_date(gds_path)\n\n    def create_lvsdb(self"))
ok(A, F, ("        t = os.path.getmtime(filename)\n        return datetime.fromtimestamp(t)\n", "        return datetime.fromtimestamp(os.stat(filename).st_mtime)\n"))
ok(A, F, ("                        if not os.path.exists(cache_dir_path):\n                            os.makedirs(cache_dir_path, exist_ok=True)\n", "                        os.makedirs(cache_dir_path, exist_ok=True)\n"))
ok(A, F, ("                lvsdb.read(lvsdb_path)\n        return lvsdb", "                lvsdb.read(lvsdb_path)\n            case _:\n                raise NotImplementedError(args.input_mode)\n        return lvsdb"))
ok(A, F, ("        match args.input_mode:\n            case InputMode.LVSDB:\n                lvsdb.read(args.lvsdb_path)\n            case InputMode.GDS:\n                lvs_log_path", "        if args.input_mode == InputMode.LVSDB:\n            lvsdb.read(args.lvsdb_path)\n            return lvsdb\n        if True:\n            if True:\n                lvs_log_path"))
# C07
bug('C07', F, ("magic_run_dir = os.path.join(args.output_dir_path,", "magic_run_dir = os.path.join(args.output_dir_base_path,"))
bug('C07', F, ("args.effective_gds_path = os.path.join(args.output_dir_path,", "args.effective_gds_path = os.path.join(os.path.dirname(args.gds_path),"))
bug('C07', F, ("log_path = os.path.join(args.output_dir_path, f\"{args.effective_cell_name}_FastCap2_Output.txt\")", "log_path = os.path.join('/tmp', f\"{args.effective_cell_name}_FastCap2_Output.txt\")"))
bug('C07', F, ("log_path = os.path.join(args.output_dir_path, f\"{args.effective_cell_name}_FastCap2_Output.txt\")", "log_path = f\"{args.effective_cell_name}_FastCap2_Output.txt\""))
bug('C07', F, ("geometry_dir_path = os.path.join(args.output_dir_path, 'Geometries')", "geometry_dir_path = os.path.join(args.output_dir_path, '..', 'Geometries')"))
# C08
bug('C08', F, ("        cap_matrix = cap_matrix.averaged_off_diagonals()\n", ""))
bug('C08', F, ("            cap_matrix=cap_matrix,\n            blackbox_devices=args.blackbox_devices\n        )\n\n        # create", "            cap_matrix=fastercap_parse_capacitance_matrix(log_path),\n            blackbox_devices=args.blackbox_devices\n        )\n\n        # create"))
bug('C08', F, ("netlist_csv_writer.write_csv(netlist=expanded_netlist,", "netlist_csv_writer.write_csv(netlist=pex_context.lvsdb.netlist(),"))
bug('C08', F, ("netlist_reducer.reduce(netlist=expanded_netlist,", "netlist_reducer.reduce(netlist=pex_context.lvsdb.netlist(),"))
bug('C07', F, ("_FastCap2_Expanded_Netlist.cir\")\n        reduced", "_FasterCap_Expanded_Netlist.cir\")\n        reduced"))
bug('C08,C03', F, ("cell_name=args.effective_cell_name,\n                             run_dir", "cell_name=args.cell_name,\n                             run_dir"))
ok(A, F, ("        cap_matrix = cap_matrix.averaged_off_diagonals()\n        cap_matrix.write_csv(avg_csv_path)\n\n        netlist_expander = NetlistExpander()\n        expanded_netlist = netlist_expander.expand(\n            extracted_netlist=pex_context.lvsdb.netlist(),\n            top_cell_name=pex_context.annotated_top_cell.name,\n            cap_matrix=cap_matrix,\n            blackbox_devices=args.blackbox_devices\n        )\n\n        # create",
          "        averaged = cap_matrix.averaged_off_diagonals()\n        averaged.write_csv(output_path=avg_csv_path)\n        expanded_netlist = self._expand(args, pex_context, averaged)\n\n        # create"),
   ("    def run_magic_extraction(self", "    def _expand(self, args, pex_context, matrix):\n        return NetlistExpander().expand(extracted_netlist=pex_context.lvsdb.netlist(),\n                                        top_cell_name=pex_context.annotated_top_cell.name,\n                                        cap_matrix=matrix,\n                                        blackbox_devices=args.blackbox_devices)\n\n    def run_magic_extraction(self"))
ok(A, F, ("        log_path = os.path.join(args.output_dir_path, f\"{args.effective_cell_name}_FastCap2_Output.txt\")\n        raw_csv_path = os.path.join(args.output_dir_path, f\"{args.effective_cell_name}_FastCap2_Result_Matrix_Raw.csv\")\n",
          "        def output(suffix):\n            return os.path.join(args.output_dir_path, f\"{args.effective_cell_name}_FastCap2_{suffix}\")\n\n        log_path = output('Output.txt')\n        raw_csv_path = output('Result_Matrix_Raw.csv')\n"))
ok(A, F, ("        spice_writer = kdb.NetlistSpiceWriter()\n        spice_writer.use_net_names = True\n        spice_writer.with_comments = False\n        expanded_netlist.write(expanded_netlist_path, spice_writer)\n        info(f\"Wrote expanded netlist to: {expanded_netlist_path}\")\n",
          "        spice_writer = self._spice_writer()\n        expanded_netlist.write(expanded_netlist_path, spice_writer)\n"),
   ("    def run_magic_extraction(self", "    @staticmethod\n    def _spice_writer():\n        w = kdb.NetlistSpiceWriter()\n        w.use_net_names = True\n        w.with_comments = False\n        return w\n\n    def run_magic_extraction(self"))
# C03
bug('C03', F, ("r_threshold=args.magic_rthresh,", "r_threshold=args.magic_cthresh,"))
bug('C03', F, ("d_coeff=args.fastercap_d_coeff,", "d_coeff=args.fastercap_tolerance,"))
bug('C03', F, ("os.environ['OMP_NUM_THREADS'] = f\"{args.num_threads}\"", "pass"))
bug('C03', F, ("        if args.halo is not None:\n", "        if args.halo:\n"))
bug('C03', F, ("delaunay_b=args.delaunay_b)", "delaunay_b=0.5)"))
bug('C03', F, ("                                                        k_void=args.k_void,\n", "                                                        k_void=1.0,\n"))
ok(A, F, ("f\"{args.num_threads}\"\n", "str(args.num_threads)\n"))
ok(A, F, ("        if args.halo is not None:\n            tech_info.tech.process_parasitics.side_halo = args.halo\n", "        halo = args.halo\n        if halo is not None:\n            parasitics = tech_info.tech.process_parasitics\n            parasitics.side_halo = halo\n"))
ok(A, F, ("        run_magic(exe_path=args.magic_exe_path,\n                  magicrc_path=args.magicrc_path,\n                  script_path=magic_script_path,\n                  log_path=magic_log_path)\n", "        run_magic(args.magic_exe_path, args.magicrc_path, magic_script_path, magic_log_path)\n"))

bug('C07', F, ("_l2n_internal.oas", "_l2n_extracted.oas"))
bug('C07', F, ("_FastCap2_Result_Matrix_Avg.csv", "_FastCap2_Result_Matrix_Raw.csv"))
bug('C04', F, ("                    if not found_cell:\n                        error(f\"Could not find cell {args.cell_name} in GDS {args.gds_path}\")\n                        found_errors = True\n", "                    if not found_cell:\n                        warning(f\"Could not find cell {args.cell_name} in GDS {args.gds_path}\")\n"))
bug('C04', F, ("            case (False, False, False, False, _, _): #", "            case (False, False, False, False, _, None): #"))
ok('C04', F, ("                    if not found_cell:\n", "                    if not args.layout.has_cell(args.cell_name):\n"))
ok('C04', F, ("            path = shutil.which(args.klayout_exe_path)\n            if not path:\n", "            if shutil.which(args.klayout_exe_path) is None:\n"))


# ---------------------------------------------------------------- C09
F = K + 'kpex_cli.py'
bug('C09', F, ("{round(cap_value, 3)};", "{round(cap_value, 2)};"))
bug('C09', F, ("{round(cap_value, 3)};", "{int(cap_value)};"))
bug('C09', F, ("{key.net1};{key.net2};{round(cap_value, 3)};", "{key.net1};{key.net1};{round(cap_value, 3)};"))
bug('C09', F, ("{key.net2};;{round(res_value, 3)}", "{key.net2};{round(res_value, 3)};"))
bug('C09', F, ("f.write(f\"R{idx + 1};", "f.write(f\"C{idx + 1};"))
bug('C09', F, ("f.write(f\"C{idx + 1};", "if cap_value > 0.001: f.write(f\"C{idx + 1};"))
bug('C09', F, ("enumerate(sorted(summary.resistances.items()))", "enumerate(sorted(summary.resistances.items())[1:])"))
bug('C09', F, ("enumerate(sorted(summary.resistances.items()))", "enumerate(sorted(summary.capacitances.items()))"))
bug('C09', F, ("f.write(f\"C{idx + 1};", "f.write(f\"C{key.net1};"))
ok('C09,C47', F, ("""                for idx, (key, cap_value) in enumerate(sorted(summary.capacitances.items())):
                    f.write(f"C{idx + 1};{key.net1};{key.net2};{round(cap_value, 3)};\\n")
""", """                for number, (key, cap_value) in enumerate(sorted(summary.capacitances.items()), start=1):
                    row = ['C' + str(number), key.net1, key.net2, str(round(cap_value, 3)), '']
                    f.write(';'.join(row) + '\\n')
"""))
ok('C09,C47', F, ("""                for idx, (key, res_value) in enumerate(sorted(summary.resistances.items())):
                    f.write(f"R{idx + 1};{key.net1};{key.net2};;{round(res_value, 3)}\\n")
""", """                idx = 0
                for key in sorted(summary.resistances):
                    idx += 1
                    ohm = round(summary.resistances[key], 3)
                    f.write(f"R{idx};{key.net1};{key.net2};;{ohm}\\n")
"""))
ok('C09,C47', F, ("                summary = extraction_results.summarize()\n", ""), ("            with open(netlist_csv_path, 'w', encoding='utf-8') as f:\n", "            summary = extraction_results.summarize()\n            with open(netlist_csv_path, 'w', encoding='utf-8') as f:\n"))
ok('C09,C47', F, ("""                f.write('Device;Net1;Net2;Capacitance [fF];Resistance [Ω]\\n')
                for idx, (key, cap_value) in enumerate(sorted(summary.capacitances.items())):
                    f.write(f"C{idx + 1};{key.net1};{key.net2};{round(cap_value, 3)};\\n")
                for idx, (key, res_value) in enumerate(sorted(summary.resistances.items())):
                    f.write(f"R{idx + 1};{key.net1};{key.net2};;{round(res_value, 3)}\\n")
""", """                self._write_rows(f, summary)
"""), ("    def setup_logging(self", """    @staticmethod
    def _write_rows(f, summary):
        f.write('Device;Net1;Net2;Capacitance [fF];Resistance [Ω]\\n')
        for idx, (key, value) in enumerate(sorted(summary.capacitances.items())):
            f.write(f"C{idx + 1};{key.net1};{key.net2};{round(value, 3)};\\n")
        for idx, (key, value) in enumerate(sorted(summary.resistances.items())):
            f.write(f"R{idx + 1};{key.net1};{key.net2};;{round(value, 3)}\\n")

    def setup_logging(self"""))
ok('C09,C47', F, ("""                f.write('Device;Net1;Net2;Capacitance [fF];Resistance [Ω]\\n')
                for idx, (key, cap_value) in enumerate(sorted(summary.capacitances.items())):
                    f.write(f"C{idx + 1};{key.net1};{key.net2};{round(cap_value, 3)};\\n")
                for idx, (key, res_value) in enumerate(sorted(summary.resistances.items())):
                    f.write(f"R{idx + 1};{key.net1};{key.net2};;{round(res_value, 3)}\\n")
""", """                lines = ['Device;Net1;Net2;Capacitance [fF];Resistance [Ω]\\n']
                for idx, (key, cap_value) in enumerate(sorted(summary.capacitances.items())):
                    lines.append(f"C{idx + 1};{key.net1};{key.net2};{round(cap_value, 3)};\\n")
                for idx, (key, res_value) in enumerate(sorted(summary.resistances.items())):
                    lines.append(f"R{idx + 1};{key.net1};{key.net2};;{round(res_value, 3)}\\n")
                f.writelines(lines)
"""))
# ---------------------------------------------------------------- C10
F = K + 'common/capacitance_matrix.py'
bug('C10', F, ("'%.12g' % cell", "'%.3g' % cell"))
bug('C10', F, ("'%.12g' % cell", "'%.6f' % cell"))
bug('C10', F, ("for line in lines[1:]:", "for line in lines[2:]:"))
bug('C10', F, ("lines[0].split(sep=separator)", "lines[0].split(sep=',')"))
bug('C10', F, ("c = copy.deepcopy(self)", "c = copy.copy(self)"))
bug('C10', F, ("c = copy.deepcopy(self)", "c = self"))
bug('C10', F, ("avg = (v1 + v2) / 2", "avg = v1 + v2 / 2"))
bug('C10', F, ("avg = (v1 + v2) / 2", "avg = min(v1, v2)"))
bug('C10', F, ("                c[j][i] = avg\n", ""))
bug('C10', F, ("if j <= i:", "if j <= i + 1:"))
bug('C10', F, ("v2 = self[j][i]", "v2 = self[i][j]"))
bug('C10', F, ("                f.write(row_line)\n                f.write('\\n')", "                f.write(row_line)"))
bug('C10', F, ("            for row in self.rows:", "            for row in self.rows[:-1]:"))
bug('C07,C10', F, ("'w', encoding='utf-8'", "'a', encoding='utf-8'"))
bug('C07', K + 'klayout/netlist_csv.py', ("'w', encoding='utf-8'", "'a', encoding='utf-8'"))
bug('C07', K + 'fastercap/fastercap_model_generator.py', ("open(lst_fn, 'w', encoding='utf-8'", "open(lst_fn, 'a', encoding='utf-8'"))
bug('C10', F, ("return len(self.conductor_names)", "return len(self.rows[0])")) if False else None
ok('C10', F, ("'%.12g' % cell", "f'{cell:.12g}'"))
ok('C10', F, ("'%.12g' % cell", "repr(cell)"))
ok('C10', F, ("'%.12g' % cell", "format(cell, '.12g')"))
ok('C10', F, ("                if j <= i:\n                    continue\n", "                if i >= j:\n                    continue\n"))
ok('C10', F, ("                if j <= i:\n                    continue\n", "                if i == j:\n                    continue\n"))
ok('C10', F, ("range(len(self.conductor_names)):\n                if j <= i:\n                    continue\n", "range(i + 1, self.dimension):\n"))
ok('C10', F, ("                v1 = self[i][j]\n                v2 = self[j][i]\n                avg = (v1 + v2) / 2\n", "                avg = 0.5 * (self.rows[i][j] + self.rows[j][i])\n"))
ok('C10', F, ("                c[i][j] = avg\n                c[j][i] = avg\n", "                c[i][j] = c[j][i] = avg\n"))
ok('C10', F, ("                c[i][j] = avg\n                c[j][i] = avg\n", "                c.rows[i][j] = avg\n                c.rows[j][i] = avg\n"))
ok('C10', F, ("c = copy.deepcopy(self)", "c = CapacitanceMatrix(conductor_names=list(self.conductor_names), rows=[list(r) for r in self.rows])"))
ok('C10', F, ("            rows = []\n            for line in lines[1:]:\n                row = [float(cell.strip()) for cell in line.split(sep=separator)]\n                rows.append(row)\n", "            rows = [[float(cell) for cell in line.split(separator)] for line in lines[1:]]\n"))
ok('C10', F, ("            header_line = separator.join(self.conductor_names)\n            f.write(header_line)\n            f.write('\\n')\n", "            print(separator.join(self.conductor_names), file=f)\n"))
ok('C10', F, ("                cells = ['%.12g' % cell for cell in row]\n                row_line = separator.join(cells)\n                f.write(row_line)\n                f.write('\\n')", "                f.write(separator.join('%.12g' % cell for cell in row) + '\\n')"))
ok('C10', F, ("                row_line = separator.join(cells)\n                f.write(row_line)\n                f.write('\\n')", "                f.write(f\"{separator.join(cells)}\\n\")"))
ok('C10', F, ("            lines = f.readlines()\n", "            lines = f.read().splitlines()\n"))
ok('C10', F, ("            lines = f.readlines()\n            if", "            lines = f.readlines()\n            header, *_ = lines\n            if"))  if False else None

ok('C10', F, ("c = copy.deepcopy(self)", "c = CapacitanceMatrix(self.conductor_names, [row[:] for row in self.rows])"))
bug('C10', F, ("c = copy.deepcopy(self)", "c = CapacitanceMatrix(self.conductor_names, [row for row in self.rows])"))
bug('C10', F, ("c = copy.deepcopy(self)", "c = CapacitanceMatrix(self.conductor_names, [row[:] for row in self.rows if any(row)])"))
bug('C10', F, ("c = copy.deepcopy(self)", "c = CapacitanceMatrix(sorted(self.conductor_names), [row[:] for row in self.rows])"))

# ---- C51 netlist tool
F = K + 'netlist/netlist_cli.py'
bug('C51', F, ("            case 1:\n                top_circuit = top_circuits[0]\n            case _:\n                info(f\"Multiple top circuits found in SPICE netlist: {top_circuit_names}\")\n                error('Please specify the desired cell using the --cell argument')\n                sys.exit(2)", "            case _:\n                top_circuit = top_circuits[0]"))
bug('C51', F, ("                sys.exit(2)", "                top_circuit = top_circuits[-1]"))
bug('C51', F, ("circuit_by_name(args.cell_name)", "circuit_by_name(args.cell_name.lower())"))
bug('C51', F, ("            if circuit is None:\n                error(f\"Cell {args.cell_name} not found in SPICE netlist\")\n                sys.exit(1)\n            top_circuits = [circuit]", "            top_circuits = [circuit] if circuit is not None else netlist.top_circuits()"))
bug('C51', F, ("yosys_json_netlist_path=yosys_json_netlist_path", "yosys_json_netlist_path=args.input_netlist_path"))
bug('C51', F, ("exe_path=args.netlistsvg_exe_path", "exe_path='netlistsvg'"))
bug('C51', F, ("        if args.preview_svg:", "        if not args.preview_svg:"))
bug('C51', F, ("os.path.abspath(output_svg_path)", "os.path.abspath(yosys_json_netlist_path)"))
bug('C51', F, ("                       output_svg_path=output_svg_path,", "                       output_svg_path=args.output_svg_path,"))
bug('C51', F, ("        if output_svg_path is None:\n", "        if output_svg_path is not None:\n"))
bug('C51', F, ("action='store_true', default=False", "action='store_true', default=True"))
bug('C51', F, ("LogLevel[args.log_level.upper()]", "LogLevel[args.log_level]"))
bug('C51', F, ("        set_log_level(args.log_level)", "        set_log_level(LogLevel.DEFAULT)"))
bug('C51', F, ("        self.validate_args(main_parser, args)\n", ""))
bug('C51', F, ("        if found_errors:\n            raise ArgumentValidationError(\"Argument validation failed\")\n", ""))
bug('C51', F, ("netlist.read(args.input_netlist_path, netlist_reader)", "netlist.read(args.netlistsvg_exe_path, netlist_reader)"))
bug('C51', F, ("f\"yosys_netlist.json\"", "f\"netlistsvg_log.txt\""))
bug('C51', F, ("                error(f\"No top circuit found in SPICE netlist, perhaps the SUBCKT with the ports is missing?!\")\n                sys.exit(1)", "                error(f\"No top circuit found in SPICE netlist, perhaps the SUBCKT with the ports is missing?!\")\n                sys.exit(0)"))
ok('C51', F, ("        match n_circuits:\n            case 0:\n", "        match len(top_circuits):\n            case 0:\n"))
ok('C51', F, ("        output_svg_path = args.output_svg_path\n        if output_svg_path is None:\n            output_svg_path = os.path.join(", "        output_svg_path = args.output_svg_path if args.output_svg_path is not None else os.path.join("))
ok('C51', F, ("        match args.command:\n            case 'svg':\n                self.run_netlistsvg(args)", "        if args.command == 'svg':\n            self.run_netlistsvg(args)"))
ok('C51', F, ("            case 1:\n                top_circuit = top_circuits[0]", "            case 1:\n                top_circuit, = top_circuits"))
ok('C51', F, ("            case 1:\n                top_circuit = top_circuits[0]", "            case 1:\n                top_circuit = next(iter(top_circuits))"))

# ---- C52 logging
F = K + 'log/logger.py'
bug('C52', F, ("    ALL = 1  #", "    ALL = 0  #"))
bug('C52', F, ("    SUBPROCESS = 12", "    SUBPROCESS = 10"))
bug('C52', F, ("    VERBOSE = 15", "    VERBOSE = 25"))
bug('C52', F, ("    WARNING = 30", "    WARNING = 31"))
bug('C52', F, ("levelName=level.name", "levelName=level.name.lower()"))
bug('C52', F, ("        logging.addLevelName(level=level.value, levelName=level.name)", "        logging.addLevelName(level=level.name, levelName=level.value)"))
bug('C52', F, ("rich_handler.addFilter(LogLevelFilter(['SUBPROCESS'], invert=True))", "rich_handler.addFilter(LogLevelFilter(['SUBPROCESS', 'DEBUG'], invert=True))"))
bug('C52', F, ("subprocess_rich_handler.addFilter(LogLevelFilter(['SUBPROCESS']))", "subprocess_rich_handler.addFilter(LogLevelFilter(['SUBPROCESS', 'INFO']))"))
bug('C52', F, ("            return record.levelname not in self.levels", "            return record.levelname in self.levels"))
bug('C52', F, ("        self.invert = invert", "        self.invert = False"))
bug('C52', F, ("        markup=False,", "        markup=True,"))
bug('C52', F, ("            case LogLevel.ERROR.value: return f\"[red]{msg}\"", "            case LogLevel.ERROR.value: return f\"[red]error\""))
bug('C52', F, ("            case _:\n                return msg", "            case LogLevel.INFO.value:\n                return msg"))
bug('C52', F, ("    __logger.addHandler(rich_handler)\n", ""))
bug('C52', F, ("    __logger.handlers.clear()\n    __logger.addHandler(subprocess_rich_handler)\n", "    __logger.addHandler(subprocess_rich_handler)\n    __logger.handlers.clear()\n"))
bug('C52', F, ("    __logger.log(LogLevel.SUBPROCESS, msg, **kwargs)", "    __logger.log(LogLevel.VERBOSE, msg, **kwargs)"))
bug('C52', F, ("    __logger.warning(*args, **kwargs)", "    __logger.info(*args, **kwargs)"))
bug('C52', F, ("    __logger.info(*args, **kwargs)", "        __logger.info(*args, **kwargs)"))
bug('C52', F, ("    __logger.removeHandler(handler)", "    handler.close()"))
bug('C52', F, ("    __logger.setLevel(log_level)", "    __logger.setLevel(LogLevel.DEFAULT)"))
bug('C52', F, ("\n\nconfigure_logger()", ""))
ok('C52', F, ("    subprocess_rich_handler.addFilter(LogLevelFilter(['SUBPROCESS']))", "    subprocess_rich_handler.addFilter(LogLevelFilter(('SUBPROCESS',), invert=False))"))
ok('C52', F, ("        if self.invert:\n            return record.levelname not in self.levels\n        else:\n            return record.levelname in self.levels", "        return (record.levelname in self.levels) != self.invert"))
ok('C52', F, ("    for level in LogLevel:\n        logging.addLevelName(level=level.value, levelName=level.name)", "    for level in list(LogLevel):\n        logging.addLevelName(level, level.name)"))
ok('C52', F, ("    __logger.info(*args, **kwargs)", "    __logger.log(LogLevel.INFO, *args, **kwargs)"))
F = K + 'kpex_cli.py'
bug('C52', F, ("            deregister_additional_handler(handler)\n", ""))
bug('C52', F, ("            handler.setLevel(LogLevel.SUBPROCESS)", "            handler.setLevel(LogLevel.INFO)"))
bug('C52', F, ("            handler = logging.FileHandler(log_path)", "            handler = logging.FileHandler(log_path, mode='w')"))
bug('C52', F, ("            if os.path.exists(new_path):\n                ctime", "            if not os.path.exists(new_path):\n                ctime"))
bug('C52', F, ("                shutil.move(new_path, backup_path)", "                os.remove(new_path)"))
bug('C52', F, ("            log_path = shutil.move(log_path, new_path)\n            register_log_file_handler(log_path, formatter)", "            shutil.move(log_path, new_path)\n            register_log_file_handler(log_path, formatter)"))
bug('C52', F, ("            log_path = shutil.move(log_path, new_path)\n            register_log_file_handler(log_path, formatter)", "            register_log_file_handler(new_path, formatter)\n            shutil.move(log_path, new_path)"))
bug('C52', F, ("        reregister_log_file_handler(file_handler_formatted, cli_log_path_formatted, formatter)\n\n", "        reregister_log_file_handler(file_handler_formatted, cli_log_path_formatted, None)\n\n"))
bug('C52', F, ("        reregister_log_file_handler(file_handler_formatted, cli_log_path_formatted, formatter)\n\n", "        reregister_log_file_handler(file_handler_formatted, cli_log_path_plain, formatter)\n\n"))
bug('C52', F, ("                reregister_log_file_handler(file_handler_plain, cli_log_path_plain, None)\n", ""))
bug('C52', F, ("            sys.exit(1)\n        reregister", "        reregister"))
bug('C52', F, ("        set_log_level(args.log_level)\n\n    @static", "        set_log_level(LogLevel.DEFAULT)\n\n    @static"))
bug('C52', F, ('f"kpex.log")', 'f"kpex_plain.log")'))
bug('C52', F, ("            handler.flush()\n            handler.close()\n            os.makedirs(args.output_dir_path, exist_ok=True)", "            os.makedirs(args.output_dir_path, exist_ok=True)"))
ok('C52', F, ("            handler.flush()\n            handler.close()", "            handler.close()"))
ok('C52', F, ("            log_path = shutil.move(log_path, new_path)\n            register_log_file_handler(log_path, formatter)", "            shutil.move(log_path, new_path)\n            register_log_file_handler(new_path, formatter)"))
ok('C52', F, ("            if formatter:\n                handler.set", "            if formatter is not None:\n                handler.set"))

# ---- C53 STL export and self-check
F = K + 'fastercap/fastercap_model_generator.py'
bug('C53', F, ("                t = t.reversed()\n", ""))
bug('C53', F, ("for p in (t.p0, t.p1, t.p2):\n                    f.write(f\"   vertex", "for p in (t.p0, t.p1, t.p1):\n                    f.write(f\"   vertex"))
bug('C53', F, ("                tris += [t.reversed() for t in v]\n\n        for k, v in self.cond", "                tris += v\n\n        for k, v in self.cond"))
bug('C53', F, ("            if material_name == k.outside:\n                tris += v\n\n        return", "            if material_name == k.inside:\n                tris += v\n\n        return"))
bug('C53', F, ("        for k, v in self.cond_data.items():\n            if material_name == k.outside:\n                tris += v\n\n        return tris", "        return tris"))
bug('C53', F, ("            if k.net_name == net_name:", "            if k.net_name.startswith(net_name):"))
bug('C53', F, ("            fn = self._net_filename(f\"{prefix}cond_\", nn, '.stl', max_filename_length)", "            fn = f\"{prefix}cond_{nn}.stl\""))
bug('C53', F, ("            fn = self._net_filename(f\"{prefix}cond_\", nn, '.stl', max_filename_length)", "            fn = self._net_filename(f\"{prefix}cond_\", nn[:8], '.stl', max_filename_length)"))
bug('C53', F, ("name = f\"{name}_{h}\"", "name = f\"{name}\""))
bug('C53', F, ("        if too_long or name != net_name:", "        if too_long:"))
bug('C53', F, ("open(file_name, 'w', encoding", "open(file_name, 'a', encoding"))
bug('C53', F, ('                f.write("  endloop\\n")\n', ""))
bug('C53', F, ("for i in range(0, 3):\n                p1", "for i in range(0, 2):\n                p1"))
bug('C53', F, ("t[(i + 1) % 3]", "t[(i + 2) % 3 if i else 1]"))
bug('C53', F, ("                p2 = normed_dbu(t[(i + 1) % 3])", "                p2 = t[(i + 1) % 3]"))
bug('C53', F, ("(p.x, p.y, p.z))))", "(p.x, p.y, p.y))))"))
bug('C53', F, ("            if e in edge_set:\n                error", "            if e.reversed() in edge_set:\n                error"))
bug('C53', F, ("                error(f\"{msg}: duplicate edge {self._edge2s(e)}\")\n                errors += 1\n", "                error(f\"{msg}: duplicate edge {self._edge2s(e)}\")\n"))
bug('C53', F, ("        self._split_edges(edge_set)\n", ""))
bug('C53', F, ("            if e.reversed() not in edge_set:", "            if e.reversed() in edge_set:"))
bug('C53', F, ("        for e in edge_set:\n            if e.rev", "        for e in edges:\n            if e.rev"))
bug('C53', F, ("            errors += self._check_tris(f\"Net '{nn}'\", tris)", "            errors = self._check_tris(f\"Net '{nn}'\", tris)"))
bug('C53', F, ("            errors += self._check_tris(f\"Material '{mn}'\", tris)\n", "            self._check_tris(f\"Material '{mn}'\", tris)\n"))
bug('C53', F, ("            tris = self._collect_cond_tris(nn)\n            info", "            tris = self._collect_diel_tris(nn)\n            info"))
bug('C53', F, ("        if errors == 0:\n            info(\"  No", "        if errors <= 1:\n            info(\"  No"))
ok('C53', F, ("                t = t.reversed()\n                for p in (t.p0, t.p1, t.p2):", "                for p in (t.p2, t.p1, t.p0):"))
ok('C53', F, ("                t = t.reversed()\n                for p in (t.p0, t.p1, t.p2):", "                for p in (t.p1, t.p0, t.p2):"))
ok('C53', F, ("            for i in range(0, 3):\n                p1 = normed_dbu(t[i])\n                p2 = normed_dbu(t[(i + 1) % 3])\n                edges.append(Edge(p1, p2))\n", "            a, b, c = normed_dbu(t.p0), normed_dbu(t.p1), normed_dbu(t.p2)\n            edges += [Edge(a, b), Edge(b, c), Edge(c, a)]\n"))
ok('C53', F, ("            if e in edge_set:\n                error(f\"{msg}: duplicate edge {self._edge2s(e)}\")\n                errors += 1\n            else:\n                edge_set.add(e)", "            if e not in edge_set:\n                edge_set.add(e)\n                continue\n            error(f\"{msg}: duplicate edge {self._edge2s(e)}\")\n            errors += 1"))
bug('C35', F, ("        if too_long or name != net_name:", "        if too_long:"))if False else None
bug('C35', F, ("net_name.replace('/', '_')", "net_name"))
# ---------------------------------------------------------------- C45: what the networks are made from
F = 'klayout_pex/rcx25/extraction_reporter.py'
bug('C45', F, ("        self.output_pins(request.pins, category=self.cat_rex_request_pins)\n", ""))
bug('C45', F, ("        self.output_devices(request.devices)\n", ""))
bug('C45', F, ("        for r in request.net_extraction_requests:\n", "        for r in request.net_extraction_requests[:1]:\n"))
bug('C45', F, ("        for r in request.net_extraction_requests:\n", "        for r in request.net_extraction_requests:\n            if not r.pins:\n                continue\n"))
bug('C45', F, ("        self.output_device_terminals(terminals=request.device_terminals, category=cat_device_terminals)\n        for", "        for"))
bug('C45', F, ("            self.output_shapes(cat_layer_regions, f\"Layer {l2r.layer.canonical_layer_name}\",", "            self.output_shapes(cat_layer_regions, \"Layer\","))
bug('C45', F, ("                r = self.shapes_converter.klayout_region(l2r.region)\n", "                r = self.shapes_converter.klayout_region(t.region_by_layer[0].region)\n"))
bug('C45', F, ("        b = node_id_to_node[element.node_b.node_id]\n", "        b = node_id_to_node[element.node_a.node_id]\n"))
bug('C45', F, ("        polygon = self.marker_arrow_between_nodes(a, b)\n", "        polygon = self.marker_arrow_between_nodes(a, a)\n"))
bug('C45', F, ("element.resistance * 1000.0, 6", "element.resistance, 6"))
bug('C45', F, ("f\"{round(element.resistance, 3)} Ω\"", "f\"{round(element.resistance, 3)} mΩ\""))
bug('C45', F, ("f\"{round(c.resistance, 3)} Ω/µm^2\"", "f\"{round(c.resistance, 3)} mΩ/µm^2\""))
bug('C45', F, ("        for v in tech.vias:\n", "        for v in tech.vias[1:]:\n"))
bug('C45', F, ("return self.report.create_category(self.cat_rex_request, \"Devices\")", "return self.report.create_category(self.cat_rex_request, \"Pins\")"))
bug('C45', F, ("            node_id_to_node[node.node_id] = node\n", "            node_id_to_node.setdefault(network.nodes[0].node_id, node)\n"))
bug('C45', F, ("        node_id_to_node: Dict[int, r_network_pb2.RNode] = {}\n\n        for node in network.nodes:\n            self.output_node(node, category=cat_nodes)\n            node_id_to_node[node.node_id] = node\n", "        node_id_to_node = {i: n for i, n in enumerate(network.nodes)}\n        for node in network.nodes:\n            self.output_node(node, category=cat_nodes)\n"))
ok('C45', F, ("        node_id_to_node: Dict[int, r_network_pb2.RNode] = {}\n\n        for node in network.nodes:\n            self.output_node(node, category=cat_nodes)\n            node_id_to_node[node.node_id] = node\n", "        node_id_to_node = {n.node_id: n for n in network.nodes}\n        for node in network.nodes:\n            self.output_node(node, category=cat_nodes)\n"))
ok('C45', F, ("        if element.resistance >= 0.001:\n            ohm = f\"{round(element.resistance, 3)} Ω\"\n        else:\n            ohm = f\"{round(element.resistance * 1000.0, 6)} mΩ\"\n", "        small = element.resistance < 0.001\n        value = round(1000 * element.resistance, 6) if small else round(element.resistance, 3)\n        ohm = str(value) + (' mΩ' if small else ' Ω')\n"))
ok('C45', F, ("        self.output_devices(request.devices)\n        self.output_pins(request.pins, category=self.cat_rex_request_pins)\n", "        self.output_pins(request.pins, category=self.cat_rex_request_pins)\n        for d in request.devices:\n            self.output_device(d)\n"))
ok('C45', F, ("        box = shapes_pb2.Box()\n        box.lower_left.x = point.x - sized_value\n        box.lower_left.y = point.y - sized_value\n        box.upper_right.x = point.x + sized_value\n        box.upper_right.y = point.y + sized_value\n", "        box = shapes_pb2.Box(lower_left=shapes_pb2.Point(x=point.x - sized_value, y=point.y - sized_value),\n                             upper_right=shapes_pb2.Point(x=point.x + sized_value, y=point.y + sized_value))\n"))
bug('C45', 'klayout_pex/rcx25/extractor.py', ("            report.output_rex_request(request=rex_request)\n", ""))
# ---------------------------------------------------------------- survivors of automatic mutation
F = 'klayout_pex/rcx25/extractor.py'
bug('C26', F, ("        if not gds_pair:\n            return None\n\n        shapes", "        if gds_pair:\n            return None\n\n        shapes"))
bug('C26', F, ("            if all_layer_shapes is not None:\n", "            if all_layer_shapes is None:\n"))
bug('C26', F, ("            debug(f\"Nothing extracted for layer {layer_name}\")\n", "            return None\n        else:\n            return None\n"))
ok('C26', F, ("            if all_layer_shapes is not None:\n", "            if all_layer_shapes:\n"))
ok('C26', F, ("        gds_pair = self.gds_pair(layer_name=layer_name)\n        if not gds_pair:\n            return None\n\n        shapes = self.pex_context.shapes_of_layer(gds_pair=gds_pair)\n", "        gds_pair = self.gds_pair(layer_name=layer_name)\n        shapes = self.pex_context.shapes_of_layer(gds_pair=gds_pair) if gds_pair is not None else None\n"))
F = 'klayout_pex/rcx25/c/overlap_extractor.py'
bug('C26', F, ("                if polygons_above is None:\n", "                if polygons_above is not None:\n"))
bug('C26', F, ("                    if not top_overlap_specs:\n", "                    if top_overlap_specs:\n"))
bug('C26', F, ("                    if not overlap_cap_spec:\n", "                    if overlap_cap_spec:\n"))
ok('C26', F, ("                if polygons_above is None:\n                    continue\n", "                if not polygons_above:\n                    continue\n"))
ok('C26', F, ("                polygons_above = neighborhood.get(other_layer_index, None)\n                if polygons_above is None:\n                    continue\n", "                if other_layer_index not in neighborhood:\n                    continue\n                polygons_above = neighborhood[other_layer_index]\n"))
ok('C26', F, ("                polygons_above = neighborhood.get(other_layer_index, None)\n                if polygons_above is None:\n                    continue\n", "                polygons_above = neighborhood.get(other_layer_index, [])\n                if len(polygons_above) < 1:\n                    continue\n"))
F = 'klayout_pex/rcx25/c/overlap_extractor.py'
bug('C26', F, ("                        warning(f\"No overlap cap specified for layer bottom={bot_layer_name}\")\n                        continue\n", "                        warning(f\"No overlap cap specified for layer bottom={bot_layer_name}\")\n"))
F = 'klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py'
bug('C28', F, ("kdb.Point(nearest_lateral_edge.p1.x, (self.side_halo + 10) / self.dbu)", "kdb.Point(nearest_lateral_edge.p1.x, (self.side_halo - 10) / self.dbu)"))
bug('C28', F, ("                    if child_index < len(self.all_layer_names):\n                        layer_fringe", "                    if child_index <= len(self.all_layer_names):\n                        layer_fringe"))
bug('C28', F, ("                if shield.is_empty():\n                    polygons_by_net[outside_net].append(p)\n", "                if shield.is_empty():\n                    pass\n"))
bug('C28', F, ("                if shield.is_empty():\n                    polygons_by_net[outside_net].append(p)\n", "                if shield.is_empty():\n                    continue\n"))
F = 'klayout_pex/rcx25/c/polygon_utils.py'
bug('C28', F, ("if e.d().x < 0][-1]", "if e.d().y < 0][-1]"))
bug('C28', F, ("if e.d().x < 0][-1]", "if e.d().x <= 0][-1]"))
bug('C28', F, ("if e.d().x < 0][-1]", "if e.d().x > 0][-1]"))
ok('C28', F, ("if e.d().x < 0][-1]", "if e.p1.x > e.p2.x][-1]"))
ok('C28', F, ("if e.d().x < 0][-1]", "if not e.dx() >= 0][-1]"))
ok('C28', F, ("    edge = [e for e in polygon.each_edge() if e.d().x < 0][-1]\n", "    edges = []\n    for e in polygon.each_edge():\n        if e.d().x < 0:\n            edges.append(e)\n    edge = edges[-1]\n"))
ok('C28', F, ("    edge = [e for e in polygon.each_edge() if e.d().x < 0][-1]\n", "    edge = None\n    for e in polygon.each_edge():\n        if e.d().x < 0:\n            edge = e\n"))
# ---------------------------------------------------------------- C54
bug('C54', 'klayout_pex/rcx25/extractor.py', ("        self.delaunay_b = delaunay_b\n", ""))
bug('C54', 'klayout_pex/rcx25/extractor.py', ("delaunay_amax = self.delaunay_amax,", "delaunay_max = self.delaunay_amax,"))
bug('C54', 'klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py', ("            self.scale_ratio_to_fit_halo = scale_ratio_to_fit_halo\n            self.results", "            self.scale_ratio = scale_ratio_to_fit_halo\n            self.results"))
bug('C54', 'klayout_pex/rcx25/extraction_reporter.py', ("self.output_pb_pin(p, category)", "self.output_pb_pin(p)"))
bug('C54', 'klayout_pex/rcx25/extraction_reporter.py', ("        self.output_shapes(category, node_title, sh)\n", "        self.output_shapes(category, node_tittle, sh)\n"))
bug('C54', 'klayout_pex/rcx25/c/overlap_extractor.py', ("from klayout_pex.log import (\n", "from klayout_pex.logs import (\n"))
bug('C54', 'klayout_pex/kpex_cli.py', ("from .env import EnvVar, Env", "from .env import EnvVars, Env"), ("EnvVar.", "EnvVars."))
bug('C54', 'klayout_pex/klayout/netlist_expander.py', ("import re\n", ""))
ok('C54', 'klayout_pex/rcx25/extractor.py', ("        self.delaunay_b = delaunay_b\n", "        setattr(self, 'delaunay_c', delaunay_b)\n        self.delaunay_b: float = delaunay_b\n"))
