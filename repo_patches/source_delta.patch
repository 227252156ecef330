From da0afda016463a70905e4f5a32a01beb4421b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:48 +0000
Subject: [PATCH 01/40] fix: read the cached LVSDB on a cache hit

On a hit LVS is skipped, so the LVSDB in the run directory does not exist
(or is a stale one of an earlier run); read the cached file instead.
---
 klayout_pex/kpex_cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index ba88909..5c29354 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -818,6 +818,7 @@ class KpexCLI:
                         warning(f"Cache hit: Reusing cached LVSDB")
                         subproc(lvsdb_cache_path)
                         lvs_needed = False
+                        lvsdb_path = lvsdb_cache_path
 
                 if lvs_needed:
                     lvs_runner = LVSRunner()
-- 
2.43.0


From 0fcf04f4c066645f8a3bcbffcc652b72a901e0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:48 +0000
Subject: [PATCH 02/40] fix: report missing cells and empty GDS paths as
 argument errors

A --cell that is not in the layout crashed with an AttributeError after the
error was reported, and an empty --gds passed validation without input mode.
---
 klayout_pex/kpex_cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 5c29354..8c15409 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -360,7 +360,7 @@ class KpexCLI:
                 found_errors = True
 
         # input mode: LVS or existing LVSDB?
-        if args.gds_path:
+        if args.gds_path is not None:
             info(f"GDS input file passed, running in LVS mode")
             args.input_mode = InputMode.GDS
             if not os.path.isfile(args.gds_path):
@@ -387,7 +387,7 @@ class KpexCLI:
                     is_only_top_cell = len(top_cells) == 1 and top_cells[0].name == args.cell_name
                     if is_only_top_cell:
                         info(f"Found cell {args.cell_name} in GDS {args.gds_path} (only top cell)")
-                    else:  # there are other cells => extract the top cell to a tmp layout
+                    elif found_cell:  # there are other cells => extract the top cell to a tmp layout
                         run_dir_id = f"{input_file_stem(args.gds_path)}__{args.effective_cell_name}"
                         args.output_dir_path = os.path.join(args.output_dir_base_path, run_dir_id)
                         os.makedirs(args.output_dir_path, exist_ok=True)
-- 
2.43.0


From d1a40451ce3d0417aab1095c33a5b9091bc81371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:08 +0000
Subject: [PATCH 03/40] fix: honour the unit and column padding of FastCap
 matrices

---
 klayout_pex/fastcap/fastcap_runner.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 2d7caf7..1dc82ae 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -103,6 +103,18 @@ def run_fastcap(exe_path: str,
                         f"see log file: {log_path}")
 
 
+# unit chosen by FastCap, depending on the magnitude of the matrix elements
+UNIT_FACTOR_BY_NAME = {
+    'farads': 1.0,
+    'millifarads': 1e-3,
+    'microfarads': 1e-6,
+    'nanofarads': 1e-9,
+    'picofarads': 1e-12,
+    'femtofarads': 1e-15,
+    'attofarads': 1e-18,
+}
+
+
 # CAPACITANCE MATRIX, picofarads
 #                     1          2          3          4
 # $1%GROUP2 1       7850      -7277      -2115      54.97
@@ -121,6 +133,9 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                 if not section_m:
                     raise Exception(f"Could not parse capacitor unit")
                 unit_str = section_m.group(1)
+                unit_factor = UNIT_FACTOR_BY_NAME.get(unit_str, None)
+                if unit_factor is None:
+                    raise Exception(f"Unknown capacitor unit '{unit_str}'")
 
                 dimension_line = rlines[idx-1].strip()
                 dimensions = dimension_line.split()  # remove whitespace
@@ -130,12 +145,13 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                 for i in reversed(range(idx-1-dim, idx-1)):
                     line = rlines[i].strip()
                     cells = [cell.strip() for cell in line.split(' ')]
-                    if cells[1] != str(i):
-                        warning(f"Expected capacitor matrix row to have index {i}, but obtained {cells[1]}")
-                    cells.pop(1)
                     cells = list(filter(lambda c: len(c) >= 1, cells))
+                    row_number = len(rows) + 1
+                    if cells[1] != str(row_number):
+                        warning(f"Expected capacitor matrix row to have index {row_number}, but obtained {cells[1]}")
+                    cells.pop(1)
                     conductor_names.append(cells[0])
-                    row = [float(cell)/1e6 for cell in cells[1:]]
+                    row = [float(cell)*unit_factor/1e6 for cell in cells[1:]]
                     rows.append(row)
                 cm = CapacitanceMatrix(conductor_names=conductor_names, rows=rows)
                 return cm
-- 
2.43.0


From ee32d711ecbb00f263b2827be6fb71a418ec34d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 04/40] fix: don't change the working directory of the process
 for FastCap

---
 klayout_pex/fastcap/fastcap_runner.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 1dc82ae..c0449f8 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -46,15 +46,13 @@ def run_fastcap(exe_path: str,
                 partitioning_depth: str = 'auto',
                 permittivity_factor: float = 1.0,
                 iterative_tolerance: float = 0.01):
-    work_dir = os.path.dirname(lst_file_path)
-
-    # we have to chdir into the directory containing the lst file,
+    # FastCap has to run in the directory containing the lst file,
     # so make all paths absolute, and the lst_file relative
+    # NOTE: don't change the working directory of this process,
+    #       as relative paths (e.g. --out_dir) are used afterwards
+    work_dir = os.path.abspath(os.path.dirname(lst_file_path))
     log_path = os.path.abspath(log_path)
     lst_file_path = os.path.basename(lst_file_path)
-
-    info(f"Chdir to {work_dir}")
-    os.chdir(work_dir)
     args = [
         exe_path,
         f"-o{expansion_order}",
@@ -77,7 +75,9 @@ def run_fastcap(exe_path: str,
     rule('FastCap Output')
     start = time.time()
 
+    info(f"Running in {work_dir}")
     proc = subprocess.Popen(args,
+                            cwd=work_dir,
                             stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
-- 
2.43.0


From 786e58ae9f1834626bc9ebee4d27999eb05213bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:31 +0000
Subject: [PATCH 05/40] fix: reuse existing VSUBS and FC_GND nets when
 expanding netlists

---
 klayout_pex/klayout/netlist_expander.py | 2 +-
 klayout_pex/rcx25/netlist_expander.py   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/klayout/netlist_expander.py b/klayout_pex/klayout/netlist_expander.py
index 53d07c2..b48b508 100644
--- a/klayout_pex/klayout/netlist_expander.py
+++ b/klayout_pex/klayout/netlist_expander.py
@@ -57,7 +57,7 @@ class NetlistExpander:
         expanded_netlist.add(cap)
 
         fc_gnd_net = top_circuit.create_net('FC_GND')  # create GROUND net
-        vsubs_net = top_circuit.create_net("VSUBS")
+        vsubs_net = top_circuit.net_by_name("VSUBS") or top_circuit.create_net("VSUBS")
         nets: List[kdb.Net] = []
 
         # build table: name -> net
diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index 596a157..a423e6c 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -80,9 +80,6 @@ class RCX25NetlistExpander:
         res.description = "Extracted by KPEX/2.5D"
         expanded_netlist.add(res)
 
-        fc_gnd_net = top_circuit.create_net('FC_GND')  # create GROUND net
-        vsubs_net = top_circuit.create_net("VSUBS")
-
         summary = extraction_results.summarize()
         cap_items = sorted(summary.capacitances.items())
         res_items = sorted(summary.resistances.items())
@@ -95,6 +92,9 @@ class RCX25NetlistExpander:
                 return
             name2net[net_name] = top_circuit.create_net(net_name)
 
+        add_net_if_needed('FC_GND')  # create GROUND net
+        add_net_if_needed('VSUBS')
+
         # add additional nets for new nodes (e.g. created during R extraction of vias)
         for key, _ in cap_items:
             add_net_if_needed(key.net1)
-- 
2.43.0


From b32204f9ce93add1473e99d5172d31d4c4ae0147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 06/40] fix: write 2.5D capacitances to the netlist in farads

---
 klayout_pex/rcx25/netlist_expander.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index a423e6c..2331103 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -110,7 +110,7 @@ class RCX25NetlistExpander:
             c: kdb.Device = top_circuit.create_device(cap, f"ext_{idx+1}")
             c.connect_terminal('A', net1)
             c.connect_terminal('B', net2)
-            c.set_parameter('C', cap_value)
+            c.set_parameter('C', cap_value * 1e-15)  # fF -> F
             if net1 == net2:
                 warning(f"Invalid attempt to create cap {c.name} between "
                         f"same net {net1} with value {'%.12g' % cap_value}")
-- 
2.43.0


From 52a4de6f4fd1b07ae6f11cdafb64631153a30d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 07/40] fix: name unnamed nets in the netlist CSV

---
 klayout_pex/klayout/netlist_csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/netlist_csv.py b/klayout_pex/klayout/netlist_csv.py
index c30e145..288a584 100644
--- a/klayout_pex/klayout/netlist_csv.py
+++ b/klayout_pex/klayout/netlist_csv.py
@@ -56,4 +56,4 @@ class NetlistCSVWriter:
                     net2 = d.net_for_terminal('B')
                     cap = params['C']
                     cap_femto = round(cap * 1e15, 2)
-                    f.write(f"{dn};{net1.name};{net2.name};{cap_femto}\n")
+                    f.write(f"{dn};{net1.expanded_name()};{net2.expanded_name()};{cap_femto}\n")
-- 
2.43.0


From 8d412bd8cbc04565506aea1fee22402027310e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:14 +0000
Subject: [PATCH 08/40] fix: keep every instance of a subcircuit in the
 netlistsvg description

---
 klayout_pex/netlistsvg/netlist_json.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/netlistsvg/netlist_json.py b/klayout_pex/netlistsvg/netlist_json.py
index b04c89e..196e368 100644
--- a/klayout_pex/netlistsvg/netlist_json.py
+++ b/klayout_pex/netlistsvg/netlist_json.py
@@ -86,7 +86,8 @@ class NetlistJSONWriter:
                 port_directions[pin_text] = 'input'
                 connections[pin_text] = [self._get_or_create_id(net)]
 
-            cells_dict[f"{subcircuit.name}{subcircuit.cell_index}"] = {
+            # NOTE: there can be multiple instances of the same subcircuit
+            cells_dict[f"X{sc.expanded_name()}"] = {
                 'hide_name': 1,
                 'type': f"${subcircuit.name}",
                 'port_directions': port_directions,
-- 
2.43.0


From 38917cb9eaec5d6a62d55fd05d0de8a15d2d8d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:19 +0000
Subject: [PATCH 09/40] fix: side overlap table of a layer without substrate
 capacitance

---
 klayout_pex/tech_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/tech_info.py b/klayout_pex/tech_info.py
index ade462c..bd27d93 100644
--- a/klayout_pex/tech_info.py
+++ b/klayout_pex/tech_info.py
@@ -395,7 +395,7 @@ class TechInfo:
 
         for k1, ve in d2.items():
             for k2, v in ve.items():
-                d[k1][k2] = v
+                d.setdefault(k1, {})[k2] = v
 
         return d
 
-- 
2.43.0


From 56d8b8a6310652b5b67e10a70857b126ed3b295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:27 +0000
Subject: [PATCH 10/40] fix: a missing overlap coefficient dropped the overlaps
 with all further layers

---
 klayout_pex/rcx25/c/overlap_extractor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/rcx25/c/overlap_extractor.py b/klayout_pex/rcx25/c/overlap_extractor.py
index 4c1cec5..d00a8d5 100644
--- a/klayout_pex/rcx25/c/overlap_extractor.py
+++ b/klayout_pex/rcx25/c/overlap_extractor.py
@@ -118,11 +118,11 @@ class OverlapExtractor:
                     top_overlap_specs = self.tech_info.overlap_cap_by_layer_names.get(top_layer_name, None)
                     if not top_overlap_specs:
                         warning(f"No overlap cap specified for layer top={top_layer_name}")
-                        return
+                        continue
                     overlap_cap_spec = top_overlap_specs.get(bot_layer_name, None)
                     if not overlap_cap_spec:
                         warning(f"No overlap cap specified for layer bottom={bot_layer_name}")
-                        return
+                        continue
 
                     top_region = kdb.Region(polygon_above)
 
-- 
2.43.0


From 1d34999ec16c05edd02f30d063795e50af9c5544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:27 +0000
Subject: [PATCH 11/40] fix: an empty fringe interval dropped the fringe
 capacitances of the remaining polygons

---
 klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py b/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
index 89d238c..ac7eb07 100644
--- a/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
+++ b/klayout_pex/rcx25/c/sidewall_and_fringe_extractor.py
@@ -433,7 +433,7 @@ class SidewallAndFringeExtractor:
                         raise
 
                     if distance_far == distance_near:
-                        return
+                        continue
 
                     edge_interval_length = edge_interval[1] - edge_interval[0]
                     edge_interval_length_um = edge_interval_length * self.dbu
-- 
2.43.0


From 8b489d85d5b2ca20aa89555fda107ba947794e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:27 +0000
Subject: [PATCH 12/40] fix: an ignored via was handed to the R extraction as a
 via without layers

---
 klayout_pex/rcx25/r/r_extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index b80f0f1..b73bb20 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -188,13 +188,14 @@ class RExtractor:
                             warning(f"ignoring layer {canonical_layer_name}, no via resistance found in tech info")
                             continue
                         for source_layer in li.source_layers:
-                            via = rex_tech.vias.add()
                             bot_top = tech.bottom_and_top_layer_name_by_via_computed_layer_name.get(
                                 source_layer.lvs_layer_name, None)
                             if bot_top is None:
                                 warning(f"ignoring layer {canonical_layer_name} (LVS {source_layer.lvs_layer_name}), no bottom/top layers found in tech info")
                                 continue
 
+                            via = rex_tech.vias.add()
+
                             (bot, top) = bot_top
                             bot_gds_pair = tech.gds_pair(bot)
                             top_gds_pair = tech.gds_pair(top)
-- 
2.43.0


From a3e70fe690e88754f12e0db28b8000b9d4d6bac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:46 +0000
Subject: [PATCH 13/40] fix: a device terminal without net stopped the
 extraction

---
 klayout_pex/klayout/lvsdb_extractor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index c2ea97c..8649576 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -375,10 +375,11 @@ class KLayoutExtractionContext:
             for td in d_kly.device_class().terminal_definitions():
                 n: kdb.Net = d_kly.net_for_terminal(td.id())
                 if n is None:
-                    warning(f"Skipping terminal {td.name} of device {d.name} ({d.device_class}) "
+                    warning(f"Skipping terminal {td.name} of device {d.device_name} ({d.device_class_name}) "
                             f"is not connected to any net")
                     terminal = d.terminals.add()
-                    terminal.id = td.id()
+                    terminal.device_id = d.id
+                    terminal.terminal_id = td.id()
                     terminal.name = td.name
                     terminal.net_name = ''  # TODO
                     continue
-- 
2.43.0


From 98356598b84370c7f5ab0dca232801f24631a0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:46 +0000
Subject: [PATCH 14/40] fix: shapes of unnamed nets were missing in the 3D
 model and the R extraction

---
 klayout_pex/klayout/lvsdb_extractor.py | 5 +++--
 klayout_pex/rcx25/r/r_extractor.py     | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index 8649576..a42b49e 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -270,7 +270,8 @@ class KLayoutExtractionContext:
         shapes = kdb.Region()
         shapes.enable_properties()
 
-        requested_net_name = net.name if isinstance(net, kdb.Net) else net
+        # NOTE: shapes of unnamed nets carry the expanded name (e.g. $5)
+        requested_net_name = net.expanded_name() if isinstance(net, kdb.Net) else net
 
         def add_shapes_from_region(source_region: kdb.Region):
             iter, transform = source_region.begin_shapes_rec()
@@ -398,7 +399,7 @@ class KLayoutExtractionContext:
                     terminal.device_id = d.id
                     terminal.terminal_id = td.id()
                     terminal.name = td.name
-                    terminal.net_name = n.name
+                    terminal.net_name = n.expanded_name()
 
                     for idx, shapes in shapes_by_lyr_idx.items():
                         lyr_idx = self.layer_index_map[idx]
diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index b73bb20..776b226 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -268,7 +268,7 @@ class RExtractor:
                             r = self.pex_context.shapes_of_net(lyr.gds_pair, net)
                             if not r:
                                 continue
-                            l2r = get_or_create_net_request(net.name).region_by_layer.add()
+                            l2r = get_or_create_net_request(net.expanded_name()).region_by_layer.add()
                             l2r.layer.id = self.pex_context.annotated_layout.layer(*lvs_gds_pair)
                             l2r.layer.canonical_layer_name = self.pex_context.tech.canonical_layer_name_by_gds_pair[lvs_gds_pair]
                             l2r.layer.lvs_layer_name = lyr.lvs_layer_name
-- 
2.43.0


From 9c9afa07174dc17456dade138d6f4f41500a7824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:45 +0000
Subject: [PATCH 15/40] fix: device terminals on layers that are not extracted
 (e.g. of blackboxed devices) raised a KeyError

---
 klayout_pex/klayout/lvsdb_extractor.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index a42b49e..ac8a0b0 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -402,12 +402,21 @@ class KLayoutExtractionContext:
                     terminal.net_name = n.expanded_name()
 
                     for idx, shapes in shapes_by_lyr_idx.items():
-                        lyr_idx = self.layer_index_map[idx]
+                        # NOTE: layers that are not extracted (e.g. those of blackboxed devices) are not mapped
+                        lyr_idx = self.layer_index_map.get(idx, None)
+                        if lyr_idx is None:
+                            continue
                         lyr_info: kdb.LayerInfo = self.annotated_layout.layer_infos()[lyr_idx]
+                        canonical_layer_name = self.tech.canonical_layer_name_by_gds_pair.get(
+                            (lyr_info.layer, lyr_info.datatype), None)
+                        if canonical_layer_name is None:
+                            warning(f"Ignoring shapes of terminal {td.name} of device {d.device_name} "
+                                    f"on layer {lyr_info}, no computed layer info found in tech info")
+                            continue
 
                         region_by_layer = terminal.region_by_layer.add()
                         region_by_layer.layer.id = lyr_idx
-                        region_by_layer.layer.canonical_layer_name = self.tech.canonical_layer_name_by_gds_pair[lyr_info.layer, lyr_info.datatype]
+                        region_by_layer.layer.canonical_layer_name = canonical_layer_name
 
                         shapes_converter.klayout_region_to_pb(shapes, region_by_layer.region)
 
-- 
2.43.0


From 6a82747a7f64792bcf6b99354cf7fdb3969e700f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:25 +0000
Subject: [PATCH 16/40] fix: holes of polygons got lost in the conversion to
 messages

---
 klayout_pex/klayout/shapes_pb2_converter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/shapes_pb2_converter.py b/klayout_pex/klayout/shapes_pb2_converter.py
index c69c81b..4f3ee21 100644
--- a/klayout_pex/klayout/shapes_pb2_converter.py
+++ b/klayout_pex/klayout/shapes_pb2_converter.py
@@ -68,7 +68,8 @@ class ShapesConverter:
         net_name = polygon_kly.property('net')
         if net_name:
             polygon_pb.net = net_name
-        for p_kly in polygon_kly.each_point_hull():
+        # NOTE: the message only has a hull, so holes are connected to it with cut-lines
+        for p_kly in polygon_kly.resolved_holes().each_point_hull():
             self.klayout_point_to_pb(p_kly, polygon_pb.hull_points.add())
 
     def klayout_region_to_pb(self,
-- 
2.43.0


From 5d831c3010537427bd06d548e44679b3fc69ff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:25 +0000
Subject: [PATCH 17/40] fix: MultipleChoicePattern.is_included() ignored
 inclusions without 'none', unlike filter()

---
 klayout_pex/util/multiple_choice.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/klayout_pex/util/multiple_choice.py b/klayout_pex/util/multiple_choice.py
index be8c74c..f334e2c 100644
--- a/klayout_pex/util/multiple_choice.py
+++ b/klayout_pex/util/multiple_choice.py
@@ -62,8 +62,6 @@ class MultipleChoicePattern:
         return [c for c in choices if c in self.included]
 
     def is_included(self, choice: str) -> bool:
-        if self.has_none:
-            return choice in self.included
         if self.has_all:
             return choice not in self.excluded
-        return False
+        return choice in self.included
-- 
2.43.0


From cad0ac85af837f21d250dfeeee863e2a3d8b9186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:25 +0000
Subject: [PATCH 18/40] fix: MultipleChoicePattern never matched choices with
 uppercase letters

---
 klayout_pex/util/multiple_choice.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/util/multiple_choice.py b/klayout_pex/util/multiple_choice.py
index f334e2c..0c0f1c0 100644
--- a/klayout_pex/util/multiple_choice.py
+++ b/klayout_pex/util/multiple_choice.py
@@ -58,10 +58,10 @@ class MultipleChoicePattern:
 
     def filter(self, choices: List[str]) -> List[str]:
         if self.has_all:
-            return [c for c in choices if c not in self.excluded]
-        return [c for c in choices if c in self.included]
+            return [c for c in choices if c.lower() not in self.excluded]
+        return [c for c in choices if c.lower() in self.included]
 
     def is_included(self, choice: str) -> bool:
         if self.has_all:
-            return choice not in self.excluded
-        return choice in self.included
+            return choice.lower() not in self.excluded
+        return choice.lower() in self.included
-- 
2.43.0


From 704663e76ca8bba307a7186c597bd8b22d7211dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:25 +0000
Subject: [PATCH 19/40] fix: boolean arguments 1 and 0 were rejected

---
 klayout_pex/util/argparse_helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/util/argparse_helpers.py b/klayout_pex/util/argparse_helpers.py
index 20082be..a26f9b5 100644
--- a/klayout_pex/util/argparse_helpers.py
+++ b/klayout_pex/util/argparse_helpers.py
@@ -61,9 +61,9 @@ def true_or_false(arg) -> bool:
         return arg
 
     match str(arg).lower():
-        case 'yes' | 'true' | 't' | 'y' | 1:
+        case 'yes' | 'true' | 't' | 'y' | '1':
             return True
-        case 'no' | 'false' | 'f' | 'n' | 0:
+        case 'no' | 'false' | 'f' | 'n' | '0':
             return False
         case _:
             raise argparse.ArgumentTypeError('Boolean value expected.')
-- 
2.43.0


From a3c8c696ea70e9c87efc8663e07a2fd3cc35461e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:25 +0000
Subject: [PATCH 20/40] fix: the program stopped with a KeyError if PDKPATH was
 set, but PDK was not

---
 klayout_pex/kpex_cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 8c15409..976948c 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -252,9 +252,10 @@ class KpexCLI:
                                      help="FasterCap -pj Use Jacobi preconditioner (default is %(default)s)")
 
         PDKPATH = os.environ.get('PDKPATH', None)
+        PDK_NAME = os.environ.get('PDK', None)
         default_magicrc_path = \
-            None if PDKPATH is None \
-            else os.path.abspath(f"{PDKPATH}/libs.tech/magic/{os.environ['PDK']}.magicrc")
+            None if PDKPATH is None or PDK_NAME is None \
+            else os.path.abspath(f"{PDKPATH}/libs.tech/magic/{PDK_NAME}.magicrc")
         group_magic = main_parser.add_argument_group("MAGIC options")
         group_magic.add_argument('--magicrc', dest='magicrc_path', default=default_magicrc_path,
                                   help=f"Path to magicrc configuration file (default is '%(default)s')")
-- 
2.43.0


From b216790a3290a54ae0789eb1343c2257bf76febb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:25 +0000
Subject: [PATCH 21/40] fix: category path separators after an escaped ordinary
 character were not recognized

---
 klayout_pex/klayout/repair_rdb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klayout_pex/klayout/repair_rdb.py b/klayout_pex/klayout/repair_rdb.py
index 99dc179..acdbef5 100644
--- a/klayout_pex/klayout/repair_rdb.py
+++ b/klayout_pex/klayout/repair_rdb.py
@@ -75,6 +75,7 @@ def parse_category_path(category_path: str) -> List[str]:
                     within_escaped = not within_escaped
             case _:
                 current_word += c
+                within_backslash = False
     if len(current_word) >= 1:
         path_list.append(current_word)
     return path_list
-- 
2.43.0


From da0cc3e7d81fbf29a583f96d8b34f51401e12771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:25 +0000
Subject: [PATCH 22/40] fix: reports with quotes in category names could not be
 repaired

---
 klayout_pex/klayout/repair_rdb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/repair_rdb.py b/klayout_pex/klayout/repair_rdb.py
index acdbef5..9da8acf 100644
--- a/klayout_pex/klayout/repair_rdb.py
+++ b/klayout_pex/klayout/repair_rdb.py
@@ -94,7 +94,8 @@ def repair_rdb_xml(xml_file: io.IOBase, new_xml_path: str):
         elem = root
         for c in p:
             elemcats = elem.find("./categories")
-            subelem = elemcats.find("./category/name[.='{0}']/..".format(c))
+            # NOTE: names can contain quotes, hence no XPath predicate
+            subelem = next((e for e in elemcats.findall("./category") if e.findtext("./name") == c), None)
             if subelem is None:
                 warning(f"In category path {p}, can't find element for component {c}")
                 new_category = ET.SubElement(elemcats, "category")
-- 
2.43.0


From d44cb28e821c1a9091e30beb1151ed330fe7d416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:28 +0000
Subject: [PATCH 23/40] fix: Magic records with net names like a_10_20# or D[0]
 were skipped

---
 klayout_pex/magic/magic_ext_file_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/magic/magic_ext_file_parser.py b/klayout_pex/magic/magic_ext_file_parser.py
index e64bf0e..acf6c97 100644
--- a/klayout_pex/magic/magic_ext_file_parser.py
+++ b/klayout_pex/magic/magic_ext_file_parser.py
@@ -90,7 +90,7 @@ def parse_magic_ext_file(path: Path) -> ExtData:
             # port "VDD" 2 -600 800 500 1000 m1
             # port "VSS" 3 -600 500 500 700 m1
             m = re.match(
-                r'^port "(?P<net>\w+)" (?P<nr>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) (?P<layer>\w+)$',
+                r'^port "(?P<net>[^"]+)" (?P<nr>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) (?P<layer>\w+)$',
                 line.strip())
             if m:
                 ports.append(Port(net=m.group('net'),
@@ -101,7 +101,7 @@ def parse_magic_ext_file(path: Path) -> ExtData:
                                   layer=m.group('layer')))
 
             m = re.match(
-                r'^(node|substrate) "(?P<net>\w+)" (?P<int_r>\d+) (?P<fin_c>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<layer>\w+) .*$',
+                r'^(node|substrate) "(?P<net>[^"]+)" (?P<int_r>\d+) (?P<fin_c>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<layer>\w+) .*$',
                 line.strip())
             if m:
                 nodes.append(Node(net=m.group('net'),
@@ -133,7 +133,7 @@ def parse_magic_res_ext_file(path: Path) -> ResExtData:
     with open(path, 'r') as f:
         for line in f.readlines():
             m = re.match(
-                r'^rnode "(?P<name>[\w\\.]+)" (?P<int_r>-?\d+) (?P<fin_c>-?\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
+                r'^rnode "(?P<name>[^"]+)" (?P<int_r>-?\d+) (?P<fin_c>-?\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
                 line.strip())
             if m:
                 rnodes.append(ResNode(name=m.group('name'),
@@ -143,7 +143,7 @@ def parse_magic_res_ext_file(path: Path) -> ResExtData:
                                       y_bot=int(m.group('y_bot'))))
 
             m = re.match(
-                r'^resist "(?P<node1>[\w\\.]+)" "(?P<node2>[\w\\.]+)" (?P<value>-?[\d\\.]+)$',
+                r'^resist "(?P<node1>[^"]+)" "(?P<node2>[^"]+)" (?P<value>-?[\d\\.]+)$',
                 line.strip())
             if m:
                 resistors.append(Resistor(node1=m.group('node1'),
-- 
2.43.0


From d3b79fc67219ba3d140d3e73c4a9989693aa14cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:44 +0000
Subject: [PATCH 24/40] fix: Magic records with fractional capacitances or
 resistances with exponents were skipped

---
 klayout_pex/magic/magic_ext_data_structures.py |  4 ++--
 klayout_pex/magic/magic_ext_file_parser.py     | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/klayout_pex/magic/magic_ext_data_structures.py b/klayout_pex/magic/magic_ext_data_structures.py
index 7083809..93eb093 100644
--- a/klayout_pex/magic/magic_ext_data_structures.py
+++ b/klayout_pex/magic/magic_ext_data_structures.py
@@ -48,7 +48,7 @@ class Port:
 class Node:
     net: str
     int_r: int
-    fin_c: int
+    fin_c: float
     x_bot: int
     y_bot: int
     layer: str
@@ -94,7 +94,7 @@ class ExtData:
 class ResNode:
     name: str
     int_r: int
-    fin_c: int
+    fin_c: float
     x_bot: int
     y_bot: int
 
diff --git a/klayout_pex/magic/magic_ext_file_parser.py b/klayout_pex/magic/magic_ext_file_parser.py
index acf6c97..900fc97 100644
--- a/klayout_pex/magic/magic_ext_file_parser.py
+++ b/klayout_pex/magic/magic_ext_file_parser.py
@@ -101,12 +101,12 @@ def parse_magic_ext_file(path: Path) -> ExtData:
                                   layer=m.group('layer')))
 
             m = re.match(
-                r'^(node|substrate) "(?P<net>[^"]+)" (?P<int_r>\d+) (?P<fin_c>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<layer>\w+) .*$',
+                r'^(node|substrate) "(?P<net>[^"]+)" (?P<int_r>\d+) (?P<fin_c>[\d.eE+-]+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<layer>\w+) .*$',
                 line.strip())
             if m:
                 nodes.append(Node(net=m.group('net'),
                                   int_r=int(m.group('int_r')),
-                                  fin_c=int(m.group('fin_c')),
+                                  fin_c=float(m.group('fin_c')),
                                   x_bot=int(m.group('x_bot')),
                                   y_bot=int(m.group('y_bot')),
                                   layer=m.group('layer')))
@@ -133,17 +133,17 @@ def parse_magic_res_ext_file(path: Path) -> ResExtData:
     with open(path, 'r') as f:
         for line in f.readlines():
             m = re.match(
-                r'^rnode "(?P<name>[^"]+)" (?P<int_r>-?\d+) (?P<fin_c>-?\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
+                r'^rnode "(?P<name>[^"]+)" (?P<int_r>-?\d+) (?P<fin_c>[\d.eE+-]+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
                 line.strip())
             if m:
                 rnodes.append(ResNode(name=m.group('name'),
                                       int_r=int(m.group('int_r')),  # NOTE: R is always 0!
-                                      fin_c=int(m.group('fin_c')),
+                                      fin_c=float(m.group('fin_c')),
                                       x_bot=int(m.group('x_bot')),
                                       y_bot=int(m.group('y_bot'))))
 
             m = re.match(
-                r'^resist "(?P<node1>[^"]+)" "(?P<node2>[^"]+)" (?P<value>-?[\d\\.]+)$',
+                r'^resist "(?P<node1>[^"]+)" "(?P<node2>[^"]+)" (?P<value>[\d.eE+-]+)$',
                 line.strip())
             if m:
                 resistors.append(Resistor(node1=m.group('node1'),
-- 
2.43.0


From 736de78af38424b2bb18ec7a41b0368010270bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:56 +0000
Subject: [PATCH 25/40] fix: the Magic report was not saved if no output path
 was given

---
 klayout_pex/magic/magic_log_analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/magic/magic_log_analyzer.py b/klayout_pex/magic/magic_log_analyzer.py
index bd943a5..92ece0b 100755
--- a/klayout_pex/magic/magic_log_analyzer.py
+++ b/klayout_pex/magic/magic_log_analyzer.py
@@ -148,7 +148,7 @@ def _parse_args(arg_list: List[str] = None) -> argparse.Namespace:
         raise ArgumentValidationError(f"Intput magic log directory does not exist at '{args.magic_log_dir_path}'")
 
     if args.output_rdb_path is None:
-        os.path.join(args.magic_log_dir_path, 'report.rdb.gz')
+        args.output_rdb_path = os.path.join(args.magic_log_dir_path, 'report.rdb.gz')
 
     return args
 
-- 
2.43.0


From 58c188e38af5fd8845bdca7b80b025b66c822da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:16 +0000
Subject: [PATCH 26/40] fix: spurious dielectric interfaces where the
 dielectric in front of a continuing one changes

---
 klayout_pex/fastercap/fastercap_model_generator.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index f0a1d2c..0f10882 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -435,6 +435,11 @@ class FasterCapModelGenerator:
                 lin -= lout_org
                 lout -= lin_org
 
+                # if the layer in front changes, there is no event in the layer behind it
+                unchanged = lin & lout
+                lin -= unchanged
+                lout -= unchanged
+
                 # tracks the legalized horizontal cuts
                 self.state[mk] += lin
                 self.state[mk] -= lout
-- 
2.43.0


From 9c54c012afe3bb423b389ea5d6c5abd443423756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:37 +0000
Subject: [PATCH 27/40] fix: a model with a single conductor or a single
 dielectric lost its side and top surfaces

---
 klayout_pex/fastercap/fastercap_model_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index 0f10882..2d96027 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -464,7 +464,7 @@ class FasterCapModelGenerator:
         debug(f"All conductor region out: {all_cout}")
 
         # check whether states are separated
-        a = reduce(lambda x, y: x+y, self.state.values())
+        a = reduce(lambda x, y: x+y, self.state.values(), kdb.Region())
         for k, s in self.state.items():
             r: kdb.Region = s - a
             if not r.is_empty():
-- 
2.43.0


From 3184275b4f8df65d61743810f177b6a9125bef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:05 +0000
Subject: [PATCH 28/40] fix: two technology lookups read fields that the schema
 does not declare

---
 klayout_pex/tech_info.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/tech_info.py b/klayout_pex/tech_info.py
index bd27d93..8b7b1a9 100644
--- a/klayout_pex/tech_info.py
+++ b/klayout_pex/tech_info.py
@@ -91,10 +91,11 @@ class TechInfo:
         return {lyr.name: lyr for lyr in self.tech.layers}
 
     @cached_property
-    def pin_layer_mapping_for_drw_gds_pair(self) -> Dict[GDSPair, tech_pb2.PinLayerMapping]:
+    def pin_layer_mapping_for_drw_gds_pair(self) -> Dict[GDSPair, GDSPair]:
         return {
-            (m.drw_gds_layer, m.drw_gds_datatype): (m.pin_gds_layer, m.pin_gds_datatype)
-            for m in self.tech.pin_layer_mappings
+            (lyr.drw_gds_pair.layer, lyr.drw_gds_pair.datatype): (lyr.pin_gds_pair.layer, lyr.pin_gds_pair.datatype)
+            for lyr in self.tech.layers
+            if lyr.HasField('pin_gds_pair')
         }
 
     @cached_property
@@ -112,8 +113,9 @@ class TechInfo:
     @cached_property
     def process_stack_layer_by_gds_pair(self) -> Dict[GDSPair, process_stack_pb2.ProcessStackInfo.LayerInfo]:
         return {
-            (lyr.drw_gds_pair.layer, lyr.drw_gds_pair.datatype): self.process_stack_layer_by_name[lyr.name]
+            self.gds_pair_for_layer_name[lyr.name]: lyr
             for lyr in self.tech.process_stack.layers
+            if lyr.name in self.gds_pair_for_layer_name
         }
 
     @cached_property
-- 
2.43.0


From 827eef6121ca11953dcdba6b6b7baa73d7295adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:28 +0000
Subject: [PATCH 29/40] fix: the sky130A via between met1 and met2 was
 attributed to a layer that does not exist

---
 cxx/gen_tech_pb/pdk/sky130A.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/gen_tech_pb/pdk/sky130A.cpp b/cxx/gen_tech_pb/pdk/sky130A.cpp
index 45b1ef1..9e10b17 100644
--- a/cxx/gen_tech_pb/pdk/sky130A.cpp
+++ b/cxx/gen_tech_pb/pdk/sky130A.cpp
@@ -94,7 +94,7 @@ void buildLVSComputedLayers(kpex::tech::Technology *tech) {
     addComputedLayer(tech, CONT,    KREG, "licon_psd_con",  66, 4402,  "licon1", "Computed layer for contact from psdm to li1");
     addComputedLayer(tech, CONT,    KREG, "licon_poly_con", 66, 4403,  "licon1", "Computed layer for contact from poly to li1");
     addComputedLayer(tech, VIA,     KREG, "mcon_con",  67, 44,  "mcon",       "Computed layer for contact between li1 and met1");
-    addComputedLayer(tech, VIA,     KREG, "via1_con",  68, 44,  "via1",       "Computed layer for contact between met1 and met2");
+    addComputedLayer(tech, VIA,     KREG, "via1_con",  68, 44,  "via",        "Computed layer for contact between met1 and met2");
     addComputedLayer(tech, VIA,     KREG, "via2_con",  69, 44,  "via2",       "Computed layer for contact between met2 and met3");
     addComputedLayer(tech, VIA,     KREG, "via3_ncap", 70, 144, "via3",       "Computed layer for via3 (no MIM cap)");
     addComputedLayer(tech, VIA,     KREG, "via4_ncap", 71, 144, "via4",       "Computed layer for via4 (no MIM cap)");
-- 
2.43.0


From 4fda457dca9b5dbf0ae1b65dc105780c3b02b436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:28 +0000
Subject: [PATCH 30/40] fix: the sky130A metal labels were declared under the
 names of the pin layers

---
 cxx/gen_tech_pb/pdk/sky130A.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cxx/gen_tech_pb/pdk/sky130A.cpp b/cxx/gen_tech_pb/pdk/sky130A.cpp
index 9e10b17..6832b67 100644
--- a/cxx/gen_tech_pb/pdk/sky130A.cpp
+++ b/cxx/gen_tech_pb/pdk/sky130A.cpp
@@ -130,11 +130,11 @@ void buildLVSComputedLayers(kpex::tech::Technology *tech) {
 
     addComputedLayer(tech, METAL,   KLBL, "poly_label",   66, 5,  "poly.label", "Poly label");
     addComputedLayer(tech, METAL,   KLBL, "li_label",     67, 5,  "li1.label",  "li1 label");
-    addComputedLayer(tech, METAL,   KLBL, "met1_pin_con", 68, 5,  "met1.label", "met1 label");
-    addComputedLayer(tech, METAL,   KLBL, "met2_pin_con", 69, 5,  "met2.label", "met2 label");
-    addComputedLayer(tech, METAL,   KLBL, "met3_pin_con", 70, 5,  "met3.label", "met3 label");
-    addComputedLayer(tech, METAL,   KLBL, "met4_pin_con", 71, 5,  "met4.label", "met4 label");
-    addComputedLayer(tech, METAL,   KLBL, "met5_pin_con", 72, 5,  "met5.label", "met5 label");
+    addComputedLayer(tech, METAL,   KLBL, "met1_label",   68, 5,  "met1.label", "met1 label");
+    addComputedLayer(tech, METAL,   KLBL, "met2_label",   69, 5,  "met2.label", "met2 label");
+    addComputedLayer(tech, METAL,   KLBL, "met3_label",   70, 5,  "met3.label", "met3 label");
+    addComputedLayer(tech, METAL,   KLBL, "met4_label",   71, 5,  "met4.label", "met4 label");
+    addComputedLayer(tech, METAL,   KLBL, "met5_label",   72, 5,  "met5.label", "met5 label");
 }
 
 void buildProcessStackInfo(kpex::tech::ProcessStackInfo *psi) {
-- 
2.43.0


From f54ec2f1d8398e5e1b35ecd7393be78c57661b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:00 +0000
Subject: [PATCH 31/40] fix: the thickness of Metal2 of ihp_sg13g2 contradicted
 the overlap capacitances

---
 cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp b/cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp
index 23e0788..5e5e815 100644
--- a/cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp
+++ b/cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp
@@ -162,7 +162,7 @@ void buildProcessStackInfo(kpex::tech::ProcessStackInfo *psi) {
     
     auto poly_thickness = 0.16;
     auto met1_thickness = 0.42;
-    auto met2_thickness = 0.36;
+    auto met2_thickness = 0.49;
     auto met3_thickness = 0.49;
     auto met4_thickness = 0.49;
     auto met5_thickness = 0.49;
-- 
2.43.0


From 25e89b2a44a78e6c44bc4fb86c1575f32f7ad9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:22 +0000
Subject: [PATCH 32/40] fix: the contacts of the MIM plates of sky130A ran into
 the metal above

---
 cxx/gen_tech_pb/pdk/sky130A.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cxx/gen_tech_pb/pdk/sky130A.cpp b/cxx/gen_tech_pb/pdk/sky130A.cpp
index 6832b67..bae7832 100644
--- a/cxx/gen_tech_pb/pdk/sky130A.cpp
+++ b/cxx/gen_tech_pb/pdk/sky130A.cpp
@@ -297,9 +297,9 @@ void buildProcessStackInfo(kpex::tech::ProcessStackInfo *psi) {
     setContact(via,        "via1_con",       "met1",      "met2",      0.27,                    0.15,    0.17,  0.055);
     setContact(via2,       "via2_con",       "met2",      "met3",      0.42,                    0.20,    0.20,  0.04);
     setContact(via3_ncap,  "via3_ncap",      "met3",      "met4",      0.39,                    0.20,    0.20,  0.06);
-    setContact(via3_cap,   "via3_cap",       "met3",      "met4",      0.29,                    0.20,    0.20,  0.06);
+    setContact(via3_cap,   "via3_cap",       "met3",      "met4",      0.39 - capild_thickness - capm_thickness, 0.20,    0.20,  0.06);
     setContact(via4_ncap,  "via4_ncap",      "met4",      "met5",      0.505,                   0.80,    0.80,  0.19);
-    setContact(via4_cap,   "via4_cap",       "met4",      "met5",      0.505 - 0.1,             0.80,    0.80,  0.19);
+    setContact(via4_cap,   "via4_cap",       "met4",      "met5",      0.505 - capild_thickness - capm_thickness, 0.80,    0.80,  0.19);
 }
 
 void buildProcessParasiticsInfo(kpex::tech::ProcessParasiticsInfo *ex) {
-- 
2.43.0


From 53642ccf71dbf71cff17c8b693ca6b62bb1f865f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:50 +0000
Subject: [PATCH 33/40] fix: the order of the cells in the Magic report was
 that of the directory entries

---
 klayout_pex/magic/magic_ext_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/magic/magic_ext_file_parser.py b/klayout_pex/magic/magic_ext_file_parser.py
index 900fc97..48493c8 100644
--- a/klayout_pex/magic/magic_ext_file_parser.py
+++ b/klayout_pex/magic/magic_ext_file_parser.py
@@ -45,7 +45,7 @@ def parse_magic_pex_run(run_dir: Path) -> MagicPEXRun:
     # search for <cell>.ext files (C related)
     # search for <cell>.res.ext files (R related)
     # ext_files = [f.resolve() for f in self.magic_log_dir_path.glob('*.ext')]
-    ext_files = run_dir.glob('*.ext')
+    ext_files = sorted(run_dir.glob('*.ext'))  # NOTE: directories have no defined order
 
     main_paths_by_cell_name: Dict[CellName, Path] = dict()
     res_paths_by_cell_name: Dict[CellName, Path] = dict()
-- 
2.43.0


From f79ded5eaa7ea3338b74f4754265a4257dac2c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:57 +0000
Subject: [PATCH 34/40] fix: netlist tool rejected every value of --log_level

---
 klayout_pex/netlist/netlist_cli.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/netlist/netlist_cli.py b/klayout_pex/netlist/netlist_cli.py
index 93b5e36..cb437d5 100755
--- a/klayout_pex/netlist/netlist_cli.py
+++ b/klayout_pex/netlist/netlist_cli.py
@@ -81,8 +81,7 @@ class NetlistCLI:
         group_special = main_parser.add_argument_group("Special options")
         group_special.add_argument("--help", "-h", action='help', help="show this help message and exit")
         group_special.add_argument("--version", "-v", action='version', version=f'{PROGRAM_NAME} {__version__}')
-        group_special.add_argument("--log_level", dest='log_level',
-                                   default=LogLevel.DEFAULT, type=LogLevel, choices=list(LogLevel),
+        group_special.add_argument("--log_level", dest='log_level', default='subprocess',
                                    help=render_enum_help(topic='log_level', enum_cls=LogLevel))
 
         subparsers = main_parser.add_subparsers(dest="command", help="Sub-commands help")
@@ -119,6 +118,13 @@ class NetlistCLI:
         print("")
         found_errors = False
 
+        try:
+            args.log_level = LogLevel[args.log_level.upper()]
+        except KeyError:
+            error(f"Requested log level {args.log_level.lower()} does not exist, "
+                  f"{render_enum_help(topic='log_level', enum_cls=LogLevel, print_default=False)}")
+            found_errors = True
+
         match args.command:
             case None:
                 error(f"Command argument missing")
-- 
2.43.0


From b62df6da47570263b34a37c0b06e3ce1c16eb960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:57 +0000
Subject: [PATCH 35/40] fix: --log_level all hid everything below warnings

---
 klayout_pex/log/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/log/logger.py b/klayout_pex/log/logger.py
index ed882fd..50915f6 100644
--- a/klayout_pex/log/logger.py
+++ b/klayout_pex/log/logger.py
@@ -31,7 +31,7 @@ from typing import *
 
 
 class LogLevel(IntEnum):
-    ALL = 0
+    ALL = 1  # 0 is logging.NOTSET: the level of the root logger would apply
     DEBUG = 10
     SUBPROCESS = 12
     VERBOSE = 15
-- 
2.43.0


From 4bbaac0f205f0cbef65097d2112df63041e1b531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:29 +0000
Subject: [PATCH 36/40] fix: netlist tool ignored --cell

---
 klayout_pex/netlist/netlist_cli.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/netlist/netlist_cli.py b/klayout_pex/netlist/netlist_cli.py
index cb437d5..b078c93 100755
--- a/klayout_pex/netlist/netlist_cli.py
+++ b/klayout_pex/netlist/netlist_cli.py
@@ -153,7 +153,14 @@ class NetlistCLI:
 
         rule('netlistsvg Execution')
 
-        top_circuits = netlist.top_circuits()
+        if args.cell_name is None:
+            top_circuits = netlist.top_circuits()
+        else:
+            circuit = netlist.circuit_by_name(args.cell_name)
+            if circuit is None:
+                error(f"Cell {args.cell_name} not found in SPICE netlist")
+                sys.exit(1)
+            top_circuits = [circuit]
         top_circuit_names = [c.name for c in top_circuits]
         n_circuits = len(top_circuit_names)
 
-- 
2.43.0


From 58300253b29e9bd21950ebd8de1a098b3d828e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:41 +0000
Subject: [PATCH 37/40] fix: the STL export stopped at long net names, which
 the FasterCap files shorten

---
 .../fastercap/fastercap_model_generator.py    | 36 ++++++++++++-------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index 2d96027..7c30cf7 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -740,12 +740,27 @@ class FasterCapModelGenerator:
 
         self.diel_data = dk
 
-    def write_fastcap(self, output_dir_path: str, prefix: str) -> str:
-        max_filename_length: Optional[int] = None
+    @staticmethod
+    def _max_filename_length(output_dir_path: str) -> Optional[int]:
         try:
-            max_filename_length = os.pathconf(output_dir_path, 'PC_NAME_MAX')
+            return os.pathconf(output_dir_path, 'PC_NAME_MAX')
         except AttributeError:
-            pass  # NOTE: windows does not support the os.pathconf attribute
+            return None  # NOTE: windows does not support the os.pathconf attribute
+
+    @staticmethod
+    def _net_filename(head: str, net_name: str, tail: str, max_filename_length: Optional[int]) -> str:
+        fn = f"{head}{net_name}{tail}"
+        if max_filename_length is not None and len(fn) > max_filename_length:
+            warning(f"Unusual long net name detected: {net_name}")
+            d = hashlib.md5(net_name.encode('utf-8')).digest()
+            h = base64.urlsafe_b64encode(d).decode('utf-8').rstrip('=')
+            remaining_len = len(f"{head}{tail}")
+            short_nn = net_name[0: (max_filename_length - remaining_len - len(h) - 1)] + f"_{h}"
+            fn = f"{head}{short_nn}{tail}"
+        return fn
+
+    def write_fastcap(self, output_dir_path: str, prefix: str) -> str:
+        max_filename_length = self._max_filename_length(output_dir_path)
 
         lst_fn = os.path.join(output_dir_path, f"{prefix}.lst")
         file_num = 0
@@ -805,14 +820,7 @@ class FasterCapModelGenerator:
 
                 outside = outside or '(void)'
                 # lst_file.append(f"* Conductor interface: outside={outside}, net={nn}")
-                fn = f"{prefix}{file_num}_outside={outside}_net={nn}.geo"
-                if max_filename_length is not None and len(fn) > max_filename_length:
-                    warning(f"Unusual long net name detected: {nn}")
-                    d = hashlib.md5(nn.encode('utf-8')).digest()
-                    h = base64.urlsafe_b64encode(d).decode('utf-8').rstrip('=')
-                    remaining_len = len(f"{prefix}_{file_num}_outside={outside}_net=.geo")
-                    short_nn = nn[0: (max_filename_length - remaining_len - len(h) - 1)] + f"_{h}"
-                    fn = f"{prefix}{file_num}_outside={outside}_net={short_nn}.geo"
+                fn = self._net_filename(f"{prefix}{file_num}_outside={outside}_net=", nn, '.geo', max_filename_length)
                 output_path = os.path.join(output_dir_path, fn)
                 self._write_fastercap_geo(output_path=output_path,
                                           data=data,
@@ -974,9 +982,11 @@ class FasterCapModelGenerator:
             output_path = os.path.join(output_dir_path, f"{prefix}diel_{mn}.stl")
             self._write_as_stl(output_path, tris)
 
+        max_filename_length = self._max_filename_length(output_dir_path)
         for nn in self.net_names:
             tris = self._collect_cond_tris(nn)
-            output_path = os.path.join(output_dir_path, f"{prefix}cond_{nn}.stl")
+            fn = self._net_filename(f"{prefix}cond_", nn, '.stl', max_filename_length)
+            output_path = os.path.join(output_dir_path, fn)
             self._write_as_stl(output_path, tris)
 
     @staticmethod
-- 
2.43.0


From 629a1514de27ca3386f2e2c31b7b8f16825770be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:58:28 +0000
Subject: [PATCH 38/40] fix: the files of nets with a slash in their name could
 not be written

---
 .../fastercap/fastercap_model_generator.py        | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index 7c30cf7..027a3a2 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -749,15 +749,18 @@ class FasterCapModelGenerator:
 
     @staticmethod
     def _net_filename(head: str, net_name: str, tail: str, max_filename_length: Optional[int]) -> str:
-        fn = f"{head}{net_name}{tail}"
-        if max_filename_length is not None and len(fn) > max_filename_length:
+        name = net_name.replace('/', '_')
+        too_long = max_filename_length is not None and len(f"{head}{name}{tail}") > max_filename_length
+        if too_long:
             warning(f"Unusual long net name detected: {net_name}")
+        if too_long or name != net_name:
             d = hashlib.md5(net_name.encode('utf-8')).digest()
             h = base64.urlsafe_b64encode(d).decode('utf-8').rstrip('=')
-            remaining_len = len(f"{head}{tail}")
-            short_nn = net_name[0: (max_filename_length - remaining_len - len(h) - 1)] + f"_{h}"
-            fn = f"{head}{short_nn}{tail}"
-        return fn
+            if max_filename_length is not None:
+                remaining_len = len(f"{head}{tail}")
+                name = name[0: (max_filename_length - remaining_len - len(h) - 1)]
+            name = f"{name}_{h}"
+        return f"{head}{name}{tail}"
 
     def write_fastcap(self, output_dir_path: str, prefix: str) -> str:
         max_filename_length = self._max_filename_length(output_dir_path)
-- 
2.43.0


From 25bc428a58f0a7d4f462e1a4c5529af575d48f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:32 +0000
Subject: [PATCH 39/40] fix: extraction technology was reported in milliohms,
 its values are ohms

---
 klayout_pex/rcx25/extraction_reporter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/rcx25/extraction_reporter.py b/klayout_pex/rcx25/extraction_reporter.py
index ca9081f..a9a9a5a 100644
--- a/klayout_pex/rcx25/extraction_reporter.py
+++ b/klayout_pex/rcx25/extraction_reporter.py
@@ -326,7 +326,7 @@ class ExtractionReporter:
             self.report.create_category(
                 cat_conductors,
                 f"{c.layer.id}: {c.layer.canonical_layer_name} (LVS {c.layer.lvs_layer_name}), "
-                f"{round(c.resistance, 3)} mΩ/µm^2"
+                f"{round(c.resistance, 3)} Ω/µm^2"
             )
         for v in tech.vias:
             bot = layer_by_id[v.bottom_conductor.id].canonical_layer_name
@@ -335,7 +335,7 @@ class ExtractionReporter:
                 cat_vias,
                 f"{v.layer.id}: {v.layer.canonical_layer_name} (LVS {v.layer.lvs_layer_name}, "
                 f"{bot}↔︎{top}), "
-                f"{round(v.resistance, 3)} mΩ/µm^2"
+                f"{round(v.resistance, 3)} Ω/µm^2"
             )
 
     def output_net_extraction_request(self, request: pex_request_pb2.RNetExtractionRequest):
-- 
2.43.0


From a5538b330026f7d70738ee15eb86fd5b5bd68221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:46 +0000
Subject: [PATCH 40/40] fix: devices were removed while the circuit's device
 iterator was still in use (crash)

---
 klayout_pex/klayout/netlist_expander.py | 2 +-
 klayout_pex/rcx25/netlist_expander.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/klayout/netlist_expander.py b/klayout_pex/klayout/netlist_expander.py
index b48b508..e5b8667 100644
--- a/klayout_pex/klayout/netlist_expander.py
+++ b/klayout_pex/klayout/netlist_expander.py
@@ -45,7 +45,7 @@ class NetlistExpander:
         top_circuit: kdb.Circuit = expanded_netlist.circuit_by_name(top_cell_name)
 
         if not blackbox_devices:
-            for d in top_circuit.each_device():
+            for d in list(top_circuit.each_device()):  # devices are removed within the loop
                 name = d.name or d.expanded_name()
                 info(f"Removing whiteboxed device {name}")
                 top_circuit.remove_device(d)
diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index 2331103..e61aa57 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -49,7 +49,7 @@ class RCX25NetlistExpander:
             #       because we only want to replace resistor / capacitor devices
             #       and for example not transitors
 
-            for d in top_circuit.each_device():
+            for d in list(top_circuit.each_device()):  # devices are removed within the loop
                 name = d.name or d.expanded_name()
                 match d.device_class().__class__:
                     case kdb.DeviceClassResistor | kdb.DeviceClassResistorWithBulk:
-- 
2.43.0

