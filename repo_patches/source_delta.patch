From fc878b805ca5f49fb78f5d31bd42e8df290db2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:40 +0000
Subject: [PATCH 01/46] fix: refuse to rename a workspace onto an existing one

shutil.move() moved the workspace *into* the existing target directory.
---
 dedop/ui/workspace_manager.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 9fdb6ec..cc5f43e 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -160,6 +160,8 @@ class WorkspaceManager:
         self._assert_workspace_exists(workspace_name)
         if not new_workspace_name:
             raise WorkspaceError("missing the new workspace name")
+        if self.workspace_exists(new_workspace_name):
+            raise WorkspaceError('workspace "%s" already exists' % new_workspace_name)
         dir_path = self.get_workspace_path('')
         if os.path.exists(dir_path):
             try:
-- 
2.43.0


From bfa5f5667f0a631501ff74946d4c1d7eafc38485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:46:40 +0000
Subject: [PATCH 02/46] fix: refuse empty and path-like workspace and
 configuration names

Deleting the workspace "" (or ".", "..") removed the whole workspaces
directory or its parent, deleting the configuration "" removed all
configurations of the workspace.
---
 dedop/ui/workspace_manager.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index cc5f43e..16014ed 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -115,6 +115,7 @@ class WorkspaceManager:
         """
         if not workspace_name:
             raise WorkspaceError('no workspace name is specified')
+        self._assert_valid_name(workspace_name)
         workspace_dir = self.get_workspace_path(workspace_name)
         if os.path.isdir(workspace_dir) and os.listdir(workspace_dir):
             raise WorkspaceError('workspace "%s" already exists' % workspace_name)
@@ -126,6 +127,7 @@ class WorkspaceManager:
         :param workspace_name: workspace name to be deleted
         :raise: WorkspaceError: thrown when workspace not found or cannot delete the workspace
         """
+        self._assert_valid_name(workspace_name)
         self._assert_workspace_exists(workspace_name)
         dir_path = self.get_workspace_path(workspace_name)
         if os.path.exists(dir_path):
@@ -140,6 +142,8 @@ class WorkspaceManager:
         :param new_workspace_name: new workspace name
         :raise: WorkspaceError
         """
+        self._assert_valid_name(workspace_name)
+        self._assert_valid_name(new_workspace_name)
         self._assert_workspace_exists(workspace_name)
         dir_path = self.get_workspace_path('')
         if os.path.exists(dir_path):
@@ -160,6 +164,8 @@ class WorkspaceManager:
         self._assert_workspace_exists(workspace_name)
         if not new_workspace_name:
             raise WorkspaceError("missing the new workspace name")
+        self._assert_valid_name(workspace_name)
+        self._assert_valid_name(new_workspace_name)
         if self.workspace_exists(new_workspace_name):
             raise WorkspaceError('workspace "%s" already exists' % new_workspace_name)
         dir_path = self.get_workspace_path('')
@@ -198,6 +204,7 @@ class WorkspaceManager:
         :param config_name: the name of the configuration to be added
         """
         self._assert_workspace_exists(workspace_name)
+        self._assert_valid_name(config_name)
         if self.config_exists(workspace_name, config_name):
             raise WorkspaceError('workspace "%s" already contains a configuration "%s"' % (workspace_name, config_name))
         config_dir = self.get_config_path(workspace_name, config_name)
@@ -215,6 +222,7 @@ class WorkspaceManager:
         :return:
         """
         self._assert_workspace_exists(workspace_name)
+        self._assert_valid_name(config_name)
         self._assert_config_exists(workspace_name, config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
         if os.path.exists(dir_path):
@@ -231,6 +239,8 @@ class WorkspaceManager:
         :raise: WorkspaceError
         """
         self._assert_workspace_exists(workspace_name)
+        self._assert_valid_name(config_name)
+        self._assert_valid_name(new_config_name)
         self._assert_config_exists(workspace_name, config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
         dir_path_new = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, new_config_name)
@@ -248,6 +258,8 @@ class WorkspaceManager:
         :raise: WorkspaceError
         """
         self._assert_workspace_exists(workspace_name)
+        self._assert_valid_name(config_name)
+        self._assert_valid_name(new_config_name)
         self._assert_config_exists(workspace_name, config_name)
         dir_path = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, config_name)
         dir_path_new = self.get_workspace_path(workspace_name, _CONFIGS_DIR_NAME, new_config_name)
@@ -675,6 +687,12 @@ class WorkspaceManager:
         return name if len(name) <= max_len else (
             '...' + name[3 - max_len:] if mode == 'r' else name[:max_len - 3] + '...')
 
+    @classmethod
+    def _assert_valid_name(cls, name):
+        # names become directory names, anything else would address other parts of the file system
+        if not name or name in (os.curdir, os.pardir) or os.path.basename(name) != name:
+            raise WorkspaceError('invalid name "%s"' % name)
+
     def _assert_workspace_exists(self, workspace_name):
         if not os.path.exists(self.get_workspace_path(workspace_name)):
             raise WorkspaceError('workspace "%s" does not exist' % workspace_name)
-- 
2.43.0


From fc34d0fb5832419b2adc9080d2f14e6bb24cd973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:47 +0000
Subject: [PATCH 03/46] fix: list a file once even if several patterns match it

---
 dedop/ui/workspace_manager.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 16014ed..9b9578d 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -654,12 +654,7 @@ class WorkspaceManager:
         if isinstance(pattern, str):
             fn_list = [fn for fn in fn_list if fnmatch.fnmatch(fn, pattern)]
         elif pattern:
-            new_fn_list = []
-            for fn in fn_list:
-                for p in pattern:
-                    if fnmatch.fnmatch(fn, p):
-                        new_fn_list.append(fn)
-            fn_list = new_fn_list
+            fn_list = [fn for fn in fn_list if any(fnmatch.fnmatch(fn, p) for p in pattern)]
         return sorted(fn_list)
 
     @classmethod
-- 
2.43.0


From bcf5d4d348a1c80fbab3c2179bdcefd8c8e7a4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:47 +0000
Subject: [PATCH 04/46] fix: report the directory of the current workspace
 within the managed workspaces directory

---
 dedop/ui/workspace_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 9b9578d..30bbb2e 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -97,7 +97,8 @@ class WorkspaceManager:
 
     def get_current_workspace(self) -> Workspace:
         current_workspace = _readline(os.path.join(self._workspaces_dir, _CURRENT_FILE_NAME))
-        return Workspace(None, current_workspace)
+        workspace_dir = self.get_workspace_path(current_workspace) if current_workspace else None
+        return Workspace(workspace_dir, current_workspace)
 
     def set_current_workspace_name(self, workspace_name: str):
         self._assert_workspace_exists(workspace_name)
-- 
2.43.0


From fc159d7fbb3a29d626f0c8509bfbfdd1f2b70c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:47 +0000
Subject: [PATCH 05/46] fix: never leave a half written configuration file
 behind

The configuration was overwritten in place, so that an interrupted or
failing write (e.g. disk full) destroyed the user's settings.
---
 dedop/ui/workspace_manager.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 30bbb2e..3ec3663 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -281,10 +281,16 @@ class WorkspaceManager:
 
     def write_config_file(self, workspace_name: str, config_name: str, config_file_key: str, configuration: str):
         file_path = self.get_config_file(workspace_name, config_name, config_file_key)
-        with open(file_path, 'r+') as f:
-            f.seek(0)
-            f.write(configuration)
-            f.truncate()
+        temp_path = file_path + '.tmp'
+        try:
+            shutil.copy(file_path, temp_path)
+            with open(temp_path, 'w') as f:
+                f.write(configuration)
+            os.replace(temp_path, file_path)
+        except Exception:
+            if os.path.exists(temp_path):
+                os.remove(temp_path)
+            raise
 
     def get_config_names(self, workspace_name: str) -> List[str]:
         self._assert_workspace_exists(workspace_name)
-- 
2.43.0


From e78b705536db777446ed31350a12e33f4b2fa34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:47 +0000
Subject: [PATCH 06/46] fix: resolve the second product of "output compare" on
 its own

An omitted second name crashed, and a plain second file name was looked
up in the working directory if the first product was given by a path.
---
 dedop/cli/main.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dedop/cli/main.py b/dedop/cli/main.py
index 93fb027..5b819af 100644
--- a/dedop/cli/main.py
+++ b/dedop/cli/main.py
@@ -959,7 +959,9 @@ class ManageOutputsCommand(SubCommandCommand):
                 raise CommandError('First L1B product not found: %s' % l1b_path_1)
 
             l1b_filename_2 = command_args.l1b_filename_2
-            if os.path.dirname(l1b_filename_1):
+            if not l1b_filename_2:
+                l1b_filename_2 = l1b_filename_1
+            if os.path.dirname(l1b_filename_2):
                 l1b_path_2 = os.path.abspath(l1b_filename_2)
             else:
                 if not workspace_name_2:
@@ -972,7 +974,7 @@ class ManageOutputsCommand(SubCommandCommand):
                 raise CommandError('Second L1B product not found: %s' % l1b_path_2)
 
             if os.path.samefile(l1b_path_1, l1b_path_2):
-                print('warning: comparing "%s" with itself')
+                print('warning: comparing "%s" with itself' % l1b_path_1)
 
             _WORKSPACE_MANAGER.compare_l1b_products(workspace_name_1, l1b_path_1, l1b_path_2)
         except WorkspaceError as error:
-- 
2.43.0


From 831be3663663d9053b53bbe8f4b895092e859e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:12 +0000
Subject: [PATCH 07/46] fix: let a fresh cryosat configuration be loaded

Its characterisation file holds all parameters of file version 1 but was
labelled version 0, which the reader rejects.
---
 dedop/ui/data/cryosat_config/CHD.json | 175 ++++++++++++++------------
 1 file changed, 92 insertions(+), 83 deletions(-)

diff --git a/dedop/ui/data/cryosat_config/CHD.json b/dedop/ui/data/cryosat_config/CHD.json
index b19c160..7598616 100644
--- a/dedop/ui/data/cryosat_config/CHD.json
+++ b/dedop/ui/data/cryosat_config/CHD.json
@@ -1,84 +1,93 @@
-{
-    "N_ku_pulses_burst_chd": {
-        "description": "Number of Ku-band pulses per burst",
-        "units": null,
-        "value": 64
-    },
-    "N_samples_sar_chd": {
-        "description": "Number of samples per each SAR pulse",
-        "units": null,
-        "value": 128
-    },
-    "__metainf__": {
-        "changelog": [
-            {
-                "comment": "initial version",
-                "parameters": [],
-                "version": 0
-            }
-        ],
-        "description": "DeDop Characterisation File",
-        "version": 0
-    },
-    "alt_freq_multiplier_chd": {
-        "description": "Factor to convert from USO frequency to altimeter frequency",
-        "units": null,
-        "value": 32
-    },
-    "antenna_gain_ku_chd": {
-        "description": "Antenna gain for Ku-band",
-        "units": "dB",
-        "value": 42.6
-    },
-    "brf_sar_chd": {
-        "description": "burst repetition frequency",
-        "units": "Hz",
-        "value": 85.515218502072671
-    },
-    "bw_ku_chd": {
-        "description": "Ku-band bandwidth",
-        "units": "Hz",
-        "value": 320000000
-    },
-    "freq_ku_chd": {
-        "description": "Emitted frequency in Ku-band",
-        "units": "Hz",
-        "value": 13575000000
-    },
-    "mean_sat_alt_chd": {
-        "description": "Mean satellite altitude",
-        "units": "m",
-        "value": 717000
-    },
-    "power_tx_ant_ku_chd": {
-        "description": "Antenna SSPA RF Peak Transmitted Power in Ku band",
-        "units": "dB",
-        "value": 13.0103
-    },
-    "prf_sar_chd": {
-        "description": "pulse repetition frequency",
-        "units": "Hz",
-        "value": 18181.81818181818
-    },
-    "pulse_length_chd": {
-        "description": "Pulse length",
-        "units": "s",
-        "value": 4.48e-05
-    },
-    "uso_freq_nom_chd": {
-        "description": "USO nominal frequency",
-        "units": "Hz",
-        "value": 10000000
-    },
-    "ptr_width_chd": {
-        "value": 19821
-    },
-    "fft_step_freq_ku_chd": {
-        "value": 22321.43
-    },
-    "ratio_trc_ku_chd": {
-        "value": -98.66,
-        "description": "Ratio of the losses between the transmission/Reception and the Calibration paths - Ku band",
-        "units": "dB"
-    }
+{
+    "N_ku_pulses_burst_chd": {
+        "description": "Number of Ku-band pulses per burst",
+        "units": null,
+        "value": 64
+    },
+    "N_samples_sar_chd": {
+        "description": "Number of samples per each SAR pulse",
+        "units": null,
+        "value": 128
+    },
+    "__metainf__": {
+        "changelog": [
+            {
+                "comment": "initial version",
+                "parameters": [],
+                "version": 0
+            },
+            {
+                "comment": "added new parameters for update to sigma-0 algorithm",
+                "parameters": [
+                    ["ratio_trc_ku_chd", "+", "required for sigma-0 scaling factor"],
+                    ["fft_step_freq_ku_chd", "+", "required for sigma-0 scaling factor"],
+                    ["ptr_width_chd", "+", "required for sigma-0 scaling factor"]
+                ],
+                "version": 1
+            }
+        ],
+        "description": "DeDop Characterisation File",
+        "version": 1
+    },
+    "alt_freq_multiplier_chd": {
+        "description": "Factor to convert from USO frequency to altimeter frequency",
+        "units": null,
+        "value": 32
+    },
+    "antenna_gain_ku_chd": {
+        "description": "Antenna gain for Ku-band",
+        "units": "dB",
+        "value": 42.6
+    },
+    "brf_sar_chd": {
+        "description": "burst repetition frequency",
+        "units": "Hz",
+        "value": 85.515218502072671
+    },
+    "bw_ku_chd": {
+        "description": "Ku-band bandwidth",
+        "units": "Hz",
+        "value": 320000000
+    },
+    "freq_ku_chd": {
+        "description": "Emitted frequency in Ku-band",
+        "units": "Hz",
+        "value": 13575000000
+    },
+    "mean_sat_alt_chd": {
+        "description": "Mean satellite altitude",
+        "units": "m",
+        "value": 717000
+    },
+    "power_tx_ant_ku_chd": {
+        "description": "Antenna SSPA RF Peak Transmitted Power in Ku band",
+        "units": "dB",
+        "value": 13.0103
+    },
+    "prf_sar_chd": {
+        "description": "pulse repetition frequency",
+        "units": "Hz",
+        "value": 18181.81818181818
+    },
+    "pulse_length_chd": {
+        "description": "Pulse length",
+        "units": "s",
+        "value": 4.48e-05
+    },
+    "uso_freq_nom_chd": {
+        "description": "USO nominal frequency",
+        "units": "Hz",
+        "value": 10000000
+    },
+    "ptr_width_chd": {
+        "value": 19821
+    },
+    "fft_step_freq_ku_chd": {
+        "value": 22321.43
+    },
+    "ratio_trc_ku_chd": {
+        "value": -98.66,
+        "description": "Ratio of the losses between the transmission/Reception and the Calibration paths - Ku band",
+        "units": "dB"
+    }
 }
\ No newline at end of file
-- 
2.43.0


From da680e610448b3f456460fe14e7b68dc99459b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:32 +0000
Subject: [PATCH 08/46] fix: start every processing run with empty queues

Surfaces and packets left over from a failed or cancelled run, and the
"focus found" flag of any run, changed the product of the next file
processed with the same processor.
---
 dedop/proc/sar/processor.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index ab39662..a73033f 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -134,6 +134,11 @@ class L1BProcessor(BaseProcessor):
         self.beam_angles_trend_prev = -1
         self.surfaces_count = 0
 
+        # nothing of an earlier run may reach this one
+        self._surfaces = []
+        self._packets = []
+        self.surface_locations_algorithm.focus_found = False
+
         # find base name of input file
         l1a_base, _ = os.path.splitext(os.path.basename(l1a_file))
         if l1a_base.startswith('L1A'):
-- 
2.43.0


From d4f48349904cdddb582d87d9abde76999b22fb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:32 +0000
Subject: [PATCH 09/46] fix: calibrate the first burst after a gap only once

The burst that reveals a gap is kept until the gap has been processed and
was then calibrated a second time.
---
 dedop/proc/sar/processor.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index a73033f..c90980c 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -205,11 +205,12 @@ class L1BProcessor(BaseProcessor):
                     else:
                         monitor.progress(1)
 
-                if input_packet is not None:
-                    # apply calibrations
-                    self.cal1_algorithm(input_packet)
-                    self.cal2_algorithm(input_packet)
+                        if input_packet is not None:
+                            # apply calibrations
+                            self.cal1_algorithm(input_packet)
+                            self.cal2_algorithm(input_packet)
 
+                if input_packet is not None:
                     # check if there is a gap (or if this is the first packet & prev_time has not been set)
                     if prev_time is None or input_packet.time_sar_ku - prev_time < self.gap_threshold:
 
-- 
2.43.0


From aeb79edd355750b89ff1412e52c49b1bbaf2cbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:32 +0000
Subject: [PATCH 10/46] fix: skip unusable records instead of ending the
 processing

A record that is invalid or outside of the region of interest was taken for
the end of the input: the queue was drained and, once it was empty, the
rest of the file was silently ignored.
---
 dedop/proc/sar/processor.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index c90980c..93cb5b2 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -205,10 +205,13 @@ class L1BProcessor(BaseProcessor):
                     else:
                         monitor.progress(1)
 
-                        if input_packet is not None:
-                            # apply calibrations
-                            self.cal1_algorithm(input_packet)
-                            self.cal2_algorithm(input_packet)
+                        # records that are invalid or out of range are skipped
+                        if input_packet is None:
+                            continue
+
+                        # apply calibrations
+                        self.cal1_algorithm(input_packet)
+                        self.cal2_algorithm(input_packet)
 
                 if input_packet is not None:
                     # check if there is a gap (or if this is the first packet & prev_time has not been set)
-- 
2.43.0


From 80a31ed324d71998281d2c693c62dcaa0af00226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:33 +0000
Subject: [PATCH 11/46] fix: process a short last segment after a gap

A file that ended with less than the minimum number of surfaces after a
gap failed with "insufficient input records" and lost its product, although
short segments before a gap are processed.
---
 dedop/proc/sar/processor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 93cb5b2..767db41 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -176,6 +176,7 @@ class L1BProcessor(BaseProcessor):
         prev_time = None
         gap_processing = False
         gap_resume = False
+        gap_found = False
         sub_monitor = None
 
         index = -1
@@ -201,7 +202,9 @@ class L1BProcessor(BaseProcessor):
                     except StopIteration:
                         input_packet = None
                         if not surface_processing:
-                            raise Exception("insufficient input records")
+                            if not gap_found:
+                                raise Exception("insufficient input records")
+                            surface_processing = True
                     else:
                         monitor.progress(1)
 
@@ -227,6 +230,7 @@ class L1BProcessor(BaseProcessor):
 
                     else:
                         gap_processing = True
+                        gap_found = True
                         prev_time = None
                         sub_monitor = monitor.child(1)
                         sub_monitor.start("processing gap", len(self.surf_locs))
-- 
2.43.0


From 7604cc68c6bd4df5c13a9be50ee5c366852b8217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:33 +0000
Subject: [PATCH 12/46] fix: do not report more progress than announced

Every gap added one unit of work to the progress, on top of the one unit
for each record.
---
 dedop/proc/sar/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 767db41..18c0636 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -232,7 +232,7 @@ class L1BProcessor(BaseProcessor):
                         gap_processing = True
                         gap_found = True
                         prev_time = None
-                        sub_monitor = monitor.child(1)
+                        sub_monitor = monitor.child(0)  # the records are already counted
                         sub_monitor.start("processing gap", len(self.surf_locs))
 
             elif sub_monitor is not None:
-- 
2.43.0


From 48c09b08a5f92484ea74a9cb1d57833121ec82c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:33 +0000
Subject: [PATCH 13/46] fix: forget the beam angles trend at a gap

The first bursts after a gap continued the trend of the bursts before it,
which selects wrong beams in the approximate azimuth processing.
---
 dedop/proc/sar/processor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 18c0636..3e4c213 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -282,6 +282,8 @@ class L1BProcessor(BaseProcessor):
                     gap_processing = False  # end gap mode
                     gap_resume = True  # next iteration will be the first after the gap
                     surface_processing = False  # require min. number of surfaces again
+                    self.beam_angles_list_size_prev = -1  # bursts before the gap don't count
+                    self.beam_angles_trend_prev = -1
                     sub_monitor.done()
                 else:
                     # the end of the input has been reached
-- 
2.43.0


From 2ea8bda015ac9eb1fbdcba67d8e1c660077a0834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:33 +0000
Subject: [PATCH 14/46] fix: read the last record of the region of interest

The final index is exclusive, so the last record inside of the region was
dropped.
---
 dedop/data/input/l1a/l1a_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index de315a4..db8f7e2 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -116,7 +116,7 @@ class L1ADataset(InputDataset):
             self._roi_filter = roi_filter
             indexes = np.argwhere(roi_filter)
             self._start_index = indexes.min()
-            self._final_index = indexes.max()
+            self._final_index = indexes.max() + 1
         else:
             self._roi_filter = None
             self._start_index = 0
-- 
2.43.0


From 22e682c57cfa3c6989ff5f36f3d440d0028b7253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:33 +0000
Subject: [PATCH 15/46] fix: take the UTC of the first surface from its own
 burst

The first surface of a file had UTC day and second 0 based values, and the
first one after a gap those of a burst before the gap.
---
 dedop/proc/sar/algorithms/surface_locations.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dedop/proc/sar/algorithms/surface_locations.py b/dedop/proc/sar/algorithms/surface_locations.py
index f71bb4c..01f0411 100644
--- a/dedop/proc/sar/algorithms/surface_locations.py
+++ b/dedop/proc/sar/algorithms/surface_locations.py
@@ -123,6 +123,11 @@ class SurfaceLocationAlgorithm(BaseAlgorithm):
 
         self.win_delay_surf = isp_record.win_delay_sar_ku
 
+        self.prev_tai = isp_record.time_sar_ku
+        self.prev_utc_days = isp_record.days
+        self.prev_utc_secs = isp_record.seconds
+        self.curr_day_length = self.cst.sec_in_day
+
     def focus_surface(self, surface_to_move: SurfaceData, previous_surface: SurfaceData) -> None:
         """
         move the location of a surface to the closest approach to the target position
-- 
2.43.0


From fbbf2a42e810099682b3b2c8d67a2e9028f42999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:57 +0000
Subject: [PATCH 16/46] fix: let the new day begin at midnight

A surface exactly at midnight was given second 86400 of the day before.
---
 dedop/data/output/l1b_writer.py  | 4 ++--
 dedop/data/output/l1bs_writer.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/data/output/l1b_writer.py b/dedop/data/output/l1b_writer.py
index ca199f2..8420d5e 100644
--- a/dedop/data/output/l1b_writer.py
+++ b/dedop/data/output/l1b_writer.py
@@ -847,7 +847,7 @@ class L1BWriterExtended(NetCDFWriter):
         time_interval = surface_location_data.time_surf - surface_location_data.prev_tai
         utc_secs = surface_location_data.prev_utc_secs + time_interval
 
-        if utc_secs > surface_location_data.curr_day_length:
+        if utc_secs >= surface_location_data.curr_day_length:
             utc_secs -= surface_location_data.curr_day_length
             utc_days = surface_location_data.prev_utc_days + 1
         else:
@@ -1569,7 +1569,7 @@ class L1BWriter(NetCDFWriter):
         time_interval = surface_location_data.time_surf - surface_location_data.prev_tai
         utc_secs = surface_location_data.prev_utc_secs + time_interval
 
-        if utc_secs > surface_location_data.curr_day_length:
+        if utc_secs >= surface_location_data.curr_day_length:
             utc_secs -= surface_location_data.curr_day_length
             utc_days = surface_location_data.prev_utc_days + 1
         else:
diff --git a/dedop/data/output/l1bs_writer.py b/dedop/data/output/l1bs_writer.py
index 5699eb3..78b05d0 100644
--- a/dedop/data/output/l1bs_writer.py
+++ b/dedop/data/output/l1bs_writer.py
@@ -634,7 +634,7 @@ class L1BSWriter(NetCDFWriter):
         time_interval = surface_location_data.time_surf - surface_location_data.prev_tai
         utc_secs = surface_location_data.prev_utc_secs + time_interval
 
-        if utc_secs > surface_location_data.curr_day_length:
+        if utc_secs >= surface_location_data.curr_day_length:
             utc_secs -= surface_location_data.curr_day_length
             utc_days = surface_location_data.prev_utc_days + 1
         else:
-- 
2.43.0


From e589b97057f0c67127c09f44e8c9b3dfb6f55bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:57 +0000
Subject: [PATCH 17/46] fix: let a child monitor progress without a known
 amount of work

ChildMonitor.progress() divided by the total amount of work, which is
optional in start().
---
 dedop/util/monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/util/monitor.py b/dedop/util/monitor.py
index ab8317b..0afedf0 100644
--- a/dedop/util/monitor.py
+++ b/dedop/util/monitor.py
@@ -195,7 +195,7 @@ class ChildMonitor(Monitor):
         self._parent_monitor.progress(work=parent_work, msg=self._label)
 
     def progress(self, work: float = None, msg: str = None):
-        parent_work = self._partial_work * (work / self._total_work) if work is not None else None
+        parent_work = self._partial_work * (work / self._total_work) if work is not None and self._total_work else None
         parent_msg = '%s: %s' % (self._label, msg) if msg is not None else None
         self._parent_monitor.progress(work=parent_work, msg=parent_msg)
 
-- 
2.43.0


From 43edf2ea4d6f6e488b054edc19cea63d0a3c9333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:42 +0000
Subject: [PATCH 18/46] fix: store look angles around zero, not around pi/2

The look angles of the extended L1B product were packed with the offset of
the beam angles, which overflows the 16 bit variable.
---
 dedop/data/output/l1b_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/output/l1b_writer.py b/dedop/data/output/l1b_writer.py
index 8420d5e..8f2d8df 100644
--- a/dedop/data/output/l1b_writer.py
+++ b/dedop/data/output/l1b_writer.py
@@ -699,7 +699,7 @@ class L1BWriterExtended(NetCDFWriter):
             comment="the useful values of the table are the first n_useful values where n_useful is"
                     "the number of waveforms summed in the stack",
             scale_factor=1.0e-06,
-            add_offset=1.57,
+            add_offset=0.00,
             units="rad",
             fill_value=32767
         )
-- 
2.43.0


From db21a3cc6345c1fbe696f382a65b98daae940203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:35 +0000
Subject: [PATCH 19/46] fix: store the pointing angles of the L1BS product in
 degrees

They were written in radians, unlike the variables declare and unlike L1B.
---
 dedop/data/output/l1bs_writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/data/output/l1bs_writer.py b/dedop/data/output/l1bs_writer.py
index 78b05d0..8849794 100644
--- a/dedop/data/output/l1bs_writer.py
+++ b/dedop/data/output/l1bs_writer.py
@@ -667,9 +667,9 @@ class L1BSWriter(NetCDFWriter):
             meas_x_pos_l1bs_echo_sar_ku=surface_location_data.x_surf,
             meas_y_pos_l1bs_echo_sar_ku=surface_location_data.y_surf,
             meas_z_pos_l1bs_echo_sar_ku=surface_location_data.z_surf,
-            roll_sat_pointing_l1bs_echo_sar_ku=surface_location_data.roll_sat,
-            pitch_sat_pointing_l1bs_echo_sar_ku=surface_location_data.pitch_sat,
-            yaw_sat_pointing_l1bs_echo_sar_ku=surface_location_data.yaw_sat,
+            roll_sat_pointing_l1bs_echo_sar_ku=degrees(surface_location_data.roll_sat),
+            pitch_sat_pointing_l1bs_echo_sar_ku=degrees(surface_location_data.pitch_sat),
+            yaw_sat_pointing_l1bs_echo_sar_ku=degrees(surface_location_data.yaw_sat),
             roll_sral_mispointing_l1bs_echo_sar_ku=closest_burst.roll_sral_mispointing,
             pitch_sral_mispointing_l1bs_echo_sar_ku=closest_burst.pitch_sral_mispointing,
             yaw_sral_mispointing_l1bs_echo_sar_ku=closest_burst.yaw_sral_mispointing,
-- 
2.43.0


From c671d860700f1e6070fe3f5b4561c47d0e7e89b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:23 +0000
Subject: [PATCH 20/46] fix: keep the beams of a short list at the position of
 their surfaces

---
 dedop/proc/sar/algorithms/azimuth_processing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/azimuth_processing.py b/dedop/proc/sar/algorithms/azimuth_processing.py
index 7e4e869..a146be0 100644
--- a/dedop/proc/sar/algorithms/azimuth_processing.py
+++ b/dedop/proc/sar/algorithms/azimuth_processing.py
@@ -103,9 +103,14 @@ class AzimuthProcessingAlgorithm(BaseAlgorithm):
         # first surface). This way we will always have the beams in the same
         # position as the corresponding beam angle in the beam angle/surfaces
         # seen lists.
+        # (if there are too few of them for the nadir beam to be the central one, the
+        # beam that was chosen instead has to be the central one).
+        half_pulses = self.chd.n_ku_pulses_burst // 2
         if packet.beam_angles_trend == 1:
             beams_offset = self.chd.n_ku_pulses_burst -\
-                           len(packet.beam_angles_list)
+                           max(len(packet.beam_angles_list), half_pulses)
+        elif packet.beam_angles_trend == -1:
+            beams_offset = max(half_pulses + 1 - len(packet.beam_angles_list), 0)
         else:
             beams_offset = 0
         copy_end = self.chd.n_ku_pulses_burst - beams_offset
-- 
2.43.0


From 763a78c495cf1208ca00455a4598ac549dee1163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:54 +0000
Subject: [PATCH 21/46] fix: restore the line endings of the cryosat
 characterisation file

---
 dedop/ui/data/cryosat_config/CHD.json | 186 +++++++++++++-------------
 1 file changed, 93 insertions(+), 93 deletions(-)

diff --git a/dedop/ui/data/cryosat_config/CHD.json b/dedop/ui/data/cryosat_config/CHD.json
index 7598616..07fd2cf 100644
--- a/dedop/ui/data/cryosat_config/CHD.json
+++ b/dedop/ui/data/cryosat_config/CHD.json
@@ -1,93 +1,93 @@
-{
-    "N_ku_pulses_burst_chd": {
-        "description": "Number of Ku-band pulses per burst",
-        "units": null,
-        "value": 64
-    },
-    "N_samples_sar_chd": {
-        "description": "Number of samples per each SAR pulse",
-        "units": null,
-        "value": 128
-    },
-    "__metainf__": {
-        "changelog": [
-            {
-                "comment": "initial version",
-                "parameters": [],
-                "version": 0
-            },
-            {
-                "comment": "added new parameters for update to sigma-0 algorithm",
-                "parameters": [
-                    ["ratio_trc_ku_chd", "+", "required for sigma-0 scaling factor"],
-                    ["fft_step_freq_ku_chd", "+", "required for sigma-0 scaling factor"],
-                    ["ptr_width_chd", "+", "required for sigma-0 scaling factor"]
-                ],
-                "version": 1
-            }
-        ],
-        "description": "DeDop Characterisation File",
-        "version": 1
-    },
-    "alt_freq_multiplier_chd": {
-        "description": "Factor to convert from USO frequency to altimeter frequency",
-        "units": null,
-        "value": 32
-    },
-    "antenna_gain_ku_chd": {
-        "description": "Antenna gain for Ku-band",
-        "units": "dB",
-        "value": 42.6
-    },
-    "brf_sar_chd": {
-        "description": "burst repetition frequency",
-        "units": "Hz",
-        "value": 85.515218502072671
-    },
-    "bw_ku_chd": {
-        "description": "Ku-band bandwidth",
-        "units": "Hz",
-        "value": 320000000
-    },
-    "freq_ku_chd": {
-        "description": "Emitted frequency in Ku-band",
-        "units": "Hz",
-        "value": 13575000000
-    },
-    "mean_sat_alt_chd": {
-        "description": "Mean satellite altitude",
-        "units": "m",
-        "value": 717000
-    },
-    "power_tx_ant_ku_chd": {
-        "description": "Antenna SSPA RF Peak Transmitted Power in Ku band",
-        "units": "dB",
-        "value": 13.0103
-    },
-    "prf_sar_chd": {
-        "description": "pulse repetition frequency",
-        "units": "Hz",
-        "value": 18181.81818181818
-    },
-    "pulse_length_chd": {
-        "description": "Pulse length",
-        "units": "s",
-        "value": 4.48e-05
-    },
-    "uso_freq_nom_chd": {
-        "description": "USO nominal frequency",
-        "units": "Hz",
-        "value": 10000000
-    },
-    "ptr_width_chd": {
-        "value": 19821
-    },
-    "fft_step_freq_ku_chd": {
-        "value": 22321.43
-    },
-    "ratio_trc_ku_chd": {
-        "value": -98.66,
-        "description": "Ratio of the losses between the transmission/Reception and the Calibration paths - Ku band",
-        "units": "dB"
-    }
-}
\ No newline at end of file
+{
+    "N_ku_pulses_burst_chd": {
+        "description": "Number of Ku-band pulses per burst",
+        "units": null,
+        "value": 64
+    },
+    "N_samples_sar_chd": {
+        "description": "Number of samples per each SAR pulse",
+        "units": null,
+        "value": 128
+    },
+    "__metainf__": {
+        "changelog": [
+            {
+                "comment": "initial version",
+                "parameters": [],
+                "version": 0
+            },
+            {
+                "comment": "added new parameters for update to sigma-0 algorithm",
+                "parameters": [
+                    ["ratio_trc_ku_chd", "+", "required for sigma-0 scaling factor"],
+                    ["fft_step_freq_ku_chd", "+", "required for sigma-0 scaling factor"],
+                    ["ptr_width_chd", "+", "required for sigma-0 scaling factor"]
+                ],
+                "version": 1
+            }
+        ],
+        "description": "DeDop Characterisation File",
+        "version": 1
+    },
+    "alt_freq_multiplier_chd": {
+        "description": "Factor to convert from USO frequency to altimeter frequency",
+        "units": null,
+        "value": 32
+    },
+    "antenna_gain_ku_chd": {
+        "description": "Antenna gain for Ku-band",
+        "units": "dB",
+        "value": 42.6
+    },
+    "brf_sar_chd": {
+        "description": "burst repetition frequency",
+        "units": "Hz",
+        "value": 85.515218502072671
+    },
+    "bw_ku_chd": {
+        "description": "Ku-band bandwidth",
+        "units": "Hz",
+        "value": 320000000
+    },
+    "freq_ku_chd": {
+        "description": "Emitted frequency in Ku-band",
+        "units": "Hz",
+        "value": 13575000000
+    },
+    "mean_sat_alt_chd": {
+        "description": "Mean satellite altitude",
+        "units": "m",
+        "value": 717000
+    },
+    "power_tx_ant_ku_chd": {
+        "description": "Antenna SSPA RF Peak Transmitted Power in Ku band",
+        "units": "dB",
+        "value": 13.0103
+    },
+    "prf_sar_chd": {
+        "description": "pulse repetition frequency",
+        "units": "Hz",
+        "value": 18181.81818181818
+    },
+    "pulse_length_chd": {
+        "description": "Pulse length",
+        "units": "s",
+        "value": 4.48e-05
+    },
+    "uso_freq_nom_chd": {
+        "description": "USO nominal frequency",
+        "units": "Hz",
+        "value": 10000000
+    },
+    "ptr_width_chd": {
+        "value": 19821
+    },
+    "fft_step_freq_ku_chd": {
+        "value": 22321.43
+    },
+    "ratio_trc_ku_chd": {
+        "value": -98.66,
+        "description": "Ratio of the losses between the transmission/Reception and the Calibration paths - Ku band",
+        "units": "dB"
+    }
+}
\ No newline at end of file
-- 
2.43.0


From 8c4d0d45e7da2d34ff576f8608346eb4fc74157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:04 +0000
Subject: [PATCH 22/46] fix: interpolate the antenna weight between the angles
 of the table

---
 dedop/proc/sar/algorithms/multilooking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index 33aa647..08f7f83 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -212,7 +212,7 @@ class MultilookingAlgorithm(BaseAlgorithm):
             weight_right = self.chd.antenna_weights[index_right]
 
             # get proportion between the left & right weights
-            alpha = (angle - weight_left) / self.chd.antenna_angles_spacing
+            alpha = weight_index - index_left
             # interpolate value
             selected_weight = weight_left + alpha * (weight_right - weight_left)
 
-- 
2.43.0


From 738b0b55cd55d34f1806553a87436a4bfc154da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:27 +0000
Subject: [PATCH 23/46] fix: go on after a stack without signal

---
 dedop/proc/sar/algorithms/multilooking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index 08f7f83..0d0e10d 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -33,7 +33,7 @@ def gauss_fit(x: np.ndarray, y: np.ndarray) -> List[float]:
             fit_params, _ = curve_fit(
                 gauss, x, y
             )
-        except (RuntimeError, OptimizeWarning, TypeError):
+        except (RuntimeError, OptimizeWarning, TypeError, ValueError):
             return [1, 1, 1]
 
     return fit_params
-- 
2.43.0


From a4f1fcf62b9277029d285a903fdf14b1b33db50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:47 +0000
Subject: [PATCH 24/46] fix: focus a surface on a target only if the target is
 passed

---
 dedop/proc/sar/algorithms/surface_locations.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/proc/sar/algorithms/surface_locations.py b/dedop/proc/sar/algorithms/surface_locations.py
index 01f0411..46648c7 100644
--- a/dedop/proc/sar/algorithms/surface_locations.py
+++ b/dedop/proc/sar/algorithms/surface_locations.py
@@ -228,7 +228,9 @@ class SurfaceLocationAlgorithm(BaseAlgorithm):
             new_pos = np.asarray([self.x_surf, self.y_surf, self.z_surf])
             new_dist = self.focus_target_distance(new_pos)
 
+            # the target is passed if the surfaces came closer to it before they depart from it
             if len(surfaces) > 1 and not self.focus_found and \
+               surfaces[-2].focus_target_distance - surfaces[-1].focus_target_distance > 0 and \
                new_dist - surfaces[-1].focus_target_distance > 0:
                 self.focus_surface(surfaces[-1], surfaces[-2])
 
-- 
2.43.0


From 86b59598f02f1d60a0d4e00636f916775e21bbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:17 +0000
Subject: [PATCH 25/46] fix: close the output files of a failed run

---
 dedop/data/output/netcdf_writer.py |  3 +++
 dedop/proc/sar/processor.py        | 10 +++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/dedop/data/output/netcdf_writer.py b/dedop/data/output/netcdf_writer.py
index 62b07e9..9a54074 100644
--- a/dedop/data/output/netcdf_writer.py
+++ b/dedop/data/output/netcdf_writer.py
@@ -338,6 +338,9 @@ class NetCDFWriter(metaclass=ABCMeta):
         """
         self._root.close()
 
+    def is_open(self) -> bool:
+        return self._root.isopen()
+
     def get_variable(self, varname: str) -> nc.Variable:
         return getattr(self, varname)
 
diff --git a/dedop/proc/sar/processor.py b/dedop/proc/sar/processor.py
index 3e4c213..734dd12 100644
--- a/dedop/proc/sar/processor.py
+++ b/dedop/proc/sar/processor.py
@@ -114,7 +114,15 @@ class L1BProcessor(BaseProcessor):
         t0 = time.time()
 
         with monitor.starting('processing', total_work=len(self.l1a_file)):
-            status = self._process(l1a_file, monitor)
+            self.l1b_file = self.l1bs_file = None
+            try:
+                status = self._process(l1a_file, monitor)
+            except Exception:
+                # a failed run doesn't keep its output files open
+                for output_file in (self.l1b_file, self.l1bs_file):
+                    if output_file is not None and output_file.is_open():
+                        output_file.close()
+                raise
 
         dt = time.time() - t0
 
-- 
2.43.0


From ed3ea5a03a5202ae9d6a1cebabc02f884a5623cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:54 +0000
Subject: [PATCH 26/46] fix: keep the UTC day within a leap second

---
 dedop/proc/sar/algorithms/surface_locations.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dedop/proc/sar/algorithms/surface_locations.py b/dedop/proc/sar/algorithms/surface_locations.py
index 46648c7..3cd75c0 100644
--- a/dedop/proc/sar/algorithms/surface_locations.py
+++ b/dedop/proc/sar/algorithms/surface_locations.py
@@ -127,6 +127,8 @@ class SurfaceLocationAlgorithm(BaseAlgorithm):
         self.prev_utc_days = isp_record.days
         self.prev_utc_secs = isp_record.seconds
         self.curr_day_length = self.cst.sec_in_day
+        # within a leap second the day goes on
+        self.curr_day_length += (isp_record.seconds >= self.cst.sec_in_day)
 
     def focus_surface(self, surface_to_move: SurfaceData, previous_surface: SurfaceData) -> None:
         """
@@ -331,5 +333,9 @@ class SurfaceLocationAlgorithm(BaseAlgorithm):
         self.prev_utc_secs = isp_prev.seconds
         self.curr_day_length = self.cst.sec_in_day +\
             (isp_curr.leap_secs_since_2000 - isp_prev.leap_secs_since_2000)
+        # within a leap second the day goes on
+        self.curr_day_length += np.logical_and(
+            isp_curr.days == isp_prev.days, isp_curr.seconds >= self.cst.sec_in_day
+        )
 
         return True
-- 
2.43.0


From 2132f8fe8e28810a07df9eb83fbfd7f7ba473142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:29 +0000
Subject: [PATCH 27/46] fix: take the pitch angle of the range correction in
 degrees

---
 dedop/data/input/l1a/l1a_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/data/input/l1a/l1a_dataset.py b/dedop/data/input/l1a/l1a_dataset.py
index db8f7e2..40d1a2d 100644
--- a/dedop/data/input/l1a/l1a_dataset.py
+++ b/dedop/data/input/l1a/l1a_dataset.py
@@ -166,7 +166,7 @@ class L1ADataset(InputDataset):
         # construct waveform
         waveform = (self.get_value(L1AVariables.i_meas_ku_l1a_echo_sar_ku, index) +
                     1j * self.get_value(L1AVariables.q_meas_ku_l1a_echo_sar_ku, index)) / scale_factor
-        zcog = np.cos(self.get_value(L1AVariables.pitch_sat_pointing_l1a_echo_sar_ku, index)) *\
+        zcog = np.cos(radians(self.get_value(L1AVariables.pitch_sat_pointing_l1a_echo_sar_ku, index))) *\
                self.get_value(L1AVariables.cog_cor_l1a_echo_sar_ku, index)
         range = self.get_value(L1AVariables.range_ku_l1a_echo_sar_ku, index) + zcog
 
-- 
2.43.0


From 9f8a5e0a9f2697440bba37b4eb3c8b00872d6752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:50 +0000
Subject: [PATCH 28/46] fix: samples masked in all looks are zero, not
 undefined

---
 dedop/proc/sar/algorithms/multilooking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index 0d0e10d..6c6b8c5 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -272,7 +272,8 @@ class MultilookingAlgorithm(BaseAlgorithm):
             self.waveform_multilooked[:] += weighted_beams[beam_index, :] * mask
             self.sample_counter[:] += mask
 
-        self.waveform_multilooked /= self.sample_counter
+        # samples without any contribution stay zero
+        self.waveform_multilooked /= np.maximum(self.sample_counter, 1)
 
         if stop_beam_index is None or start_beam_index is None:
             self.n_beams_start_stop = 0
-- 
2.43.0


From 9c58a4d3fcc960398b8e242af3a2b7f74a125bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:10 +0000
Subject: [PATCH 29/46] fix: report a notebook that cannot be written

---
 dedop/ui/workspace_manager.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index 3ec3663..d57512d 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -519,7 +519,7 @@ class WorkspaceManager:
             try:
                 os.mkdir(notebook_dir)
             except (IOError, OSError) as e:
-                return 60, str(e)
+                raise WorkspaceError(str(e))
 
         index = 0
         while True:
-- 
2.43.0


From 7ddae19b1dd5c29fda01bf9f3fa2373333613c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:10 +0000
Subject: [PATCH 30/46] fix: write a valid notebook for products with a quote
 in their path

---
 dedop/ui/workspace_manager.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dedop/ui/workspace_manager.py b/dedop/ui/workspace_manager.py
index d57512d..7aab51b 100644
--- a/dedop/ui/workspace_manager.py
+++ b/dedop/ui/workspace_manager.py
@@ -488,7 +488,7 @@ class WorkspaceManager:
     def inspect_l1b_product(self, workspace_name: str, l1b_path: str):
         template_data = pkgutil.get_data('dedop.ui.data.notebooks', 'inspect-template.ipynb')
         notebook_json = template_data.decode("utf-8") \
-            .replace('__L1B_FILE_PATH__', repr(l1b_path).replace('\\', '\\\\'))
+            .replace('__L1B_FILE_PATH__', self._to_notebook_source(l1b_path))
         product_name = ntpath.basename(l1b_path)
         return self._launch_notebook_from_template(workspace_name,
                                                    'inspect-%s' % product_name,
@@ -499,8 +499,8 @@ class WorkspaceManager:
     def compare_l1b_products(self, workspace_name, l1b_path_1: str, l1b_path_2: str):
         template_data = pkgutil.get_data('dedop.ui.data.notebooks', 'compare-template.ipynb')
         notebook_json = template_data.decode("utf-8") \
-            .replace('__L1B_FILE_PATH_1__', repr(l1b_path_1).replace('\\', '\\\\')) \
-            .replace('__L1B_FILE_PATH_2__', repr(l1b_path_2).replace('\\', '\\\\'))
+            .replace('__L1B_FILE_PATH_1__', self._to_notebook_source(l1b_path_1)) \
+            .replace('__L1B_FILE_PATH_2__', self._to_notebook_source(l1b_path_2))
         product1_name = ntpath.basename(l1b_path_1)
         product2_name = ntpath.basename(l1b_path_2)
         return self._launch_notebook_from_template(workspace_name,
@@ -509,6 +509,11 @@ class WorkspaceManager:
                                                    'compare - [%s] [%s]' % (self._limit_title(l1b_path_1, 30),
                                                                             self._limit_title(l1b_path_2, 30),))
 
+    @staticmethod
+    def _to_notebook_source(path: str) -> str:
+        # a Python string literal, escaped as part of a JSON string
+        return json.dumps(repr(path))[1:-1]
+
     def _launch_notebook_from_template(self,
                                        workspace_name: str,
                                        notebook_basename: str,
-- 
2.43.0


From 3ddd7f01af558e0a4aabd8c0b26bc9a0b751265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:13 +0000
Subject: [PATCH 31/46] fix: keep a renamed workspace or configuration current
 in the web service

---
 dedop/webapi/websocket.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dedop/webapi/websocket.py b/dedop/webapi/websocket.py
index e3596c9..cc346ba 100644
--- a/dedop/webapi/websocket.py
+++ b/dedop/webapi/websocket.py
@@ -42,6 +42,8 @@ class WebSocketService:
 
     def rename_workspace(self, workspace_name, new_workspace_name) -> dict:
         workspace = self.workspace_manager.rename_workspace(workspace_name, new_workspace_name)
+        if workspace_name == self.workspace_manager.get_current_workspace().name:
+            self.set_current_workspace(new_workspace_name)
         return workspace.to_json_dict()
 
     def get_current_workspace(self) -> dict:
@@ -85,6 +87,8 @@ class WebSocketService:
 
     def rename_config(self, workspace_name: str, config_name: str, new_config_name: str):
         self.workspace_manager.rename_config(workspace_name, config_name, new_config_name)
+        if config_name == self.workspace_manager.get_current_config_name(workspace_name):
+            self.set_current_config(workspace_name, new_config_name)
 
     def get_current_config(self, workspace_name: str) -> dict:
         return {
-- 
2.43.0


From da4ef27ff32aefdde9f4560ba267e8ec8c0d8751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:28 +0000
Subject: [PATCH 32/46] fix: let the console monitor progress without any work
 to do

---
 dedop/util/monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/util/monitor.py b/dedop/util/monitor.py
index 0afedf0..6fda0c6 100644
--- a/dedop/util/monitor.py
+++ b/dedop/util/monitor.py
@@ -299,7 +299,7 @@ class ConsoleMonitor(Monitor):
 
     def _calc_percentage(self):
         return round(100. * self._worked / self._total_work) \
-            if self._worked is not None and self._total_work is not None else None
+            if self._worked is not None and self._total_work else None
 
     def cancel(self):
         self._cancelled = True
-- 
2.43.0


From 6a18ce6f50f84ef86260d0349fc7d20c6e94efa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:36 +0000
Subject: [PATCH 33/46] fix: refuse to read records beyond the end of the
 product

---
 dedop/data/input/netcdf_reader.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/dedop/data/input/netcdf_reader.py b/dedop/data/input/netcdf_reader.py
index c566725..c92a6d6 100644
--- a/dedop/data/input/netcdf_reader.py
+++ b/dedop/data/input/netcdf_reader.py
@@ -65,9 +65,6 @@ class NetCDFReader:
             var = self._doc.variables[name]
             varlen = var.shape[0]
 
-            if chunk_start >= varlen:
-                continue
-
             end = min(varlen, chunk_end)
 
             self.cache[varname] = var[chunk_start:end].copy()
-- 
2.43.0


From 69151a4b1003ca30de5990404a81ec767e59be8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 34/46] fix: values an integer variable of a product cannot
 hold are written as missing data instead of wrapping around

---
 dedop/data/output/netcdf_writer.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/dedop/data/output/netcdf_writer.py b/dedop/data/output/netcdf_writer.py
index 9a54074..54f6054 100644
--- a/dedop/data/output/netcdf_writer.py
+++ b/dedop/data/output/netcdf_writer.py
@@ -358,6 +358,8 @@ class NetCDFWriter(metaclass=ABCMeta):
             if value is None:
                 continue
             try:
+                value = self._mask_unrepresentable(var, value)
+
                 if ndims == 3:
                     dim_1, dim_2 = value.shape
                     var[self.output_index, :dim_1, :dim_2] = value[:, :]
@@ -377,6 +379,33 @@ class NetCDFWriter(metaclass=ABCMeta):
 
         self.output_index += 1
 
+    @staticmethod
+    def _mask_unrepresentable(var: nc.Variable, value: Any) -> Any:
+        """
+        mask values which an integer variable cannot hold, taking its scale
+        factor and offset into account. These would otherwise wrap around
+        silently, masked values are written as missing data
+
+        :param var: the variable to write to
+        :param value: the unpacked value(s)
+        :return: the value(s), masked where required
+        """
+        if np.dtype(var.dtype).kind not in 'iu':
+            return value
+
+        packed = np.ma.filled(np.ma.asarray(value).astype(np.float64), np.nan)
+        packed = np.around(
+            (packed - getattr(var, 'add_offset', 0)) / getattr(var, 'scale_factor', 1)
+        )
+        limits = np.iinfo(var.dtype)
+        valid = (packed >= limits.min) & (packed <= limits.max)
+
+        if np.all(valid):
+            return value
+        return np.ma.masked_array(
+            np.where(valid, np.ma.filled(value, 0), 0), mask=~valid
+        )
+
     def write_globals(self, **global_attrs) -> None:
         """
         write values of global attributes to the netCDF file
-- 
2.43.0


From 4504bf90919c248934f184dbb823e507638eb7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:49 +0000
Subject: [PATCH 35/46] fix: the fitted width of a stack has no sign, its
 standard deviation is never negative

---
 dedop/proc/sar/algorithms/multilooking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index 6c6b8c5..84f7a43 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -137,7 +137,7 @@ class MultilookingAlgorithm(BaseAlgorithm):
         fit_params_l = gauss_fit(look_angles_surf_center, beam_power_center)
         self.stack_max = fit_params_l[0]
         self.look_angle_centre = fit_params_l[1]
-        self.stack_std = fit_params_l[2] / 2
+        self.stack_std = abs(fit_params_l[2]) / 2
 
         fit_params_p = gauss_fit(pointing_angles_surf_center, beam_power_center)
         self.pointing_angle_centre = fit_params_p[1]
-- 
2.43.0


From 572ebd04833e7c4899542a6b9cec5cd2c32d5133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:29 +0000
Subject: [PATCH 36/46] fix: the Hamming and the Hann azimuth window were
 exchanged

---
 dedop/proc/sar/algorithms/azimuth_processing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedop/proc/sar/algorithms/azimuth_processing.py b/dedop/proc/sar/algorithms/azimuth_processing.py
index a146be0..e9bb2ca 100644
--- a/dedop/proc/sar/algorithms/azimuth_processing.py
+++ b/dedop/proc/sar/algorithms/azimuth_processing.py
@@ -60,10 +60,10 @@ class AzimuthProcessingAlgorithm(BaseAlgorithm):
             window[start:end] = 1.
         elif window_shape == AzimuthWindowingMethod.hamming:
             n = np.arange(width)
-            window[start:end] = .5 - .5 * np.cos((2. * self.cst.pi * n) / (width - 1))
+            window[start:end] = .54 - .46 * np.cos((2. * self.cst.pi * n) / (width - 1))
         elif window_shape == AzimuthWindowingMethod.hanning:
             n = np.arange(width)
-            window[start:end] = .54 - .46 * np.cos((2. * self.cst.pi * n) / (width - 1))
+            window[start:end] = .5 - .5 * np.cos((2. * self.cst.pi * n) / (width - 1))
         else:
             raise NotImplementedError(
                 "Unsupported Azimuth Windowing Method: {}".format(window_shape)
-- 
2.43.0


From c29592ae842da535a61e8784b0f7674e98c53dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:15 +0000
Subject: [PATCH 37/46] fix: start the Gaussian fit of a stack from an
 estimate, exactly Gaussian stacks were not fitted

---
 dedop/proc/sar/algorithms/multilooking.py | 31 +++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/dedop/proc/sar/algorithms/multilooking.py b/dedop/proc/sar/algorithms/multilooking.py
index 84f7a43..c1548ca 100644
--- a/dedop/proc/sar/algorithms/multilooking.py
+++ b/dedop/proc/sar/algorithms/multilooking.py
@@ -1,6 +1,6 @@
 import numpy as np
 from scipy.optimize import curve_fit, OptimizeWarning
-from typing import List
+from typing import List, Optional
 import warnings
 
 from dedop.model import SurfaceData
@@ -17,6 +17,33 @@ def gauss(x, a, b, c):
     return a * np.exp(-(x - b) ** 2 / (c ** 2))
 
 
+def gauss_jacobian(x, a, b, c):
+    """
+    derivatives of the gaussian curve with respect to the
+    parameters a, b, c
+    """
+    u = (x - b) / c
+    e = np.exp(-u ** 2)
+    return np.column_stack((e, 2 * a * u / c * e, 2 * a * u ** 2 / c * e))
+
+
+def gauss_estimate(x: np.ndarray, y: np.ndarray) -> Optional[List[float]]:
+    """estimate the parameters of the gaussian curve described by
+    x & y from its moments, as start values for the fitting.
+    Returns None if there is no such estimate"""
+
+    total = np.sum(y)
+    if not total > 0:
+        return None
+
+    centre = np.sum(x * y) / total
+    width = np.sqrt(2 * max(np.sum((x - centre) ** 2 * y) / total, 0))
+    if not width > 0:
+        return None
+
+    return [np.max(y), centre, width]
+
+
 def gauss_fit(x: np.ndarray, y: np.ndarray) -> List[float]:
     """attempt to fit a gaussian curve to the data described
     by x & y. Returns the fitting parameters"""
@@ -31,7 +58,7 @@ def gauss_fit(x: np.ndarray, y: np.ndarray) -> List[float]:
 
         try:
             fit_params, _ = curve_fit(
-                gauss, x, y
+                gauss, x, y, p0=gauss_estimate(x, y), jac=gauss_jacobian
             )
         except (RuntimeError, OptimizeWarning, TypeError, ValueError):
             return [1, 1, 1]
-- 
2.43.0


From 90d9d5495059ccee0034375dfb1f15b8964ed0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:09 +0000
Subject: [PATCH 38/46] fix: empty waveforms and stacks are written as zeros,
 not as results of 0/0

---
 dedop/data/output/l1b_writer.py  | 6 +++++-
 dedop/data/output/l1bs_writer.py | 8 ++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/dedop/data/output/l1b_writer.py b/dedop/data/output/l1b_writer.py
index 8f2d8df..f5b1268 100644
--- a/dedop/data/output/l1b_writer.py
+++ b/dedop/data/output/l1b_writer.py
@@ -855,6 +855,10 @@ class L1BWriterExtended(NetCDFWriter):
 
         # scale_factor = pow(10, -closest_burst.agc_ku / 10)
         scale_factor = surface_location_data.waveform_multilooked.max()
+        # an empty waveform cannot be normalised
+        waveform_normalised = surface_location_data.waveform_multilooked
+        if scale_factor != 0:
+            waveform_normalised = waveform_normalised / scale_factor
 
         # import matplotlib.pyplot as plt
         # plt.plot(surface_location_data.waveform_multilooked)
@@ -923,7 +927,7 @@ class L1BWriterExtended(NetCDFWriter):
             beam_ang_l1b_echo_sar_ku=surface_location_data.beam_angles_surf,
             look_ang_l1b_echo_sar_ku=surface_location_data.look_angles_surf,
             beam_form_l1b_echo_sar_ku=None,
-            i2q2_meas_ku_l1b_echo_sar_ku=surface_location_data.waveform_multilooked/scale_factor,
+            i2q2_meas_ku_l1b_echo_sar_ku=waveform_normalised,
             i2q2_scale_factor_l1b_echo_sar_ku=scale_factor,
             start_look_angle_stack_l1b_echo_sar_ku=surface_location_data.start_look_angle,
             stop_look_angle_stack_l1b_echo_sar_ku=surface_location_data.stop_look_angle,
diff --git a/dedop/data/output/l1bs_writer.py b/dedop/data/output/l1bs_writer.py
index 8849794..8914eee 100644
--- a/dedop/data/output/l1bs_writer.py
+++ b/dedop/data/output/l1bs_writer.py
@@ -647,6 +647,10 @@ class L1BSWriter(NetCDFWriter):
         max_iq = max(np.max(np.abs(stack_i)), np.max(np.abs(stack_q)))
 
         dynamic_scale = max_iq / 127.
+        # an empty stack cannot be scaled
+        if dynamic_scale != 0:
+            stack_i = stack_i / dynamic_scale
+            stack_q = stack_q / dynamic_scale
 
         super().write_record(
             time_l1bs_echo_sar_ku=surface_location_data.time_surf,
@@ -694,8 +698,8 @@ class L1BSWriter(NetCDFWriter):
             burst_start_ind_l1bs_echo_sar_ku=surface_location_data.start_burst_index,
             burst_stop_ind_l1bs_echo_sar_ku=surface_location_data.stop_burst_index,
             iq_scale_factor_l1bs_echo_sar_ku=dynamic_scale,
-            i_echoes_ku_l1bs_echo_sar_ku=stack_i/dynamic_scale,
-            q_echoes_ku_l1bs_echo_sar_ku=stack_q/dynamic_scale,
+            i_echoes_ku_l1bs_echo_sar_ku=stack_i,
+            q_echoes_ku_l1bs_echo_sar_ku=stack_q,
             start_look_angle_stack_l1bs_echo_sar_ku=surface_location_data.start_look_angle,
             stop_look_angle_stack_l1bs_echo_sar_ku=surface_location_data.stop_look_angle,
             start_beam_ang_stack_l1bs_echo_sar_ku=surface_location_data.start_beam_angle,
-- 
2.43.0


From 7430388bb89e6b57c1c40d2977dfeba9efb779b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:31 +0000
Subject: [PATCH 39/46] fix: images of a variable show the variable, not the
 waveforms

---
 dedop/ui/inspect.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 97a6f6a..7c288ae 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -374,7 +374,7 @@ class L1bProductInspectorPlots:
         zmin = zmin if zmin else var_data.min()
         zmax = zmax if zmax else var_data.max()
         plt.figure(figsize=(10, 10))
-        plt.imshow(self._inspector.waveform, interpolation='nearest', aspect='auto', vmin=zmin, vmax=zmax, cmap=cmap)
+        plt.imshow(var_data, interpolation='nearest', aspect='auto', vmin=zmin, vmax=zmax, cmap=cmap)
         # TODO (forman, 20160709): show labels in units of dimension variables
         plt.xlabel('%s (index)' % var.dimensions[1])
         plt.ylabel('%s (index)' % var.dimensions[0])
@@ -587,7 +587,7 @@ class L1bProductInspectorPlots:
             # fig.axes.remove(ax2)
             ax2.remove()
 
-        im = ax3.imshow(self._inspector.waveform, interpolation='nearest', aspect='auto',
+        im = ax3.imshow(var_data, interpolation='nearest', aspect='auto',
                         vmin=zmin, vmax=zmax, cmap=cmap)
         if has_xind:
             ax3.axvline(x=xind)
-- 
2.43.0


From 2191d2f5a97db183f1bc6dd1518d690bae924f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:31 +0000
Subject: [PATCH 40/46] fix: pass both display limits on to the image

---
 dedop/ui/inspect.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 7c288ae..8d34a11 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -355,7 +355,7 @@ class L1bProductInspectorPlots:
                         name_options.extend(var_names)
                 name_options = sorted(name_options)
                 # TODO (forman, 20160709): add sliders for zmin, zmax
-                interact(self._plot_im, z_name=name_options, zmin=fixed(zmax), zmax=fixed(zmax), cmap=fixed(cmap))
+                interact(self._plot_im, z_name=name_options, zmin=fixed(zmin), zmax=fixed(zmax), cmap=fixed(cmap))
             else:
                 raise ValueError('name must be given')
         else:
@@ -532,11 +532,11 @@ class L1bProductInspectorPlots:
                 # TODO (forman, 20160709): add sliders for zmin, zmax
                 interact(self._plot_im_line, z_name=widget_var,
                          xind=widget_xind, yind=widget_yind,
-                         zmin=fixed(zmax), zmax=fixed(zmax), cmap=fixed(cmap))
+                         zmin=fixed(zmin), zmax=fixed(zmax), cmap=fixed(cmap))
         else:
             if not z:
                 raise ValueError('z_name must be given')
-            self._plot_im_line(z, zmin=zmin, zmax=zmin, xind=xind, yind=yind, cmap=cmap)
+            self._plot_im_line(z, zmin=zmin, zmax=zmax, xind=xind, yind=yind, cmap=cmap)
 
     def _plot_im_line(self, z_name, zmin=None, zmax=None, xind=None, yind=None, cmap='jet'):
         assert z_name
-- 
2.43.0


From 889104085725122e015ffd0fea2ce319d6365d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:31 +0000
Subject: [PATCH 41/46] fix: a display limit of zero is a limit

---
 dedop/ui/compare.py | 20 ++++++++++----------
 dedop/ui/inspect.py | 16 ++++++++--------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/dedop/ui/compare.py b/dedop/ui/compare.py
index 4e92a34..30fb38d 100644
--- a/dedop/ui/compare.py
+++ b/dedop/ui/compare.py
@@ -201,8 +201,8 @@ class L1bProductComparatorPlots:
             print('warning: cannot save locations figure with output format "%s"' % self._figure_writer.output_format)
 
     def waveforms_delta_im(self, vmin=None, vmax=None, cmap='RdBu_r'):
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         plt.figure(figsize=(10, 10))
         plt.imshow(self._comparator.waveforms_delta, interpolation='nearest', aspect='auto', vmin=vmin, vmax=vmax,
                    cmap=cmap)
@@ -227,8 +227,8 @@ class L1bProductComparatorPlots:
         :param color2: Color of the second histogram
         :param alpha: Alpha value for histograms
         """
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         plt.figure(figsize=(12, 6))
@@ -267,8 +267,8 @@ class L1bProductComparatorPlots:
         :param bins: Number of bins
         :param log: Show logarithms of bin counts
         """
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         plt.figure(figsize=(12, 6))
@@ -290,8 +290,8 @@ class L1bProductComparatorPlots:
             self.savefig("fig-waveforms_delta-hist.png")
 
     def waveforms_scatter(self, vmin=None, vmax=None):
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         x = self._comparator.p1.waveform
@@ -310,8 +310,8 @@ class L1bProductComparatorPlots:
             self.savefig("fig-waveforms-scatter.png")
 
     def waveforms_hexbin(self, vmin=None, vmax=None, cmap='Blues', log=True):
-        vmin = vmin if vmin else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         x = self._comparator.p1.waveform.flatten()
diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index 8d34a11..cf5d4bb 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -210,8 +210,8 @@ class L1bProductInspectorPlots:
             print('warning: cannot save locations figure with output format "%s"' % self._figure_writer.output_format)
 
     def waveform_im(self, vmin=None, vmax=None, cmap='jet'):
-        vmin = vmin if vmin else self._inspector.waveform_range[0]
-        vmax = vmax if vmax else self._inspector.waveform_range[1]
+        vmin = vmin if vmin is not None else self._inspector.waveform_range[0]
+        vmax = vmax if vmax is not None else self._inspector.waveform_range[1]
         plt.figure(figsize=(10, 10))
         plt.imshow(self._inspector.waveform, interpolation='nearest', aspect='auto', vmin=vmin, vmax=vmax, cmap=cmap)
         plt.xlabel('Echo Sample Index')
@@ -294,8 +294,8 @@ class L1bProductInspectorPlots:
         :param log: Show logarithms of bin counts
         :param color: Color of the histogram bars, e.g. 'green'
         """
-        vmin = vmin if vmin else self._inspector.waveform_range[0]
-        vmax = vmax if vmax else self._inspector.waveform_range[1]
+        vmin = vmin if vmin is not None else self._inspector.waveform_range[0]
+        vmax = vmax if vmax is not None else self._inspector.waveform_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         plt.figure(figsize=(12, 6))
@@ -371,8 +371,8 @@ class L1bProductInspectorPlots:
             return
         var_data = var[:]
 
-        zmin = zmin if zmin else var_data.min()
-        zmax = zmax if zmax else var_data.max()
+        zmin = zmin if zmin is not None else var_data.min()
+        zmax = zmax if zmax is not None else var_data.max()
         plt.figure(figsize=(10, 10))
         plt.imshow(var_data, interpolation='nearest', aspect='auto', vmin=zmin, vmax=zmax, cmap=cmap)
         # TODO (forman, 20160709): show labels in units of dimension variables
@@ -550,8 +550,8 @@ class L1bProductInspectorPlots:
 
         var_data = z_var[:]
 
-        zmin = zmin if zmin else var_data.min()
-        zmax = zmax if zmax else var_data.max()
+        zmin = zmin if zmin is not None else var_data.min()
+        zmax = zmax if zmax is not None else var_data.max()
 
         x_title = '%s (index)' % z_var.dimensions[1]
         y_title = '%s (index)' % z_var.dimensions[0]
-- 
2.43.0


From 2fd83af15842caa862e65d0f0df1d67e8816358b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:31 +0000
Subject: [PATCH 42/46] fix: show the image with lines in a notebook when
 everything is given

---
 dedop/ui/inspect.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dedop/ui/inspect.py b/dedop/ui/inspect.py
index cf5d4bb..e830ccf 100644
--- a/dedop/ui/inspect.py
+++ b/dedop/ui/inspect.py
@@ -533,6 +533,8 @@ class L1bProductInspectorPlots:
                 interact(self._plot_im_line, z_name=widget_var,
                          xind=widget_xind, yind=widget_yind,
                          zmin=fixed(zmin), zmax=fixed(zmax), cmap=fixed(cmap))
+            else:
+                self._plot_im_line(z, zmin=zmin, zmax=zmax, xind=xind, yind=yind, cmap=cmap)
         else:
             if not z:
                 raise ValueError('z_name must be given')
-- 
2.43.0


From cf65927a20ccabcf00fd9ecae3ed7c55e4d4fd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:09 +0000
Subject: [PATCH 43/46] fix: default limits of plots of two waveforms cover the
 waveforms, not their differences

---
 dedop/ui/compare.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/dedop/ui/compare.py b/dedop/ui/compare.py
index 30fb38d..08fd17a 100644
--- a/dedop/ui/compare.py
+++ b/dedop/ui/compare.py
@@ -117,6 +117,14 @@ class L1bProductComparator:
         """
         return self.p1.waveform, self.p2.waveform
 
+    @property
+    def waveforms_range(self) -> Tuple[float, float]:
+        """
+        Get the range of the values of both waveforms.
+        """
+        (min_1, max_1), (min_2, max_2) = self.p1.waveform_range, self.p2.waveform_range
+        return min(min_1, min_2), max(max_1, max_2)
+
     @property
     def waveforms_delta(self) -> ndarray:
         """
@@ -227,8 +235,8 @@ class L1bProductComparatorPlots:
         :param color2: Color of the second histogram
         :param alpha: Alpha value for histograms
         """
-        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         plt.figure(figsize=(12, 6))
@@ -290,8 +298,8 @@ class L1bProductComparatorPlots:
             self.savefig("fig-waveforms_delta-hist.png")
 
     def waveforms_scatter(self, vmin=None, vmax=None):
-        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         x = self._comparator.p1.waveform
@@ -310,8 +318,8 @@ class L1bProductComparatorPlots:
             self.savefig("fig-waveforms-scatter.png")
 
     def waveforms_hexbin(self, vmin=None, vmax=None, cmap='Blues', log=True):
-        vmin = vmin if vmin is not None else self._comparator.waveforms_delta_range[0]
-        vmax = vmax if vmax is not None else self._comparator.waveforms_delta_range[1]
+        vmin = vmin if vmin is not None else self._comparator.waveforms_range[0]
+        vmax = vmax if vmax is not None else self._comparator.waveforms_range[1]
         vmax = vmin + 1 if vmin == vmax else vmax
 
         x = self._comparator.p1.waveform.flatten()
-- 
2.43.0


From bb8d41cc668f7ce46d68581368044630280c9f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:53 +0000
Subject: [PATCH 44/46] fix: height of positions at the south pole

Where a single position lies within a metre of the earth's axis its
height is taken from its z alone, but for a position under the south
pole z is negative and the height came out as minus some 12700 km. The
branch for arrays of positions already takes the absolute value.
---
 dedop/proc/geo/ecef2lla.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dedop/proc/geo/ecef2lla.py b/dedop/proc/geo/ecef2lla.py
index cbe6279..1953751 100644
--- a/dedop/proc/geo/ecef2lla.py
+++ b/dedop/proc/geo/ecef2lla.py
@@ -88,7 +88,7 @@ def ecef2lla(ecef: Sequence[float], cst: ConstantsFile) -> Tuple[float, float, f
 
     if isinstance(alt, numbers.Number):
         if abs(x)<1 and abs(y)<1:
-            alt = z - b
+            alt = abs(z) - b
     else:
         k = logical_and(abs(x)<1, abs(y)<1)
         alt[k] = abs(z[k]) - b
-- 
2.43.0


From 3f0c1039f5d7004d547641c284c696be3ee5346d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:41 +0000
Subject: [PATCH 45/46] fix: global attributes that are numbers reach the web
 service's client

Attributes of a product that are numbers, or lists of numbers, are read
as numpy types. These cannot be serialized as JSON, so the request for
the attributes of such a product failed.
---
 dedop/webapi/websocket.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dedop/webapi/websocket.py b/dedop/webapi/websocket.py
index cc346ba..facb782 100644
--- a/dedop/webapi/websocket.py
+++ b/dedop/webapi/websocket.py
@@ -185,6 +185,8 @@ class WebSocketService:
     @staticmethod
     def get_global_attributes(input_file_path) -> dict:
         ds = Dataset(input_file_path)
-        global_attributes = ds.__dict__
+        # numbers come as those of numpy, which cannot be serialized
+        global_attributes = {name: value.tolist() if hasattr(value, 'tolist') else value
+                             for name, value in ds.__dict__.items()}
         ds.close()
         return global_attributes
-- 
2.43.0


From 37f69674b3f779b127158a65884344abe619654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:45 +0000
Subject: [PATCH 46/46] fix: sign of the doppler angle of climbing satellites

The doppler angle is the angle by which the satellite's velocity departs
from the horizon. It was taken as negative whatever the direction, since
the angle to the horizontal part of the velocity never exceeds a right
angle; so it was right for descending satellites only. The look angles of
a climbing satellite were off by twice the angle, those of the nadir too,
and the surfaces in view were chosen off the centre of the beam.
---
 dedop/model/l1a_processing_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dedop/model/l1a_processing_data.py b/dedop/model/l1a_processing_data.py
index 6294ff5..bc6e352 100644
--- a/dedop/model/l1a_processing_data.py
+++ b/dedop/model/l1a_processing_data.py
@@ -923,5 +923,6 @@ class L1AProcessingData:
         # angle between v and m
         self.doppler_angle_sar_sat = angle_between(v, m)
 
-        if self.doppler_angle_sar_sat < self.cst.pi / 2:
+        # the angle is negative if the satellite descends
+        if np.dot(n.flat, v.flat) > 0:
             self.doppler_angle_sar_sat *= -1
\ No newline at end of file
-- 
2.43.0

