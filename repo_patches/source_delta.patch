From 37f9e805a2c0ed4943cc6db90a30dc51aea6c169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:57 +0000
Subject: [PATCH 01/23] fix: State.from_file maps HDF5 checkpoints into the
 active-site space like JSON ones

---
 kmcpy/simulator/state.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kmcpy/simulator/state.py b/kmcpy/simulator/state.py
index cb1f52f..4cd41cc 100644
--- a/kmcpy/simulator/state.py
+++ b/kmcpy/simulator/state.py
@@ -115,7 +115,12 @@ class State(MSONable):
         """Load state from a checkpoint or initial-state JSON file."""
         suffix = Path(filepath).suffix.lower()
         if suffix == ".h5":
-            return cls.load_checkpoint(filepath)
+            state = cls.load_checkpoint(filepath)
+            if active_site_order is not None:
+                state.occupations = active_site_order.select_active_values(
+                    state.occupations
+                )
+            return state
         if suffix != ".json":
             raise ValueError("State file format must be .json or .h5")
 
-- 
2.43.0


From ab9a5c2c15f4586448760a24ae60e19a30df6032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:16 +0000
Subject: [PATCH 02/23] fix: regenerate missing or out-of-date event
 dependencies instead of skipping the rate refresh

---
 kmcpy/event/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kmcpy/event/base.py b/kmcpy/event/base.py
index a93822e..3adb88d 100644
--- a/kmcpy/event/base.py
+++ b/kmcpy/event/base.py
@@ -269,9 +269,9 @@ class EventLib(ABC):
         Returns:
             list: List of event indices that depend on the given event.
         """
-        if self.event_dependencies is None:
-            logger.warning("Event dependencies not generated. Call generate_event_dependencies() first.")
-            return []
+        if self.event_dependencies is None or len(self.event_dependencies) != len(self.events):
+            logger.warning("Event dependencies missing or out of date; generating them now.")
+            self.generate_event_dependencies()
 
         if event_index >= len(self.event_dependencies):
             logger.error("Event index %d out of range", event_index)
-- 
2.43.0


From 752a897537e690c371e4d8d3d05ec1bab21c23d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:31 +0000
Subject: [PATCH 03/23] fix: keep a workflow file whose YAML cannot be read
 instead of overwriting it

---
 kmcpy/simulator/config.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/kmcpy/simulator/config.py b/kmcpy/simulator/config.py
index d9be365..fa593ca 100644
--- a/kmcpy/simulator/config.py
+++ b/kmcpy/simulator/config.py
@@ -495,10 +495,7 @@ class Configuration(MSONable):
                 raise ValueError("section output is only supported for YAML files")
             path = Path(filename)
             if path.exists():
-                try:
-                    yaml_data = loadfn(path)
-                except Exception:
-                    yaml_data = {}
+                yaml_data = loadfn(path)
             else:
                 yaml_data = {}
             if not isinstance(yaml_data, dict):
-- 
2.43.0


From 1d46af52c00b935350426b2222355daa19a82368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:23 +0000
Subject: [PATCH 04/23] fix: count mobile-ion sites by exact element, so F does
 not match Fe

---
 kmcpy/simulator/kmc.py     | 2 +-
 kmcpy/simulator/tracker.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kmcpy/simulator/kmc.py b/kmcpy/simulator/kmc.py
index 99fc643..4c6761e 100644
--- a/kmcpy/simulator/kmc.py
+++ b/kmcpy/simulator/kmc.py
@@ -501,7 +501,7 @@ class KMC:
         pass_length = len([
             el.symbol
             for el in self.structure.species
-            if config.mobile_ion_specie in el.symbol
+            if el.symbol == config.mobile_ion_specie
         ])
         
         logger.info("============================================================")
diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 763ab09..06de3e6 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -127,7 +127,7 @@ class Tracker:
         """Initialize mobile ion tracking arrays."""
         if self.hop_state_lookup is None:
             self.n_mobile_ion_specie_site = len(
-                [el.symbol for el in self.structure.species if self.mobile_ion_specie in el.symbol]
+                [el.symbol for el in self.structure.species if el.symbol == self.mobile_ion_specie]
             )
             initial_active_occ = np.array(initial_occ[0 : self.n_mobile_ion_specie_site])
             mobile_state_mask = initial_active_occ == 0
-- 
2.43.0


From f8b198462941ab1b19d12a6524ed5f3c9bc2ea01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:45 +0000
Subject: [PATCH 05/23] fix: a property callback that detaches itself no longer
 aborts the run

---
 kmcpy/simulator/tracker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 06de3e6..1c5d036 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -407,7 +407,7 @@ class Tracker:
                 spec.last_trigger_time = sim_time
                 continue
 
-            if spec.store:
+            if spec.store and spec.name in self._property_records:
                 append_record(
                     records=self._property_records[spec.name],
                     spec=spec,
-- 
2.43.0


From 37343f6a045d21cf21f8286ab8ec0280e8963213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:04 +0000
Subject: [PATCH 06/23] fix: transport summaries divide by the time elapsed
 since tracking started

---
 kmcpy/simulator/tracker.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kmcpy/simulator/tracker.py b/kmcpy/simulator/tracker.py
index 1c5d036..8c0a791 100644
--- a/kmcpy/simulator/tracker.py
+++ b/kmcpy/simulator/tracker.py
@@ -93,6 +93,8 @@ class Tracker:
         self.config = config
         self.structure = structure
         self.state = initial_state
+        # Displacements are counted from here, so elapsed time must be too.
+        self._start_time = float(initial_state.time)
         self.hop_state_lookup = hop_state_lookup
 
         self._initialize_mobile_ion_tracking(initial_state.occupations)
@@ -318,7 +320,7 @@ class Tracker:
         return compute_transport_properties(
             self.displacement,
             self.hop_counter,
-            sim_time=float(self.time),
+            sim_time=float(self.time) - self._start_time,
             dimension=self.dimension,
             n_mobile_ion_specie=self.n_mobile_ion_specie,
             elementary_hop_distance=self.elem_hop_distance,
-- 
2.43.0


From 8806d0ed3cc6d628e7837e58478ed48d0d649168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:31:12 +0000
Subject: [PATCH 07/23] fix: evaluate occupation-basis cluster expansions on
 basis values, as they were fitted

---
 kmcpy/models/local_cluster_expansion.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kmcpy/models/local_cluster_expansion.py b/kmcpy/models/local_cluster_expansion.py
index 735fc6c..31478d2 100644
--- a/kmcpy/models/local_cluster_expansion.py
+++ b/kmcpy/models/local_cluster_expansion.py
@@ -657,7 +657,14 @@ class LocalClusterExpansion(BaseModel):
         
         # Extract local occupation using event's local environment indices
         occ_sublat = deepcopy(occupations[list(event.local_env_indices)])
-            
+        basis = getattr(self, "basis", None)
+        if basis is not None and not getattr(basis, "uses_state_indices", False):
+            # States are species indices; the correlations were fitted on basis values.
+            counts = getattr(self, "basis_site_state_counts", None) or [None] * len(occ_sublat)
+            occ_sublat = np.array(
+                [basis.state_value(state, count) for state, count in zip(occ_sublat, counts)]
+            )
+
         self._calculate_correlation(corr, occ_sublat)
         
         # Compute energy using stored parameters
-- 
2.43.0


From 931d5b7410f8286e234b4065217286d7af72b922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:27 +0000
Subject: [PATCH 08/23] fix: read HDF5 parameter histories in the order they
 were written

---
 kmcpy/models/parameters.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index 496dbc9..9c1d371 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -146,7 +146,8 @@ class LCEModelParamHistory(MSONable):
             except ImportError as exc:
                 raise ImportError("h5py required for HDF5 parameter history") from exc
             with h5py.File(filename, "r") as h5file:
-                for key in sorted(h5file.keys()):
+                # Sets are numbered without padding: parameter_set_10 follows _9.
+                for key in sorted(h5file.keys(), key=lambda key: (len(key), key)):
                     records.append(_read_hdf5_group(h5file[key]))
             return cls.from_dict(records)
         return cls.from_dict(loadfn(filename, cls=None))
-- 
2.43.0


From 06e3e1be7bce078472ae4e3301d14141e8709921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:27 +0000
Subject: [PATCH 09/23] fix: keep local_site_order when fitted parameters are
 written

---
 kmcpy/models/parameters.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index 9c1d371..3dcb8a2 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -49,6 +49,8 @@ class LCEModelParameters(MSONable):
             data["orbit_fingerprints"] = self.orbit_fingerprints
         if self.local_environment_hash is not None:
             data["local_environment_hash"] = self.local_environment_hash
+        if self.local_site_order is not None:
+            data["local_site_order"] = self.local_site_order
         return data
 
     @classmethod
@@ -178,7 +180,12 @@ def _read_hdf5_parameter_group(filename: Path) -> dict[str, Any]:
 
 
 def _read_hdf5_group(group) -> dict[str, Any]:
-    return {key: _decode_hdf5_value(value[()]) for key, value in group.items()}
+    return {
+        key: _read_hdf5_group(value)
+        if hasattr(value, "items")
+        else _decode_hdf5_value(value[()])
+        for key, value in group.items()
+    }
 
 
 def _write_hdf5_parameter_group(filename: Path, data: dict[str, Any]) -> None:
@@ -194,6 +201,9 @@ def _write_hdf5_group(group, data: dict[str, Any]) -> None:
     for key, value in data.items():
         if key.startswith("@") or value is None:
             continue
+        if isinstance(value, dict):
+            _write_hdf5_group(group.create_group(key), value)
+            continue
         group.create_dataset(key, data=value)
 
 
-- 
2.43.0


From 433a796eb8f688995d99775ac26687ba1ccd9d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:55 +0000
Subject: [PATCH 10/23] fix: decode text arrays read from HDF5 parameter files

---
 kmcpy/models/parameters.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kmcpy/models/parameters.py b/kmcpy/models/parameters.py
index 3dcb8a2..1cd830f 100644
--- a/kmcpy/models/parameters.py
+++ b/kmcpy/models/parameters.py
@@ -208,8 +208,10 @@ def _write_hdf5_group(group, data: dict[str, Any]) -> None:
 
 
 def _decode_hdf5_value(value):
+    if hasattr(value, "tolist"):
+        value = value.tolist()
     if isinstance(value, bytes):
         return value.decode("utf-8")
-    if hasattr(value, "tolist"):
-        return value.tolist()
+    if isinstance(value, list):
+        return [_decode_hdf5_value(item) for item in value]
     return value
-- 
2.43.0


From 3e276cb1e40b1479a029a22417b00bb409019e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:30 +0000
Subject: [PATCH 11/23] fix: external occupations keep mapped values that no
 site holds initially

---
 kmcpy/models/site_energy.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 59a27f6..9920f6f 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -269,9 +269,18 @@ class SiteEnergyModel(BaseModel):
             self._external_value(site, int(state))
             for site, state in enumerate(occupations)
         ]
+        # Hops bring in states that no site holds yet.
+        state_values = [
+            value
+            for mapping in (
+                self.state_mapping or {},
+                *(self.state_mapping_by_site or {}).values(),
+            )
+            for value in mapping.values()
+        ]
         dtype = _resolve_external_dtype(
             self.external_dtype,
-            mapped_values=mapped_values,
+            mapped_values=mapped_values + state_values,
             fill_value=self.external_fill_value,
             initial_occupation=self.initial_occupation,
         )
@@ -797,15 +806,20 @@ def _resolve_external_dtype(
     if external_dtype is not None:
         return np.dtype(external_dtype)
     values = list(mapped_values)
-    if initial_occupation is not None:
+    if initial_occupation is None:
+        values.append(fill_value)
+    if all(isinstance(value, (int, np.integer)) for value in values):
+        dtype = np.dtype(np.int64)
+    elif all(isinstance(value, (int, float, np.number)) for value in values):
+        dtype = np.dtype(float)
+    else:
+        dtype = np.dtype(object)
+    if initial_occupation is None:
+        return dtype
+    # Keep the caller's dtype unless it would alter the values stored later.
+    if np.can_cast(dtype, initial_occupation.dtype, casting="same_kind"):
         return initial_occupation.dtype
-    if values and all(isinstance(value, (int, np.integer)) for value in values):
-        return np.int64
-    if values and all(isinstance(value, (int, float, np.number)) for value in values):
-        return float
-    if isinstance(fill_value, (int, np.integer)) and not values:
-        return np.int64
-    return object
+    return np.result_type(initial_occupation.dtype, dtype)
 
 
 def _optional_array_copy(value):
-- 
2.43.0


From 6d049d25d6e5dec9fa8733f33a656a6c2e2abfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:27 +0000
Subject: [PATCH 12/23] fix: refuse site mappings that send two active sites to
 one external site

---
 kmcpy/models/site_energy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kmcpy/models/site_energy.py b/kmcpy/models/site_energy.py
index 9920f6f..c33ec02 100644
--- a/kmcpy/models/site_energy.py
+++ b/kmcpy/models/site_energy.py
@@ -694,6 +694,8 @@ def _build_site_lookup(
 
     if np.any(lookup < 0):
         raise ValueError("External site indices must be nonnegative")
+    if len(set(lookup.tolist())) != len(lookup):
+        raise ValueError("site_mapping maps two kMCpy active sites to one external site")
     upper_bound = external_size
     if initial_occupation is not None:
         upper_bound = len(initial_occupation)
-- 
2.43.0


From 71f9ec20987ef2c6982f8ac976a119adb3430499 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:01:16 +0000
Subject: [PATCH 13/23] fix: supercells of a lattice structure keep each site's
 own allowed species

---
 kmcpy/structure/lattice_structure.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/kmcpy/structure/lattice_structure.py b/kmcpy/structure/lattice_structure.py
index a5f0c3b..592519d 100644
--- a/kmcpy/structure/lattice_structure.py
+++ b/kmcpy/structure/lattice_structure.py
@@ -379,14 +379,20 @@ class LatticeStructure(ABC):
     
     def make_supercell(self, sc_matrix: np.ndarray):
         '''Create a supercell of the template structure'''
+        # Each supercell site keeps the allowed species of its template site.
+        self.template_structure.add_site_property(
+            "_kmcpy_template_index",
+            list(range(len(self.template_structure))),
+        )
         self.template_structure.make_supercell(sc_matrix)
-        # Update allowed_species accordingly
-        original_allowed_species = self.allowed_species.copy()
-        self.allowed_species = []
-        for i in range(sc_matrix[0,0]):
-            for j in range(sc_matrix[1,1]):
-                for k in range(sc_matrix[2,2]):
-                    self.allowed_species.extend(original_allowed_species)
+        template_indices = self.template_structure.site_properties[
+            "_kmcpy_template_index"
+        ]
+        self.template_structure.remove_site_property("_kmcpy_template_index")
+        self.allowed_species = [
+            self.allowed_species[int(template_index)]
+            for template_index in template_indices
+        ]
         if len(self.allowed_species) != len(self.template_structure):
             raise ValueError(f"After supercell, species length {len(self.allowed_species)} does not match template structure length {len(self.template_structure)}!")
         
-- 
2.43.0


From 4dc6d79eb43ec22dede30a84d1dee8ebdd8f1fb6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 13:02:18 +0000
Subject: [PATCH 14/23] fix: occupations distinguish allowed species that
 differ only in charge

---
 kmcpy/structure/lattice_structure.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kmcpy/structure/lattice_structure.py b/kmcpy/structure/lattice_structure.py
index 592519d..7a8bce3 100644
--- a/kmcpy/structure/lattice_structure.py
+++ b/kmcpy/structure/lattice_structure.py
@@ -312,6 +312,10 @@ class LatticeStructure(ABC):
         )
         if not allowed_species:
             raise ValueError(f"No allowed species defined for site {site_index}")
+        # Allowed species may differ only in charge: an exact match comes first.
+        for state_index, allowed in enumerate(allowed_species):
+            if str(allowed) == str(specie):
+                return self.basis.state_value(state_index, len(allowed_species))
         for state_index, allowed in enumerate(allowed_species):
             if self._species_matches(specie, allowed):
                 return self.basis.state_value(state_index, len(allowed_species))
-- 
2.43.0


From 740da725f48b0d4ff8b7bea2c6901dc680dc4d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:50 +0000
Subject: [PATCH 15/23] fix: infer the mobile species from every vacancy label
 site mappings accept

---
 kmcpy/event/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kmcpy/event/generators.py b/kmcpy/event/generators.py
index 0c93d2c..a20e2bd 100644
--- a/kmcpy/event/generators.py
+++ b/kmcpy/event/generators.py
@@ -85,7 +85,7 @@ class EventGenerator:
             allowed_tokens = {
                 token.upper() for token in cls._mapping_values(allowed_species)
             }
-            if "X" in allowed_tokens or "VACANCY" in allowed_tokens:
+            if allowed_tokens & {"X", "VA", "VACANCY"}:
                 mobile_species.append(str(species))
         if not mobile_species:
             raise ValueError(
-- 
2.43.0


From 7b71fdd10453de22d20f82d979e87eee0e14340e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:50 +0000
Subject: [PATCH 16/23] fix: convert every non-template species state to the
 mismatch value

---
 kmcpy/structure/basis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kmcpy/structure/basis.py b/kmcpy/structure/basis.py
index cbf265c..8f0dcda 100644
--- a/kmcpy/structure/basis.py
+++ b/kmcpy/structure/basis.py
@@ -117,10 +117,10 @@ class BasisFunction(MSONable, ABC):
     
     def convert_to(self, value: Union[int, float], target_basis: 'BasisFunction') -> Union[int, float]:
         """Convert a value to another basis function."""
-        if value == self.mismatch_value:
-            return target_basis.mismatch_value
-        else:
+        if value == self.match_value:
             return target_basis.match_value
+        else:
+            return target_basis.mismatch_value
     
     def __str__(self) -> str:
         return f"{self.__class__.__name__}(match={self.match_value}, mismatch={self.mismatch_value})"
-- 
2.43.0


From 520e2114752fc825d62e4603feb0d99ba1ecf971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:50 +0000
Subject: [PATCH 17/23] fix: occupations of one basis are equivalent only when
 their values agree

---
 kmcpy/structure/basis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kmcpy/structure/basis.py b/kmcpy/structure/basis.py
index 8f0dcda..9eeb69b 100644
--- a/kmcpy/structure/basis.py
+++ b/kmcpy/structure/basis.py
@@ -453,6 +453,9 @@ class Occupation:
         if not isinstance(other, Occupation):
             return False
         
+        if self._basis_obj.__class__ == other._basis_obj.__class__:
+            return np.array_equal(self._data, other._data)
+
         # Convert both to occupation basis for comparison
         self_occ = self.to_basis('occupation')
         other_occ = other.to_basis('occupation')
-- 
2.43.0


From 17175ac8ed8a3ef9134582b9354519fd7e6722c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:50 +0000
Subject: [PATCH 18/23] fix: a refused occupation edit leaves the occupation
 unchanged

---
 kmcpy/structure/basis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kmcpy/structure/basis.py b/kmcpy/structure/basis.py
index 9eeb69b..e85c47a 100644
--- a/kmcpy/structure/basis.py
+++ b/kmcpy/structure/basis.py
@@ -418,9 +418,13 @@ class Occupation:
     
     def __setitem__(self, index: Union[int, slice], value: Union[int, List[int]]):
         """Set occupation value(s) at index."""
+        previous = self._data.copy()
         self._data[index] = value
-        if hasattr(self, '_validate'):  # Only validate if not in constructor
+        try:
             self._validate()
+        except ValueError:
+            self._data = previous
+            raise
     
     def __iter__(self) -> Iterator[int]:
         """Iterate over occupation values."""
-- 
2.43.0


From 3a57ec36e8628ef317e2475d93b90c1b896658bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:39:55 +0000
Subject: [PATCH 19/23] fix: refuse states the target basis does not have when
 converting an occupation within one basis class

---
 kmcpy/structure/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kmcpy/structure/basis.py b/kmcpy/structure/basis.py
index e85c47a..2e2622e 100644
--- a/kmcpy/structure/basis.py
+++ b/kmcpy/structure/basis.py
@@ -570,7 +570,7 @@ class Occupation:
             target_basis_obj = target_basis
             
         if target_basis_obj.__class__ == self._basis_obj.__class__:
-            return Occupation(self._data, basis=target_basis_obj, validate=False)
+            return Occupation(self._data, basis=target_basis_obj)
         
         # General conversion using basis function interface
         converted = np.array([self._basis_obj.convert_to(val, target_basis_obj) for val in self._data])
-- 
2.43.0


From df7215b3e987d3406e99437ed6208f4429360f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:16 +0000
Subject: [PATCH 20/23] fix: assign a local site once when several of its
 periodic images lie inside the cutoff

---
 kmcpy/structure/local_environment_enumerator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index b4c66ea..36cfef2 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -403,7 +403,7 @@ def _resolve_variable_site_indices(
 ) -> tuple[int, ...]:
     local_sites = set(local_site_indices)
     if variable_site_indices is not None:
-        resolved = tuple(int(index) for index in variable_site_indices)
+        resolved = tuple(dict.fromkeys(int(index) for index in variable_site_indices))
         missing = [index for index in resolved if index not in local_sites]
         if missing:
             raise ValueError(
@@ -414,7 +414,8 @@ def _resolve_variable_site_indices(
         return resolved
 
     resolved_sites = []
-    for index in local_site_indices:
+    # Periodic images of one site inside the cutoff are one site to assign.
+    for index in dict.fromkeys(local_site_indices):
         allowed = lattice_structure.allowed_species[index]
         if allowed is None or len(allowed) <= 1:
             continue
-- 
2.43.0


From f5bf200de49ddc367eca30836ada1c1f8f441842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:16 +0000
Subject: [PATCH 21/23] fix: leave the destination of a NEB hop vacant when its
 site allows further species

---
 kmcpy/structure/local_environment_enumerator.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index 36cfef2..5facfbe 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -200,8 +200,10 @@ def generate_neb_endpoint_pair(
 
     initial_occupation = initial_occupation.copy()
     initial_occupation[from_site] = active_lattice_structure.basis.match_value
-    initial_occupation[to_site] = active_lattice_structure.basis.mismatch_value
-    final_occupation = initial_occupation.flip([from_site, to_site])
+    initial_occupation[to_site] = _vacancy_value(active_lattice_structure, to_site)
+    final_occupation = initial_occupation.copy()
+    final_occupation[from_site] = _vacancy_value(active_lattice_structure, from_site)
+    final_occupation[to_site] = active_lattice_structure.basis.match_value
 
     initial, final = _ordered_endpoint_structures(
         lattice_structure,
@@ -754,6 +756,13 @@ def _occupation_value_for_species(
     return lattice_structure.occupation_value_for_species(site_index, specie)
 
 
+def _vacancy_value(lattice_structure: LatticeStructure, site_index: int) -> int:
+    for specie in lattice_structure.allowed_species[site_index]:
+        if _is_vacancy(specie):
+            return _occupation_value_for_species(lattice_structure, site_index, specie)
+    raise ValueError(f"mobile-ion site {site_index} must allow a vacancy")
+
+
 def _first_allowed_species(lattice_structure: LatticeStructure, site_index: int) -> Any:
     allowed = lattice_structure.allowed_species[site_index]
     if not allowed:
-- 
2.43.0


From 0efc75edfa80d5370f9f61050994894c20c9f411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:16 +0000
Subject: [PATCH 22/23] fix: accept a zero entry in species_counts of the local
 environment enumeration

---
 kmcpy/structure/local_environment_enumerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kmcpy/structure/local_environment_enumerator.py b/kmcpy/structure/local_environment_enumerator.py
index 5facfbe..3c01374 100644
--- a/kmcpy/structure/local_environment_enumerator.py
+++ b/kmcpy/structure/local_environment_enumerator.py
@@ -776,7 +776,7 @@ def _matches_counts(
 ) -> bool:
     if species_counts is None:
         return True
-    return Counter(species_by_site.values()) == species_counts
+    return Counter(species_by_site.values()) == Counter(species_counts)
 
 
 def _canonical_counts(species_counts: Mapping[Any, int] | None) -> dict[str, int] | None:
-- 
2.43.0


From f206aec9e03d975676192a3298ca987e05a2761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:07:30 +0000
Subject: [PATCH 23/23] fix: refuse a fractional --supercell_shape instead of
 truncating it

---
 kmcpy/cli/run_kmc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kmcpy/cli/run_kmc.py b/kmcpy/cli/run_kmc.py
index ab0ca8d..d6d4e2e 100755
--- a/kmcpy/cli/run_kmc.py
+++ b/kmcpy/cli/run_kmc.py
@@ -29,6 +29,11 @@ def _parse_supercell_shape(value):
         raise argparse.ArgumentTypeError(
             "supercell_shape must contain integers"
         ) from exc
+    if any(
+        isinstance(item, float) and item != count
+        for item, count in zip(parsed, supercell_shape)
+    ):
+        raise argparse.ArgumentTypeError("supercell_shape must contain integers")
     if len(supercell_shape) != 3:
         raise argparse.ArgumentTypeError("supercell_shape must contain 3 integers")
     return supercell_shape
-- 
2.43.0

