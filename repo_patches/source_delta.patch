From 5563a1daf9d03e54a76a9d5fe5744e29cb4061e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:41 +0000
Subject: [PATCH 01/53] fix: split md/geom frames on whitespace-only separator
 lines

CASTEP separates frames of .md/.geom files with lines holding blanks.
The eager parser only recognised completely empty lines, so all frames of
such a file (e.g. test/data_files/si8-md.md) were merged into one, and
reading stopped at two consecutive blank lines.
---
 castep_outputs/parsers/md_geom_file_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/md_geom_file_parser.py b/castep_outputs/parsers/md_geom_file_parser.py
index a6ed344..988a9b4 100644
--- a/castep_outputs/parsers/md_geom_file_parser.py
+++ b/castep_outputs/parsers/md_geom_file_parser.py
@@ -5,7 +5,7 @@ from __future__ import annotations
 from collections import defaultdict
 from typing import TextIO, TypedDict
 
-from castep_outputs.utilities.castep_res import ATOMIC_DATA_TAG, TAG_RE, get_numbers
+from castep_outputs.utilities.castep_res import ATOMIC_DATA_TAG, EMPTY, TAG_RE, get_numbers
 from castep_outputs.utilities.constants import FST_D, TAG_ALIASES
 from castep_outputs.utilities.datatypes import AtomIndex, ThreeByThreeMatrix, ThreeVector
 from castep_outputs.utilities.filewrapper import Block, FileWrapper
@@ -171,7 +171,10 @@ def parse_md_geom_file(md_geom_file: TextIO | FileWrapper | Block) -> list[MDGeo
     _comment = parse_header(md_geom_file)
 
     steps = []
-    while block := Block.from_re("", md_geom_file, "", "^$", eof_possible=True):
+    for line in md_geom_file:
+        if not line.strip():
+            continue
+        block = Block.from_re(line, md_geom_file, "", EMPTY, eof_possible=True)
         steps.append(parse_md_geom_frame(block))
 
     if not steps:
-- 
2.43.0


From 78b6c1f8b022d3c36e8d28f8f7b5347bf9cb4b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:18 +0000
Subject: [PATCH 02/53] fix: lazy trajectory reader dropped a final frame
 without trailing blank line

The number of frames was the file size divided by the size of a frame
including its separator, rounded down, so a file whose last frame is not
followed by a blank line (docs/source/example_data/pair-pot-lj.md) lost
that frame, and a single such frame raised StopIteration.
---
 castep_outputs/tools/md_geom_parser.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/castep_outputs/tools/md_geom_parser.py b/castep_outputs/tools/md_geom_parser.py
index f26fa06..c0324fd 100644
--- a/castep_outputs/tools/md_geom_parser.py
+++ b/castep_outputs/tools/md_geom_parser.py
@@ -45,28 +45,36 @@ class MDGeomParser:
         self._start = self._handle.tell()
         self._start_line = self._handle.lineno
 
-        while next(self._handle).strip():
-            pass
-        self._frame_lines = self._handle.lineno - self._start_line - 1
+        self._frame_lines = 0
+        end_frame = self._start
+        for line in self._handle:
+            if not line.strip():
+                break
+            self._frame_lines += 1
+            end_frame = self._handle.tell()
 
         self._frame_bytes = self._handle.tell() - self._start
         stat = self.file.stat()
 
-        len_est = (stat.st_size - self._start) / self._frame_bytes
+        len_est, remainder = divmod(stat.st_size - self._start, self._frame_bytes)
 
-        if not len_est.is_integer():
+        # Final frame may lack its newline and the separator after it.
+        if self._frame_bytes - remainder <= self._handle.tell() - end_frame + 2:
+            len_est, remainder = len_est + 1, 0
+
+        if remainder:
             self.logger(
                 """\
-Number of frames estimate is non-integral (%d).
+Number of frames estimate is non-integral (%f).
 This may have been caused by manually modifying the file.
 
 While iteration should work, extracting particular frames may not.
                 """,
-                len_est,
+                len_est + remainder / self._frame_bytes,
                 level="warning",
             )
 
-        self._len = int(len_est)
+        self._len = len_est
         self._go_to_frame(0)
 
     @property
-- 
2.43.0


From 9b564500171f0f762bc1dadce180c21d26f94788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:28 +0000
Subject: [PATCH 03/53] fix: keep Fermi energies and counts of spin-polarised
 .bands files

Spin-polarised files give two electron and eigenvalue counts and 'Fermi
energies'. The first count became part of the key, the Fermi energies were
dropped, and fractional electron counts were truncated.
---
 castep_outputs/parsers/bands_file_parser.py | 4 +++-
 castep_outputs/parsers/parse_utilities.py   | 9 +++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/parsers/bands_file_parser.py b/castep_outputs/parsers/bands_file_parser.py
index 930dc5e..1a7f8a6 100644
--- a/castep_outputs/parsers/bands_file_parser.py
+++ b/castep_outputs/parsers/bands_file_parser.py
@@ -63,7 +63,9 @@ def parse_bands_file(bands_file: TextIO) -> BandsFileInfo:
     current: Literal["band", "band_up", "band_down"] = "band"
 
     block = Block.from_re("", bands_file, "", REs.THREEVEC_RE, n_end=3)
-    data = parse_regular_header(block, ("Fermi energy",))
+    data = parse_regular_header(block, ("Fermi energy", "Fermi energies"))
+    if "Fermi energies" in data:
+        data["Fermi energy"] = data.pop("Fermi energies")
     bands_info.update(data)
 
     for line in bands_file:
diff --git a/castep_outputs/parsers/parse_utilities.py b/castep_outputs/parsers/parse_utilities.py
index ea2ab3c..97d1c6f 100644
--- a/castep_outputs/parsers/parse_utilities.py
+++ b/castep_outputs/parsers/parse_utilities.py
@@ -38,8 +38,13 @@ def parse_regular_header(block: Block,
     coords = defaultdict(list)
     for line in block:
         if line.strip().startswith("Number of"):
-            _, _, *key, val = line.split()
-            data[" ".join(key)] = int(float(val))
+            _, _, *parts = line.split()
+            n_key = next((i for i, part in enumerate(parts)
+                          if REs.NUMBER_RE.fullmatch(part)), len(parts))
+            # Possibly one value per spin; not necessarily integral (e.g. electrons).
+            vals = tuple(int(val) if val.is_integer() else val
+                         for val in map(float, parts[n_key:]))
+            data[" ".join(parts[:n_key])] = vals[0] if len(vals) == 1 else vals
         elif "Unit cell vectors" in line:
             data["unit_cell"] = [to_type(next(block).split(), float)
                                  for _ in range(3)]
-- 
2.43.0


From d309daafbb96a17549b8b1efb8e053e5b33102fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:49 +0000
Subject: [PATCH 04/53] fix: keep ions and DOS columns of labelled species in
 phonon-like files

Header ions with a labelled species (e.g. 'H:D') were silently skipped and
a DOS table with one could not be parsed at all.
---
 castep_outputs/parsers/phonon_dos_file_parser.py | 5 +++--
 castep_outputs/utilities/castep_res.py           | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/parsers/phonon_dos_file_parser.py b/castep_outputs/parsers/phonon_dos_file_parser.py
index e3ae6ca..887d5d0 100644
--- a/castep_outputs/parsers/phonon_dos_file_parser.py
+++ b/castep_outputs/parsers/phonon_dos_file_parser.py
@@ -123,13 +123,14 @@ def parse_phonon_dos_file(phonon_dos_file: TextIO) -> PhononDosFileInfo:
             # First chunk is " BEGIN DOS   Freq (cm-1)  g(f)", thus need the 5th on
             species = block[0].split()[5:]
             headers = ("freq", "g", *species)
-            rows = re.compile(labelled_floats(headers))
+            # Labelled species (e.g. "H:D") are not valid group names
+            rows = re.compile(labelled_floats([f"col{i}" for i, _ in enumerate(headers)]))
 
             block.remove_bounds(1, 2)
 
             for line in block:
                 match = rows.match(line)
-                stack_dict(dos, match.groupdict())
+                stack_dict(dos, dict(zip(headers, match.groups(), strict=True)))
 
             if dos:
                 fix_data_types(dos, dict.fromkeys(headers, float))
diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 00da67e..63848bf 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -570,7 +570,7 @@ MAGRES_TASK = (
 # Regexp to identify block in .phonon or .phonon_dos file
 FRACCOORDS_RE = re.compile(
     rf"\s*(?P<index>{INTNUMBER_RE}){labelled_floats(('u', 'v', 'w'))}"
-    rf"\s*(?P<spec>{SPECIES_RE}){labelled_floats(('mass',))}",
+    rf"\s*(?P<spec>{ATOM_NAME_RE}){labelled_floats(('mass',))}",
 )
 
 PHONON_PHONON_RE = re.compile(
-- 
2.43.0


From 9bbc20dc49296102a75ec4c65f67d5892b37fb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 05/53] fix: .ts files of search types other than confirmation
 crashed

The 'TSTYPE' header line was taken for the start of a 'TST' image.
---
 castep_outputs/parsers/ts_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/ts_file_parser.py b/castep_outputs/parsers/ts_file_parser.py
index 37407a9..68b659e 100644
--- a/castep_outputs/parsers/ts_file_parser.py
+++ b/castep_outputs/parsers/ts_file_parser.py
@@ -72,7 +72,7 @@ def parse_ts_file(ts_file: TextIO) -> TSFileInfo:
         if "TSConfirmation" in line:
             accum["confirmation"] = True
 
-        elif block := Block.from_re(line, ts_file, "(REA|PRO|TST)", r"^\s*$", eof_possible=True):
+        elif block := Block.from_re(line, ts_file, r"^\s*(REA|PRO|TST)\s*\d", r"^\s*$", eof_possible=True):
             curr = defaultdict(list)
             match = re.match(r"\s*(?P<type>REA|PRO|TST)\s*\d+\s*" +
                              labelled_floats(("reaction_coordinate",)), line)
-- 
2.43.0


From 8a8a8864aace7589eb306904d601773c9f008661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 06/53] fix: read .magres files whose blocks are in another
 order or absent

---
 castep_outputs/parsers/magres_file_parser.py | 43 +++++++++++++-------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/castep_outputs/parsers/magres_file_parser.py b/castep_outputs/parsers/magres_file_parser.py
index 690f55f..8141f34 100644
--- a/castep_outputs/parsers/magres_file_parser.py
+++ b/castep_outputs/parsers/magres_file_parser.py
@@ -16,6 +16,9 @@ from castep_outputs.utilities.utility import (
     normalise_key,
 )
 
+#: CASTEP version assumed if the file does not state one.
+DEFAULT_VERSION = 22
+
 
 class AtomsInfo(TypedDict):
     """Per atom magres information."""
@@ -85,22 +88,31 @@ def parse_magres_file(magres_file: TextIO) -> MagresInfo:
     # pylint: disable=too-many-branches
 
     accum = defaultdict(dict)
+    blocks = {}
 
+    # Blocks may come in any order, but reading some needs the contents of others.
     for line in magres_file:
         if block := Block.from_re(line, magres_file, r"^\s*\[\w+\]\s*$", r"^\s*\[/\w+\]\s*$"):
             block_name = next(block).strip().strip("[").strip("]")
+            blocks[block_name] = block
+
+    version = DEFAULT_VERSION
+
+    if block := blocks.get("calculation"):
+        accum["calc"] = _process_calculation_block(block)
+        if "code_version" in accum["calc"]:
+            version = int(accum["calc"]["code_version"].split(".")[0])
+
+    if block := blocks.get("atoms"):
+        accum["atoms"] = _process_atoms_block(block)
+
+    if block := blocks.get("magres"):
+        accum["magres"] = _process_magres_block(block, version)
 
-            if block_name == "calculation":
-                accum["calc"] = _process_calculation_block(block)
-                version = int(accum["calc"]["code_version"].split(".")[0])
-            elif block_name == "atoms":
-                accum["atoms"] = _process_atoms_block(block)
-            elif block_name == "magres":
-                accum["magres"] = _process_magres_block(block, version)
-            elif block_name == "magres_old":
-                (accum["total_shielding"], accum["atom_info"]) = _process_magres_old_block(
-                    block, accum,
-                )
+    if block := blocks.get("magres_old"):
+        (accum["total_shielding"], accum["atom_info"]) = _process_magres_old_block(
+            block, accum.get("atoms", {}).get("coords", {}),
+        )
 
     return accum
 
@@ -218,7 +230,7 @@ def _process_magres_block(block: Block, version: int) -> dict[str, str | ThreeBy
 
 def _process_magres_old_block(
     block: Block,
-    accum: dict,
+    coords: dict[AtomIndex, ThreeVector],
 ) -> tuple[ThreeByThreeMatrix, dict[AtomIndex, AtomsInfo]]:
     """
     Process the magres_old block.
@@ -227,6 +239,8 @@ def _process_magres_old_block(
     ----------
     block
         Block to process.
+    coords
+        Coordinates of the atoms, if known.
 
     Returns
     -------
@@ -235,8 +249,8 @@ def _process_magres_old_block(
     dict[AtomIndex, AtomsInfo]
         Processed atomic data.
     """
-    atom_info = {atreg: defaultdict(list) for atreg in accum["atoms"]["coords"]}
-    for atreg, pos in accum["atoms"]["coords"].items():
+    atom_info = {atreg: defaultdict(list) for atreg in coords}
+    for atreg, pos in coords.items():
         atom_info[atreg]["coords"] = pos
 
     total_shielding = None
@@ -253,6 +267,7 @@ def _process_magres_old_block(
         elif line.strip() and "[" not in line:
             spec, ind, key, *val = line.split()
             atreg = spec, int(ind)
+            atom_info.setdefault(atreg, defaultdict(list))
             if key == "Eigenvalue":
                 atom_info[atreg]["eigvenvalue"].append(float(val[1]))
             elif key == "Eigenvector":
-- 
2.43.0


From fbc13229e8377bc53e6e872e2a435ac06090ba07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 07/53] fix: blank lines inside .magres blocks raised an error

---
 castep_outputs/parsers/magres_file_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/magres_file_parser.py b/castep_outputs/parsers/magres_file_parser.py
index 8141f34..c6ede05 100644
--- a/castep_outputs/parsers/magres_file_parser.py
+++ b/castep_outputs/parsers/magres_file_parser.py
@@ -133,7 +133,7 @@ def _process_calculation_block(block: Block) -> dict[str, str]:
     """
     calc = {}
     for line in block:
-        if line.startswith("["):
+        if line.startswith("[") or not line.strip():
             continue
         key, *val = line.strip().split(maxsplit=1)
 
@@ -192,6 +192,9 @@ def _process_magres_block(block: Block, version: int) -> dict[str, str | ThreeBy
     munge_fix = 3 if version < 22 else 5
 
     for line in block:
+        if not line.strip():
+            continue
+
         if line.startswith("units"):
             _, key, val = line.split()
             accum["units"][key] = val
-- 
2.43.0


From 0fd642c027c35ebb2e817f91c9600a31365a2f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 08/53] fix: binary record reader returned bytes that are no
 record at the ends of a file

---
 castep_outputs/bin_parsers/epme_bin_parser.py |  2 +-
 .../bin_parsers/fortran_bin_parser.py         | 33 ++++++++++++-------
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/castep_outputs/bin_parsers/epme_bin_parser.py b/castep_outputs/bin_parsers/epme_bin_parser.py
index b85347f..325c203 100644
--- a/castep_outputs/bin_parsers/epme_bin_parser.py
+++ b/castep_outputs/bin_parsers/epme_bin_parser.py
@@ -105,7 +105,7 @@ def _check_header(reader: FortranBinaryReader, test: bytes) -> None:
     ValueError: Unexpected data (b'HEADER') in epme file, expected b'NOT'.
     """
     if (x := next(reader)) != test:
-        reader.rewind(2)
+        reader.rewind()
         raise ValueError(f"Unexpected data ({x}) in epme file, expected {test}.")
 
 
diff --git a/castep_outputs/bin_parsers/fortran_bin_parser.py b/castep_outputs/bin_parsers/fortran_bin_parser.py
index e375925..0f07a5d 100644
--- a/castep_outputs/bin_parsers/fortran_bin_parser.py
+++ b/castep_outputs/bin_parsers/fortran_bin_parser.py
@@ -55,9 +55,17 @@ class FortranBinaryReader:
 
         size = int.from_bytes(bin_size, "big")
         data = self.file.read(size)
-        self.file.read(4)
+        if len(data) < size or len(self.file.read(4)) < 4:
+            raise EOFError("File ends within a record.")
         return data
 
+    def _read_size(self) -> int:
+        """Read the size of a record, which must be there."""
+        bin_size = self.file.read(4)
+        if len(bin_size) < 4:
+            raise EOFError("No more records in file.")
+        return int.from_bytes(bin_size, "big")
+
     def rewind(self, n: int = 1, /) -> None:
         """Rewind ``n`` elements.
 
@@ -75,23 +83,26 @@ class FortranBinaryReader:
         ----------
         n
             Number of elements to skip.
+
+        Raises
+        ------
+        EOFError
+            Fewer than ``n`` elements in that direction.
         """
         if n == 0:
             return
 
         if n < 0:
-            self.file.seek(-4, SEEK_CUR)
-            for _ in range(abs(n) - 1):
-                # Rewind to record size before last read
-                size = int.from_bytes(self.file.read(4), "big")
-                self.file.seek(-size - 12, SEEK_CUR)
-
-            # Rewind one extra
-            size = int.from_bytes(self.file.read(4), "big")
-            self.file.seek(-size - 8, SEEK_CUR)
+            for _ in range(abs(n)):
+                if self.file.tell() == 0:
+                    raise EOFError("No previous records in file.")
+                # Rewind to size of previous record
+                self.file.seek(-4, SEEK_CUR)
+                size = self._read_size()
+                self.file.seek(-size - 8, SEEK_CUR)
         else:
             for _ in range(n):
-                size = int.from_bytes(self.file.read(4), "big")
+                size = self._read_size()
                 self.file.seek(size + 4, SEEK_CUR)
 
     @overload
-- 
2.43.0


From 3ee2c3c7de2bf2116b71e42ab18b55a15404fe24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:19 +0000
Subject: [PATCH 09/53] fix: structure-factor rows with adjacent columns raised
 an error

---
 castep_outputs/parsers/xrd_sf_file_parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/parsers/xrd_sf_file_parser.py b/castep_outputs/parsers/xrd_sf_file_parser.py
index e30999f..e29cfd2 100644
--- a/castep_outputs/parsers/xrd_sf_file_parser.py
+++ b/castep_outputs/parsers/xrd_sf_file_parser.py
@@ -7,7 +7,7 @@ from collections import defaultdict
 from typing import TextIO, TypedDict
 
 from castep_outputs.utilities import castep_res as REs
-from castep_outputs.utilities.castep_res import labelled_floats
+from castep_outputs.utilities.castep_res import get_numbers, labelled_floats
 from castep_outputs.utilities.datatypes import ThreeVector
 from castep_outputs.utilities.type_conv import to_type
 from castep_outputs.utilities.utility import file_or_path, stack_dict
@@ -58,7 +58,7 @@ def parse_xrd_sf_file(xrd_sf_file: TextIO) -> XRDSFFileInfo:
     headers_wo = {head[:-3] for head in headers}
 
     xrd_re = re.compile(rf"(?P<qvec>(?:\s*{REs.INTNUMBER_RE}){{3}})" +
-                        labelled_floats(headers))
+                        labelled_floats(headers, sep=r"(?:\s+|(?=-))"))
 
     xrd: XRDSFFileInfo = defaultdict(list)
     for line in xrd_sf_file:
@@ -66,7 +66,7 @@ def parse_xrd_sf_file(xrd_sf_file: TextIO) -> XRDSFFileInfo:
         accum = {head: complex(float(match[f"{head}_re"]),
                                float(match[f"{head}_im"]))
                  for head in headers_wo}
-        accum["qvec"] = to_type(match["qvec"].split(), int)
+        accum["qvec"] = to_type(get_numbers(match["qvec"]), int)
         stack_dict(xrd, accum)
 
     return xrd
-- 
2.43.0


From c56bee60dfa6f0f2f6ab87fac572cb455b219936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:52 +0000
Subject: [PATCH 10/53] fix: number spellings in input files (D exponents,
 signed fractions, mixed vectors, text beginning like a number)

---
 castep_outputs/utilities/castep_res.py | 23 ++++++++++++++---------
 castep_outputs/utilities/type_conv.py  | 19 ++++++++++++-------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 63848bf..ae9331f 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -209,17 +209,19 @@ EXPFNUMBER_RE = f"(?:{EXPNUMBER_RE}|{FNUMBER_RE})"
 #: Integer ratio.
 #:
 #: :meta hide-value:
-RATIONAL_RE = rf"\b{INTNUMBER_RE}/{INTNUMBER_RE}\b"
+RATIONAL_RE = rf"(?<![\w.]){INTNUMBER_RE}/{INTNUMBER_RE}\b"
 
 #: Generalised number.
 #:
 #: :meta hide-value:
 NUMBER_RE = re.compile(rf"(?:{EXPNUMBER_RE}|{FNUMBER_RE}|{INTNUMBER_RE})")
 
-#: Floating point, integer or ratio.
+#: Floating point, integer or ratio as accepted in input files (including Fortran ``D`` exponents).
 #:
 #: :meta hide-value:
-FLOAT_RAT_RE = re.compile(rf"(?:{RATIONAL_RE}|{EXPFNUMBER_RE}|{INTNUMBER_RE})")
+FLOAT_RAT_RE = re.compile(
+    rf"(?:{RATIONAL_RE}|{EXPNUMBER_RE.replace('[Ee]', '[EeDd]')}|{FNUMBER_RE}|{INTNUMBER_RE})",
+)
 
 #: Three vector.
 #:
@@ -600,12 +602,15 @@ DEVEL_CODE_BLOCK_GENERIC_RE = r"([A-Za-z0-9_]+):(?:.*):end\1"
 PARAM_VALUE_RE = re.compile(
     rf"""
 ^\s*(?P<key>[a-z_]+)
-\s*[ \t:=]\s*
-    (?:(?P<val>(?:\s*{NUMBER_RE.pattern})+)|
-    # String starts with anything which is NOT digit,+,-,. or space.
-    (?P<str>[^-+\d\s.](?:\s*\S+)*))
-    # If numeric value, chance of unit
-    (?(val)(?P<unit>\s\S+)?)
+(?:\s*[:=]\s*|\s+)
+(?:
+    # Numeric value(s), chance of unit
+    (?P<val>{FLOAT_RAT_RE.pattern}(?:\s+{FLOAT_RAT_RE.pattern})*)
+    (?P<unit>\s+\S+)?
+|
+    # Anything else
+    (?P<str>[^\s:=]\S*(?:\s+\S+)*)
+)
 \s*$
 """,
     re.IGNORECASE | re.VERBOSE,
diff --git a/castep_outputs/utilities/type_conv.py b/castep_outputs/utilities/type_conv.py
index f18b914..5a2b9b4 100644
--- a/castep_outputs/utilities/type_conv.py
+++ b/castep_outputs/utilities/type_conv.py
@@ -81,21 +81,26 @@ def determine_type(data: str) -> type:
     <class 'int'>
     >>> determine_type('1/3')
     <class 'float'>
+    >>> determine_type('0 0.5 1/2')
+    <class 'float'>
+    >>> determine_type('1.5d-3')
+    <class 'float'>
     >>> determine_type('BEEF')
     <class 'str'>
+    >>> determine_type('2D')
+    <class 'str'>
     """
     if data.title() in {"T", "True", "F", "False"}:
         return bool
 
-    if re.match(rf"(?:\s*{REs.EXPFNUMBER_RE})+", data):
-        return float
-
-    if re.match(rf"(?:\s*{REs.RATIONAL_RE})+", data):
-        return float
+    words = data.split()
 
-    if re.match(rf"(?:\s*{REs.INTNUMBER_RE})+", data):
+    if words and all(re.fullmatch(REs.INTNUMBER_RE, word) for word in words):
         return int
 
+    if words and all(REs.FLOAT_RAT_RE.fullmatch(word) for word in words):
+        return float
+
     return str
 
 
@@ -151,7 +156,7 @@ def _parse_float_or_rational(val: str) -> float:
     >>> _parse_float_or_rational("1/2")
     0.5
     """
-    return float(Fraction(val))
+    return float(Fraction(val.lower().replace("d", "e")))
 
 
 def _parse_logical(val: str) -> bool:
-- 
2.43.0


From 1a4691ff807efab47b5a26e798e655ad32c42a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 11/53] fix: input-file keywords containing digits were dropped

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index ae9331f..46e945c 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -601,7 +601,7 @@ DEVEL_CODE_BLOCK_GENERIC_RE = r"([A-Za-z0-9_]+):(?:.*):end\1"
 
 PARAM_VALUE_RE = re.compile(
     rf"""
-^\s*(?P<key>[a-z_]+)
+^\s*(?P<key>[a-z_][a-z0-9_]*)
 (?:\s*[:=]\s*|\s+)
 (?:
     # Numeric value(s), chance of unit
-- 
2.43.0


From 19903e5d83b0d297dcfb6c1077b52e3691273616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:22 +0000
Subject: [PATCH 12/53] fix: ionic constraints numbered 10 and above were
 dropped

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 46e945c..35f9067 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -616,7 +616,7 @@ PARAM_VALUE_RE = re.compile(
     re.IGNORECASE | re.VERBOSE,
 )
 
-IONIC_CONSTRAINTS_RE = re.compile(rf"^\s*\d\s+{ATOM_RE}{THREEVEC_RE}")
+IONIC_CONSTRAINTS_RE = re.compile(rf"^\s*\d+\s+{ATOM_RE}{THREEVEC_RE}")
 POSITIONS_LINE_RE = re.compile(
     rf"^\s*(?P<spec>{SPECIES_RE})"
     rf"(?P<pos>(?:\s+{FLOAT_RAT_RE.pattern}){{3}})",
-- 
2.43.0


From b56b1635aded94857398e37c365a18b0b172d177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:23 +0000
Subject: [PATCH 13/53] fix: rows of labelled species and spaced mixtures in
 position blocks were dropped

---
 castep_outputs/parsers/cell_param_file_parser.py | 4 ++--
 castep_outputs/utilities/castep_res.py           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index c6ffb76..2caaf82 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -714,8 +714,8 @@ _PARSERS: dict[str, Callable] = {
     "positions_frac_intermediate": _parse_positions,
     "positions_frac_product": _parse_positions,
     "positions_abs": _parse_positions_abs,
-    "positions_abs_intermediate": _parse_positions,
-    "positions_abs_product": _parse_positions,
+    "positions_abs_intermediate": _parse_positions_abs,
+    "positions_abs_product": _parse_positions_abs,
     "positions_aspectral_intermediate": _parse_positions,
     "positions_aspectral_product": _parse_positions,
     "species_pot": _parse_species_pot,
diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 35f9067..7b358fe 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -618,7 +618,7 @@ PARAM_VALUE_RE = re.compile(
 
 IONIC_CONSTRAINTS_RE = re.compile(rf"^\s*\d+\s+{ATOM_RE}{THREEVEC_RE}")
 POSITIONS_LINE_RE = re.compile(
-    rf"^\s*(?P<spec>{SPECIES_RE})"
+    rf"^\s*(?P<spec>{SPECIES_RE}(?::\w+)?)"
     rf"(?P<pos>(?:\s+{FLOAT_RAT_RE.pattern}){{3}})",
 )
 POSITIONS_SPIN_RE = re.compile(
@@ -626,7 +626,7 @@ POSITIONS_SPIN_RE = re.compile(
     re.IGNORECASE,
 )
 POSITIONS_MIXTURE_RE = re.compile(
-    rf"mixture[= :\t]\(\s*{labelled_floats(('mix', 'ratio'))}\)",
+    rf"mixture\s*[= :\t]\s*\(\s*(?P<mix>\d+)\s+(?P<ratio>{FLOAT_RAT_RE.pattern})\s*\)",
     re.IGNORECASE,
 )
 SPEC_PROP_RE = re.compile(rf"\s*{ATOM_NAME_RE}\s+(?P<val>.*)")
-- 
2.43.0


From 960febbb96d4caf7538e25e67d5d6e7cd96accb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 14/53] fix: keep the sign of projector energies and read local
 energies of pseudopotential strings

---
 castep_outputs/utilities/castep_res.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 7b358fe..cbc5ce8 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -324,7 +324,7 @@ PSPOT_PROJ_RE = re.compile(
     rf"""
     (?P<type>[{PROJ_TYPES}])
     (?P<beta_rc> {FP_NUM_RE})?
-    (?:(?:=[+-]?|[+-]) (?P<beta_e> {FP_NUM_RE}))?
+    (?:(?:=|(?=[+-])) (?P<beta_e> [+-]?{FP_NUM_RE}))?
     (?:@(?P<beta_delta>{FP_NUM_RE}))?
     """,
     re.VERBOSE,
@@ -357,7 +357,7 @@ PSPOT_DEF_RE = re.compile(
 # PSPot String
 PSPOT_INFO_RE = re.compile(
     rf"""^
-    -?{labelled_floats(("local_energy",), suffix="=")}?
+    -?{labelled_floats(("local_energy",), sep="", suffix="=")}?
     -?(?P<local_channel>\d+)-?\|
     {labelled_floats(("core_radius",), sep="")}\|
     (?:{labelled_floats(("beta_radius",), sep="")}\|)?
-- 
2.43.0


From 5a9aafa033ea99725681bf30d7f261d03dbf3262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:44 +0000
Subject: [PATCH 15/53] fix: first row of dispersion parameters was taken for
 units, reals with trailing point for integers

---
 castep_outputs/parsers/cell_param_file_parser.py | 2 +-
 castep_outputs/utilities/castep_res.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 2caaf82..72f2574 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -550,7 +550,7 @@ def _parse_sedc(block: Block) -> dict[str, dict[str, float]]:
     accum = {}
 
     test = next(block)
-    if len(units := test.split()) == 2:
+    if len(units := test.split()) == 2 and ":" not in test and not test.startswith("%"):
         units = tuple(units)
     else:
         block.rewind()
diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index cbc5ce8..8dc668d 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -280,7 +280,7 @@ ATOMIC_DATA_TAG = re.compile(rf"\s*{ATOMIC_DATA_3VEC.pattern}\s*{TAG_RE.pattern}
 LABELLED_POS_RE = re.compile(ATOMIC_DATA_3VEC.pattern + r"\s{5}(?P<label>\S{0,8})")
 
 # Colon separated key-val
-COLON_SEP_RE = re.compile(r"\b(?P<key>\S+)\s*:\s*(?P<val>\S+)\b")
+COLON_SEP_RE = re.compile(r"\b(?P<key>[^\s:]+)\s*:\s*(?P<val>\S+)")
 
 # VCA atoms
 MIXTURE_LINE_1_RE = re.compile(
-- 
2.43.0


From d232721e71b28e0e346f5164b4a3130729afbc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 16/53] fix: block units containing digits were read as a row
 of numbers

---
 castep_outputs/parsers/cell_param_file_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 72f2574..e0ee719 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -689,6 +689,9 @@ def _parse_general(block: Block) -> GeneralBlock:
 
             block_data["data"][spec] = val
 
+        elif re.match(r"^\s*(?=\S*[A-Za-z])\S*[/*]\S*\s*$", line):
+            block_data["units"] = line.strip()  # May include digits, e.g. hartree/bohr**3
+
         elif numbers := REs.FLOAT_RAT_RE.findall(line):
             assert isinstance(block_data["data"], list)
             block_data["data"].append(to_type(numbers, float))
-- 
2.43.0


From 3ee23dd544485d8bc52db02e2d10dd13a174845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:57 +0000
Subject: [PATCH 17/53] fix: development options sharing text with others were
 mixed up or cut

---
 castep_outputs/parsers/cell_param_file_parser.py | 13 ++++++++-----
 castep_outputs/utilities/castep_res.py           |  2 +-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index e0ee719..092096e 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -349,14 +349,15 @@ def _parse_devel_code_block(in_block: Block) -> DevelBlock:
     # Get groups
     for blk in matches:
         block_title = normalise_key(blk.group(1))
-        block_str = blk.group(0).split(":")[1]
+        block_str = blk.group(0).split(":", 1)[1].rsplit(":", 1)[0]
         block: DevelBlock = {}
         for par in re.finditer(REs.DEVEL_CODE_VAL_RE, block_str, re.IGNORECASE | re.MULTILINE):
-            key, val = re.split(r"[:=]", par.group(0))
+            key, val = re.split(r"[:=]", par.group(0), maxsplit=1)
             key = normalise_key(key)
             typ = determine_type(val)
             block[key] = to_type(val, typ)
-            block_str = block_str.replace(par.group(0), "")
+
+        block_str = re.sub(REs.DEVEL_CODE_VAL_RE, "", block_str)
 
         if block_str.strip():
             block["data"] = []
@@ -374,7 +375,7 @@ def _parse_devel_code_block(in_block: Block) -> DevelBlock:
 
     # Catch remainder
     for par in re.finditer(REs.DEVEL_CODE_VAL_RE, main_block):
-        key, val = re.split(r"[:=]", par.group(0))
+        key, val = re.split(r"[:=]", par.group(0), maxsplit=1)
         key = normalise_key(key)
         typ = determine_type(val)
 
@@ -383,10 +384,12 @@ def _parse_devel_code_block(in_block: Block) -> DevelBlock:
 
         devel_code_parsed[key] = to_type(val, typ)
 
+    main_block = re.sub(REs.DEVEL_CODE_VAL_RE, "", main_block)
+
     # Catch present components
     present_code_re = re.compile(r"""
         (?<![:=])        # Does not follow : or =
-        \b[A-Za-z_-]+\b  # One "word"
+        \b[A-Za-z_][\w-]*\b  # One "word"
         (?![:=])         # Not followed by : or =
     """, re.VERBOSE)
 
diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 8dc668d..9ebcd18 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -597,7 +597,7 @@ BANDS_FERMI_RE = re.compile(
 
 DEVEL_CODE_VAL_RE = r"[A-Za-z0-9_]+[:=][^ \t\n;]+"
 DEVEL_CODE_BLOCK_RE = rf"([A-Za-z0-9_]+):(?:\s*{DEVEL_CODE_VAL_RE}\s*)*:end\1"
-DEVEL_CODE_BLOCK_GENERIC_RE = r"([A-Za-z0-9_]+):(?:.*):end\1"
+DEVEL_CODE_BLOCK_GENERIC_RE = r"\b([A-Za-z0-9_]+):(?:.*?):end\1\b"
 
 PARAM_VALUE_RE = re.compile(
     rf"""
-- 
2.43.0


From 5eecf248dee34cca68a4b04778f61e96cb4656d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:49 +0000
Subject: [PATCH 18/53] fix: input-file blocks whose title follows a tab were
 not recognised

---
 castep_outputs/parsers/cell_param_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 092096e..510b6ed 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -138,7 +138,7 @@ def parse_cell_param_file(cell_param_file: TextIO) -> list[CellParamData]:
         if block := Block.from_re(
             line,
             cell_param_file,
-            re.compile(r"^\s*%block ", re.IGNORECASE),
+            re.compile(r"^\s*%block\s", re.IGNORECASE),
             re.compile(r"^\s*%endblock", re.IGNORECASE),
         ):
             block_title = next(block).split()[1].lower()
-- 
2.43.0


From a1b11e9e95395951d50c6ef7dc3e1d743dbe901e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 19/53] fix: tab-separated vectors in input files were kept as
 text

---
 castep_outputs/parsers/cell_param_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index 510b6ed..fddc70e 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -160,7 +160,7 @@ def parse_cell_param_file(cell_param_file: TextIO) -> list[CellParamData]:
             key = key.strip().lower()
             logger("Found param %s", key)
 
-            if " " in val.strip():
+            if len(val.split()) > 1:
                 val = to_type(val.split(), determine_type(val))
             else:
                 val = to_type(val, determine_type(val))
-- 
2.43.0


From b4db0267e0b0493df074087f3a72e30a43eb6ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 20/53] fix: D exponents in xc_definition blocks raised an
 error

---
 castep_outputs/parsers/cell_param_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/cell_param_file_parser.py b/castep_outputs/parsers/cell_param_file_parser.py
index fddc70e..91e4fb2 100644
--- a/castep_outputs/parsers/cell_param_file_parser.py
+++ b/castep_outputs/parsers/cell_param_file_parser.py
@@ -623,13 +623,13 @@ def _parse_xc_definition(block: Block) -> dict[str, float]:
         key = normalise_key(key)
 
         if key == "nlxc_screening_length":
-            block_data["params"][key] = float(val)
+            block_data["params"][key] = to_type(val, float)
         elif key == "nlxc_screening_function":
             block_data["params"][key] = val
         elif key in {"nlxc_ppd_int", "nlxc_divergence_corr"}:
             block_data["params"][key] = val.upper() == "ON"
         else:
-            block_data["xc"][key] = float(val)
+            block_data["xc"][key] = to_type(val, float)
 
     return block_data
 
-- 
2.43.0


From 627cbefcbb66deddd589818906cc2a8f14066dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:15 +0000
Subject: [PATCH 21/53] fix: SCF tables of fixed-occupancy runs lost the first
 row and gave the energy gain as Fermi energy

---
 castep_outputs/parsers/castep_file_parser.py | 10 ++++++++--
 castep_outputs/utilities/castep_res.py       |  7 +++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 94b612d..777c819 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1709,12 +1709,18 @@ def _process_scf(block: Block) -> list[SCFReport]:
     scf = []
     curr: SCFReport = {}
     debug_info: SCFDebugInfo = {}
+
+    loop_re = REs.SCF_LOOP_RE
+
     for line in block:
-        if match := REs.SCF_LOOP_RE.match(line):
+        if line.startswith("SCF loop") and "Fermi" not in line:
+            loop_re = REs.SCF_LOOP_FIXED_RE
+
+        elif match := loop_re.match(line):
             if curr:
                 scf.append(curr)
 
-            curr = match.groupdict()
+            curr = {"fermi_energy": None, **match.groupdict()}
             if debug_info:  # Debug info refers to next cycle
                 curr["debug_info"] = debug_info
             debug_info = {}
diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 9ebcd18..a5b55ad 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -301,6 +301,13 @@ SCF_LOOP_RE = re.compile(
     f"{labelled_floats(('time',))}",
 )
 
+# SCF Loop with fixed occupancies (no Fermi energy column)
+SCF_LOOP_FIXED_RE = re.compile(
+    r"\s*(?:Initial|\d+)\s*"
+    rf"{labelled_floats(('energy', 'energy_gain'))}?\s+"
+    f"{labelled_floats(('time',))}",
+)
+
 # Spin density
 INTEGRATED_SPIN_DENSITY_RE = re.compile(
     r"(?P<vec>2\*)?Integrated \|?Spin Density\|?[^=]+=\s*"
-- 
2.43.0


From 28673c56532a16d0f284ebeea01b64152d18948e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:24 +0000
Subject: [PATCH 22/53] fix: k-points numbered 10 and above were dropped from
 the k-point list

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 777c819..d97ca1c 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2115,7 +2115,7 @@ def _process_kpoint_blocks(block: Block, *,
             elif "Number of kpoints" in line:
                 accum["num_kpoints"] = to_type(get_numbers(line)[0], int)
     else:
-        kp_block_re = re.compile(gen_table_re(r"\d\s*" + labelled_floats(("qx", "qy", "qz", "wt")),
+        kp_block_re = re.compile(gen_table_re(r"\d+\s*" + labelled_floats(("qx", "qy", "qz", "wt")),
                                               r"\+"))
         accum: KPointsList = {"points": [{"qpt": to_type(match.group("qx", "qy", "qx"), float),
                                           "weight": to_type(match["wt"], float)}
-- 
2.43.0


From cc5e3b84f6b0655b9cb54ed95e6e52f9b5a0ea98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:33 +0000
Subject: [PATCH 23/53] fix: zero bond spins were dropped

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index d97ca1c..a2cfc3c 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2279,7 +2279,7 @@ def _process_bond_analysis(block: Block) -> BondData:
              if (match := REs.BOND_RE.match(line))}
 
     for val in accum.values():
-        if not val["spin"]:
+        if val["spin"] is None:
             del val["spin"]
 
     return accum
-- 
2.43.0


From ac620d904dbdec59a8cbb87fcded33aff21908e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:40 +0000
Subject: [PATCH 24/53] fix: d and f orbitals were dropped from orbital
 populations

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index a5b55ad..a0b8978 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -441,7 +441,7 @@ PAIR_POT_RES = {
 
 # Orbital population
 ORBITAL_POPN_RE = re.compile(
-    rf"\s*{ATOM_RE}\s*(?P<orb>[SPDF][xyz]?)"
+    rf"\s*{ATOM_RE}\s*(?P<orb>[SPDF]\S*)"
     rf"\s*{labelled_floats(('charge',))}",
 )
 
-- 
2.43.0


From 452af554926a59aa8c25be5dc6a2375ea9e6ce8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:48 +0000
Subject: [PATCH 25/53] fix: line following a one-line warning was skipped

---
 castep_outputs/parsers/castep_file_parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index a2cfc3c..4dcc55a 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -280,10 +280,9 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             warn = line.strip()
 
-            for tst, line in enumerate(castep_file):
+            for line in castep_file:
                 if not line.strip() or not re.match(match.group(1) + r"\s+", line):
-                    if tst:
-                        castep_file.rewind()
+                    castep_file.rewind()
                     break
                 warn += " " + line.strip()
 
-- 
2.43.0


From ec9167612d43e23cb2377bdbc3b0431c26cd32dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:57 +0000
Subject: [PATCH 26/53] fix: symmetry report of atoms with labelled species
 raised an error

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 4dcc55a..ccc5dad 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2182,7 +2182,7 @@ def _process_symmetry(block: Block) -> tuple[SymmetryReport, ConstraintsReport]:
             next(block)  # elif "symmetry related atoms:" in line:
 
             while line := next(block).strip():
-                key, val = line.split(":")
+                key, val = line.rsplit(":", maxsplit=1)
                 curr_sym["symmetry_related"].extend((key, int(ind))
                                                     for ind in val.split())
 
-- 
2.43.0


From 403d323dd1a4a0683d45559f2457abfba2f39350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:04 +0000
Subject: [PATCH 27/53] fix: tagged three-body pair potentials ran past the end
 of their block

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index ccc5dad..fdfdcb5 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2482,7 +2482,7 @@ def _process_pair_params(block_in: Block) -> dict[str, dict[str, dict | str]]:
                     labels = ((match["spec"],),)
 
         # Three-body
-        elif block := Block.from_re(line, block_in, "Three Body", r"^\s*\*+\s*$"):
+        elif block := Block.from_re(line, block_in, "Three Body", r"^\w*\s*\*+\s*$"):
             for blk_line in block:
                 if match := REs.PAIR_POT_RES["three_body_spec"].match(blk_line):
                     labels = (tuple(match["spec"].split()),)
-- 
2.43.0


From b0592d90d28b5b29f621a4b5d92f08fc3dfea5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:57 +0000
Subject: [PATCH 28/53] fix: pair-potential parameters without unit lost their
 last digit

---
 castep_outputs/utilities/castep_res.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index a0b8978..af4f779 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -414,8 +414,8 @@ PAIR_POT_RES = {
         rf"""
             (?P<tag>\w+)?\s*\*\s*
             (?P<label>\w+)\s*
-            {labelled_floats(("params",), counts=("1,4",))}\s*
-            [\w^/*]+\s* \* \s*
+            {labelled_floats(("params",), counts=("1,4",))}
+            (?:\s+[\w^/*]+)?\s* \* \s*
             <--\s*(?P<type>\w+)
             """,
         re.ASCII | re.VERBOSE,
@@ -431,8 +431,8 @@ PAIR_POT_RES = {
         rf"""
         ^(?P<tag>\w+)?\s*\*\s*
         (?P<label>\w+)\s*
-        {labelled_floats(("params",))}\s*
-        [\w^/*]+\s* \* \s*
+        {labelled_floats(("params",))}
+        (?:\s+[\w^/*]+)?\s* \* \s*
         <--\s*(?P<type>\w+)
         """,
         re.VERBOSE,
-- 
2.43.0


From 0e8c6793296fe1d164f91cd9bcde8fa0ee80bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:05 +0000
Subject: [PATCH 29/53] fix: file names containing 'spin' or 'nr.' were misread
 in delta-SCF reports

---
 castep_outputs/parsers/castep_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index fdfdcb5..50e2c3f 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2742,9 +2742,9 @@ def _process_delta_scf(block: Block) -> DeltaSCFReport:
             accum["file"] = line.split()[-1]
         elif "MODOS state" in line:
             accum["states"].append({})
-        elif "nr." in line:
+        elif "MODOS band" in line and "nr." in line:
             accum["states"][-1]["band"] = int(get_numbers(line)[0])
-        elif "spin" in line:
+        elif "MODOS band" in line and "spin" in line:
             accum["states"][-1]["spin"] = int(get_numbers(line)[0])
         elif "Population of state" in line:
             numbers = get_numbers(line)
-- 
2.43.0


From 3dafdf291aa6e2fbbe7d57a52f3dfd4726ec0a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:12 +0000
Subject: [PATCH 30/53] fix: final configuration raised an error unless
 geometry iterations were parsed before

---
 castep_outputs/parsers/castep_file_parser.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 50e2c3f..89a4ddf 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1050,6 +1050,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             logger("Found final geom configuration")
 
+            curr_run.setdefault("geom_opt", defaultdict(list))
             curr_run["geom_opt"]["final_configuration"] = _process_final_config_block(block)
 
         elif block := Block.from_re(line, castep_file,
@@ -1102,6 +1103,9 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
         elif match := re.search(rf"trial guess \(lambda=\s*({REs.EXPFNUMBER_RE})\)", line):
 
+            if Filters.GEOM_OPT not in to_parse:
+                continue
+
             curr_run.setdefault("geom_opt", defaultdict(list))
 
             curr_run["geom_opt"]["trial"].append(float(match.group(1)))
@@ -1111,13 +1115,14 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
                                f"(?P<value>{REs.EXPFNUMBER_RE}).*",
                                line, re.IGNORECASE):
 
-            if Filters.GEOM_OPT not in to_parse:
+            if Filters.GEOM_OPT not in to_parse and Filters.FINAL_CONFIG not in to_parse:
                 continue
 
             key, val = normalise_string(match["key"]).lower(), to_type(match["value"], float)
             key = "_".join(key.split())
             logger("Found geomopt %s", key)
-            curr_run["geom_opt"]["final_configuration"][key] = val
+            curr_run.setdefault("geom_opt", defaultdict(list))
+            curr_run["geom_opt"].setdefault("final_configuration", {})[key] = val
 
         elif block := Block.from_re(line, castep_file,
                                     f"<--( min)? {REs.MINIMISERS_RE}$",
-- 
2.43.0


From 3cc6bf0f6fae1cc7d218ac4c3d87ffbd3b41c867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:17 +0000
Subject: [PATCH 31/53] fix: steps ignored the requested filters and failed
 when nothing was parsed from them

---
 castep_outputs/parsers/castep_file_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 89a4ddf..5c261bf 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -1018,7 +1018,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
 
             # Avoid infinite recursion
             next(block)
-            data = get_only(parse_castep_file(block))
+            data = next(iter(parse_castep_file(block, Filters.HIGH | to_parse)), {})
             add_aliases(data, {"initial_positions": "positions",
                                "initial_cell": "cell"},
                         replace=True)
@@ -1080,7 +1080,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
             logger("Found geom block (iteration %d)", len(curr_run["geom_opt"]["iterations"]) + 1)
             # Avoid infinite recursion
             next(block)
-            data = get_only(parse_castep_file(block))
+            data = next(iter(parse_castep_file(block, Filters.HIGH | to_parse)), {})
 
             add_aliases(data, {"initial_positions": "positions",
                                "initial_cell": "cell"},
-- 
2.43.0


From 38611aa179bcc9bb407e96718f7f612d0ab22b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:06 +0000
Subject: [PATCH 32/53] fix: finite-basis corrections with 10 or more cut-offs
 were not recognised

---
 castep_outputs/parsers/castep_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 5c261bf..6b580f2 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -475,7 +475,7 @@ def parse_castep_file(castep_file_in: TextIO | FileWrapper | Block,
             curr_run["occupancies"].append(_process_occupancies(block))
 
         # SCF Basis set
-        elif match := re.search(r" with +(\d) +cut-off energies.", line):
+        elif match := re.search(r" with +(\d+) +cut-off energies.", line):
 
             if Filters.SCF not in to_parse:
                 continue
-- 
2.43.0


From a6ceb6375c3e141cc483b2d1a2ad6944d442cc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 33/53] fix: dispersion parameters of labelled species were
 misread

---
 castep_outputs/parsers/castep_file_parser.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/castep_outputs/parsers/castep_file_parser.py b/castep_outputs/parsers/castep_file_parser.py
index 6b580f2..5edad06 100644
--- a/castep_outputs/parsers/castep_file_parser.py
+++ b/castep_outputs/parsers/castep_file_parser.py
@@ -2311,7 +2311,12 @@ def _process_dftd(block: Block) -> dict[str, Any]:
     val: Any
 
     for line in block:
-        if len(match := line.split(":")) == 2:
+        if match := re.match(rf"\s*x\s*(?P<spec>{REs.ATOM_NAME_RE})\s*" +
+                             labelled_floats(("C6", "R0")), line):
+            dftd["species"][match["spec"]] = {"c6": float(match["C6"]),
+                                              "r0": float(match["R0"])}
+
+        elif len(match := line.split(":")) == 2:
             key, val = match
             val = normalise_string(val)
             if "Parameter" in key:
@@ -2319,11 +2324,6 @@ def _process_dftd(block: Block) -> dict[str, Any]:
 
             dftd[normalise_key(key)] = val
 
-        elif match := re.match(rf"\s*x\s*(?P<spec>{REs.ATOM_NAME_RE})\s*" +
-                               labelled_floats(("C6", "R0")), line):
-            dftd["species"][match["spec"]] = {"c6": float(match["C6"]),
-                                              "r0": float(match["R0"])}
-
     return dftd
 
 
-- 
2.43.0


From ba6465f3c3e9d6cb055ec50e368eac65ce5c1e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 34/53] fix: long runs of blanks took polynomial time to match
 table headings

---
 castep_outputs/utilities/castep_res.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index af4f779..3aeb4d7 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -145,6 +145,9 @@ def gen_table_re(
 
     tab_re = rf"\s*{pre}{tab_re}{post}\s*"
 
+    # Repeated blank-matchers backtrack polynomially on long runs of blanks
+    tab_re = re.sub(r"(?:\\s\*){2,}", r"\\s*", tab_re)
+
     if whole_line:
         tab_re = f"^{tab_re}$"
 
-- 
2.43.0


From 84e728e8d7d53a4df1d15fa463aa564a611a378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 35/53] fix: spin-up eigenvalues of a .bands file cut short
 were returned as those of an unpolarised one

---
 castep_outputs/parsers/bands_file_parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/castep_outputs/parsers/bands_file_parser.py b/castep_outputs/parsers/bands_file_parser.py
index 1a7f8a6..3d10601 100644
--- a/castep_outputs/parsers/bands_file_parser.py
+++ b/castep_outputs/parsers/bands_file_parser.py
@@ -60,7 +60,7 @@ def parse_bands_file(bands_file: TextIO) -> BandsFileInfo:
     bands_info: BandsFileInfo = {"bands": []}
     qdata: BandsQData = {}
     accum: list[str] = []
-    current: Literal["band", "band_up", "band_down"] = "band"
+    current: Literal["band", "band_up", "band_down"]
 
     block = Block.from_re("", bands_file, "", REs.THREEVEC_RE, n_end=3)
     data = parse_regular_header(block, ("Fermi energy", "Fermi energies"))
@@ -68,14 +68,19 @@ def parse_bands_file(bands_file: TextIO) -> BandsFileInfo:
         data["Fermi energy"] = data.pop("Fermi energies")
     bands_info.update(data)
 
+    first: Literal["band", "band_up"] = (
+        "band_up" if bands_info.get("spin components") == 2 else "band"
+    )
+    current = first
+
     for line in bands_file:
         if line.startswith("K-point"):
             if qdata:
                 qdata[current] = to_type(accum, float)
-                qdata["spin_comp"] = "band_down" in qdata
+                qdata["spin_comp"] = "band_up" in qdata
                 bands_info["bands"].append(qdata)
                 accum = []
-                current = "band"
+                current = first
             _, _, *qpt, weight = line.split()
             qdata = {"qpt": to_type(qpt, float), "weight": float(weight)}
 
@@ -91,7 +96,7 @@ def parse_bands_file(bands_file: TextIO) -> BandsFileInfo:
 
     if qdata:
         qdata[current] = to_type(accum, float)
-        qdata["spin_comp"] = "band_down" in qdata
+        qdata["spin_comp"] = "band_up" in qdata
         bands_info["bands"].append(qdata)
 
     return bands_info
-- 
2.43.0


From fc706a54ec44ad4e5f7beeabb49a529329799ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 36/53] fix: rewinding a wrapped handle before reading jumped
 to the start of the file

---
 castep_outputs/utilities/filewrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/filewrapper.py b/castep_outputs/utilities/filewrapper.py
index 97a93cd..8be3b58 100644
--- a/castep_outputs/utilities/filewrapper.py
+++ b/castep_outputs/utilities/filewrapper.py
@@ -26,7 +26,7 @@ class FileWrapper:
 
     def __init__(self, file: TextIO) -> None:
         self._file = file
-        self._pos = 0
+        self._pos = file.tell()
         self._lineno = 0
 
     def __iter__(self) -> Self:
-- 
2.43.0


From 442523507e7697db83c424dafd86cf87e4fb6848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:51 +0000
Subject: [PATCH 37/53] fix: handles passed by the caller were closed after
 parsing

---
 castep_outputs/utilities/filewrapper.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/castep_outputs/utilities/filewrapper.py b/castep_outputs/utilities/filewrapper.py
index 8be3b58..c04d71b 100644
--- a/castep_outputs/utilities/filewrapper.py
+++ b/castep_outputs/utilities/filewrapper.py
@@ -106,9 +106,6 @@ class FileWrapper:
         """Close wrapped file, and invalidate self."""
         self.file.close()
 
-    def __del__(self) -> None:
-        self.close()
-
 
 class Block:
     """
-- 
2.43.0


From efacdb2876290e6a0f2b2b6032c870f01928d83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 38/53] fix: comment characters special in regular expressions
 were not taken literally

---
 castep_outputs/utilities/utility.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/utilities/utility.py b/castep_outputs/utilities/utility.py
index 7e920d8..9e8d06d 100644
--- a/castep_outputs/utilities/utility.py
+++ b/castep_outputs/utilities/utility.py
@@ -479,7 +479,7 @@ def _strip_inline_comments(
     >>> '|'.join(_strip_inline_comments(inp, comment_char={"#",}))
     'Hello|End of line'
     """
-    comment_re = re.compile(f"({'|'.join(comment_char)})")
+    comment_re = re.compile(f"({'|'.join(map(re.escape, comment_char))})")
 
     for line in data:
         line = comment_re.split(line)[0].rstrip()
@@ -526,7 +526,7 @@ def _strip_initial_comments(
     >>> '|'.join(_strip_initial_comments(inp, comment_char={"#",}))
     'Hello|End of line # comment'
     """
-    comment_re = re.compile(rf"^\s*({'|'.join(comment_char)})")
+    comment_re = re.compile(rf"^\s*({'|'.join(map(re.escape, comment_char))})")
     out = cast("Iterable[str]", filterfalse(comment_re.match, data))
     out = map(str.rstrip, out)
     out = filter(None, out)
-- 
2.43.0


From f6775361e8b716d637cf1239c780056812363f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:25 +0000
Subject: [PATCH 39/53] fix: pseudopotential files given by name made the
 output file prediction fail

---
 castep_outputs/tools/get_generated_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index c821da7..41486d5 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -461,7 +461,7 @@ def _get_generated_files(
     is_usp = True
     for spec, pot in cell_data.get("species_pot", {}).items():
         if isinstance(pot, str):
-            is_usp = is_usp or pot.endswith(".usp", ".uspcc", ".uspso")
+            is_usp = is_usp or pot.endswith((".usp", ".uspcc", ".uspso"))
             continue
 
         if xc & {"libxc_mgga", "libxc_hyb_mgga"}:
-- 
2.43.0


From 81cafb92a50e1feaea07f28df4cc9240cb864038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 40/53] fix: case of md_ensemble and geom_method mattered to
 the output file prediction

---
 castep_outputs/tools/get_generated_files.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index 41486d5..a9dbf3d 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -522,7 +522,7 @@ def _get_generated_files(
     elif task is Task.GEOMOPT:
         if param_data.get("write_geom", True):
             out_files.add(f"{seedname}.geom")
-        if param_data.get("geom_method") == "pes":
+        if param_data.get("geom_method", "").lower() == "pes":
             out_files.add(f"{seedname}.pes")
     elif task is Task.SPECTRAL:
         out_files |= get_spectral_files(
@@ -533,7 +533,7 @@ def _get_generated_files(
     elif task is Task.MD:
         if param_data.get("write_md", True):
             out_files.add(f"{seedname}.md")
-        if param_data.get("md_ensemble") in {"nvhug", "nphug"}:
+        if param_data.get("md_ensemble", "").lower() in {"nvhug", "nphug"}:
             out_files.add(f"{seedname}.hug")
 
         extrap = param_data.get("md_extrap", "first").lower()
-- 
2.43.0


From 7bcf4f5bbd1c07ad651ca37f2ba62f9bca4a31af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:35 +0000
Subject: [PATCH 41/53] fix: predicted pseudopotential names depended on set
 order and were in lower case for some functionals

---
 castep_outputs/tools/get_generated_files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index a9dbf3d..97c34f8 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -469,7 +469,8 @@ def _get_generated_files(
         elif xc & {"libxc_gga", "libxc_hyb_gga"}:
             theory = "PBE"
         else:
-            theory = XC_TO_PS_THEORY.get(next(iter(xc)), "LDA")
+            theory = next((XC_TO_PS_THEORY[func].upper() for func in sorted(xc) if func in XC_TO_PS_THEORY),
+                          "LDA")
 
         otf_name = f"{spec}_EXT_{theory}_OTF"
 
-- 
2.43.0


From f9f4d64c204b277b640e3ccc845eafab7caf7d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:40 +0000
Subject: [PATCH 42/53] fix: pair potential files were not predicted for cells
 in absolute positions

---
 castep_outputs/tools/get_generated_files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index 97c34f8..a531a63 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -441,7 +441,8 @@ def _get_generated_files(
     if devel_code.get("_pp") and (pp := devel_code.get("pp")):
         if pp.get("pot_print"):
             if cell_data:
-                spec = {spec: None for spec, _ind in cell_data.get("positions_frac", {})}
+                positions = cell_data.get("positions_frac") or cell_data.get("positions_abs", {})
+                spec = {spec: None for spec, _ind in positions}
                 out_files |= {
                     f"{seedname}_{a}_{b}.pot" for a, b in combinations_with_replacement(spec, 2)
                 }
-- 
2.43.0


From e1272a73880bfb1c68db5a5910cb4367bcf5e33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:47 +0000
Subject: [PATCH 43/53] fix: seed names containing dots were cut when
 predicting output files

---
 castep_outputs/tools/get_generated_files.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/castep_outputs/tools/get_generated_files.py b/castep_outputs/tools/get_generated_files.py
index a531a63..cc3c86b 100644
--- a/castep_outputs/tools/get_generated_files.py
+++ b/castep_outputs/tools/get_generated_files.py
@@ -288,17 +288,19 @@ def get_generated_files(
     May struggle to get exact information from complex xc_definitions.
     """
     seedname = Path(seedname)
+    if seedname.suffix in {".param", ".cell"}:
+        seedname = seedname.with_suffix("")
     if param_file is None:
-        param_file = seedname.with_suffix(".param")
+        param_file = seedname.with_name(f"{seedname.name}.param")
     if cell_file is None:
-        cell_file = seedname.with_suffix(".cell")
+        cell_file = seedname.with_name(f"{seedname.name}.cell")
 
     if param_data is None:
         param_data = parse_cell_param_file(param_file)[0] if param_file.exists() else {}
     if cell_data is None:
         cell_data = parse_cell_param_file(cell_file)[0] if cell_file.exists() else {}
 
-    return _get_generated_files(param_data, cell_data, seedname.with_suffix(""))
+    return _get_generated_files(param_data, cell_data, seedname)
 
 
 def _get_generated_files(
@@ -309,7 +311,7 @@ def _get_generated_files(
     if cell_data is None:
         cell_data = {}
 
-    seedname = Path(src).stem
+    seedname = Path(src).name
     param_data = deepcopy(param_data)
     devel_code = param_data.get("devel_code", {})
     raw_task = param_data.get("task", "SINGLEPOINT").upper()
-- 
2.43.0


From d3cd3177895a70ebd9f09a6f0a73ecf05b5f4022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:16 +0000
Subject: [PATCH 44/53] fix: ratios with a signed denominator were taken for
 numbers and raised an error

---
 castep_outputs/utilities/castep_res.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/castep_res.py b/castep_outputs/utilities/castep_res.py
index 3aeb4d7..afd62cf 100644
--- a/castep_outputs/utilities/castep_res.py
+++ b/castep_outputs/utilities/castep_res.py
@@ -212,7 +212,7 @@ EXPFNUMBER_RE = f"(?:{EXPNUMBER_RE}|{FNUMBER_RE})"
 #: Integer ratio.
 #:
 #: :meta hide-value:
-RATIONAL_RE = rf"(?<![\w.]){INTNUMBER_RE}/{INTNUMBER_RE}\b"
+RATIONAL_RE = rf"(?<![\w.]){INTNUMBER_RE}/\d+\b(?!\.)"
 
 #: Generalised number.
 #:
-- 
2.43.0


From 2320116bc61abd25d1c2223a66226f656b61c6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 45/53] fix: negative integers were parsed to floats, losing
 digits of long ones

---
 castep_outputs/utilities/type_conv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/type_conv.py b/castep_outputs/utilities/type_conv.py
index 5a2b9b4..38e717d 100644
--- a/castep_outputs/utilities/type_conv.py
+++ b/castep_outputs/utilities/type_conv.py
@@ -129,7 +129,8 @@ def parse_int_or_float(numbers):
     >>> parse_int_or_float("7")
     7
     """
-    if all(x.isdigit() for x in numbers):
+    words = [numbers] if isinstance(numbers, str) else numbers
+    if all(re.fullmatch(REs.INTNUMBER_RE, word) for word in words):
         return to_type(numbers, int)
 
     return to_type(numbers, float)
-- 
2.43.0


From 32fbd583c0755b1c50f267d1822c663e28337b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 46/53] fix: flattening lists ignored the separator

---
 castep_outputs/utilities/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/utility.py b/castep_outputs/utilities/utility.py
index 9e8d06d..2b12bbb 100644
--- a/castep_outputs/utilities/utility.py
+++ b/castep_outputs/utilities/utility.py
@@ -325,7 +325,7 @@ def flatten_dict(
             items.extend(flatten_dict(value, new_key, separator).items())
         elif isinstance(value, (list, tuple)):
             for keyx, val in enumerate(value):
-                items.extend(flatten_dict({str(keyx): val}, new_key).items())
+                items.extend(flatten_dict({str(keyx): val}, new_key, separator).items())
         else:
             items.append((new_key, value))
     return dict(items)
-- 
2.43.0


From 2d4e86d8de3f90262bb71c87545792a9cc8f314a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:55 +0000
Subject: [PATCH 47/53] fix: flattening dropped top-level keys such as 0 or
 None from the path, losing values

---
 castep_outputs/utilities/utility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/utilities/utility.py b/castep_outputs/utilities/utility.py
index 2b12bbb..dbcb99b 100644
--- a/castep_outputs/utilities/utility.py
+++ b/castep_outputs/utilities/utility.py
@@ -320,7 +320,7 @@ def flatten_dict(
     items: list[tuple[Any, Any]] = []
     for key, value in dictionary.items():
         # Temporary hack because `None` used as key in species_pot
-        new_key = f"{parent_key}{separator}{key}" if parent_key else key
+        new_key = f"{parent_key}{separator}{key}" if parent_key != "" else key
         if isinstance(value, collections.abc.MutableMapping):
             items.extend(flatten_dict(value, new_key, separator).items())
         elif isinstance(value, (list, tuple)):
-- 
2.43.0


From c9feceb479489e1aa9853dc65be04704696e6256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 48/53] fix: absolute seeds raised an error and error files of
 nested seeds were not found

---
 castep_outputs/cli/args.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/castep_outputs/cli/args.py b/castep_outputs/cli/args.py
index 232b4af..e0782bf 100644
--- a/castep_outputs/cli/args.py
+++ b/castep_outputs/cli/args.py
@@ -2,6 +2,7 @@
 from __future__ import annotations
 
 import argparse
+import glob
 from collections.abc import Sequence
 from pathlib import Path
 
@@ -102,8 +103,9 @@ def parse_args(to_parse: Sequence[str] = ()) -> argparse.Namespace:
                 if getattr(args, f"inc_{typ}") and trial.is_file():
                     getattr(args, typ).append(str(trial))
 
-            if args.inc_err and (err_files := seed.parent.glob(f"{seed}.*.err")):
-                args.err.extend(map(str, err_files))
+            if args.inc_err:
+                err_files = seed.parent.glob(f"{glob.escape(seed.name)}.*.err")
+                args.err.extend(map(str, sorted(err_files)))
 
     return args
 
-- 
2.43.0


From 802510dacfe812573b1d2a491e6570a8022ccd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:10 +0000
Subject: [PATCH 49/53] fix: files of seeds containing dots were not found

---
 castep_outputs/cli/args.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/cli/args.py b/castep_outputs/cli/args.py
index e0782bf..0919a64 100644
--- a/castep_outputs/cli/args.py
+++ b/castep_outputs/cli/args.py
@@ -99,7 +99,7 @@ def parse_args(to_parse: Sequence[str] = ()) -> argparse.Namespace:
             getattr(args, ext).append(str(seed))
         else:
             for typ in ALL_NAMES:
-                trial = seed.with_suffix(f".{typ}")
+                trial = seed.with_name(f"{seed.name}.{typ}")
                 if getattr(args, f"inc_{typ}") and trial.is_file():
                     getattr(args, typ).append(str(trial))
 
-- 
2.43.0


From d38ad238032e9946cc4a115335bf5f855d2e2167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:15 +0000
Subject: [PATCH 50/53] fix: documented output format yaml was refused on the
 command line

---
 castep_outputs/cli/args.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/cli/args.py b/castep_outputs/cli/args.py
index 0919a64..2af2666 100644
--- a/castep_outputs/cli/args.py
+++ b/castep_outputs/cli/args.py
@@ -40,7 +40,7 @@ def get_parser() -> argparse.ArgumentParser:
                             default="WARNING")
     arg_parser.add_argument("-o", "--output", help="File to write output, default: screen",
                             default=None)
-    arg_parser.add_argument("-f", "--out-format", help="Output format", choices=SUPPORTED_FORMATS,
+    arg_parser.add_argument("-f", "--out-format", help="Output format", choices=(*SUPPORTED_FORMATS, "yaml"),
                             default="json")
 
     arg_parser.add_argument("-t", "--testing", action="store_true",
-- 
2.43.0


From 515bd53161b8398e828afeedab9d970fa98130a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:22 +0000
Subject: [PATCH 51/53] fix: several files given as path objects could not be
 dumped

---
 castep_outputs/cli/castep_outputs_main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/castep_outputs/cli/castep_outputs_main.py b/castep_outputs/cli/castep_outputs_main.py
index 7f7417e..f7f310e 100644
--- a/castep_outputs/cli/castep_outputs_main.py
+++ b/castep_outputs/cli/castep_outputs_main.py
@@ -125,7 +125,7 @@ def parse_all(
     for typ, paths in files.items():
         parser = ALL_PARSERS[typ]
         for path in paths:
-            data[path] = parse_single(path, parser, out_format, loglevel=loglevel, testing=testing)
+            data[str(path)] = parse_single(path, parser, out_format, loglevel=loglevel, testing=testing)
 
     if len(data) == 1:
         data = data.popitem()[1]
-- 
2.43.0


From 8d2a94ceb8ba8b9a5ec30d6e1c7c6a5c1e4f3b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:53 +0000
Subject: [PATCH 52/53] fix: binary formats were not found by name and unknown
 parser names were ignored

---
 castep_outputs/cli/castep_outputs_main.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/castep_outputs/cli/castep_outputs_main.py b/castep_outputs/cli/castep_outputs_main.py
index f7f310e..64efadf 100644
--- a/castep_outputs/cli/castep_outputs_main.py
+++ b/castep_outputs/cli/castep_outputs_main.py
@@ -63,7 +63,10 @@ def parse_single(in_file: str | Path | TextIO,
         in_file = Path(in_file)
 
     if isinstance(parser, str):
-        parser = PARSERS.get(parser)
+        if parser not in ALL_PARSERS:
+            raise ValueError(f"Parser {parser} not found")
+
+        parser = ALL_PARSERS[parser]
 
     if parser is None and isinstance(in_file, Path):
         ext = in_file.suffix.strip(".")
-- 
2.43.0


From 88fe2e87a296246a440d05b93e7c8f7a84e2eae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:59 +0000
Subject: [PATCH 53/53] fix: documented parsers of binary formats could not be
 imported from the package

---
 castep_outputs/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/castep_outputs/__init__.py b/castep_outputs/__init__.py
index 6aed080..a5482ba 100644
--- a/castep_outputs/__init__.py
+++ b/castep_outputs/__init__.py
@@ -3,6 +3,8 @@
 __author__ = "Jacob Wilkins"
 __version__ = "0.3.3"
 
+from .bin_parsers import parse_cst_esp_file as parse_cst_esp_file
+from .bin_parsers import parse_epme_bin_file as parse_epme_bin_file
 from .cli.castep_outputs_main import parse_single  # noqa: F401
 from .parsers import *  # noqa: F403
 from .tools import MDGeomParser as MDGeomParser
-- 
2.43.0

