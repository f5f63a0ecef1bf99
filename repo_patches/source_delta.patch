From 76d031d3d734cd1f78709397118d11ea6580724f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:18 +0000
Subject: [PATCH 01/30] fix: honour signed reads that are served from the bit
 buffer

BitIOReader.read ignored `signed` when all requested bits were already
buffered from a previous partial byte.
---
 dustmaker/bitio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 534cc32..380ac9f 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -113,6 +113,8 @@ class BitIOReader(BitIO):
             self._bits = self._bits >> bits
             self._bits_left -= bits
             self._tell += bits
+            if signed and bits > 0 and (result & (1 << bits - 1)):
+                result -= 1 << bits
             return result
 
         # Read in needed data from underlying stream.
-- 
2.43.0


From 408b412352d1c11ad51af1834f0e5497cb86ce0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:18 +0000
Subject: [PATCH 02/30] fix: align after a seek into the middle of a byte

The underlying stream was left at the start of the partially skipped byte
so everything after the align was off by one byte.
---
 dustmaker/bitio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 380ac9f..c0457e4 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -56,6 +56,9 @@ class BitIO:
         """Seeks the stream forward to the nearest byte boundary. This does
         not require :attr:`data` to support seek itself.
         """
+        if self._bits == -1:
+            # We did a seek mid-byte, step over the byte not yet consumed.
+            self.data.seek(1, io.SEEK_CUR)
         self._tell += self._bits_left
         self._bits = 0
         self._bits_left = 0
-- 
2.43.0


From 79201313ad528079c1298d287ef110b3c6899070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:18 +0000
Subject: [PATCH 03/30] fix: BitIOWriter.flush moves to the byte boundary as
 documented

The pending byte was kept after a flush and emitted again by the next
write, flush or close.
---
 dustmaker/bitio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index c0457e4..5fcb367 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -240,6 +240,7 @@ class BitIOWriter(BitIO):
         """
         if self._bits_left != 0 and self._bits != -1:
             self.data.write(bytes((self._bits,)))
+            super().align()
 
     def align(self) -> None:
         """Seeks the stream forward to the nearest byte boundary. This does
-- 
2.43.0


From 68943f3a7c98544d450cbff4f22a9f42f9dff683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:18 +0000
Subject: [PATCH 04/30] fix: do not loop forever on a truncated replay

---
 dustmaker/dfreader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dustmaker/dfreader.py b/dustmaker/dfreader.py
index 6a754df..c8c7a65 100644
--- a/dustmaker/dfreader.py
+++ b/dustmaker/dfreader.py
@@ -513,7 +513,10 @@ class DFReader(BitIOReader):
             input_data = bytearray()
             decomp = zlib.decompressobj()
             while not decomp.eof:
-                input_data += decomp.decompress(self.read_bytes(1))
+                next_byte = self.read_bytes(1)
+                if not next_byte:
+                    raise LevelParseException("unexpected end of replay data")
+                input_data += decomp.decompress(next_byte)
 
         with DFReader(io.BytesIO(input_data)) as sub_reader:
             inputs_len = sub_reader.read(32)  # pylint: disable=unused-variable
-- 
2.43.0


From 751a4fc2750940980a32c31f6fb3f96a5eced2d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:18 +0000
Subject: [PATCH 05/30] fix: calculate_max_id respects its documented lower
 bound

The bound (100, or one less than the next ID without reset) was only used
when there were no props or no entities.
---
 dustmaker/level.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index cfd88d0..cc47d11 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -253,7 +253,9 @@ class Level:
         init = 100 if reset else self._next_id - 1
 
         # pylint: disable=nested-min-max
-        mx_id = max(max(self.props, default=init), max(self.entities, default=init))
+        mx_id = max(
+            init, max(self.props, default=init), max(self.entities, default=init)
+        )
 
         if self.backdrop is not None:
             mx_id = max(mx_id, self.backdrop.calculate_max_id())
-- 
2.43.0


From c423846f7bb5265aeca734fce041b214ca51d621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:11 +0000
Subject: [PATCH 06/30] fix: account for merged IDs in the ID allocator

After merge(..., remap_ids=False) the allocator could hand out an ID that
the merged level already uses.
---
 dustmaker/level.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index cc47d11..ba849e1 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -277,6 +277,8 @@ class Level:
         self.tiles.update(copy.deepcopy(other_level.tiles))
         self.props.update(copy.deepcopy(other_level.props))
         self.entities.update(copy.deepcopy(other_level.entities))
+        for id_num in (*other_level.props, *other_level.entities):
+            self._note_id(id_num)
         if self.backdrop is not None and other_level.backdrop is not None:
             self.backdrop.merge(other_level.backdrop, remap_ids=False)
 
-- 
2.43.0


From 4f15709ab9fc474f8311731a7377875921097dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:11 +0000
Subject: [PATCH 07/30] fix: remap the string list ID of custom score books

---
 dustmaker/entity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index 683fdb1..7e50546 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -845,6 +845,11 @@ class CustomScoreBook(Entity):
 
     TYPE_IDENTIFIER = "custom_score_book"
 
+    def remap_ids(self, id_map: Dict[int, int]) -> None:
+        """Remap the string list ID."""
+        super().remap_ids(id_map)
+        self.level_list = id_map.get(self.level_list, 0)
+
     level_list = bind_prop("level_list_id", VariableInt, 0, "ID of StringList entity")
 
 
-- 
2.43.0


From 66f4b23ba7678579c3dca396078f544b36a1e044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:11 +0000
Subject: [PATCH 08/30] fix: y-offset of transformation matrix products

---
 dustmaker/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/transform.py b/dustmaker/transform.py
index c2f8891..83f4fa8 100644
--- a/dustmaker/transform.py
+++ b/dustmaker/transform.py
@@ -85,7 +85,7 @@ class TxMatrix(tuple):
                 (
                     ml[1][0] * mr[0][0] + ml[1][1] * mr[1][0],
                     ml[1][0] * mr[0][1] + ml[1][1] * mr[1][1],
-                    ml[1][0] * mr[0][2] + ml[1][1] * mr[1][2] + ml[0][2],
+                    ml[1][0] * mr[0][2] + ml[1][1] * mr[1][2] + ml[1][2],
                 ),
                 (0, 0, 1),
             )
-- 
2.43.0


From 03c03f642280a10d7ea857714773560047f6e566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:11 +0000
Subject: [PATCH 09/30] fix: keep tiles aligned with props and entities when
 flipping or rotating

A tile's position is its top-left corner, which is not the top-left corner of
the tile's image under a flip or rotation, so tiles ended up one cell away
from everything else in the level.
---
 dustmaker/level.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index ba849e1..2e97b37 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -306,7 +306,11 @@ class Level:
         def _transform_tiles():
             for (layer, x, y), tile in self.tiles.items():
                 tile.transform(mat)
-                tx, ty = mat.sample(x * 48, y * 48)
+                # The tile covers the square from (x, y) to (x + 1, y + 1), find
+                # the top-left corner of its image.
+                ax, ay = mat.sample(x * 48, y * 48)
+                bx, by = mat.sample((x + 1) * 48, (y + 1) * 48)
+                tx, ty = min(ax, bx), min(ay, by)
 
                 yield (layer, int(round(tx / 48.0)), int(round(ty / 48.0))), tile
 
-- 
2.43.0


From 22ffb56dc2306c9a57678d7c626b499744977235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:11 +0000
Subject: [PATCH 10/30] fix: do not lose tiles when translating by half a tile

round() rounds halves to even, mapping neighbouring tiles to the same cell.
---
 dustmaker/level.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 2e97b37..2400f13 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -312,7 +312,9 @@ class Level:
                 bx, by = mat.sample((x + 1) * 48, (y + 1) * 48)
                 tx, ty = min(ax, bx), min(ay, by)
 
-                yield (layer, int(round(tx / 48.0)), int(round(ty / 48.0))), tile
+                # Always round halves the same way so that no two tiles collide.
+                tx, ty = math.floor(tx / 48.0 + 0.5), math.floor(ty / 48.0 + 0.5)
+                yield (layer, tx, ty), tile
 
         def _transform_props():
             for id_num, (layer, x, y, prop) in self.props.items():
-- 
2.43.0


From 899b56ee6e57d233da3ad164e00c2e1cf190dba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:11 +0000
Subject: [PATCH 11/30] fix: orientation of props and entities under flips

TxMatrix.angle is the rotation of a vertical line, which a horizontal flip
keeps in place, so what remains of a flipping transformation after removing
that rotation is a horizontal flip. Toggling flip_y instead left everything
rotated by 180 degrees.
---
 dustmaker/entity.py | 4 ++--
 dustmaker/prop.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index 7e50546..ec5a8b0 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -208,13 +208,13 @@ class Entity:
 
     def transform(self, mat: TxMatrix) -> None:
         """Generic transform implementation for entities. Transforms the Entity
-        :attr:`rotation` and :attr:`flip_y` attributes (:attr:`flip_x` is redundant).
+        :attr:`rotation` and :attr:`flip_x` attributes (:attr:`flip_y` is redundant).
 
         Many subtypes will perform additional transformations on their :attr:`variables`.
         """
         self.rotation = self.rotation - int(0x10000 * mat.angle / math.pi / 2) & 0xFFFF
         if mat.flipped:
-            self.flip_y = not self.flip_y
+            self.flip_x = not self.flip_x
             self.rotation = -self.rotation & 0xFFFF
 
 
diff --git a/dustmaker/prop.py b/dustmaker/prop.py
index 62c738f..801f4e2 100644
--- a/dustmaker/prop.py
+++ b/dustmaker/prop.py
@@ -56,9 +56,9 @@ class Prop:
     def transform(self, mat: TxMatrix) -> None:
         """
         Performs the requested transformation on the prop's :attr:`rotation` and
-        :attr:`flip_y` attributes.
+        :attr:`flip_x` attributes.
         """
         self.rotation = self.rotation - int(0x10000 * mat.angle / math.pi / 2) & 0xFFFF
         if mat.flipped:
-            self.flip_y = not self.flip_y
+            self.flip_x = not self.flip_x
             self.rotation = -self.rotation & 0xFFFF
-- 
2.43.0


From 3609db541eb203c4584602f316e43bbfcb93e1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:11 +0000
Subject: [PATCH 12/30] fix: upscale backdrop tiles

The backdrop's tiles were spread out by the scaling factor but not enlarged.
---
 dustmaker/level.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 2400f13..add6ad0 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -372,11 +372,14 @@ class Level:
                 to :meth:`transform` along with the upscaling.
         """
         self.transform(mat * factor)
-        self.tiles = {
-            (layer, x + dx, y + dy): ntile
-            for (layer, x, y), tile in self.tiles.items()
-            for dx, dy, ntile in tile.upscale(factor)
-        }
+        for level in (self, self.backdrop):
+            if level is None:
+                continue
+            level.tiles = {
+                (layer, x + dx, y + dy): ntile
+                for (layer, x, y), tile in level.tiles.items()
+                for dx, dy, ntile in tile.upscale(factor)
+            }
 
     def calculate_edge_visibility(
         self,
-- 
2.43.0


From 69e35a09a7188cfbaa1b9a06801077fa9d31dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:11 +0000
Subject: [PATCH 13/30] fix: keep tile flags when upscaling

---
 dustmaker/tile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustmaker/tile.py b/dustmaker/tile.py
index 13b18f6..5cc94c1 100644
--- a/dustmaker/tile.py
+++ b/dustmaker/tile.py
@@ -350,7 +350,7 @@ class Tile:
         if self.shape == TileShape.FULL:
             for dx in range(factor):
                 for dy in range(factor):
-                    tile = Tile(TileShape.FULL)
+                    tile = Tile(TileShape.FULL, tile_flags=self.tile_flags)
                     tile.set_sprite_tuple(self.get_sprite_tuple())
 
                     if dx == 0:
@@ -368,7 +368,7 @@ class Tile:
             for dx in range(factor):
                 ddx = dx + (factor if self.shape == TileShape.SMALL_1 else 0)
                 for dy in range(ddx // 2, factor):
-                    tile = Tile(TileShape.FULL)
+                    tile = Tile(TileShape.FULL, tile_flags=self.tile_flags)
                     tile.set_sprite_tuple(self.get_sprite_tuple())
 
                     if dy == ddx // 2:
@@ -384,7 +384,7 @@ class Tile:
         elif self.shape == TileShape.HALF_A:
             for dx in range(factor):
                 for dy in range(dx, factor):
-                    tile = Tile(TileShape.FULL)
+                    tile = Tile(TileShape.FULL, tile_flags=self.tile_flags)
                     tile.set_sprite_tuple(self.get_sprite_tuple())
 
                     if dx == dy:
-- 
2.43.0


From 5317455ab3941a865e4d1e795a85fb3947c75419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:11 +0000
Subject: [PATCH 14/30] fix: allow all documented sublayers in
 FogTrigger.get_layer_index

---
 dustmaker/entity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index ec5a8b0..a950720 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -329,7 +329,7 @@ class FogTrigger(Trigger):
         assert 0 <= layer <= 20
         if sublayer is None:
             return layer
-        assert 0 <= sublayer <= 20
+        assert 0 <= sublayer <= 24
         return (sublayer + 1) * 21 + layer
 
     speed = bind_prop("fog_speed", VariableFloat, 5.0)
-- 
2.43.0


From da8e1b0db97316c13fbd43f19b7b0d0aae6c5309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:59 +0000
Subject: [PATCH 15/30] fix: round edge join angles down as documented

The documentation and the levels shipped with the game (e.g. 35 and 26
degree joins in downhill) round down; the code rounded to nearest.
---
 dustmaker/level.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index add6ad0..a76066e 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -577,7 +577,10 @@ class Level:
                     if delta_angle > math.pi:
                         delta_angle -= 2 * math.pi
 
-                    angle = -int(round(delta_angle * 180 / math.pi / 2))
+                    # Half the turn rounded down (allowing for rounding error)
+                    angle = int(abs(delta_angle) * 180 / math.pi / 2 + 1e-6)
+                    if delta_angle > 0:
+                        angle = -angle
 
                     # Set caps and angles based on joiner
                     caps[dr] = False
-- 
2.43.0


From 786ed53a767d63162d508f4f3cafb463ba88b941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:59 +0000
Subject: [PATCH 16/30] fix: make struct and array variables hashable as
 documented

---
 dustmaker/variable.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dustmaker/variable.py b/dustmaker/variable.py
index fac7d69..e79583b 100644
--- a/dustmaker/variable.py
+++ b/dustmaker/variable.py
@@ -179,6 +179,9 @@ class VariableStruct(Variable):
             assert isinstance(key, str) and isinstance(val, Variable)
             val._assert_types()
 
+    def __hash__(self):
+        return hash((self._vtype, frozenset(self.value.items())))
+
 
 class VariableArray(Variable, collections.abc.MutableSequence):
     """Represents an array variable. Arrays are stored a bit differently
@@ -261,3 +264,6 @@ class VariableArray(Variable, collections.abc.MutableSequence):
         for elem in self.value[1]:
             assert isinstance(elem, self.value[0])
             elem._assert_types()
+
+    def __hash__(self):
+        return hash((self._vtype, self.value[0], tuple(self.value[1])))
-- 
2.43.0


From 57bf356fa7b4b8d1d6ec88abf06639555865f8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:59 +0000
Subject: [PATCH 17/30] fix: make tiles hashable as documented

---
 dustmaker/tile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustmaker/tile.py b/dustmaker/tile.py
index 5cc94c1..a42ad58 100644
--- a/dustmaker/tile.py
+++ b/dustmaker/tile.py
@@ -34,7 +34,7 @@ class TileSide(IntEnum):
     RIGHT = 3
 
 
-@dataclass
+@dataclass(unsafe_hash=True)
 class TileEdgeData:
     """Data class for data stored on each tile edge. Many attributes are stored
     as pairs of data to correspond to the two corners of the tile edge. These
@@ -180,7 +180,7 @@ class Tile:
         return (
             self.shape,
             self.tile_flags,
-            self.edge_data,
+            tuple(self.edge_data),
             self.sprite_set,
             self.sprite_tile,
             self.sprite_palette,
-- 
2.43.0


From 34018bc79f1f522af520b0928a18d9e289b1983c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:59 +0000
Subject: [PATCH 18/30] fix: JSON conversion of nested arrays

---
 dustmaker/cmd/variables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index 6c35489..b5da888 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -54,6 +54,9 @@ def merge_schema(lhs: Any, rhs: Any) -> Any:
                 result[subkey] = merge_schema(r_subschema, subschema)
         return result
     if isinstance(lhs, list) and isinstance(rhs, list):
+        if not lhs or not rhs:
+            # Array of arrays without any elements to tell the element type
+            return lhs or rhs
         return [merge_schema(lhs[0], rhs[0])]
     if not isinstance(lhs, str) or not isinstance(rhs, str):
         raise ValueError("unmergable schemas")
-- 
2.43.0


From e602ad522e5f90c0579c91ebd3fbe7b67cf35dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:59 +0000
Subject: [PATCH 19/30] fix: variables update of levels without region data

The update failed an assertion after the level had been truncated.
---
 dustmaker/cmd/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index b5da888..e94dea0 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -210,7 +210,7 @@ class Variables(CliUtility):
 
         with DFWriter(open(args.object, "wb")) as writer:
             if header == b"DF_LVL":
-                assert level and region_offsets and region_data
+                assert level is not None and region_data is not None
                 level.variables = variables.value
                 writer.write_level_ex(level, region_offsets, region_data)
             else:
-- 
2.43.0


From 35c13395def6384241d694afd9e5d1e49c419797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:59 +0000
Subject: [PATCH 20/30] fix: do not destroy the file when an in-place update
 fails

The variables and thumbnail commands truncated the target before encoding the
new content, losing it if e.g. a variable name could not be encoded.
---
 dustmaker/cmd/thumbnail.py | 7 ++++++-
 dustmaker/cmd/variables.py | 8 +++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/dustmaker/cmd/thumbnail.py b/dustmaker/cmd/thumbnail.py
index bdb487d..490fa9a 100755
--- a/dustmaker/cmd/thumbnail.py
+++ b/dustmaker/cmd/thumbnail.py
@@ -97,8 +97,13 @@ class Thumbnail(CliUtility):
                 level.sshot = fimg.read()
 
         level.variables["icon_taken"] = VariableBool(True)
-        with DFWriter(open(args.level, "wb")) as writer:
+        # Only touch the target once we know it can be written.
+        with DFWriter(io.BytesIO()) as writer:
             writer.write_level_ex(level, region_offsets, region_data)
+            new_level = writer.data.getvalue()
+
+        with open(args.level, "wb") as fout:
+            fout.write(new_level)
 
         return 0
 
diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index e94dea0..aa251b2 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -3,6 +3,7 @@
 Sample script to manipulate level variables.
 """
 import argparse
+import io
 import json
 import sys
 from typing import Any, Dict, Tuple, Type
@@ -208,13 +209,18 @@ class Variables(CliUtility):
 
         variables = json_to_variables(jdata["schema"], jdata["vars"])
 
-        with DFWriter(open(args.object, "wb")) as writer:
+        # Only touch the target once we know it can be written.
+        with DFWriter(io.BytesIO()) as writer:
             if header == b"DF_LVL":
                 assert level is not None and region_data is not None
                 level.variables = variables.value
                 writer.write_level_ex(level, region_offsets, region_data)
             else:
                 writer.write_var_file(header, variables.value)
+            new_object = writer.data.getvalue()
+
+        with open(args.object, "wb") as fout:
+            fout.write(new_object)
 
         return 0
 
-- 
2.43.0


From ae6219a41556a731a59c1484d6bbdef67f707323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:59 +0000
Subject: [PATCH 21/30] fix: transform command shifts after upscaling as
 documented

The shift was multiplied by the upscaling factor.
---
 dustmaker/cmd/transform.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dustmaker/cmd/transform.py b/dustmaker/cmd/transform.py
index 96fb739..ae7bfdf 100755
--- a/dustmaker/cmd/transform.py
+++ b/dustmaker/cmd/transform.py
@@ -81,8 +81,10 @@ class Transform(CliUtility):
         if args.hflip:
             mat = TxMatrix.HFLIP * mat
 
-        # Add in the translations
-        mat = mat.translate(args.translate_x, args.translate_y)
+        # Add in the translations, upscaling will scale these along with the rest
+        # of the matrix but the shift should be in pixels of the result.
+        factor = max(args.upscale, 1)
+        mat = mat.translate(args.translate_x / factor, args.translate_y / factor)
 
         if args.upscale > 1:
             # Need dustmod level type for proper scaling of entities/props
-- 
2.43.0


From 1fc00e6f8996e7f5150c8058ec30eda883b36114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:43 +0000
Subject: [PATCH 22/30] fix: first region directory entry kept stale stream
 content

write_level skipped over the first directory entry and relied on the stream
holding zeros there. Written over existing content the entry was whatever the
stream held before.
---
 dustmaker/dfwriter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dustmaker/dfwriter.py b/dustmaker/dfwriter.py
index 90201b9..cec8cc3 100644
--- a/dustmaker/dfwriter.py
+++ b/dustmaker/dfwriter.py
@@ -550,6 +550,10 @@ class DFWriter(BitIOWriter):
         rmap = _compute_region_map(level)
         region_dir_index = self.bit_tell()
         region_data_index = (region_dir_index + 32 * len(rmap.region_map) + 7) & ~0x7
+        if rmap.region_map:
+            # The first entry is always zero. Write it now so that it does not
+            # keep whatever the stream held here before.
+            self.write(32, 0)
         self.bit_seek(region_data_index)
         region_offsets = []
 
@@ -563,8 +567,8 @@ class DFWriter(BitIOWriter):
 
         # Go back and write the region directory. This might not be
         # byte aligned which doesn't can zero previous bits in the partial byte.
-        # Since the first element is zero anyway we just skip it to avoid
-        # writing over the var map.
+        # Since the first element is zero (and already written) we just skip it
+        # to avoid writing over the var map.
         self.bit_seek(region_dir_index + 32, allow_unaligned=True)
         for region_offset in region_offsets[1:]:
             self.write(32, region_offset)
-- 
2.43.0


From d05d1c772aa1c05c76b382126cca28a2cb098116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:45 +0000
Subject: [PATCH 23/30] fix: edge caps joined to the edge turning most towards
 the tile instead of away

---
 dustmaker/level.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index a76066e..7307ff4 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -541,7 +541,8 @@ class Level:
                     else:  # Slants
                         # No caps allowed on slant half edges
                         continue
-                    if dr:
+                    if not dr:
+                        # Prefer the joiner that turns the most away from us.
                         ddirs = ddirs[::-1]
 
                     for dx, dy in ddirs:
-- 
2.43.0


From f2ce365df8d322d3665af999a0a96e8d8ca6965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:34 +0000
Subject: [PATCH 24/30] fix: refuse floats that do not fit instead of
 corrupting the stream

A float whose integer part needs more bits than the field has was cut off
silently and could even spill into the variable behind it.
---
 dustmaker/dfwriter.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dustmaker/dfwriter.py b/dustmaker/dfwriter.py
index cec8cc3..5732680 100644
--- a/dustmaker/dfwriter.py
+++ b/dustmaker/dfwriter.py
@@ -6,7 +6,7 @@ files.
 import io
 import itertools
 import zlib
-from math import floor, log
+from math import floor, isfinite, log
 from typing import Dict, Iterable, List, Tuple, Union
 
 from . import replay
@@ -144,7 +144,13 @@ class DFWriter(BitIOWriter):
             ibits (int): Number of integer bits
             fbits (int): Number of fractional bits
             val (float): The floating point number to write
+
+        Raises:
+            ValueError: If the integer part of `val` does not fit.
         """
+        if not isfinite(val) or abs(floor(val)) >= 1 << (ibits - 1):
+            raise ValueError("float out of range")
+
         ipart = abs(floor(val))
         fpart = int((val - floor(val)) * (2 ** (fbits - 1)))
         self.write(1, 1 if val < 0 else 0)
-- 
2.43.0


From 714ca00ea9dbe499378faf0f5b90c5db2771b53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:34 +0000
Subject: [PATCH 25/30] fix: refuse variable documents that are not a struct

{"schema": "int", "vars": 0} silently cleared all variables of the file.
---
 dustmaker/cmd/variables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index aa251b2..e8a0281 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -208,6 +208,9 @@ class Variables(CliUtility):
                     return 1
 
         variables = json_to_variables(jdata["schema"], jdata["vars"])
+        if not isinstance(variables, VariableStruct):
+            sys.stderr.write("top level variable must be a struct\n")
+            return 1
 
         # Only touch the target once we know it can be written.
         with DFWriter(io.BytesIO()) as writer:
-- 
2.43.0


From 7439c23db217eb5b6db17cb276af40f193a15615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:07 +0000
Subject: [PATCH 26/30] fix: refuse values that are not arrays in array
 accessors

---
 dustmaker/entity.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index a950720..b77c5ad 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -75,6 +75,8 @@ def bind_prop(
 
     def _set(self, val: T) -> None:
         """set the property"""
+        if objtype and not isinstance(val, prop_type):
+            raise ValueError("unexpected property type")
         self.variables[prop_name] = val if objtype else prop_type(val)
 
     def _del(self) -> None:
-- 
2.43.0


From 07d0a4590123d825759b702a6cfe7d5865b9bc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:07 +0000
Subject: [PATCH 27/30] fix: default speeds of ambience and music triggers are
 floats

---
 dustmaker/entity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index b77c5ad..d1cdc8f 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -363,7 +363,7 @@ class AmbienceTrigger(Trigger):
 
     TYPE_IDENTIFIER = "ambience_trigger"
 
-    speed = bind_prop("ambience_speed", VariableFloat, 5)
+    speed = bind_prop("ambience_speed", VariableFloat, 5.0)
     sound_names = bind_prop_arr("sound_ambience_names", VariableString)
     sound_vols = bind_prop_arr("sound_ambience_vol", VariableFloat)
 
@@ -373,7 +373,7 @@ class MusicTrigger(Trigger):
 
     TYPE_IDENTIFIER = "music_trigger"
 
-    speed = bind_prop("music_speed", VariableFloat, 5)
+    speed = bind_prop("music_speed", VariableFloat, 5.0)
     sound_names = bind_prop_arr("sound_music_names", VariableString)
     sound_vols = bind_prop_arr("sound_music_vol", VariableFloat)
 
-- 
2.43.0


From ba487fa2865dc11e1f564dd6a243051e3c465c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:37 +0000
Subject: [PATCH 28/30] fix: hand the stream back intact when a writer on an
 unbuffered stream is released

Streams that are not BufferedIOBase are wrapped in a BufferedWriter. With
noclose or release() the wrapper kept the data and closed the caller's stream
when it was garbage collected.
---
 dustmaker/bitio.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 5fcb367..0a37a45 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -158,8 +158,11 @@ class BitIOReader(BitIO):
 class BitIOWriter(BitIO):
     """Bit writer wrapper for a data stream."""
 
+    __slots__ = ("_wrapped",)
+
     def __init__(self, data: BinaryIO, *, noclose: bool = False) -> None:
-        if not isinstance(data, io.BufferedIOBase):
+        self._wrapped = not isinstance(data, io.BufferedIOBase)
+        if self._wrapped:
             data = io.BufferedWriter(data)  # type: ignore
         super().__init__(data, noclose=noclose)
 
@@ -226,6 +229,10 @@ class BitIOWriter(BitIO):
         try:
             self.flush()
         finally:
+            if self._noclose and self._wrapped and not self.data.closed:
+                # Hand the original stream back with everything written to it.
+                self.data = self.data.detach()  # type: ignore
+                self._wrapped = False
             super().close()
 
     def flush(self) -> None:
-- 
2.43.0


From c42b72f8d93769501f8f740dd91acfb29a2e4661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:06 +0000
Subject: [PATCH 29/30] fix: transform command leaves its target alone if the
 result cannot be written

---
 dustmaker/cmd/transform.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dustmaker/cmd/transform.py b/dustmaker/cmd/transform.py
index ae7bfdf..8df3679 100755
--- a/dustmaker/cmd/transform.py
+++ b/dustmaker/cmd/transform.py
@@ -5,7 +5,7 @@ Sample script to perform level transforms
 import argparse
 import sys
 
-from dustmaker import DFReader, DFWriter
+from dustmaker import DFReader, write_level
 from dustmaker.cmd.common import CliUtility, run_utility
 from dustmaker.level import LevelType
 from dustmaker.transform import TxMatrix
@@ -94,8 +94,10 @@ class Transform(CliUtility):
         else:
             level.transform(mat)
 
-        with DFWriter(open(args.output_level, "wb")) as writer:
-            writer.write_level(level)
+        # Only touch the target once we know it can be written.
+        new_level = write_level(level)
+        with open(args.output_level, "wb") as fout:
+            fout.write(new_level)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 640a8f8601413f4e0517da8fa69130816d81284a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:16 +0000
Subject: [PATCH 30/30] fix: the maximum id of a level without backdrop is at
 least 100 too

Without reset, calculate_max_id() on a level or backdrop that has no backdrop
of its own and no ids in use returned 99 although it is documented to always
return at least 100.
---
 dustmaker/level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 7307ff4..00f4d38 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -250,7 +250,7 @@ class Level:
                 allocator will be reset based off this result. Otherwise the max
                 ID will be at least one less than the next ID.
         """
-        init = 100 if reset else self._next_id - 1
+        init = 100 if reset else max(100, self._next_id - 1)
 
         # pylint: disable=nested-min-max
         mx_id = max(
-- 
2.43.0

