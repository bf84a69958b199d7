From 40708d7129907a09ccc00e7741476e26527d74b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:20 +0000
Subject: [PATCH 01/36] fix: only direct children of a TMX map are its
 top-level layers

Walking all descendants repeated every layer of a group at the top level and
turned collision objectgroups of embedded tileset tiles into map layers.
---
 pytiled_parser/parsers/tmx/tiled_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 988e5cf..8bcaa5e 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -60,7 +60,7 @@ def parse(file: Path) -> TiledMap:
             )
 
     layers = []
-    for element in raw_map.iter():
+    for element in raw_map:
         if element.tag in ["layer", "objectgroup", "imagelayer", "group"]:
             layers.append(parse_layer(element, parent_dir))
 
-- 
2.43.0


From 7589bbc2df5b1d448b000eb027d1e937125e1792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 02/36] fix: keep the document order of layers inside TMX
 groups

Children were collected kind by kind, so the draw order was lost.
---
 pytiled_parser/parsers/tmx/layer.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index df219bb..c5fee21 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -326,23 +326,9 @@ def _parse_group_layer(
         LayerGroup: The LayerGroup created from raw_layer
     """
     layers: List[Layer] = []
-    for layer in raw_layer.findall("./layer"):
-        layers.append(_parse_tile_layer(layer))
-
-    for layer in raw_layer.findall("./objectgroup"):
-        layers.append(_parse_object_layer(layer, parent_dir))
-
-    for layer in raw_layer.findall("./imagelayer"):
-        layers.append(_parse_image_layer(layer))
-
-    for layer in raw_layer.findall("./group"):
-        layers.append(_parse_group_layer(layer, parent_dir))
-    # layers = []
-    # layers = [
-    #    parse(child_layer, parent_dir=parent_dir)
-    #    for child_layer in raw_layer.iter()
-    #    if child_layer.tag in ["layer", "objectgroup", "imagelayer", "group"]
-    # ]
+    for element in raw_layer:
+        if element.tag in ["layer", "objectgroup", "imagelayer", "group"]:
+            layers.append(parse(element, parent_dir))
 
     return LayerGroup(layers=layers, **_parse_common(raw_layer).__dict__)
 
-- 
2.43.0


From 28138e77ce2324d68ed840b31b72b0cafa0e7736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:58 +0000
Subject: [PATCH 03/36] fix: give every object its own default properties

The class-level {} was shared by all objects without properties, of all maps.
---
 pytiled_parser/tiled_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/tiled_object.py b/pytiled_parser/tiled_object.py
index edf7495..2be8c6e 100644
--- a/pytiled_parser/tiled_object.py
+++ b/pytiled_parser/tiled_object.py
@@ -39,7 +39,7 @@ class TiledObject:
     name: str = ""
     class_: str = ""
 
-    properties: properties_.Properties = {}
+    properties: properties_.Properties = attr.Factory(dict)
 
 
 @attr.s()
-- 
2.43.0


From cb12dc066bf028a24eb531088aef633f8e38cfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:59 +0000
Subject: [PATCH 04/36] fix: do not print while resolving template tilesets in
 TMX maps

---
 pytiled_parser/parsers/tmx/tiled_map.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 8bcaa5e..aa246f5 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -107,7 +107,6 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        print("here")
                         highest_firstgid = max(map_.tilesets.keys())
                         last_tileset_count = map_.tilesets[highest_firstgid].tile_count
                         new_firstgid = highest_firstgid + last_tileset_count
-- 
2.43.0


From 6d08485072ccca1315908b35718aceb583edca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:00 +0000
Subject: [PATCH 05/36] fix: read the class of wang sets and wang colors from
 JSON

---
 pytiled_parser/parsers/json/wang_set.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytiled_parser/parsers/json/wang_set.py b/pytiled_parser/parsers/json/wang_set.py
index f44c4b2..4cb5cd8 100644
--- a/pytiled_parser/parsers/json/wang_set.py
+++ b/pytiled_parser/parsers/json/wang_set.py
@@ -82,6 +82,9 @@ def _parse_wang_color(raw_wang_color: RawWangColor) -> WangColor:
         probability=raw_wang_color["probability"],
     )
 
+    if raw_wang_color.get("class") is not None:
+        wang_color.class_ = raw_wang_color["class"]
+
     if raw_wang_color.get("properties") is not None:
         wang_color.properties = parse_properties(raw_wang_color["properties"])
 
@@ -114,6 +117,9 @@ def parse(raw_wangset: RawWangSet) -> WangSet:
         wang_tiles=tiles,
     )
 
+    if raw_wangset.get("class") is not None:
+        wangset.class_ = raw_wangset["class"]
+
     if raw_wangset.get("properties") is not None:
         wangset.properties = parse_properties(raw_wangset["properties"])
 
-- 
2.43.0


From 0a99fe7cfc2a37ecb86057a6be8a9f8696f9db08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 06/36] fix: read multi-line string properties from TMX

Tiled writes them as the text of the property element; they were dropped.
---
 pytiled_parser/parsers/tmx/properties.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/properties.py b/pytiled_parser/parsers/tmx/properties.py
index 1b20e3d..6a8c248 100644
--- a/pytiled_parser/parsers/tmx/properties.py
+++ b/pytiled_parser/parsers/tmx/properties.py
@@ -12,11 +12,14 @@ def parse(raw_properties: etree.Element) -> Properties:
     for raw_property in raw_properties.findall("property"):
         type_ = raw_property.attrib.get("type")
 
-        if "value" not in raw_property.attrib:
+        if "value" in raw_property.attrib:
+            value_ = raw_property.attrib["value"]
+        elif type_ is None or type_ == "string":
+            # Tiled stores multi-line strings as the text of the element
+            value_ = raw_property.text or ""
+        else:
             continue
 
-        value_ = raw_property.attrib["value"]
-
         if type_ == "file":
             value = Path(value_)
         elif type_ == "color":
-- 
2.43.0


From 3ce84abf2054a8c94dfc94e74ee2ebb819e37b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:02 +0000
Subject: [PATCH 07/36] fix: parse TMX object reference properties as numbers,
 as in JSON

---
 pytiled_parser/parsers/tmx/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/properties.py b/pytiled_parser/parsers/tmx/properties.py
index 6a8c248..71b848e 100644
--- a/pytiled_parser/parsers/tmx/properties.py
+++ b/pytiled_parser/parsers/tmx/properties.py
@@ -24,7 +24,7 @@ def parse(raw_properties: etree.Element) -> Properties:
             value = Path(value_)
         elif type_ == "color":
             value = parse_color(value_)
-        elif type_ == "int" or type_ == "float":
+        elif type_ in ("int", "float", "object"):
             value = float(value_)
         elif type_ == "bool":
             if value_ == "true":
-- 
2.43.0


From 2d455a77f5ebbfc735fb61ee183f18dc0b753715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:03 +0000
Subject: [PATCH 08/36] fix: width and height of TMX objects default
 independently

A height without a width was lost and a width without a height raised.
---
 pytiled_parser/parsers/tmx/tiled_object.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 711664e..0d4da2d 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -34,10 +34,10 @@ def _parse_common(raw_object: etree.Element) -> TiledObject:
         ),
     )
 
-    if raw_object.attrib.get("width") is not None:
-        common.size = Size(
-            float(raw_object.attrib["width"]), float(raw_object.attrib["height"])
-        )
+    common.size = Size(
+        float(raw_object.attrib.get("width", 0)),
+        float(raw_object.attrib.get("height", 0)),
+    )
 
     if raw_object.attrib.get("visible") is not None:
         common.visible = bool(int(raw_object.attrib["visible"]))
-- 
2.43.0


From e9386d370ed4fb01bbfd104a6749df34e37c72fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:04 +0000
Subject: [PATCH 09/36] fix: layer offsets default independently on each axis

---
 pytiled_parser/parsers/json/layer.py | 6 ++++--
 pytiled_parser/parsers/tmx/layer.py  | 8 ++++----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 5f8208e..268bc9d 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -228,8 +228,10 @@ def _parse_common(raw_layer: RawLayer) -> Layer:
     if raw_layer.get("width") is not None:
         common.size = Size(raw_layer["width"], raw_layer["height"])
 
-    if raw_layer.get("offsetx") is not None:
-        common.offset = OrderedPair(raw_layer["offsetx"], raw_layer["offsety"])
+    common.offset = OrderedPair(
+        raw_layer.get("offsetx", 0),
+        raw_layer.get("offsety", 0),
+    )
 
     if raw_layer.get("properties") is not None:
         common.properties = parse_properties(raw_layer["properties"])
diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index c5fee21..85d30d3 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -170,10 +170,10 @@ def _parse_common(raw_layer: etree.Element) -> Layer:
     if raw_layer.attrib.get("id") is not None:
         common.id = int(raw_layer.attrib["id"])
 
-    if raw_layer.attrib.get("offsetx") is not None:
-        common.offset = OrderedPair(
-            float(raw_layer.attrib["offsetx"]), float(raw_layer.attrib["offsety"])
-        )
+    common.offset = OrderedPair(
+        float(raw_layer.attrib.get("offsetx", 0)),
+        float(raw_layer.attrib.get("offsety", 0)),
+    )
 
     properties_element = raw_layer.find("./properties")
     if properties_element is not None:
-- 
2.43.0


From 824e48a25f8c0729548550f27dd137197723eb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:20 +0000
Subject: [PATCH 10/36] fix: detect the format of empty files, leading blank
 lines and binary files

check_format raised IndexError for an empty first line and UnicodeDecodeError for
undecodable content, instead of going on to the parser or to UnknownFormat.
---
 pytiled_parser/util.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 45de44e..aef6e64 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -37,12 +37,13 @@ def parse_color(color: str) -> Color:
 
 
 def check_format(file_path: Path) -> str:
-    with open(file_path) as file:
-        line = file.readline().rstrip().strip()
-        if line[0] == "<":
-            return "tmx"
-        else:
-            return "json"
+    with open(file_path, "rb") as file:
+        for raw_line in file:
+            line = raw_line.strip()
+            if line:
+                return "tmx" if line.startswith(b"<") else "json"
+
+    return "json"
 
 
 def load_object_template(file_path: Path) -> Any:
-- 
2.43.0


From 4733bcf2b6e5d1554fac7a633b248cbd8a27239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:21 +0000
Subject: [PATCH 11/36] fix: read all documents as UTF-8 whatever the locale

Tiled writes UTF-8; the locale's encoding corrupted or rejected non-ASCII text.
---
 pytiled_parser/parser.py                 | 4 ++--
 pytiled_parser/parsers/json/tiled_map.py | 4 ++--
 pytiled_parser/parsers/tmx/tiled_map.py  | 4 ++--
 pytiled_parser/util.py                   | 6 +++---
 pytiled_parser/world.py                  | 2 +-
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pytiled_parser/parser.py b/pytiled_parser/parser.py
index 22918ec..05ffb1d 100644
--- a/pytiled_parser/parser.py
+++ b/pytiled_parser/parser.py
@@ -50,12 +50,12 @@ def parse_tileset(file: Path) -> Tileset:
     parser = check_format(file)
 
     if parser == "tmx":
-        with open(file) as map_file:
+        with open(file, encoding="utf-8") as map_file:
             raw_tileset = etree.parse(map_file).getroot()
         return tmx_tileset_parse(raw_tileset, 1)
     else:
         try:
-            with open(file) as my_file:
+            with open(file, encoding="utf-8") as my_file:
                 raw_tileset = json.load(my_file)
             return json_tileset_parse(raw_tileset, 1)
         except ValueError:
diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index a5113f5..f2ba2cf 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -64,7 +64,7 @@ def parse(file: Path) -> TiledMap:
     Returns:
         TiledMap: A parsed TiledMap.
     """
-    with open(file) as map_file:
+    with open(file, encoding="utf-8") as map_file:
         raw_tiled_map = json.load(map_file)
 
     parent_dir = file.parent
@@ -77,7 +77,7 @@ def parse(file: Path) -> TiledMap:
             # Is an external Tileset
             tileset_path = Path(parent_dir / raw_tileset["source"])
             parser = check_format(tileset_path)
-            with open(tileset_path) as raw_tileset_file:
+            with open(tileset_path, encoding="utf-8") as raw_tileset_file:
                 if parser == "tmx":
                     raw_tileset_external = etree.parse(raw_tileset_file).getroot()
                     tilesets[raw_tileset["firstgid"]] = parse_tmx_tileset(
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index aa246f5..59782ea 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -21,7 +21,7 @@ def parse(file: Path) -> TiledMap:
     Returns:
         TiledMap: A parsed TiledMap.
     """
-    with open(file) as map_file:
+    with open(file, encoding="utf-8") as map_file:
         raw_map = etree.parse(map_file).getroot()
 
     parent_dir = file.parent
@@ -34,7 +34,7 @@ def parse(file: Path) -> TiledMap:
             # Is an external Tileset
             tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
             parser = check_format(tileset_path)
-            with open(tileset_path) as tileset_file:
+            with open(tileset_path, encoding="utf-8") as tileset_file:
                 if parser == "tmx":
                     raw_tileset_external = etree.parse(tileset_file).getroot()
                     tilesets[int(raw_tileset.attrib["firstgid"])] = parse_tmx_tileset(
diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index aef6e64..e9f1c27 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -53,7 +53,7 @@ def load_object_template(file_path: Path) -> Any:
     new_tileset_path = None
 
     if template_format == "tmx":
-        with open(file_path) as template_file:
+        with open(file_path, encoding="utf-8") as template_file:
             template = etree.parse(template_file).getroot()
 
             tileset_element = template.find("./tileset")
@@ -62,7 +62,7 @@ def load_object_template(file_path: Path) -> Any:
                 new_tileset = load_object_tileset(tileset_path)
                 new_tileset_path = tileset_path.parent
     else:
-        with open(file_path) as template_file:
+        with open(file_path, encoding="utf-8") as template_file:
             template = json.load(template_file)
             if "tileset" in template:
                 tileset_path = Path(file_path.parent / template["tileset"]["source"])  # type: ignore
@@ -77,7 +77,7 @@ def load_object_tileset(file_path: Path) -> Any:
 
     new_tileset = None
 
-    with open(file_path) as tileset_file:
+    with open(file_path, encoding="utf-8") as tileset_file:
         if tileset_format == "tmx":
             new_tileset = etree.parse(tileset_file).getroot()
         else:
diff --git a/pytiled_parser/world.py b/pytiled_parser/world.py
index 67214a6..a6ef88d 100644
--- a/pytiled_parser/world.py
+++ b/pytiled_parser/world.py
@@ -110,7 +110,7 @@ def parse_world(file: Path) -> World:
         World: A properly parsed [World][pytiled_parser.world.World]
     """
 
-    with open(file) as world_file:
+    with open(file, encoding="utf-8") as world_file:
         raw_world = json.load(world_file)
 
     parent_dir = file.parent
-- 
2.43.0


From 5aac77d479601d597516afcae0d7641b585b11fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:22 +0000
Subject: [PATCH 12/36] fix: raise ValueError for an unsupported tile data
 compression

As documented; the compressed bytes were returned as tile ids.
---
 pytiled_parser/parsers/json/layer.py | 4 +++-
 pytiled_parser/parsers/tmx/layer.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 268bc9d..56edc81 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -144,8 +144,10 @@ def _decode_tile_layer_data(
     # See above note at top of module about zstd tests
     elif compression == "zstd":  # pragma: no cover
         unzipped_data = zstd.decompress(unencoded_data)
-    else:
+    elif not compression:
         unzipped_data = unencoded_data
+    else:
+        raise ValueError(f"Unsupported tile layer compression: {compression}")
 
     tile_grid: List[int] = []
 
diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index 85d30d3..b58c94b 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -89,8 +89,10 @@ def _decode_tile_layer_data(
     # See above note at top of module about zstd tests
     elif compression == "zstd":  # pragma: no cover
         unzipped_data = zstd.decompress(unencoded_data)
-    else:
+    elif not compression:
         unzipped_data = unencoded_data
+    else:
+        raise ValueError(f"Unsupported tile layer compression: {compression}")
 
     tile_grid: List[int] = []
 
-- 
2.43.0


From 670c4b06202ee2b4e313485f5c35b5674c7598fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:23 +0000
Subject: [PATCH 13/36] fix: raise UnknownFormat for an invalid external
 tileset of a TMX map

The branch was unreachable; JSON maps already do this.
---
 pytiled_parser/parsers/tmx/tiled_map.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 59782ea..fd2b371 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -42,16 +42,20 @@ def parse(file: Path) -> TiledMap:
                         int(raw_tileset.attrib["firstgid"]),
                         external_path=tileset_path.parent,
                     )
-                elif parser == "json":
-                    tilesets[int(raw_tileset.attrib["firstgid"])] = parse_json_tileset(
-                        json.load(tileset_file),
-                        int(raw_tileset.attrib["firstgid"]),
-                        external_path=tileset_path.parent,
-                    )
                 else:
-                    raise UnknownFormat(
-                        "Unkown Tileset format, please use either the TSX or JSON format."
-                    )
+                    try:
+                        tilesets[
+                            int(raw_tileset.attrib["firstgid"])
+                        ] = parse_json_tileset(
+                            json.load(tileset_file),
+                            int(raw_tileset.attrib["firstgid"]),
+                            external_path=tileset_path.parent,
+                        )
+                    except ValueError:
+                        raise UnknownFormat(
+                            "Unknown Tileset Format, please use either the TSX or JSON format. "
+                            "This message could also mean your tileset file is invalid or corrupted."
+                        )
 
         else:
             # Is an embedded Tileset
-- 
2.43.0


From d2ed39f5726769e9f72484297b098b0387536ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 14/36] fix: parse empty tile layers of infinite TMX maps

Tiled writes them as a data element without chunks, which raised.
---
 pytiled_parser/parsers/tmx/layer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index b58c94b..1ec2357 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -234,7 +234,10 @@ def _parse_tile_layer(raw_layer: etree.Element) -> TileLayer:
 
         raw_chunks = data_element.findall("chunk")
         if not raw_chunks:
-            if encoding and encoding != "csv":
+            if not len(data_element) and not (data_element.text or "").strip():
+                # A layer of an infinite map that has no chunks
+                pass
+            elif encoding and encoding != "csv":
                 tile_layer.data = _decode_tile_layer_data(
                     data=data_element.text,  # type: ignore
                     compression=compression,
-- 
2.43.0


From 990d38e3b7deab0a9d581f4b026b3e6cb7dcdf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:24 +0000
Subject: [PATCH 15/36] fix: read TMX tile data stored as one XML element per
 tile

---
 pytiled_parser/parsers/tmx/layer.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index 1ec2357..11eda10 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -61,6 +61,22 @@ def _convert_raw_tile_layer_data(data: List[int], layer_width: int) -> List[List
     return tile_grid
 
 
+def _read_tile_ids(element: etree.Element) -> List[int]:
+    """Read the global tile IDs of CSV data or of one tile element per tile.
+
+    Args:
+        element: The data or chunk element
+
+    Returns:
+        List[int]: The global tile IDs
+    """
+    tiles = element.findall("./tile")
+    if tiles:
+        return [int(tile.attrib.get("gid", 0)) for tile in tiles]
+
+    return [int(v.strip()) for v in element.text.split(",")]  # type: ignore
+
+
 def _decode_tile_layer_data(
     data: str, compression: str, layer_width: int
 ) -> List[List[int]]:
@@ -133,7 +149,7 @@ def _parse_chunk(
         )
     else:
         data = _convert_raw_tile_layer_data(
-            [int(v.strip()) for v in raw_chunk.text.split(",")],  # type: ignore
+            _read_tile_ids(raw_chunk),
             int(raw_chunk.attrib["width"]),
         )
 
@@ -245,7 +261,7 @@ def _parse_tile_layer(raw_layer: etree.Element) -> TileLayer:
                 )
             else:
                 tile_layer.data = _convert_raw_tile_layer_data(
-                    [int(v.strip()) for v in data_element.text.split(",")],  # type: ignore
+                    _read_tile_ids(data_element),
                     int(raw_layer.attrib["width"]),
                 )
         else:
-- 
2.43.0


From a032ad7d9bec448212fe05914666c338207e383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:25 +0000
Subject: [PATCH 16/36] fix: accept JSON tile data with the documented encoding
 defaults

"csv" as the explicit encoding and a base64 layer without a compression key raised.
---
 pytiled_parser/parsers/json/layer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 56edc81..ca3e283 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -279,16 +279,18 @@ def _parse_tile_layer(raw_layer: RawLayer) -> TileLayer:
         for chunk in raw_layer["chunks"]:
             if raw_layer.get("encoding") is not None:
                 tile_layer.chunks.append(
-                    _parse_chunk(chunk, raw_layer["encoding"], raw_layer["compression"])
+                    _parse_chunk(
+                        chunk, raw_layer["encoding"], raw_layer.get("compression", "")
+                    )
                 )
             else:
                 tile_layer.chunks.append(_parse_chunk(chunk))
 
     if raw_layer.get("data") is not None:
-        if raw_layer.get("encoding") is not None:
+        if raw_layer.get("encoding") not in (None, "csv"):
             tile_layer.data = _decode_tile_layer_data(
                 data=cast(str, raw_layer["data"]),
-                compression=raw_layer["compression"],
+                compression=raw_layer.get("compression", ""),
                 layer_width=raw_layer["width"],
             )
         else:
-- 
2.43.0


From da52d8c2a497589e48cdd108d69ba36bb0466bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 17/36] fix: convert whole-number JSON versions to strings too

---
 pytiled_parser/parsers/json/tiled_map.py | 2 +-
 pytiled_parser/parsers/json/tileset.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index f2ba2cf..8dbd261 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -104,7 +104,7 @@ def parse(file: Path) -> TiledMap:
                 raw_tileset, raw_tileset["firstgid"]
             )
 
-    if isinstance(raw_tiled_map["version"], float):  # pragma: no cover
+    if isinstance(raw_tiled_map["version"], (int, float)):  # pragma: no cover
         version = str(raw_tiled_map["version"])
     else:
         version = raw_tiled_map["version"]
diff --git a/pytiled_parser/parsers/json/tileset.py b/pytiled_parser/parsers/json/tileset.py
index cbbc51d..c15b39e 100644
--- a/pytiled_parser/parsers/json/tileset.py
+++ b/pytiled_parser/parsers/json/tileset.py
@@ -260,7 +260,7 @@ def parse(
         # to keep old versions in the test data and not update them with the
         # rest so I'm excluding this from coverage. In reality it's probably
         # not needed. Tiled hasn't been using floats for the version for a long time
-        if isinstance(raw_tileset["version"], float):  # pragma: no cover
+        if isinstance(raw_tileset["version"], (int, float)):  # pragma: no cover
             tileset.version = str(raw_tileset["version"])
         else:
             tileset.version = raw_tileset["version"]
-- 
2.43.0


From 8514d9b3e3498c275a9dea64b00e84f12ee81831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 18/36] fix: do not test XML elements for truth

It is deprecated, raises when warnings are errors, and treated empty property
lists differently from the JSON parser.
---
 pytiled_parser/parsers/tmx/tiled_map.py    | 2 +-
 pytiled_parser/parsers/tmx/tiled_object.py | 2 +-
 pytiled_parser/parsers/tmx/wang_set.py     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index fd2b371..3ca20de 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -136,7 +136,7 @@ def parse(file: Path) -> TiledMap:
         map_.hex_side_length = int(raw_map.attrib["hexsidelength"])
 
     properties_element = raw_map.find("./properties")
-    if properties_element:
+    if properties_element is not None:
         map_.properties = parse_properties(properties_element)
 
     if raw_map.attrib.get("staggeraxis") is not None:
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 0d4da2d..28b07af 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -55,7 +55,7 @@ def _parse_common(raw_object: etree.Element) -> TiledObject:
         common.class_ = raw_object.attrib["class"]
 
     properties_element = raw_object.find("./properties")
-    if properties_element:
+    if properties_element is not None:
         common.properties = parse_properties(properties_element)
 
     return common
diff --git a/pytiled_parser/parsers/tmx/wang_set.py b/pytiled_parser/parsers/tmx/wang_set.py
index 0789cb1..3401311 100644
--- a/pytiled_parser/parsers/tmx/wang_set.py
+++ b/pytiled_parser/parsers/tmx/wang_set.py
@@ -38,7 +38,7 @@ def _parse_wang_color(raw_wang_color: etree.Element) -> WangColor:
         wang_color.class_ = raw_wang_color.attrib["class"]
 
     properties = raw_wang_color.find("./properties")
-    if properties:
+    if properties is not None:
         wang_color.properties = parse_properties(properties)
 
     return wang_color
@@ -74,7 +74,7 @@ def parse(raw_wangset: etree.Element) -> WangSet:
         wangset.class_ = raw_wangset.attrib["class"]
 
     properties = raw_wangset.find("./properties")
-    if properties:
+    if properties is not None:
         wangset.properties = parse_properties(properties)
 
     return wangset
-- 
2.43.0


From 0677be5ee06663b1113afb3f32cc88e3e75e9ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:28 +0000
Subject: [PATCH 19/36] fix: the image size is optional in TSX tilesets, as in
 JSON

---
 pytiled_parser/parsers/tmx/tileset.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tileset.py b/pytiled_parser/parsers/tmx/tileset.py
index 5d788af..e288097 100644
--- a/pytiled_parser/parsers/tmx/tileset.py
+++ b/pytiled_parser/parsers/tmx/tileset.py
@@ -106,10 +106,13 @@ def _parse_tile(raw_tile: etree.Element, external_path: Optional[Path] = None) -
         else:
             tile.image = Path(image_element.attrib["source"])
 
-        tile.image_width = int(image_element.attrib["width"])
-        tile.width = tile.image_width
-        tile.image_height = int(image_element.attrib["height"])
-        tile.height = tile.image_height
+        if image_element.attrib.get("width") is not None:
+            tile.image_width = int(image_element.attrib["width"])
+            tile.width = tile.image_width
+
+        if image_element.attrib.get("height") is not None:
+            tile.image_height = int(image_element.attrib["height"])
+            tile.height = tile.image_height
 
     if raw_tile.attrib.get("x") is not None:
         tile.x = int(raw_tile.attrib["x"])
@@ -178,8 +181,11 @@ def parse(
         else:
             tileset.image = Path(image_element.attrib["source"])
 
-        tileset.image_width = int(image_element.attrib["width"])
-        tileset.image_height = int(image_element.attrib["height"])
+        if image_element.attrib.get("width") is not None:
+            tileset.image_width = int(image_element.attrib["width"])
+
+        if image_element.attrib.get("height") is not None:
+            tileset.image_height = int(image_element.attrib["height"])
 
         if image_element.attrib.get("trans") is not None:
             my_string = image_element.attrib["trans"]
-- 
2.43.0


From ffb71cf63f8744d4280b824e2b1d210aefd67018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:29 +0000
Subject: [PATCH 20/36] fix: refuse malformed colors

Any leading character was dropped and signs and spaces were accepted as digits,
which could even give negative components.
---
 pytiled_parser/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index e9f1c27..5c46d8b 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -1,5 +1,6 @@
 """Utility Functions for PyTiled"""
 import json
+import re
 import xml.etree.ElementTree as etree
 from pathlib import Path
 from typing import Any
@@ -17,6 +18,9 @@ def parse_color(color: str) -> Color:
     Returns:
         :Color: Color object in the format that PyTiled understands.
     """
+    if not re.fullmatch(r"#?([0-9A-Fa-f]{6}|[0-9A-Fa-f]{8})", color):
+        raise ValueError("Improperly formatted color passed to parse_color")
+
     # the actual part we care about is always an even number
     if len(color) % 2:
         # strip initial '#' character
-- 
2.43.0


From 06ecb071ff64223aedb9144d883440394531811a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 21/36] fix: resolve template tilesets of objects inside layer
 groups

Their gids stayed relative to the template and they kept the raw tileset.
---
 pytiled_parser/parsers/json/tiled_map.py | 23 +++++++++++++++++++----
 pytiled_parser/parsers/tmx/tiled_map.py  | 22 +++++++++++++++++++---
 2 files changed, 38 insertions(+), 7 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 8dbd261..c723ad2 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -1,12 +1,13 @@
 import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
-from typing import List, Union, cast
+from typing import Iterator, List, Union, cast
 
 from typing_extensions import TypedDict
 
 from pytiled_parser.common_types import OrderedPair, Size
 from pytiled_parser.exception import UnknownFormat
+from pytiled_parser.layer import Layer, LayerGroup, ObjectLayer
 from pytiled_parser.parsers.json.layer import RawLayer
 from pytiled_parser.parsers.json.layer import parse as parse_layer
 from pytiled_parser.parsers.json.properties import RawProperty
@@ -55,6 +56,22 @@ RawTiledMap.__doc__ = """
 """
 
 
+def _object_layers(layers: List[Layer]) -> Iterator[ObjectLayer]:
+    """Find all object layers, including those inside of groups.
+
+    Args:
+        layers: The layers to search.
+
+    Returns:
+        Iterator[ObjectLayer]: The object layers in document order.
+    """
+    for layer in layers:
+        if isinstance(layer, LayerGroup):
+            yield from _object_layers(layer.layers or [])
+        elif isinstance(layer, ObjectLayer):
+            yield layer
+
+
 def parse(file: Path) -> TiledMap:
     """Parse the raw Tiled map into a pytiled_parser type.
 
@@ -125,9 +142,7 @@ def parse(file: Path) -> TiledMap:
         version=version,
     )
 
-    layers = [layer for layer in map_.layers if hasattr(layer, "tiled_objects")]
-
-    for my_layer in layers:
+    for my_layer in _object_layers(map_.layers):
         # Mypy extremely hates what is going on in this whole block
         # For some reason an ignore on this first for loop is causing it
         # to just not care about any of the problems in here.
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 3ca20de..10603bb 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -1,9 +1,11 @@
 import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
+from typing import Iterator, List
 
 from pytiled_parser.common_types import OrderedPair, Size
 from pytiled_parser.exception import UnknownFormat
+from pytiled_parser.layer import Layer, LayerGroup, ObjectLayer
 from pytiled_parser.parsers.json.tileset import parse as parse_json_tileset
 from pytiled_parser.parsers.tmx.layer import parse as parse_layer
 from pytiled_parser.parsers.tmx.properties import parse as parse_properties
@@ -12,6 +14,22 @@ from pytiled_parser.tiled_map import TiledMap, TilesetDict
 from pytiled_parser.util import check_format, parse_color
 
 
+def _object_layers(layers: List[Layer]) -> Iterator[ObjectLayer]:
+    """Find all object layers, including those inside of groups.
+
+    Args:
+        layers: The layers to search.
+
+    Returns:
+        Iterator[ObjectLayer]: The object layers in document order.
+    """
+    for layer in layers:
+        if isinstance(layer, LayerGroup):
+            yield from _object_layers(layer.layers or [])
+        elif isinstance(layer, ObjectLayer):
+            yield layer
+
+
 def parse(file: Path) -> TiledMap:
     """Parse the raw Tiled map into a pytiled_parser type.
 
@@ -85,9 +103,7 @@ def parse(file: Path) -> TiledMap:
         version=raw_map.attrib["version"],
     )
 
-    layers = [layer for layer in map_.layers if hasattr(layer, "tiled_objects")]
-
-    for my_layer in layers:
+    for my_layer in _object_layers(map_.layers):
         # Mypy extremely hates what is going on in this whole block
         # For some reason an ignore on this first for loop is causing it
         # to just not care about any of the problems in here.
-- 
2.43.0


From 6474d0c852e44b1750be5640106e7eac7ff902d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:18 +0000
Subject: [PATCH 22/36] fix: template tilesets in maps that declare no tileset

---
 pytiled_parser/parsers/json/tiled_map.py | 8 +++++---
 pytiled_parser/parsers/tmx/tiled_map.py  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index c723ad2..4e6f99a 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -166,9 +166,11 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        highest_firstgid = max(map_.tilesets.keys())
-                        last_tileset_count = map_.tilesets[highest_firstgid].tile_count
-                        new_firstgid = highest_firstgid + last_tileset_count
+                        new_firstgid = 1
+                        if map_.tilesets:
+                            highest_firstgid = max(map_.tilesets.keys())
+                            last_tileset = map_.tilesets[highest_firstgid]
+                            new_firstgid = highest_firstgid + last_tileset.tile_count
                         map_.tilesets[new_firstgid] = parse_json_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 10603bb..7a5e892 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -127,9 +127,11 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        highest_firstgid = max(map_.tilesets.keys())
-                        last_tileset_count = map_.tilesets[highest_firstgid].tile_count
-                        new_firstgid = highest_firstgid + last_tileset_count
+                        new_firstgid = 1
+                        if map_.tilesets:
+                            highest_firstgid = max(map_.tilesets.keys())
+                            last_tileset = map_.tilesets[highest_firstgid]
+                            new_firstgid = highest_firstgid + last_tileset.tile_count
                         map_.tilesets[new_firstgid] = parse_tmx_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
-- 
2.43.0


From f5915f2b7f2cb01761a63efc2dbc05a69481ba21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:19 +0000
Subject: [PATCH 23/36] fix: do not let template tilesets overlap image
 collections with gaps

---
 pytiled_parser/parsers/json/tiled_map.py | 6 +++++-
 pytiled_parser/parsers/tmx/tiled_map.py  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 4e6f99a..c57e0c9 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -170,7 +170,11 @@ def parse(file: Path) -> TiledMap:
                         if map_.tilesets:
                             highest_firstgid = max(map_.tilesets.keys())
                             last_tileset = map_.tilesets[highest_firstgid]
-                            new_firstgid = highest_firstgid + last_tileset.tile_count
+                            # Tile IDs of an image collection can have gaps
+                            new_firstgid = highest_firstgid + max(
+                                last_tileset.tile_count,
+                                max(last_tileset.tiles or {}, default=-1) + 1,
+                            )
                         map_.tilesets[new_firstgid] = parse_json_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 7a5e892..4dcd9da 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -131,7 +131,11 @@ def parse(file: Path) -> TiledMap:
                         if map_.tilesets:
                             highest_firstgid = max(map_.tilesets.keys())
                             last_tileset = map_.tilesets[highest_firstgid]
-                            new_firstgid = highest_firstgid + last_tileset.tile_count
+                            # Tile IDs of an image collection can have gaps
+                            new_firstgid = highest_firstgid + max(
+                                last_tileset.tile_count,
+                                max(last_tileset.tiles or {}, default=-1) + 1,
+                            )
                         map_.tilesets[new_firstgid] = parse_tmx_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
-- 
2.43.0


From 4136fddfd02cd1ca428e2b2790306a85b010a598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:20 +0000
Subject: [PATCH 24/36] fix: template tilesets in the other format than the map

TSX and JSON tilesets work in both kinds of maps, but a template of a JSON map
with a TSX tileset (Tiled's default) raised TypeError, and the other way round.
---
 pytiled_parser/parsers/json/tiled_map.py | 11 +++++++++--
 pytiled_parser/parsers/tmx/tiled_map.py  | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index c57e0c9..f5114ee 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -159,9 +159,16 @@ def parse(file: Path) -> TiledMap:
         for tiled_object in my_layer.tiled_objects:  # type: ignore
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
+                    if isinstance(tiled_object.new_tileset, etree.Element):
+                        new_name = tiled_object.new_tileset.attrib["name"]
+                        parse_new_tileset = parse_tmx_tileset
+                    else:
+                        new_name = tiled_object.new_tileset["name"]
+                        parse_new_tileset = parse_json_tileset
+
                     already_loaded = None
                     for val in map_.tilesets.values():
-                        if val.name == tiled_object.new_tileset["name"]:
+                        if val.name == new_name:
                             already_loaded = val
                             break
 
@@ -175,7 +182,7 @@ def parse(file: Path) -> TiledMap:
                                 last_tileset.tile_count,
                                 max(last_tileset.tiles or {}, default=-1) + 1,
                             )
-                        map_.tilesets[new_firstgid] = parse_json_tileset(
+                        map_.tilesets[new_firstgid] = parse_new_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
                             tiled_object.new_tileset_path,
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 4dcd9da..4b196a2 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -120,9 +120,16 @@ def parse(file: Path) -> TiledMap:
         for tiled_object in my_layer.tiled_objects:  # type: ignore
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
+                    if isinstance(tiled_object.new_tileset, etree.Element):
+                        new_name = tiled_object.new_tileset.attrib["name"]
+                        parse_new_tileset = parse_tmx_tileset
+                    else:
+                        new_name = tiled_object.new_tileset["name"]
+                        parse_new_tileset = parse_json_tileset
+
                     already_loaded = None
                     for val in map_.tilesets.values():
-                        if val.name == tiled_object.new_tileset.attrib["name"]:
+                        if val.name == new_name:
                             already_loaded = val
                             break
 
@@ -136,7 +143,7 @@ def parse(file: Path) -> TiledMap:
                                 last_tileset.tile_count,
                                 max(last_tileset.tiles or {}, default=-1) + 1,
                             )
-                        map_.tilesets[new_firstgid] = parse_tmx_tileset(
+                        map_.tilesets[new_firstgid] = parse_new_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
                             tiled_object.new_tileset_path,
-- 
2.43.0


From fdc428c8c3c310e7dc5cb839015a1ea781aa0308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:20 +0000
Subject: [PATCH 25/36] fix: values of JSON template instances override the
 template's

The template's values were written over the overridden ones.
---
 pytiled_parser/parsers/json/tiled_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 33cae00..9fa80ce 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -318,7 +318,7 @@ def parse(
         if isinstance(template, dict):
             loaded_template = template["object"]
             for key in loaded_template:
-                if key != "id":
+                if key not in raw_object:
                     raw_object[key] = loaded_template[key]  # type: ignore
         else:
             raise NotImplementedError(
-- 
2.43.0


From a7af60043e858ea846dcd4319f388ab825e79ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:21 +0000
Subject: [PATCH 26/36] fix: merge the properties of template instances with
 the template's

Only the template's (TMX) or the instance's (JSON) list was used.
---
 pytiled_parser/parsers/json/tiled_object.py | 3 +++
 pytiled_parser/parsers/tmx/tiled_object.py  | 7 ++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 9fa80ce..38a6069 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -320,6 +320,9 @@ def parse(
             for key in loaded_template:
                 if key not in raw_object:
                     raw_object[key] = loaded_template[key]  # type: ignore
+                elif key == "properties":
+                    # The last of several properties of one name is used
+                    raw_object[key] = loaded_template[key] + raw_object[key]
         else:
             raise NotImplementedError(
                 "Loading TMX object templates inside a JSON map is currently not supported, "
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 28b07af..9df67c4 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -279,7 +279,12 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
 
                 properties_element = raw_object.find("./properties")
                 if properties_element is not None:
-                    new_object.append(properties_element)
+                    template_properties = new_object.find("./properties")
+                    if template_properties is not None:
+                        # The last of several properties of one name is used
+                        template_properties.extend(properties_element)
+                    else:
+                        new_object.append(properties_element)
 
                 raw_object = new_object
         elif isinstance(template, dict):
-- 
2.43.0


From fec3b7e4d211e173e5f9eb546bce410e50463f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:22 +0000
Subject: [PATCH 27/36] fix: TMX template instances can override the shape and
 text

Only attributes and properties of the instance were applied.
---
 pytiled_parser/parsers/tmx/tiled_object.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 9df67c4..c050ec0 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -277,6 +277,13 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
                         continue
                     new_object.attrib[key] = val
 
+                for child in raw_object:
+                    if child.tag != "properties":
+                        template_child = new_object.find(child.tag)
+                        if template_child is not None:
+                            new_object.remove(template_child)
+                        new_object.append(child)
+
                 properties_element = raw_object.find("./properties")
                 if properties_element is not None:
                     template_properties = new_object.find("./properties")
-- 
2.43.0


From d35aa3ab776ccff2755263ece2f84cd6798a7acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 28/36] fix: keep the gid that a template instance overrides

It refers to the map's tilesets, but was shifted as if it were the template's.
---
 pytiled_parser/parsers/json/tiled_object.py | 5 +++++
 pytiled_parser/parsers/tmx/tiled_object.py  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 38a6069..1190b67 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -315,6 +315,11 @@ def parse(
         template_path = Path(parent_dir / raw_object["template"])
         template, new_tileset, new_tileset_path = load_object_template(template_path)
 
+        if raw_object.get("gid"):
+            # An overridden gid already refers to the tilesets of the map
+            new_tileset = None
+            new_tileset_path = None
+
         if isinstance(template, dict):
             loaded_template = template["object"]
             for key in loaded_template:
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index c050ec0..ea3b77d 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -269,6 +269,11 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
         template_path = Path(parent_dir / raw_object.attrib["template"])
         template, new_tileset, new_tileset_path = load_object_template(template_path)
 
+        if raw_object.attrib.get("gid"):
+            # An overridden gid already refers to the tilesets of the map
+            new_tileset = None
+            new_tileset_path = None
+
         if isinstance(template, etree.Element):
             new_object = template.find("./object")
             if new_object is not None:
-- 
2.43.0


From 802d2a1dcf616c2f0e170e13b8492d5d519582a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:24 +0000
Subject: [PATCH 29/36] fix: an overridden class wins over the template's under
 either name

Tiled 1.9 calls the class of objects "class", all other versions "type".
---
 pytiled_parser/parsers/json/tiled_object.py | 4 ++++
 pytiled_parser/parsers/tmx/tiled_object.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 1190b67..3859d64 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -322,6 +322,10 @@ def parse(
 
         if isinstance(template, dict):
             loaded_template = template["object"]
+            if "class" in raw_object or "type" in raw_object:
+                loaded_template.pop("class", None)
+                loaded_template.pop("type", None)
+
             for key in loaded_template:
                 if key not in raw_object:
                     raw_object[key] = loaded_template[key]  # type: ignore
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index ea3b77d..54adcef 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -277,6 +277,10 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
         if isinstance(template, etree.Element):
             new_object = template.find("./object")
             if new_object is not None:
+                if "class" in raw_object.attrib or "type" in raw_object.attrib:
+                    new_object.attrib.pop("class", None)
+                    new_object.attrib.pop("type", None)
+
                 for key, val in raw_object.attrib.items():
                     if key == "template":
                         continue
-- 
2.43.0


From b702bc1d7f895acd2d8a18c91ba5a0cdd3a263c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:44 +0000
Subject: [PATCH 30/36] fix: type annotations of the template handling pass
 mypy again

---
 pytiled_parser/parsers/json/tiled_map.py    | 7 ++++---
 pytiled_parser/parsers/json/tiled_object.py | 4 +++-
 pytiled_parser/parsers/tmx/tiled_map.py     | 7 ++++---
 3 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index f5114ee..1bbe96d 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -1,7 +1,7 @@
 import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
-from typing import Iterator, List, Union, cast
+from typing import Any, Callable, Iterator, List, Union, cast
 
 from typing_extensions import TypedDict
 
@@ -16,6 +16,7 @@ from pytiled_parser.parsers.json.tileset import RawTileSet
 from pytiled_parser.parsers.json.tileset import parse as parse_json_tileset
 from pytiled_parser.parsers.tmx.tileset import parse as parse_tmx_tileset
 from pytiled_parser.tiled_map import TiledMap, TilesetDict
+from pytiled_parser.tileset import Tileset
 from pytiled_parser.util import check_format, parse_color
 
 RawTilesetMapping = TypedDict("RawTilesetMapping", {"firstgid": int, "source": str})
@@ -56,7 +57,7 @@ RawTiledMap.__doc__ = """
 """
 
 
-def _object_layers(layers: List[Layer]) -> Iterator[ObjectLayer]:
+def _object_layers(layers: List[Layer]) -> Iterator[Any]:
     """Find all object layers, including those inside of groups.
 
     Args:
@@ -161,7 +162,7 @@ def parse(file: Path) -> TiledMap:
                 if tiled_object.new_tileset is not None:
                     if isinstance(tiled_object.new_tileset, etree.Element):
                         new_name = tiled_object.new_tileset.attrib["name"]
-                        parse_new_tileset = parse_tmx_tileset
+                        parse_new_tileset: Callable[..., Tileset] = parse_tmx_tileset
                     else:
                         new_name = tiled_object.new_tileset["name"]
                         parse_new_tileset = parse_json_tileset
diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 3859d64..cd6f3af 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -331,7 +331,9 @@ def parse(
                     raw_object[key] = loaded_template[key]  # type: ignore
                 elif key == "properties":
                     # The last of several properties of one name is used
-                    raw_object[key] = loaded_template[key] + raw_object[key]
+                    raw_object["properties"] = (
+                        loaded_template["properties"] + raw_object["properties"]
+                    )
         else:
             raise NotImplementedError(
                 "Loading TMX object templates inside a JSON map is currently not supported, "
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 4b196a2..c2a8291 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -1,7 +1,7 @@
 import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
-from typing import Iterator, List
+from typing import Any, Callable, Iterator, List
 
 from pytiled_parser.common_types import OrderedPair, Size
 from pytiled_parser.exception import UnknownFormat
@@ -11,10 +11,11 @@ from pytiled_parser.parsers.tmx.layer import parse as parse_layer
 from pytiled_parser.parsers.tmx.properties import parse as parse_properties
 from pytiled_parser.parsers.tmx.tileset import parse as parse_tmx_tileset
 from pytiled_parser.tiled_map import TiledMap, TilesetDict
+from pytiled_parser.tileset import Tileset
 from pytiled_parser.util import check_format, parse_color
 
 
-def _object_layers(layers: List[Layer]) -> Iterator[ObjectLayer]:
+def _object_layers(layers: List[Layer]) -> Iterator[Any]:
     """Find all object layers, including those inside of groups.
 
     Args:
@@ -122,7 +123,7 @@ def parse(file: Path) -> TiledMap:
                 if tiled_object.new_tileset is not None:
                     if isinstance(tiled_object.new_tileset, etree.Element):
                         new_name = tiled_object.new_tileset.attrib["name"]
-                        parse_new_tileset = parse_tmx_tileset
+                        parse_new_tileset: Callable[..., Tileset] = parse_tmx_tileset
                     else:
                         new_name = tiled_object.new_tileset["name"]
                         parse_new_tileset = parse_json_tileset
-- 
2.43.0


From 49a75c26fd69ca806bfd1db2b83b7c41625476da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:00 +0000
Subject: [PATCH 31/36] fix: refuse empty encoded tile data

A gzip payload cut to nothing decompresses to nothing and gave a layer
with a single empty row.
---
 pytiled_parser/parsers/json/layer.py | 6 +++++-
 pytiled_parser/parsers/tmx/layer.py  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index ca3e283..cc9e660 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -129,9 +129,13 @@ def _decode_tile_layer_data(
         List[List[int]]: A nested list containing the decoded data
 
     Raises:
-        ValueError: For an unsupported compression type.
+        ValueError: For empty data or an unsupported compression type.
     """
     unencoded_data = base64.b64decode(data)
+    if not unencoded_data:
+        # gzip takes this for a valid stream of nothing
+        raise ValueError("Tile layer data is empty")
+
     if compression == "zlib":
         unzipped_data = zlib.decompress(unencoded_data)
     elif compression == "gzip":
diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index 11eda10..d685644 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -90,9 +90,13 @@ def _decode_tile_layer_data(
         List[List[int]]: A nested list containing the decoded data
 
     Raises:
-        ValueError: For an unsupported compression type.
+        ValueError: For empty data or an unsupported compression type.
     """
     unencoded_data = base64.b64decode(data)
+    if not unencoded_data:
+        # gzip takes this for a valid stream of nothing
+        raise ValueError("Tile layer data is empty")
+
     if compression == "zlib":
         unzipped_data = zlib.decompress(unencoded_data)
     elif compression == "gzip":
-- 
2.43.0


From cefcdb136a4ea213e555ccb4c5c004b257b40a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:08 +0000
Subject: [PATCH 32/36] fix: refuse an unknown encoding of tile data

---
 pytiled_parser/parsers/json/layer.py | 3 +++
 pytiled_parser/parsers/tmx/layer.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index cc9e660..da6d249 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -278,6 +278,9 @@ def _parse_tile_layer(raw_layer: RawLayer) -> TileLayer:
     """
     tile_layer = TileLayer(**_parse_common(raw_layer).__dict__)
 
+    if raw_layer.get("encoding") and raw_layer["encoding"] not in ("csv", "base64"):
+        raise ValueError(f"Unsupported tile layer encoding: {raw_layer['encoding']}")
+
     if raw_layer.get("chunks") is not None:
         tile_layer.chunks = []
         for chunk in raw_layer["chunks"]:
diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index d685644..34c94e5 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -248,6 +248,9 @@ def _parse_tile_layer(raw_layer: etree.Element) -> TileLayer:
         if data_element.attrib.get("encoding") is not None:
             encoding = data_element.attrib["encoding"]
 
+        if encoding and encoding not in ("csv", "base64"):
+            raise ValueError(f"Unsupported tile layer encoding: {encoding}")
+
         compression = ""
         if data_element.attrib.get("compression") is not None:
             compression = data_element.attrib["compression"]
-- 
2.43.0


From 4c806dab1e30a447adb8e41a8dc66864fe63917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:57 +0000
Subject: [PATCH 33/36] fix: find a template's tileset without searching all
 tilesets

---
 pytiled_parser/parsers/json/tiled_map.py | 13 +++++++------
 pytiled_parser/parsers/tmx/tiled_map.py  | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 1bbe96d..d292e65 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -1,7 +1,7 @@
 import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
-from typing import Any, Callable, Iterator, List, Union, cast
+from typing import Any, Callable, Dict, Iterator, List, Union, cast
 
 from typing_extensions import TypedDict
 
@@ -143,6 +143,10 @@ def parse(file: Path) -> TiledMap:
         version=version,
     )
 
+    tilesets_by_name: Dict[str, Tileset] = {}
+    for tileset in map_.tilesets.values():
+        tilesets_by_name.setdefault(tileset.name, tileset)
+
     for my_layer in _object_layers(map_.layers):
         # Mypy extremely hates what is going on in this whole block
         # For some reason an ignore on this first for loop is causing it
@@ -167,11 +171,7 @@ def parse(file: Path) -> TiledMap:
                         new_name = tiled_object.new_tileset["name"]
                         parse_new_tileset = parse_json_tileset
 
-                    already_loaded = None
-                    for val in map_.tilesets.values():
-                        if val.name == new_name:
-                            already_loaded = val
-                            break
+                    already_loaded = tilesets_by_name.get(new_name)
 
                     if not already_loaded:
                         new_firstgid = 1
@@ -188,6 +188,7 @@ def parse(file: Path) -> TiledMap:
                             new_firstgid,
                             tiled_object.new_tileset_path,
                         )
+                        tilesets_by_name[new_name] = map_.tilesets[new_firstgid]
                         tiled_object.gid = tiled_object.gid + (new_firstgid - 1)
 
                     else:
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index c2a8291..d775166 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -1,7 +1,7 @@
 import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
-from typing import Any, Callable, Iterator, List
+from typing import Any, Callable, Dict, Iterator, List
 
 from pytiled_parser.common_types import OrderedPair, Size
 from pytiled_parser.exception import UnknownFormat
@@ -104,6 +104,10 @@ def parse(file: Path) -> TiledMap:
         version=raw_map.attrib["version"],
     )
 
+    tilesets_by_name: Dict[str, Tileset] = {}
+    for tileset in map_.tilesets.values():
+        tilesets_by_name.setdefault(tileset.name, tileset)
+
     for my_layer in _object_layers(map_.layers):
         # Mypy extremely hates what is going on in this whole block
         # For some reason an ignore on this first for loop is causing it
@@ -128,11 +132,7 @@ def parse(file: Path) -> TiledMap:
                         new_name = tiled_object.new_tileset["name"]
                         parse_new_tileset = parse_json_tileset
 
-                    already_loaded = None
-                    for val in map_.tilesets.values():
-                        if val.name == new_name:
-                            already_loaded = val
-                            break
+                    already_loaded = tilesets_by_name.get(new_name)
 
                     if not already_loaded:
                         new_firstgid = 1
@@ -149,6 +149,7 @@ def parse(file: Path) -> TiledMap:
                             new_firstgid,
                             tiled_object.new_tileset_path,
                         )
+                        tilesets_by_name[new_name] = map_.tilesets[new_firstgid]
                         tiled_object.gid = tiled_object.gid + (new_firstgid - 1)
 
                     else:
-- 
2.43.0


From 7b0338c58eededcb7b6514ad624e9ed99d66cc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:34 +0000
Subject: [PATCH 34/36] fix: tell template tilesets apart by their files, not
 their names

---
 pytiled_parser/parsers/json/tiled_map.py | 18 +++++++++---------
 pytiled_parser/parsers/tmx/tiled_map.py  | 18 +++++++++---------
 pytiled_parser/util.py                   |  4 ++--
 3 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index d292e65..ca6d547 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -89,6 +89,8 @@ def parse(file: Path) -> TiledMap:
 
     raw_tilesets: List[Union[RawTileSet, RawTilesetMapping]] = raw_tiled_map["tilesets"]
     tilesets: TilesetDict = {}
+    # Names of tilesets are not unique, their files are
+    tilesets_by_file: Dict[Path, Tileset] = {}
 
     for raw_tileset in raw_tilesets:
         if raw_tileset.get("source") is not None:
@@ -115,6 +117,9 @@ def parse(file: Path) -> TiledMap:
                             "Unknown Tileset Format, please use either the TSX or JSON format. "
                             "This message could also mean your tileset file is invalid or corrupted."
                         )
+            tilesets_by_file.setdefault(
+                tileset_path.resolve(), tilesets[raw_tileset["firstgid"]]
+            )
         else:
             # Is an embedded Tileset
             raw_tileset = cast(RawTileSet, raw_tileset)
@@ -143,10 +148,6 @@ def parse(file: Path) -> TiledMap:
         version=version,
     )
 
-    tilesets_by_name: Dict[str, Tileset] = {}
-    for tileset in map_.tilesets.values():
-        tilesets_by_name.setdefault(tileset.name, tileset)
-
     for my_layer in _object_layers(map_.layers):
         # Mypy extremely hates what is going on in this whole block
         # For some reason an ignore on this first for loop is causing it
@@ -165,13 +166,12 @@ def parse(file: Path) -> TiledMap:
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
                     if isinstance(tiled_object.new_tileset, etree.Element):
-                        new_name = tiled_object.new_tileset.attrib["name"]
                         parse_new_tileset: Callable[..., Tileset] = parse_tmx_tileset
                     else:
-                        new_name = tiled_object.new_tileset["name"]
                         parse_new_tileset = parse_json_tileset
 
-                    already_loaded = tilesets_by_name.get(new_name)
+                    new_file = tiled_object.new_tileset_path.resolve()
+                    already_loaded = tilesets_by_file.get(new_file)
 
                     if not already_loaded:
                         new_firstgid = 1
@@ -186,9 +186,9 @@ def parse(file: Path) -> TiledMap:
                         map_.tilesets[new_firstgid] = parse_new_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
-                            tiled_object.new_tileset_path,
+                            tiled_object.new_tileset_path.parent,
                         )
-                        tilesets_by_name[new_name] = map_.tilesets[new_firstgid]
+                        tilesets_by_file[new_file] = map_.tilesets[new_firstgid]
                         tiled_object.gid = tiled_object.gid + (new_firstgid - 1)
 
                     else:
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index d775166..4658adf 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -47,6 +47,8 @@ def parse(file: Path) -> TiledMap:
 
     raw_tilesets = raw_map.findall("./tileset")
     tilesets: TilesetDict = {}
+    # Names of tilesets are not unique, their files are
+    tilesets_by_file: Dict[Path, Tileset] = {}
 
     for raw_tileset in raw_tilesets:
         if raw_tileset.attrib.get("source") is not None:
@@ -75,6 +77,9 @@ def parse(file: Path) -> TiledMap:
                             "Unknown Tileset Format, please use either the TSX or JSON format. "
                             "This message could also mean your tileset file is invalid or corrupted."
                         )
+            tilesets_by_file.setdefault(
+                tileset_path.resolve(), tilesets[int(raw_tileset.attrib["firstgid"])]
+            )
 
         else:
             # Is an embedded Tileset
@@ -104,10 +109,6 @@ def parse(file: Path) -> TiledMap:
         version=raw_map.attrib["version"],
     )
 
-    tilesets_by_name: Dict[str, Tileset] = {}
-    for tileset in map_.tilesets.values():
-        tilesets_by_name.setdefault(tileset.name, tileset)
-
     for my_layer in _object_layers(map_.layers):
         # Mypy extremely hates what is going on in this whole block
         # For some reason an ignore on this first for loop is causing it
@@ -126,13 +127,12 @@ def parse(file: Path) -> TiledMap:
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
                     if isinstance(tiled_object.new_tileset, etree.Element):
-                        new_name = tiled_object.new_tileset.attrib["name"]
                         parse_new_tileset: Callable[..., Tileset] = parse_tmx_tileset
                     else:
-                        new_name = tiled_object.new_tileset["name"]
                         parse_new_tileset = parse_json_tileset
 
-                    already_loaded = tilesets_by_name.get(new_name)
+                    new_file = tiled_object.new_tileset_path.resolve()
+                    already_loaded = tilesets_by_file.get(new_file)
 
                     if not already_loaded:
                         new_firstgid = 1
@@ -147,9 +147,9 @@ def parse(file: Path) -> TiledMap:
                         map_.tilesets[new_firstgid] = parse_new_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
-                            tiled_object.new_tileset_path,
+                            tiled_object.new_tileset_path.parent,
                         )
-                        tilesets_by_name[new_name] = map_.tilesets[new_firstgid]
+                        tilesets_by_file[new_file] = map_.tilesets[new_firstgid]
                         tiled_object.gid = tiled_object.gid + (new_firstgid - 1)
 
                     else:
diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 5c46d8b..79ef1bb 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -64,14 +64,14 @@ def load_object_template(file_path: Path) -> Any:
             if tileset_element is not None:
                 tileset_path = Path(file_path.parent / tileset_element.attrib["source"])
                 new_tileset = load_object_tileset(tileset_path)
-                new_tileset_path = tileset_path.parent
+                new_tileset_path = tileset_path
     else:
         with open(file_path, encoding="utf-8") as template_file:
             template = json.load(template_file)
             if "tileset" in template:
                 tileset_path = Path(file_path.parent / template["tileset"]["source"])  # type: ignore
                 new_tileset = load_object_tileset(tileset_path)
-                new_tileset_path = tileset_path.parent
+                new_tileset_path = tileset_path
 
     return (template, new_tileset, new_tileset_path)
 
-- 
2.43.0


From 905a826ff1bc510687b5021e7c2f6ec8cad12d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 35/36] fix: refuse an empty transparent color of a TMX tileset
 like any other malformed one

---
 pytiled_parser/parsers/tmx/tileset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/tileset.py b/pytiled_parser/parsers/tmx/tileset.py
index e288097..509742a 100644
--- a/pytiled_parser/parsers/tmx/tileset.py
+++ b/pytiled_parser/parsers/tmx/tileset.py
@@ -189,7 +189,7 @@ def parse(
 
         if image_element.attrib.get("trans") is not None:
             my_string = image_element.attrib["trans"]
-            if my_string[0] != "#":
+            if not my_string.startswith("#"):
                 my_string = f"#{my_string}"
             tileset.transparent_color = parse_color(my_string)
 
-- 
2.43.0


From 0a8a705ae567a56b2506a821a610960d62a5b93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:07 +0000
Subject: [PATCH 36/36] fix: keep an empty tileset when a template adds one

A tileset without tiles has a first gid but no range, so the tileset that a
template adds replaced it in the table.
---
 pytiled_parser/parsers/json/tiled_map.py | 2 ++
 pytiled_parser/parsers/tmx/tiled_map.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index ca6d547..ce3e535 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -182,6 +182,8 @@ def parse(file: Path) -> TiledMap:
                             new_firstgid = highest_firstgid + max(
                                 last_tileset.tile_count,
                                 max(last_tileset.tiles or {}, default=-1) + 1,
+                                # Every tileset needs a key of its own, even an empty one
+                                1,
                             )
                         map_.tilesets[new_firstgid] = parse_new_tileset(
                             tiled_object.new_tileset,
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 4658adf..664d7fd 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -143,6 +143,8 @@ def parse(file: Path) -> TiledMap:
                             new_firstgid = highest_firstgid + max(
                                 last_tileset.tile_count,
                                 max(last_tileset.tiles or {}, default=-1) + 1,
+                                # Every tileset needs a key of its own, even an empty one
+                                1,
                             )
                         map_.tilesets[new_firstgid] = parse_new_tileset(
                             tiled_object.new_tileset,
-- 
2.43.0

