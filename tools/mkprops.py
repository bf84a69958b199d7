"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech],
            "observe_at": observe,
            "hook_needed": None,
        },
    })


J = "pytiled_parser/parsers/json/"
T = "pytiled_parser/parsers/tmx/"

prop("C01", "Tile layers decode to the exact grid of global tile ids",
     "For every tile layer of a finite map, in TMX or JSON, the parsed layer's data is exactly height rows of width "
     "integers, and the integer at each row and column is the unsigned 32-bit global tile id stored for that cell, flip "
     "and rotation bits included. How the cells are stored (JSON number array, CSV, one XML element per tile, base64 "
     "plain or compressed with zlib, gzip, or zstd where a decoder is installed; any white space or line breaks) never "
     "shows in the result.",
     ["inputs", "configurations"],
     "every layer size (1xN, Nx1, large), every 32-bit gid, every encoding x compression x level, both formats, layers at any nesting depth",
     "Seven fixed maps of 8x6 with gids 1..48 are tested; none has a flip bit, a gid above 255, a non-trivial shape, or a nested encoded layer.",
     [J + "layer.py", T + "layer.py", "pytiled_parser/layer.py"],
     [("_decode_tile_layer_data", J + "layer.py and " + T + "layer.py"), ("_convert_raw_tile_layer_data", J + "layer.py and " + T + "layer.py"), ("_parse_tile_layer", J + "layer.py and " + T + "layer.py")],
     ["parse_map(...).layers[*].data"],
     [("TileLayer.data", "row-first grid of gids", "pytiled_parser/layer.py")])

prop("C02", "Infinite maps keep every chunk, in place and with its own shape",
     "For every tile layer of an infinite map, the parsed chunks are the stored chunks in stored order, each with its own "
     "coordinates (negative ones included) and size, and with a grid of exactly its own height rows of its own width "
     "holding the stored global tile ids, whatever the encoding and compression. A tile layer without any tile parses, "
     "with no chunks and no data; a chunked layer has no flat data and a flat layer has no chunks.",
     ["inputs", "configurations"],
     "every number of chunks (zero included), chunk positions, chunk shapes different from each other and from the layer's, every encoding, both formats",
     "Two maps with two or four equally sized chunks at non-negative positions are tested; no empty layer, no negative coordinate, no chunk of a different shape.",
     [J + "layer.py", T + "layer.py"],
     [("_parse_chunk", J + "layer.py and " + T + "layer.py"), ("_parse_tile_layer", J + "layer.py and " + T + "layer.py")],
     ["parse_map(...).layers[*].chunks"],
     [("TileLayer.chunks", "list of Chunk", "pytiled_parser/layer.py")])

prop("C03", "The layer tree mirrors the document: order, nesting, each layer once",
     "The parsed map's layers are exactly the document's layers: each appears once, with its own kind, name and id, at its "
     "own position among its siblings (draw order) and inside the group that contains it, for any nesting and any mix of "
     "kinds, duplicate names included. Nothing that is not a layer of the map (such as the collision shapes of a tile in "
     "an embedded tileset) ever appears as one.",
     ["inputs"],
     "every ordered forest of tile, object, image and group layers, any depth, any kind order, both formats, with embedded tilesets carrying collision shapes",
     "Tests check one group with one child; the TMX layer tests re-order layers by kind and never look at the top-level list of a map with groups.",
     [T + "tiled_map.py", T + "layer.py", J + "layer.py", J + "tiled_map.py"],
     [("map layer loop", T + "tiled_map.py parse / " + J + "tiled_map.py parse"), ("_parse_group_layer", T + "layer.py and " + J + "layer.py")],
     ["parse_map(...).layers, recursively"],
     [("TiledMap.layers", "ordered top-level layers", "pytiled_parser/tiled_map.py"), ("LayerGroup.layers", "ordered children", "pytiled_parser/layer.py")])

prop("C04", "Every layer attribute has its stored value or its documented default",
     "For every layer of every kind, at any depth, each attribute (name, id, class, opacity, visibility, offset, parallax "
     "factor, tint colour, repeat flags, size, start coordinates, draw order, image, transparent colour) equals the value "
     "stored for that very layer. An attribute that is not stored has its documented default, each one independently of "
     "the others; stored zero, false and empty values are values, not absences.",
     ["inputs"],
     "every subset of optional attributes x every value (0, negative, fractional, empty, unicode), each layer kind, each depth, both formats",
     "About ten sample layers; no zero/false/empty value, no layer with only one of offset x/y, attributes of nested layers barely checked.",
     [T + "layer.py", J + "layer.py", "pytiled_parser/layer.py"],
     [("_parse_common", T + "layer.py and " + J + "layer.py"), ("_parse_image_layer / _parse_object_layer", T + "layer.py and " + J + "layer.py")],
     ["attributes of every Layer in parse_map(...)"])

prop("C05", "Every object keeps its kind, geometry, text settings and order",
     "Every object of every object layer (and every tile collision shape) is parsed in stored order as the kind it is "
     "(rectangle, ellipse, point, polygon, polyline, text or tile), with its id, name, class, position, size, rotation, "
     "visibility, exact list of points, text and text settings, or gid as stored. Whatever is not stored has its "
     "documented default, each attribute independently of the others.",
     ["inputs"],
     "every object kind x every subset of optional attributes x every value (zero, negative, tiny, huge, unicode, multi-line), any number of points and objects, both formats",
     "Tests parse some forty hand-picked objects one at a time; they do not vary attribute subsets, point counts, extreme numbers, or object order.",
     [T + "tiled_object.py", J + "tiled_object.py", "pytiled_parser/tiled_object.py"],
     [("_get_parser", T + "tiled_object.py and " + J + "tiled_object.py"), ("_parse_common, _parse_text, _parse_polygon, _parse_polyline, _parse_tile", T + "tiled_object.py and " + J + "tiled_object.py")],
     ["ObjectLayer.tiled_objects in parse_map(...)", "Tile.objects in tilesets"])

prop("C06", "Custom properties keep every name, type and value wherever they occur",
     "Every custom property of supported type on a map, layer, object, tileset, tile, wang set or wang colour is in that "
     "element's properties under its exact name, with the stored value: text as str (empty and multi-line included), "
     "numbers and object references as numbers, booleans as bool, files as Path, colours as Color. An element has exactly "
     "its own properties, and a class-typed property (not supported) never disturbs the others.",
     ["inputs"],
     "every property list: any names (empty, unicode, look-alikes of attributes), all types, boundary values, on every element kind, both formats",
     "One six-entry property list is reused in the tests; object references, multi-line text, empty values, odd names and most host elements are never covered in both formats.",
     [T + "properties.py", J + "properties.py", "pytiled_parser/properties.py"],
     [("parse", T + "properties.py and " + J + "properties.py"), ("callers", "layer, tiled_object, tileset, wang_set and tiled_map modules of both parsers")],
     ["the properties attribute of every parsed element"])

prop("C07", "Tilesets and their tiles carry exactly what their file stores",
     "For every tileset (embedded, external, or parsed on its own), each attribute (name, tile size, count, columns, "
     "spacing, margin, image and image size, offset, grid, transformations, colours, alignment, render size, fill mode, "
     "class, version) equals what is stored or its documented default. Its tiles are exactly the stored tiles, keyed by "
     "their own local id, each with its class, image and image size, sub-rectangle, animation frames in order and "
     "collision shapes.",
     ["inputs"],
     "every subset of optional tileset and tile attributes, sparse and unordered tile ids, any animation length, both formats, embedded/external/standalone",
     "Nine fixed tilesets are tested; optional attributes mostly one at a time, sub-rectangles and sparse ids hardly at all.",
     [T + "tileset.py", J + "tileset.py", "pytiled_parser/tileset.py", "pytiled_parser/parser.py"],
     [("parse, _parse_tile, _parse_frame, _parse_grid, _parse_transformations", T + "tileset.py and " + J + "tileset.py")],
     ["parse_map(...).tilesets", "parse_tileset(...)"])

prop("C08", "Terrain data is complete: wang sets, colours and tiles as stored",
     "For every tileset, the wang sets are exactly the stored ones in order, each with its name, type, class, representing "
     "tile (-1 included) and properties; its colours in order with name, colour, class, tile, probability and properties; "
     "and its wang tiles keyed by their own tile id, each with its eight stored indexes in stored order.",
     ["inputs"],
     "any number of wang sets, colours and wang tiles, every optional attribute, both formats, embedded/external/standalone",
     "One tileset with two similar wang sets is tested; class on wang sets or colours, fractional probability and more than four colours never.",
     [T + "wang_set.py", J + "wang_set.py", "pytiled_parser/wang_set.py"],
     [("parse, _parse_wang_color, _parse_wang_tile", T + "wang_set.py and " + J + "wang_set.py")],
     ["Tileset.wang_sets"])

prop("C09", "Map-level attributes are the document's, with documented defaults",
     "For every map, map_file is the path given, and infinite, map size, tile size, orientation, render order, next layer "
     "and object ids, version, Tiled version, class, background colour, hex side length, stagger axis and index, and "
     "parallax origin equal what the document stores. Optional ones that are not stored have their documented defaults, "
     "each independently (parallax origin x without y included).",
     ["inputs"],
     "every orientation x subset of optional map attributes x values, both formats",
     "Seven maps are tested, and the tests blank map_file, version and tiled_version before comparing.",
     [T + "tiled_map.py", J + "tiled_map.py", "pytiled_parser/tiled_map.py"],
     [("parse", T + "tiled_map.py and " + J + "tiled_map.py")],
     ["attributes of parse_map(...)"])

prop("C10", "TMX and JSON renderings of one map parse to the same result",
     "If a map and its tilesets and templates are saved once as TMX and once as JSON, the two parse results are equal in "
     "every attribute that both formats store. The same holds when a TMX map uses JSON tilesets or a JSON map uses TSX "
     "tilesets, for each tileset independently, and for tilesets parsed on their own.",
     ["inputs", "configurations"],
     "every map content x format of the map x format of each tileset",
     "Tests compare each format with a hand-written expectation on about twenty samples and cover cross-format tilesets with one tileset of one kind.",
     ["pytiled_parser/parser.py", "pytiled_parser/util.py", T + "tiled_map.py", J + "tiled_map.py"],
     [("check_format dispatch", "pytiled_parser/util.py, " + T + "tiled_map.py, " + J + "tiled_map.py"), ("two parallel parsers", T + " and " + J)],
     ["pairs of parse_map / parse_tileset results"])

prop("C11", "Every gid resolves to its intended tile, template tilesets included",
     "The parsed map's tilesets are keyed by first gid (each tileset's own firstgid), contain every tileset the map "
     "declares, and their gid ranges never overlap. A tileset that only a template brings in is added exactly once, after "
     "all others and without overlap, and every tile object at any nesting depth ends with a gid that (flip bits aside) "
     "resolves through this table to the tile its author placed. No parsed object keeps unresolved raw tileset data.",
     ["inputs", "configurations"],
     "every set of declared tilesets (none, sparse image collections, any order) x templates using declared or undeclared tilesets in either tileset format x objects at any depth, with flips",
     "One map with two template tile objects in one top-level layer is tested.",
     [T + "tiled_map.py", J + "tiled_map.py", "pytiled_parser/util.py", T + "tiled_object.py", J + "tiled_object.py"],
     [("template tileset resolution loop", T + "tiled_map.py parse and " + J + "tiled_map.py parse"), ("load_object_template", "pytiled_parser/util.py")],
     ["parse_map(...).tilesets and every Tile object's gid"],
     [("TiledMap.tilesets", "firstgid -> Tileset", "pytiled_parser/tiled_map.py"), ("Tile.new_tileset", "raw template tileset awaiting resolution", "pytiled_parser/tiled_object.py")])

prop("C12", "Template instances inherit from the template and override it",
     "An object placed from a template has the template's kind and every template value that the instance does not "
     "override, and the instance's own id, position and overridden values (name, class, size, rotation, visibility, shape, "
     "text, gid, properties) win. Properties are merged by name, the instance winning; any number of instances of one "
     "template are independent of each other and of their order.",
     ["inputs"],
     "every template kind x every subset of overridden values x any number and order of instances, both formats, any nesting",
     "One rectangle template with one added property and two tile templates without overrides are tested.",
     [T + "tiled_object.py", J + "tiled_object.py", "pytiled_parser/util.py"],
     [("template merge in parse", T + "tiled_object.py and " + J + "tiled_object.py"), ("load_object_template", "pytiled_parser/util.py")],
     ["objects with a template in parse_map(...)"])

prop("C13", "Paths lead to the right file from anywhere",
     "Images of a tileset kept in its own file are absolute, resolved against the directory of that tileset file; images of "
     "embedded tilesets, image layers, standalone tilesets and file properties stay exactly as written. External tilesets "
     "are found relative to the map, templates relative to the map, and a template's tileset relative to the template. "
     "None of this depends on the working directory or on whether the map was given by a relative, absolute or "
     "'..'-containing path.",
     ["inputs", "configurations"],
     "every layout of map, tileset, template and image directories x every spelling of the map path x working directory, both formats and mixtures",
     "One layout with a tileset in a subdirectory is tested, always through an absolute map path.",
     [T + "tiled_map.py", J + "tiled_map.py", T + "tileset.py", J + "tileset.py", "pytiled_parser/util.py"],
     [("external_path handling", T + "tileset.py and " + J + "tileset.py"), ("parent_dir joins", T + "tiled_map.py, " + J + "tiled_map.py, pytiled_parser/util.py")],
     ["image attributes of Tileset, Tile, ImageLayer", "files opened during parsing"])

prop("C14", "A world lists exactly its maps, placed and sized as declared",
     "A parsed world contains one entry per explicitly listed map, in order, with the declared size and coordinates and a "
     "path relative to the world file's directory, followed by one entry per (pattern, regular file of that directory "
     "whose name matches the pattern from its first character). A pattern entry is sized by the pattern's multipliers and "
     "placed at captured number times multiplier plus offset (zero when absent) on each axis; directories and other names "
     "contribute nothing, the only-show-adjacent flag is as stored, and no map file is opened.",
     ["inputs", "configurations"],
     "every list of maps x every pattern list x every directory content (matching, near-matching, sub-directories), optional offsets, negative and multi-digit captures",
     "Three worlds with at most two pattern matches, zero offsets and a clean directory are tested.",
     ["pytiled_parser/world.py"],
     [("parse_world", "pytiled_parser/world.py"), ("_parse_world_map", "pytiled_parser/world.py")],
     ["parse_world(...)"])

prop("C15", "Colours decode exactly, and malformed colours are refused",
     "Every colour written RRGGBB or AARRGGBB in hexadecimal of either case, with or without a leading '#', parses to "
     "exactly those red, green, blue and alpha values (alpha 255 when not written), wherever a colour may occur. Any other "
     "string is refused with ValueError (UnknownFormat for a JSON document) and never yields a colour; components are always 0..255.",
     ["inputs"],
     "all 2^24 and 2^32 colours, both cases, with and without '#', every place a colour occurs, and every malformed string",
     "Three strings are tested directly.",
     ["pytiled_parser/util.py", "pytiled_parser/common_types.py"],
     [("parse_color", "pytiled_parser/util.py")],
     ["pytiled_parser.util.parse_color", "every Color in parsed results"])

prop("C16", "Each parse is fresh: results share nothing and reflect the files now",
     "Parsing is a function of the current content of the files: repeating it gives an equal result, and after any file "
     "involved has changed the next parse reflects the change. Two results, or two elements of one result, never share "
     "mutable state, so whatever a caller does to one result changes no other result, earlier or later, whatever was "
     "parsed or failed to parse in between.",
     ["histories"],
     "every history of parses of several maps, tilesets and worlds, edits of map/tileset/template files (same size and timestamp included), mutations of earlier results, failed parses and directory changes",
     "Each test parses once in a fresh state and throws the result away.",
     ["pytiled_parser/tiled_object.py", "pytiled_parser/util.py", "pytiled_parser/parser.py", T + "tiled_map.py", J + "tiled_map.py"],
     [("fresh construction per parse", "all parser modules"), ("class-level defaults", "pytiled_parser/tiled_object.py, layer.py, tileset.py")],
     ["object graphs of successive results"],
     [("attribute defaults", "must not be shared mutable objects", "pytiled_parser/*.py")])

prop("C17", "Parsing only reads the files it needs and leaves no trace",
     "A parse opens for reading only the given file and the tilesets and templates it refers to, never an image or a "
     "world's map, and opens, creates, changes, renames or deletes nothing else. It starts no process or connection, prints nothing, "
     "changes no process-wide setting (working directory, environment, locale, warning filters, recursion limit, module "
     "search path, signal handlers), and has itself closed every file it opened (none is left to the garbage collector) when it returns or raises.",
     ["inputs", "fault_sequences"],
     "every document in either format, successful or failing at any point (missing file, I/O error, malformed content, hostile XML entities)",
     "No test observes side effects of parsing.",
     ["pytiled_parser/parser.py", "pytiled_parser/util.py", "pytiled_parser/world.py", T + "tiled_map.py", J + "tiled_map.py"],
     [("with-open blocks", "parser.py, util.py, world.py, both tiled_map.py")],
     ["audit events, file objects, stdout/stderr and process state around each parse"])

prop("C18", "Parses in several threads do not affect each other",
     "When several threads parse maps, tilesets and worlds at the same time, the same files or different ones, every "
     "parse returns (or raises) exactly what it would alone, for every interleaving of the threads.",
     ["schedules"],
     "every interleaving at statement granularity of two or more concurrent parses, over same and different documents, valid and failing",
     "All tests are single-threaded.",
     ["pytiled_parser/parser.py", "pytiled_parser/util.py", T + "tiled_map.py", J + "tiled_map.py", "pytiled_parser/world.py"],
     [("no module-level mutable state", "all parser modules")],
     ["results of parses under a controlled scheduler"])

prop("C19", "A damaged or unreadable input raises; nothing partial is returned",
     "If the map, a tileset, a template or a world file is missing, cannot be read, fails at any read, ends early at "
     "any byte before its document is complete, carries leftovers of other content behind its end, or holds bytes that are no text (zeroed blocks, invalid UTF-8), parsing raises (an operating-system error stays one) and returns nothing. "
     "The same holds when compressed tile data is cut short (not to nothing, which is an empty layer) or fails its checksum. The failure leaves the parser fully "
     "usable: the next parse of an intact input is right.",
     ["crash_points", "fault_sequences", "inputs"],
     "every file of every document x every truncation point x every failing open/read x every cut or corrupted compressed payload, both formats",
     "Tests cover one garbage tileset and one garbage map; no truncation, I/O error, or damaged payload.",
     ["pytiled_parser/parser.py", "pytiled_parser/util.py", J + "layer.py", T + "layer.py", J + "tiled_map.py", T + "tiled_map.py", "pytiled_parser/world.py"],
     [("exceptions propagate", "parser.py, util.py"), ("whole-stream decompression", J + "layer.py and " + T + "layer.py")],
     ["outcome of parse_map, parse_tileset, parse_world under injected faults"])

prop("C20", "The format is told by content; anything else is UnknownFormat",
     "Whether a map, tileset or template is XML or JSON is decided by its content alone: file name and extension, leading blank "
     "lines or spaces, XML declaration, DOCTYPE or comments, line-ending style and the format of the referring file make "
     "no difference. A map or tileset file, given directly or referred to by a map of either format, that is neither (empty, "
     "blank, plain text, or arbitrary bytes) raises UnknownFormat.",
     ["inputs", "configurations"],
     "every file name x every leading layout x every referring format; every non-XML, non-JSON content including empty and undecodable bytes",
     "One text file as map and one as tileset of a JSON map are tested; all other files have their conventional extension and layout.",
     ["pytiled_parser/util.py", "pytiled_parser/parser.py", "pytiled_parser/exception.py", T + "tiled_map.py", J + "tiled_map.py"],
     [("check_format", "pytiled_parser/util.py"), ("UnknownFormat translation", "parser.py, both tiled_map.py")],
     ["parse_map, parse_tileset"])

prop("C21", "The result does not depend on the process environment",
     "For the same files, the parse result is identical under every locale and text-encoding setting, hash seed, working "
     "directory, time zone, warning setting (warnings as errors included) and interpreter optimisation level. Text in the documents is UTF-8 and arrives "
     "unchanged, in names, classes, properties, text objects and paths.",
     ["configurations"],
     "every combination of LC_ALL/LANG, UTF-8 mode, PYTHONHASHSEED, TZ, -O/-OO, warning filters, cwd x documents with text from all of Unicode",
     "Tests run in one environment on ASCII documents.",
     ["pytiled_parser/parser.py", "pytiled_parser/util.py", "pytiled_parser/world.py", T + "tiled_map.py", J + "tiled_map.py"],
     [("file opening and decoding", "parser.py, util.py, world.py, both tiled_map.py"), ("no essential assert", "both layer.py")],
     ["parse results in child processes under varied environments"])

prop("C22", "Irrelevant differences in how a document is written do not matter",
     "Attribute and key order, indentation, line breaks and minification, string escapes and character references, XML "
     "comments between elements, number spellings (1, 1.0, 1e0 where a fraction is allowed), optional attributes written "
     "with their default value or left out, and unknown attributes, elements or keys (editor settings, export targets, "
     "future additions) never change the parse result.",
     ["inputs"],
     "every document x every composition of such rewritings, in both formats, in maps, tilesets, templates and worlds",
     "Tests parse one fixed spelling, the one Tiled wrote, of each sample.",
     ["pytiled_parser/parser.py", T + "layer.py", T + "tiled_object.py", T + "tileset.py", J + "layer.py", J + "tiled_object.py", J + "tileset.py"],
     [("lookup by name", "all parser modules")],
     ["pairs of parse results of a document and its rewriting"])

prop("C23", "Documents of older and newer Tiled versions mean the same",
     "An element's class is found whether the document calls it 'class' or 'type' (objects and tiles; 'class' wins if both are there). Pre-1.0 "
     "JSON, with properties given as an object (of texts, numbers and booleans), tiles keyed by id, numeric versions, or "
     "without infinite, nextlayerid, tiledversion or columns, parses to the same values as its modern spelling, and "
     "version is always text.",
     ["inputs", "configurations"],
     "every document x every combination of the legacy spellings",
     "Tests cover each legacy spelling at most once, in isolation, and blank the version before comparing.",
     [J + "tileset.py", J + "properties.py", J + "tiled_map.py", J + "tiled_object.py", T + "tiled_object.py", T + "tileset.py"],
     [("dict forms", J + "tileset.py, " + J + "properties.py"), ("class/type", "tiled_object.py and tileset.py of both parsers"), ("version conversion", J + "tiled_map.py and " + J + "tileset.py")],
     ["parse_map, parse_tileset of legacy documents"])

prop("C24", "What is not supported is refused, never guessed",
     "Tile data in an unknown encoding or compression, or in zstd without a decoder installed, raises ValueError (UnknownFormat "
     "from a JSON map); a JSON layer of unknown type raises RuntimeError while an unknown element of a TMX map is ignored; a template in the other format "
     "than its map raises NotImplementedError. This holds at any nesting depth, in flat and chunked layers, whatever else "
     "the document contains, and no made-up tile ids, layers or objects are ever returned instead.",
     ["inputs", "configurations"],
     "every unsupported feature x every place it can occur, both formats",
     "One zstd layer, one unknown JSON layer and one cross-format template at the top level are tested.",
     [J + "layer.py", T + "layer.py", J + "tiled_object.py", T + "tiled_object.py"],
     [("compression dispatch", J + "layer.py and " + T + "layer.py"), ("layer type dispatch", J + "layer.py and " + T + "layer.py"), ("template format check", J + "tiled_object.py and " + T + "tiled_object.py")],
     ["exception raised by parse_map"])

prop("C25", "Work grows in proportion to the document",
     "The work of a parse (processor time, statements executed and files opened) grows at most in proportion to the size of the document: "
     "k times as many cells, chunks, layers, levels of nesting, objects, points, properties, tiles, tilesets, templates, template "
     "instances, wang sets, wang tiles or world entries cost at most about k times as much. No part of the document is parsed over and over, and no "
     "nesting depth up to a hundred groups is too deep.",
     ["inputs"],
     "every dimension along which a document can grow, both formats",
     "Test documents are tiny; a parser that revisits every subtree at each level passes them.",
     [T + "tiled_map.py", J + "tiled_map.py", T + "layer.py", J + "layer.py", T + "tileset.py", J + "tileset.py"],
     [("single traversal", "tiled_map.py and layer.py of both parsers"), ("one tileset file read per declared tileset", "both tiled_map.py")],
     ["line events of the package and open events per parse"])

prop("C26", "Everything in a result has its declared type",
     "Results are strictly typed: in everything parse_map, parse_tileset and parse_world return, at any depth and from documents of "
     "either format and any version, each attribute, list element, key and value has the type its class documents. Integers are "
     "ints, flags are real bools, texts are strs, image and file attributes are Paths, colours are Color with parts from 0 to 255, "
     "positions and sizes are OrderedPair and Size, lists and dicts are lists and dicts; a layer is one of the four concrete layer "
     "classes, an object one of the seven object classes. An optional attribute is None or of its type; nothing undeclared is attached.",
     ["inputs", "configurations"],
     "every attribute of every class x stored, not stored, empty or zero, written in TMX (where everything is text) or JSON (where numbers, flags and texts differ), older spellings included",
     "Tests compare a handful of samples with ==, which takes 1, 1.0 and True for the same value and never looks at the type of most attributes.",
     ["pytiled_parser/layer.py", "pytiled_parser/tiled_map.py", "pytiled_parser/tiled_object.py", "pytiled_parser/tileset.py",
      "pytiled_parser/wang_set.py", "pytiled_parser/common_types.py", "pytiled_parser/world.py", T + "tileset.py", J + "tileset.py"],
     [("conversion of attribute texts", T + "*.py"), ("construction of results", "both parsers")],
     ["the whole object graph of a result"])

prop("C27", "Results are plain values: they compare, copy, pickle and print",
     "Results of parse_map, parse_tileset and parse_world behave as the plain data they are. Parsing one unchanged document twice "
     "gives two results that compare equal and print alike; results that differ in any single attribute, list element or dict entry, "
     "at any depth, compare unequal. A deep copy and a pickled copy of a result equal it, hold the same content and share no mutable part "
     "with it. None of these operations ever raises.",
     ["inputs", "histories"],
     "every document of either format (templates and their tilesets included), every place in a result where a value may differ, every pickle protocol",
     "Tests compare parsed layers and tilesets with hand-built ones; no test compares two parses, copies or pickles a result, or checks that any difference is seen.",
     ["pytiled_parser/layer.py", "pytiled_parser/tiled_map.py", "pytiled_parser/tiled_object.py", "pytiled_parser/tileset.py",
      "pytiled_parser/wang_set.py", "pytiled_parser/world.py", J + "tiled_map.py", T + "tiled_map.py"],
     [("attrs classes", "pytiled_parser/*.py"), ("template tilesets left on tile objects", "_parse_tile of both tiled_object.py, parse of both tiled_map.py")],
     ["==, !=, repr, copy.deepcopy and pickle of results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
