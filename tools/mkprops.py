#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()), "anchors": a})


prop("C01", "A loaded Gerber is exactly the image its file describes, or an error",
     """Reading a Gerber file yields exactly the objects its commands describe, in order: each flash, draw, arc and region at the
     stated position with the stated aperture shape and size (macro-defined apertures included), polarity, units and the extents the file covers.
     This does not depend on how storage delivers the bytes (chunk sizes, short reads, LF/CRLF/CR line ends, file versus string).
     If storage fails during the read the caller gets an error and never a partial image, and a retry after the fault gives the right image.""",
     ["inputs", "fault_sequences"],
     "every well-formed RS-274X document of the supported grammar (modal state, step codes, apertures, macros, regions, polarity, zero suppression, formats, legacy codes), every chunking of its bytes, and every read-fault sequence up to the retry",
     "The tests parse a handful of fixture files with a perfect disk and mostly count statements; modal state makes the image of a command depend on the whole history of commands before it.",
     ["gerber/rs274x.py", "gerber/gerber_statements.py", "gerber/am_statements.py", "gerber/am_read.py", "gerber/am_eval.py", "gerber/am_opcode.py", "gerber/primitives.py", "gerber/common.py", "gerber/utils.py"],
     [("statement splitter and parser", "gerber/rs274x.py:GerberParser._split_commands, _parse"), ("modal interpreter", "gerber/rs274x.py:GerberParser.evaluate, _evaluate_*"), ("macro compiler and evaluator", "gerber/am_read.py, gerber/am_eval.py, gerber_statements.py:AMParamStmt.build"), ("whole-file read before parsing", "gerber/rs274x.py:GerberParser.parse, gerber/common.py:read")],
     ["gerber.read(path)", "gerber.loads(text)", "GerberFile.primitives / bounds / units"],
     [("modal graphics state", "current point, aperture, interpolation, region mode, polarity, quadrant mode", "gerber/rs274x.py:GerberParser")])

prop("C02", "A Gerber saved after any edits and read back is the same image",
     """Whatever sequence of unit conversions, shifts and queries a loaded Gerber has been through, saving it and reading the saved
     file back in a new process gives the image that was in memory, up to the file's coordinate resolution, and saving that reloaded document again
     gives the same bytes. Where a coordinate does not fit the file's number format, saving reports an error instead of writing a different number.""",
     ["inputs", "histories", "crash_points"],
     "every supported document, every sequence of to_inch / to_metric / offset / save / reload / query operations with a process restart between save and reload",
     "The tests never save and reload a Gerber after converting or shifting it: the statement and primitive views are mutated by separate code and can drift apart only over a history.",
     ["gerber/rs274x.py", "gerber/gerber_statements.py", "gerber/am_statements.py", "gerber/utils.py", "gerber/cam.py"],
     [("statement serialisation", "gerber/gerber_statements.py:*.to_gerber"), ("number formatting", "gerber/utils.py:write_gerber_value, decimal_string"), ("writer", "gerber/rs274x.py:GerberFile.write")],
     ["GerberFile.write(path)", "gerber.read(path)", "bytes of the saved file"])

prop("C03", "A loaded drill file is exactly the holes and slots it describes, or an error",
     """Reading an Excellon drill file yields exactly the holes and slots it describes, in order and with the right tool diameter, position,
     units and extents: absolute and incremental modes, repeats, routing, modal coordinates, zero suppression, declared formats and tool tables included.
     This does not depend on how storage delivers the bytes; if storage fails during the read the caller gets an error, never a partial drill list,
     and a retry after the fault gives the right one.""",
     ["inputs", "fault_sequences"],
     "every well-formed drill program of the supported grammar, every chunking of its bytes, and every read-fault sequence up to the retry",
     "The tests parse single statements and a few fixture files; position and tool are modal state built over the whole program, and a file is read more than once while it is loaded.",
     ["gerber/excellon.py", "gerber/excellon_statements.py", "gerber/excellon_settings.py", "gerber/excellon_tool.py", "gerber/utils.py", "gerber/common.py"],
     [("line-by-line interpreter", "gerber/excellon.py:ExcellonParser._parse_line"), ("format detection", "gerber/excellon.py:detect_excellon_format"), ("holes and slots", "gerber/excellon.py:DrillHit, DrillSlot, ExcellonFile.primitives")],
     ["gerber.read(path)", "gerber.loads(text)", "ExcellonFile.hits / tools / primitives / bounds"],
     [("modal drill state", "current position, active tool, absolute/incremental, drill/route, units", "gerber/excellon.py:ExcellonParser")])

prop("C04", "A drill file saved after any edits and read back has the same holes",
     """Whatever sequence of unit conversions, shifts, tool-diameter edits and queries a loaded drill file has been through, saving it and reading
     it back in a new process gives the holes and slots that were in memory, with their tools, up to the file's coordinate resolution.
     Every hole appears exactly once and, for each tool, in its order; the saved file declares its number format wherever a reader would not find the right one by itself, and saving again gives the same bytes.
     Where a coordinate does not fit that format, saving reports an error instead of writing a different number.""",
     ["inputs", "histories", "crash_points"],
     "every supported drill program, every sequence of conversion / offset / tool-edit / save / reload operations with a restart between save and reload",
     "One fixture is round-tripped untouched by the tests; converting, shifting or editing it first, or a program with slots, repeats or no tool change, is never saved.",
     ["gerber/excellon.py", "gerber/excellon_statements.py", "gerber/utils.py"],
     [("writer", "gerber/excellon.py:ExcellonFile.write"), ("statement serialisation", "gerber/excellon_statements.py:*.to_excellon")],
     ["ExcellonFile.write(path)", "gerber.read(path)", "bytes of the saved file"])

prop("C05", "Unit conversion never changes the physical geometry, however often repeated",
     """Converting a loaded design between inch and metric changes numbers but not physical geometry: after any sequence of conversions and queries,
     every object's position, size, extents and outline, the file's bounds, its tools and hits equal the original ones expressed in the current units.
     Converting to the units already in use changes nothing, and everything the document contains, shared parts included, is converted exactly once.""",
     ["inputs", "histories"],
     "every supported Gerber, drill and netlist-free document and every sequence of to_inch / to_metric calls interleaved with queries that may cache derived values",
     "The tests convert single freshly built objects once; double conversion, shared apertures/tools, nested composites and cached derived geometry need whole documents and histories.",
     ["gerber/primitives.py", "gerber/rs274x.py", "gerber/gerber_statements.py", "gerber/excellon.py", "gerber/excellon_tool.py", "gerber/excellon_statements.py", "gerber/am_statements.py", "gerber/cam.py"],
     [("conversion guard on units", "gerber/primitives.py:Primitive.to_inch/to_metric"), ("cache invalidation", "gerber/primitives.py:Primitive._changed"), ("document conversion", "gerber/rs274x.py:GerberFile.to_inch/to_metric, gerber/excellon.py:ExcellonFile.to_inch/to_metric")],
     ["GerberFile/ExcellonFile.to_inch(), to_metric()", "primitives' public attributes, bounding_box, vertices", "bounds, tools, hits"])

prop("C06", "Shifting a design moves everything rigidly, and exactly once",
     """Shifting a loaded design moves every object, its outline and extents and the file's bounds by exactly the given vector and changes nothing else
     (sizes, shapes, order, polarity, tools); any sequence of shifts, queries and unit conversions equals the single net shift.
     What is written to disk afterwards is shifted by the same vector as what is held in memory.""",
     ["inputs", "histories"],
     "every supported Gerber and drill document and every sequence of offset calls interleaved with conversions, queries, saves and reloads",
     "The tests shift single objects once; nested composites, arcs, shared points and cached derived geometry drift only in documents and histories.",
     ["gerber/primitives.py", "gerber/rs274x.py", "gerber/gerber_statements.py", "gerber/excellon.py", "gerber/excellon_statements.py", "gerber/operations.py"],
     [("primitive offset", "gerber/primitives.py:*.offset"), ("document offset", "gerber/rs274x.py:GerberFile.offset, gerber/excellon.py:ExcellonFile.offset"), ("operations", "gerber/operations.py:offset")],
     ["GerberFile/ExcellonFile.offset(x, y)", "primitives, bounds, hits", "saved file"])

prop("C07", "A save that fails or crashes is reported, local, and can be retried",
     """If the storage refuses, fills up, errors or loses power while a document is being saved, the save raises an error and is never reported as complete;
     the document in memory and every file other than the destination are as they were. A save that is rejected before any byte could be written leaves
     the old destination intact, and the same document saved again once storage works gives the bytes an undisturbed save would have given.""",
     ["fault_sequences", "crash_points", "inputs"],
     "every document, save operation (Gerber, drill, regenerated Gerber, rendered picture), fault kind (refused open, short write, error, full disk, crash) and storage operation at which it strikes",
     "No test makes storage fail; the number of fault points is the number of storage operations of every save.",
     ["gerber/rs274x.py", "gerber/excellon.py", "gerber/render/rs274x_backend.py", "gerber/render/cairo_backend.py"],
     [("Gerber writer", "gerber/rs274x.py:GerberFile.write"), ("drill writer", "gerber/excellon.py:ExcellonFile.write"), ("picture writers", "gerber/render/cairo_backend.py:GerberCairoContext.dump")],
     ["write(path)", "dump(path)", "bytes on the simulated disk", "in-memory document"])

prop("C08", "A truncated or torn file never produces objects that were not in it",
     """Reading a file of which only a leading part survived (a torn write or interrupted download) either raises an error or yields a leading part of the
     original's objects, in order and unaltered: no object is invented, moved or resized by the tear. At most the very last command, if the tear falls inside it,
     may be read as its truncated text says; everything before the tear is read exactly as in the whole file.""",
     ["crash_points", "inputs"],
     "every supported Gerber, drill (declaring its number format) and netlist document and every byte offset at which it may be cut",
     "No test reads a damaged file; the cut can fall at any byte of any document.",
     ["gerber/rs274x.py", "gerber/excellon.py", "gerber/ipc356.py", "gerber/gerber_statements.py"],
     [("statement splitter", "gerber/rs274x.py:GerberParser._split_commands"), ("line parsers", "gerber/excellon.py:ExcellonParser.parse_raw, gerber/ipc356.py:IPCNetlistParser.parse")],
     ["gerber.read(path)", "gerber.loads(text)", "primitives / hits / test records"])

prop("C09", "Loading a board directory gives the same stack whatever the listing order",
     """Opening a board directory loads every recognisable layer file in it exactly once with the right class and contents, skips files that are not layers
     without failing, and presents the layers in physical stacking order from outside to outside. The result does not depend on the order in which the file system
     lists the directory or on the board's location; a file that cannot be read is reported or skipped and never harms the other layers.""",
     ["inputs", "schedules", "fault_sequences", "configurations"],
     "every directory of layer and foreign files, every listing order, every location, and read faults or files vanishing between listing and reading",
     "The tests sort one hard-coded list of layers and never open a directory; listing order and read faults come from the file system.",
     ["gerber/pcb.py", "gerber/layers.py", "gerber/common.py", "gerber/utils.py"],
     [("directory scan", "gerber/pcb.py:PCB.from_directory, gerber/utils.py:listdir"), ("classification", "gerber/layers.py:guess_layer_class, load_layer"), ("stacking", "gerber/layers.py:sort_layers, gerber/pcb.py:PCB.*_layers")],
     ["PCB.from_directory(path)", "PCB.layers / top_layers / bottom_layers / drill_layers / copper_layers / layer_count / board_bounds"])

prop("C10", "Threads working on different documents never affect one another",
     """Any number of threads may read, convert, shift, save and render different documents at the same time: under every interleaving each thread obtains exactly
     the result it obtains when running alone. Threads that only query the same document also obtain the single-threaded answers.""",
     ["schedules", "inputs"],
     "every interleaving, at source-line granularity, of two to four threads each running its own document history",
     "The tests are single threaded; shared state (modules, class attributes, defaults, themes, macro state) is harmless until two documents are in flight.",
     ["gerber/rs274x.py", "gerber/excellon.py", "gerber/gerber_statements.py", "gerber/primitives.py", "gerber/render/cairo_backend.py", "gerber/render/theme.py", "gerber/cam.py", "gerber/ipc356.py"],
     [("per-document parser and state objects", "gerber/rs274x.py:GerberParser.__init__, gerber/excellon.py:ExcellonParser.__init__, gerber/cam.py:FileSettings"), ("module-level tables", "gerber/gerber_statements.py, gerber/render/theme.py:THEMES, COLORS")],
     ["results of each thread's calls"])

prop("C11", "The same input gives the same result in every process and at any time",
     """Reading, querying, converting, shifting, saving and rendering the same input with the same calls gives the same results, element for element and byte for byte,
     whatever the process did before, whatever other documents were handled meanwhile, in whichever process it runs and whichever hash seed and random identifiers that process has.""",
     ["histories", "configurations", "inputs"],
     "every document and operation sequence, every prior process history and every hash seed",
     "The tests run with one fixed hash seed in one process and never compare two runs.",
     ["gerber/ipc356.py", "gerber/render/theme.py", "gerber/render/cairo_backend.py", "gerber/layers.py", "gerber/excellon.py", "gerber/rs274x.py", "gerber/primitives.py"],
     [("ordered containers", "gerber/excellon.py:ExcellonFile.tools, gerber/ipc356.py:IPCNetlist.nets/components"), ("per-context render state", "gerber/render/cairo_backend.py:GerberCairoContext.__init__/clear"), ("theme colours", "gerber/render/theme.py")],
     ["public results", "saved bytes", "rendered pixels"])

prop("C12", "A render shows exactly the layers asked for, and a context can be reused",
     """A rendered picture shows each layer's dark objects painted, in file order, over what came before and its clear objects erased from that layer only, at the stated scale,
     place, colour and transparency, so that points well inside or well outside the described shapes have the right colour. Whatever sequence of layers, clears, failed or successful dumps a drawing context has been
     through, the next picture equals the one a fresh context gives for the same layers; saving a picture to a file gives the picture held in memory.""",
     ["histories", "inputs", "fault_sequences"],
     "every document of the supported grammar, every sequence of render / clear / dump operations on one context, and write faults during the dumps",
     "The tests compare a few pictures drawn once each on fresh contexts; stale masks, layers and transforms only show after a history.",
     ["gerber/render/cairo_backend.py", "gerber/render/render.py", "gerber/render/theme.py", "gerber/layers.py", "gerber/primitives.py"],
     [("layer lifecycle", "gerber/render/cairo_backend.py:render_layer, new_render_layer, paint, flatten, clear"), ("primitive drawing", "gerber/render/cairo_backend.py:_render_*"), ("output", "gerber/render/cairo_backend.py:dump, dump_str, dump_svg_str")],
     ["GerberCairoContext.render_layer / clear / dump / dump_str", "pixels of the surface and of the saved PNG"])

prop("C13", "A file that includes others reads as if their text stood in its place",
     """Reading a Gerber that includes other files gives the same image as the document with each included file's text put in the place of its include command,
     to any nesting depth and however often a file is included. Included names are looked up beside the file that includes them, whatever the process's current
     directory; a missing, unreadable or endlessly self-including file gives an error rather than a wrong image, and the next read is unaffected.""",
     ["inputs", "fault_sequences", "histories"],
     "every tree of including files and directories, every current directory, and missing, vanishing or failing included files, followed by further reads",
     "The tests hold one include fixture read from one place; nesting, repetition, relative location and failures are not exercised.",
     ["gerber/rs274x.py"],
     [("include resolution", "gerber/rs274x.py:GerberParser._parse (IF), parse_raw"), ("recursion guard", "gerber/rs274x.py:GerberParser._recursion_depth, MAX_RECURSION")],
     ["gerber.read(path)"])

prop("C14", "A Gerber regenerated from drawn objects describes the same objects",
     """Drawing a loaded layer's objects into the Gerber-writing context and reading back what it wrote gives the same objects: same order, positions, shapes, sizes,
     polarity and region outlines, up to the written format's resolution. Definitions needed by an object always precede its use and are the right ones whatever was drawn before;
     an object that cannot be expressed is reported, not dropped or replaced.""",
     ["inputs", "histories"],
     "every supported layer and every sequence of layers drawn into one writing context, with interrupted and retried dumps",
     "The tests regenerate single objects on fresh contexts; aperture numbering, modal position, polarity and macro reuse are built up over the whole history.",
     ["gerber/render/rs274x_backend.py", "gerber/render/render.py", "gerber/gerber_statements.py", "gerber/am_statements.py"],
     [("aperture and macro table", "gerber/render/rs274x_backend.py:_get_*, AMGroupContext"), ("modal state", "gerber/render/rs274x_backend.py:_pos, _dcode, _color, _level_polarity, _prev_*"), ("emitter", "gerber/render/rs274x_backend.py:_render_*, _post_render, dump")],
     ["Rs274xContext.render / dump", "gerber.loads of the dump"])

prop("C15", "Drill counts, report, path length and tool edits agree with the holes",
     """At any point of a drill document's history the hit counts, drill report, path length and tool table agree with the holes and slots it holds,
     per tool and in the current units. Changing a tool's diameter or parameters affects exactly that tool's holes, in memory and in what is saved,
     and none of these queries changes the document.""",
     ["inputs", "histories"],
     "every supported drill program (holes, slots, repeats, unused tools) and every sequence of edits, conversions, shifts and queries",
     "The tests query one fixture with plain holes once; slots, unused tools, repeated queries and edits between them are not exercised.",
     ["gerber/excellon.py", "gerber/excellon_statements.py", "gerber/excellon_tool.py"],
     [("hit counts", "gerber/excellon.py:ExcellonFile.hit_count"), ("path length", "gerber/excellon.py:ExcellonFile.path_length"), ("report", "gerber/excellon.py:ExcellonFile.report"), ("tool edit", "gerber/excellon.py:ExcellonFile.update_tool")],
     ["hit_count(), path_length(), report(), update_tool(), tools"])

prop("C16", "A loaded netlist lists exactly the records, nets and points in its file",
     """Reading an IPC-D-356A netlist yields every test record, conductor, adjacency and outline in the file, in order, with its own net, reference, access, hole,
     position and size in the file's units; the net and component lists name exactly those that occur, adjacencies belong to the net they were declared for.
     Delivery of the bytes does not matter, and a storage failure is an error, never a shorter netlist.""",
     ["inputs", "fault_sequences", "configurations"],
     "every well-formed netlist of the supported record types, units and rotations, every chunking and read fault, and every hash seed",
     "The tests parse single hand-written records and count the records of one fixture.",
     ["gerber/ipc356.py", "gerber/common.py"],
     [("record parser", "gerber/ipc356.py:IPCNetlistParser._parse_line, IPC356_*"), ("nets and components", "gerber/ipc356.py:IPCNetlist.nets, components")],
     ["gerber.ipc356.read / loads", "IPCNetlist.nets, components, test_records, outlines, vias"])

prop("C17", "Reading answers from a document or deriving another never changes the source",
     """Queries (bounds, vertices, outlines, reports, rendering, printing, saving) and operations documented to return a new document leave the source document's
     later answers and saved bytes exactly as if they had not happened, and editing the derived document does not reach back into the source.""",
     ["histories", "inputs"],
     "every supported document and every interleaving of queries and copy-returning operations with edits on source and derivative",
     "The tests use each result once; aliasing shows only when both the source and the derivative are used afterwards.",
     ["gerber/operations.py", "gerber/primitives.py", "gerber/rs274x.py", "gerber/excellon.py", "gerber/layers.py", "gerber/render/cairo_backend.py", "gerber/render/rs274x_backend.py"],
     [("copying operations", "gerber/operations.py:to_inch, to_metric, offset"), ("primitive conversion", "gerber/primitives.py:Primitive.to_statement, vertices caches")],
     ["operations.offset / to_inch / to_metric", "bounds, bounding_box, vertices, render, write"])

prop("C18", "The rendering command line produces what was asked for, or fails visibly",
     """Running the command-line renderer on files or a directory writes the pictures asked for under the names documented, equal to rendering the same layers through the library,
     no larger than asked for, and touches no other file. When a file named on the command line cannot be read or an output cannot be written it ends with an error and a non-zero status,
     never success with a missing or partial picture; files of a directory that are no readable layers are left out.""",
     ["configurations", "inputs", "fault_sequences"],
     "every combination of command-line options and input sets, and read and write faults during the run",
     "The command line has no tests at all.",
     ["gerber/__main__.py", "gerber/pcb.py", "gerber/layers.py", "gerber/render/cairo_backend.py"],
     [("command line", "gerber/__main__.py:main")],
     ["gerber.__main__.main() with argv", "files written, exit status"])

prop("C19", "External drill tool tables and settings apply where used and never change",
     """Drill data read with an external tool table and settings yields holes and slots of the table's sizes (and platings, feeds and speeds) in the units and number format of the settings,
     the file's own definitions taking precedence; a table of which only the leading lines survived gives just the tools on those lines. However many files are read with the same table and settings,
     in whatever order or in parallel, and whatever is then converted, shifted, edited or saved, the table and the settings stay as they were read and no file affects another;
     what is saved carries the tools it needs.""",
     ["inputs", "histories", "schedules"],
     "every table, settings file and drill program of the supported grammars, every interleaving of reading, converting, shifting, editing and saving several programs that share them",
     "Neither tables nor settings files are read by any test, and sharing one table between files is a matter of history: each file alone looks right.",
     ["gerber/excellon.py", "gerber/excellon_tool.py", "gerber/excellon_settings.py", "gerber/excellon_statements.py"],
     [("table readers", "gerber/excellon_tool.py:loads, loads_rep"), ("settings reader", "gerber/excellon_settings.py:loads"), ("tool lookup", "gerber/excellon.py:ExcellonParser._get_tool, _merge_properties")],
     ["gerber.excellon.loads(data, settings=, tools=)", "the table's tools", "ExcellonFile.hits / tools / bounds", "bytes of the saved file"])

prop("C20", "A shape answers for what it is now, whatever was asked or changed before",
     """A shape object of any kind (circle, rectangle, obround, polygon, ellipse, diamond, chamfered and rounded rectangle, butterflies, donuts, drill, slot, line, arc, region, outline),
     however it was queried, changed attribute by attribute, moved, converted or copied, gives exactly the answers (extents, corners, segments, angles, derived sizes) of an identical shape
     built afresh with its present values; a rotated shape is turned about its own position and its extents enclose all of it. Being queried does not change whether two shapes are equal, a shape put elsewhere is
     recognised as equivalent and one of another size or turn is not,
     and a query that fails for lack of memory can be repeated and leaves nothing wrong behind.""",
     ["inputs", "histories", "fault_sequences"],
     "every shape class, every value of its attributes, every sequence of changes, moves, conversions, copies and (interrupted) queries",
     "Answers are remembered between queries and must be forgotten at every change: only particular orders of query and change show a stale one, and many of the tests compare with pytest.approx(a, b) without an assert.",
     ["gerber/primitives.py", "gerber/utils.py"],
     [("remembered answers", "gerber/primitives.py:Primitive._changed"), ("rotation", "gerber/primitives.py:Primitive._rotated"), ("conversion", "gerber/primitives.py:Primitive.to_inch, to_metric")],
     ["bounding_box, vertices, segments, width, height, radius, axis_aligned_*, angles of the shape classes", "== of shapes"])

prop("C21", "A drill file regenerated from drawn holes describes the same holes",
     """Holes and slots drawn into an Excellon-writing context come back, when what it wrote is read, at the same places, with the same sizes and in the order they were drawn, in the units and
     format of the context, with slots cut the way their hits say: whatever documents they come from, in whatever units those are, repeated, interleaved with other contexts or edits, with or without the
     hit they were made by. Two tools never share a number, drawing changes neither the holes nor their documents, and what a drill file cannot express - any other object, a coordinate that does
     not fit the format - is refused rather than left out.""",
     ["histories", "inputs", "schedules"],
     "every set of drill documents and edits of them, every context setting, and every order and interleaving of drawing their holes, other objects and dumping",
     "The Excellon-writing context has no tests.",
     ["gerber/render/excellon_backend.py", "gerber/excellon.py", "gerber/excellon_statements.py"],
     [("tool choice", "gerber/render/excellon_backend.py:ExcellonContext._render_drill, _render_slot"), ("modal coordinates", "gerber/render/excellon_backend.py:ExcellonContext._simplify_point"),
      ("drill and rout mode", "gerber/render/excellon_backend.py:ExcellonContext._start_drill_mode")],
     ["ExcellonContext.render", "ExcellonContext.statements", "gerber.read of what they say"])

NA_ONLY = []
prop("N01", "Coordinate numbers decode and encode per format and zero suppression",
     "Decoding a coordinate string under a format and zero-suppression rule gives the number the standard defines, and encoding then decoding a representable number is the identity.",
     ["inputs"], "every number, format and zero-suppression rule", "The tests tabulate a few values.",
     ["gerber/utils.py"], [("codec", "gerber/utils.py:parse_gerber_value, write_gerber_value")], ["parse_gerber_value", "write_gerber_value"])
prop("N02", "Macro arithmetic follows precedence and associativity",
     "Evaluating an aperture-macro expression with given parameters gives the arithmetic value of the expression.",
     ["inputs"], "every expression and parameter binding", "The tests evaluate a few expressions.",
     ["gerber/am_read.py", "gerber/am_eval.py"], [("evaluator", "gerber/am_eval.py:eval_macro")], ["eval_macro"])
prop("N03", "A layer's class follows from its file name by the documented table",
     "A file name that matches exactly one layer naming convention is classified as that layer.",
     ["inputs"], "every file name", "The tests classify a list of names.",
     ["gerber/layers.py"], [("name table", "gerber/layers.py:hints, guess_layer_class")], ["guess_layer_class"])
prop("N04", "A convex hull contains its points and is convex and minimal",
     "The convex hull of a point set is convex, made of input points, and contains every input point.",
     ["inputs"], "every point set", "The tests use two point sets.",
     ["gerber/utils.py"], [("hull", "gerber/utils.py:convex_hull")], ["convex_hull"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
