#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (the single source of both)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
PK = "pyembroidery/"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), technique="", note=""):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=list(observe), technique=technique, note=note))


MACH = [PK + x for x in (
    "DstWriter.py", "DstReader.py", "ExpWriter.py", "ExpReader.py", "JefWriter.py", "JefReader.py", "PecWriter.py", "PecReader.py",
    "PesWriter.py", "PesReader.py", "Vp3Writer.py", "Vp3Reader.py", "XxxWriter.py", "XxxReader.py", "U01Writer.py", "U01Reader.py",
    "TbfWriter.py", "TbfReader.py", "GcodeWriter.py", "GcodeReader.py", "PmvWriter.py", "PmvReader.py")]
ENC = [PK + "EmbEncoder.py", PK + "EmbPattern.py"]
REF = "online comparison of the emitted command stream with a reference monitor written from the documentation"
RT = "round-trip monitor: the file read back is compared with the design mapped through a per-format information model"

prop("P01", "Stitch positions survive a write and read in every machine format",
     "Writing any design to a machine format (DST, EXP, JEF, PEC, PES, VP3, XXX, U01, TBF, G-code) and reading the file back yields the same "
     "needle penetration points in the same order, exactly for whole-unit designs and otherwise within half a unit (VP3: one unit) without "
     "drift. No penetration is lost, added or moved to another place, however long the moves and whatever commands stand between; PEC and "
     "PES alone may repeat a point in place after a jump or before a change.",
     ["inputs", "configurations"], "every design representable in the format, every writer option",
     "the tests write a handful of fixed shapes per format and mostly compare counts; positions depend on every delta, block and split",
     MACH, [("delta encoding and decoding per format", PK + "*Writer.py / *Reader.py"), ("encoder splits long moves", PK + "EmbEncoder.py")],
     ["bytes written", "pattern read back"], RT)
prop("P02", "Trims, stops, changes and jumps survive a write and read",
     "Writing a design to a machine format and reading it back yields the command events the format can express - trims, stops, colour "
     "or needle changes, sequins, speed changes, jumps - between the same stitches and in the same order. Nothing that the format can "
     "express is dropped, invented or turned into another event.",
     ["inputs", "configurations"], "every design and writer/reader option",
     "tests check few event combinations per format; the inference of trims and stops depends on the whole neighbourhood",
     MACH, [("command codes", PK + "*Writer.py"), ("trim inference", PK + "EmbPattern.py interpolate_trims")], ["pattern read back"], RT)
prop("P03", "Every stitch keeps its thread colour through a write and read",
     "For formats that carry colours (JEF, PEC, PES, VP3, XXX, extended DST, and TBF by needle), every stitch of a file read back is sewn "
     "in the colour the design gave it: exactly where the format stores RGB, otherwise in the palette entry assigned to it. Neighbouring "
     "colour blocks of different colours never merge or swap.",
     ["inputs"], "every sequence of thread colours and colour blocks, including repeated colours and stops",
     "tests use two or three fixed colours", MACH + [PK + "EmbThread.py"],
     [("palette assignment", PK + "EmbThread.py, JefWriter.py, PecWriter.py"), ("colour lists", PK + "Vp3Writer.py, XxxWriter.py, TbfWriter.py")],
     ["threads and colour blocks of the pattern read back"], RT)
prop("P04", "Names, metadata and thread text survive a write and read",
     "Text a machine format stores - design name, author, copyright, category, keywords, comments, thread description, catalogue number, "
     "brand, chart - comes back unchanged when the file is read, up to the size of the field (DST 256 bytes, PEC label 8, PES and VP3 texts 255 and 65535 bytes), including non-ASCII text where the format has it. Text of any "
     "length or alphabet never damages the stitches, colours or other fields of the file.",
     ["inputs"], "every text in every text field", "tests use short ASCII names only",
     [PK + x for x in ("DstWriter.py", "DstReader.py", "PesWriter.py", "PesReader.py", "PecWriter.py", "PecReader.py", "Vp3Writer.py",
                       "Vp3Reader.py", "TbfWriter.py", "TbfReader.py", "GcodeWriter.py", "GcodeReader.py", "WriteHelper.py", "ReadHelper.py")],
     [("length-prefixed and fixed-size fields", PK + "*Writer.py")], ["metadata and threads of the pattern read back"],
     "round-trip monitor over hostile text fields")
prop("P05", "CSV and JSON keep a pattern losslessly",
     "Saving any pattern - any command with its thread, needle and order parameters, positions, threads with all details, text metadata - "
     "to JSON or CSV and loading it gives an equal pattern; CSV positions keep the printed precision, and the summary rows and the "
     "displacement columns of a CSV describe that same pattern.",
     ["inputs"], "every pattern", "tests save a few patterns without special characters or parameters",
     [PK + x for x in ("CsvWriter.py", "CsvReader.py", "JsonWriter.py", "JsonReader.py", "EmbFunctions.py")],
     [("command names", PK + "EmbFunctions.py"), ("quoting", PK + "CsvWriter.py")], ["pattern read back"], "round-trip equality monitor")
prop("P06", "Colour files keep every thread",
     "Writing the thread list to EDR, COL or INF and reading it back gives the same colours in the same order and the thread text those "
     "formats carry, for any number of threads.",
     ["inputs"], "every thread list", "tests use one small list", [PK + x for x in (
         "ColWriter.py", "ColReader.py", "EdrWriter.py", "EdrReader.py", "InfWriter.py", "InfReader.py")],
     [("record layout", PK + "*Writer.py")], ["threads read back"], "round-trip monitor")
prop("P07", "Written files are well formed for an independent decoder",
     "Every machine file written for any design can be decoded by an independent implementation of the format: the header counts, sizes, "
     "offsets, bounds and end marks agree with the content, every record is legal, and the decoded needle points are the design's.",
     ["inputs", "configurations"], "every design and writer option",
     "round trips through the library hide errors that writer and reader share; no test decodes the bytes",
     [m for m in MACH if "Writer" in m] + [PK + "WriteHelper.py", PK + "PecGraphics.py"], [("headers and patched offsets", PK + "*Writer.py")],
     ["bytes written"], "offline checker: independent decoders over the recorded bytes")
prop("P08", "Files built by an independent encoder are read correctly",
     "Reading a well-formed file of a supported format gives exactly the stitches, jumps, trims, stops, colour changes, colours and "
     "positions the file encodes, for every legal record value; this includes the formats the library cannot write.",
     ["inputs"], "every legal record sequence of each readable format", "tests read a few sample files, none for most read-only formats",
     [PK + x for x in ("A100Reader.py", "A10oReader.py", "BroReader.py", "DatReader.py", "DsbReader.py", "DszReader.py", "EmdReader.py", "ExyReader.py",
                       "FxyReader.py", "GtReader.py", "HusReader.py", "InbReader.py", "JpxReader.py", "KsmReader.py", "MaxReader.py", "MitReader.py",
                       "NewReader.py", "PcdReader.py", "PcmReader.py", "PcqReader.py", "PcsReader.py", "PhbReader.py", "PhcReader.py", "SewReader.py",
                       "ShvReader.py", "SpxReader.py", "StcReader.py", "StxReader.py", "TapReader.py", "ZhsReader.py", "ZxyReader.py")],
     [("record decoding", PK + "*Reader.py")], ["pattern read"], "differential monitor: independent file builders and their expected events")
prop("P09", "Compressed blocks decompress to what was compressed",
     "Expanding a compressed block gives back exactly the bytes it represents, for every byte sequence, block structure, code length "
     "assignment and copy distance; compressing and expanding is the identity.",
     ["inputs"], "every byte string and legal block structure", "tests decompress one or two samples",
     [PK + "EmbCompress.py", PK + "HusReader.py"], [("huffman and copy decoding", PK + "EmbCompress.py")], ["expanded bytes"],
     "differential monitor against an independent compressor")
prop("P10", "A truncated file gives a prefix, never wrong stitches",
     "Reading a machine file cut off at any byte within its stitch data either gives the stitches encoded before the cut, in order and unchanged, or "
     "refuses with an error. A cut never invents needle points, changes earlier ones or hangs.",
     ["crash_points", "inputs"], "every cut position in every file", "no test truncates a file at all", [PK + "ReadHelper.py"] + [m for m in MACH if "Reader" in m],
     [("short read checks", PK + "*Reader.py")], ["pattern read from each prefix"], "fault enumeration: every truncation point, prefix oracle")
prop("P11", "Hostile bytes never hang or blow up a reader",
     "Reading any byte string with any reader terminates after an amount of work and with an amount of output bounded by a constant plus a constant times the "
     "size of the input (for the compressed HUS format also the number of stitches its header declares): it gives a pattern of well-formed rows or "
     "raises an ordinary error.",
     ["inputs"], "every byte string for every reader", "tests read valid files only", [PK + "ReadHelper.py", PK + "EmbCompress.py", PK + "*Reader.py"],
     [("read loops stop at end of data", PK + "*Reader.py")], ["reads, bytes, rows, CPU"], "resource monitors (loop iterations, stream reads, rows, threads, metadata) over damaged files")
prop("P12", "No emitted step is longer than the format allows",
     "When a design is encoded under maximum stitch and jump lengths, no emitted command moves further than the limit in x or y, whatever "
     "the requested moves; longer moves are split into exactly as many steps as needed and shorter moves are not split.",
     ["inputs", "configurations"], "every design and limit", "tests use a few long moves with fixed limits", ENC,
     [("gap interpolation", PK + "EmbEncoder.py")], ["encoded commands"], "online step-length monitor over the encoder output")
prop("P13", "Encoding keeps every needle point",
     "Encoding a design keeps every requested needle penetration at its position and in its order, up to the end command, and adds none "
     "except on the straight way of a split long stitch - where sewing is asked for, jumps otherwise - and in requested ties. Rounding, when asked for, moves each point by at most half a unit.",
     ["inputs", "configurations"], "every design and encoder setting", "tests count stitches of fixed shapes", ENC,
     [("stitch handling", PK + "EmbEncoder.py")], ["encoded commands"], "conservation monitor: requested versus emitted needle points")
prop("P14", "Encoded streams contain only writable commands and one final END",
     "Whatever commands a pattern contains, in any order, encoding it gives a stream of low level commands the target can write: exactly one "
     "END and nothing after it, thread changes only by the target's change command, speed and sequin commands only where supported, sequins "
     "ejected only in sequin mode and no jump or trim within it. Metadata is carried along and encoding in place gives the same stream.",
     ["inputs", "configurations"], "every command sequence and setting", "tests encode a few documented sequences", ENC,
     [("encoder dispatch", PK + "EmbEncoder.py")], ["encoded commands"], "online grammar monitor over the encoder output")
prop("P15", "Every block gets the planned thread and needle",
     "Encoding assigns to each colour block the thread and needle the design asks for - by explicit parameters, by planned change sequences "
     "or, where nothing is asked, the next ones in order with needles wrapping at the needle count - and the threads of the result match its "
     "blocks one to one, so every stitch is sewn in its colour.",
     ["inputs", "configurations"], "every sequence of changes and plans", "tests cover two or three fixed sequences", ENC + [PK + "EmbFunctions.py"],
     [("thread change plan", PK + "EmbEncoder.py")], ["change events and threads of the encoded pattern"], REF)
prop("P16", "Trims, breaks and ejects become the documented commands",
     "Trims are emitted where a trim, sequence break or frame eject asks for one and the thread is uncut, before a colour change when explicit "
     "trims are asked for, and never twice without sewing between; stitch breaks reposition without jumps of the source, frame ejects jump "
     "and stop, colour breaks change colour only between sewn blocks.",
     ["inputs", "configurations"], "every command sequence and setting", "tests cover single breaks in fixed positions", ENC,
     [("state of the encoder", PK + "EmbEncoder.py")], ["encoded commands"], REF)
prop("P17", "Sequins are ejected, converted or removed as configured",
     "Every sequin of a design is ejected at its position when sequins are usable, and otherwise becomes a jump, a stitch or nothing as the "
     "setting or the command in force says; sequin mode is switched on before and off around jumps and trims.",
     ["inputs", "configurations"], "every design with sequins and every switch of the setting", "tests use one short sequin run", ENC,
     [("sequin state", PK + "EmbEncoder.py")], ["encoded commands"], REF)
prop("P18", "Transforms apply to the commands that follow them",
     "Translate, scale, rotate and reset commands in a design, about the origin or about the current needle position, and the translate, scale "
     "and rotate settings, transform every later position by their composition in order and nothing before them.",
     ["inputs", "configurations"], "every sequence of transforms within any design", "tests apply one or two transforms to a fixed shape",
     ENC + [PK + "EmbMatrix.py"], [("matrix of the encoder", PK + "EmbEncoder.py")], ["encoded positions"], REF)
prop("P19", "Tie stitches are added exactly where configured",
     "With ties on, sewing starts with a lock towards the following stitch and ends with a lock towards the preceding one at each break, trim "
     "and change, explicit tie commands obey the same setting, and without a neighbouring stitch or with ties off none is added. A lock stays "
     "within the stitch limit on the way to its neighbour and returns to where it began.",
     ["inputs", "configurations"], "every design and tie setting, switched at any point", "tests tie one fixed design", ENC,
     [("tie on and tie off", PK + "EmbEncoder.py")], ["encoded commands"], REF)
prop("P20", "Writing and encoding never change the source pattern or settings",
     "Encoding, writing to any format with any options, copying and deriving patterns leave the stitches, threads, metadata and settings they were "
     "given exactly as they were, and later changes to a derived pattern do not reach its source.",
     ["inputs", "configurations", "histories"], "every design, format, option and sequence of operations", "tests never compare the source after writing",
     ENC + [m for m in MACH if "Writer" in m], [("normalised copy before writing", PK + "EmbPattern.py")], ["deep snapshots before and after"],
     "invariant monitor: deep snapshots around every operation")
prop("P21", "Writing is deterministic",
     "Writing the same design with the same options gives the same bytes, whatever was written or read before in the process, however the "
     "process was started and in whatever order (dates being given).",
     ["histories", "configurations"], "every sequence of earlier operations, every process", "tests write each file once",
     [m for m in MACH if "Writer" in m] + [PK + "EmbThread.py"], [("no state between writes", PK + "*Writer.py")], ["digests of written files"],
     "history monitor: digests across orders and processes")
prop("P22", "Rewriting a file that was read loses nothing more",
     "Once a design has been written to a machine format and read, writing and reading it again in the same format gives the same stitches, events and colours.",
     ["inputs", "histories"], "every design and format", "tests never go a second generation", MACH, [("readers and writers agree", PK + "*")],
     ["first and second pattern read back"], "fixed-point monitor over generations")
prop("P23", "Editing a pattern does exactly what each call says",
     "Any sequence of editing calls - relative and absolute stitches and moves, stops, trims, changes, ends, insertion and prepending at any position, item "
     "access, blocks of points, threads, metadata, clearing - leaves the pattern with exactly the rows, threads and metadata a plain list model predicts, relative "
     "calls continuing from the last position.",
     ["histories"], "every sequence of editing calls", "tests call each method once or twice in fixed order", [PK + "EmbPattern.py"],
     [("current position and row list", PK + "EmbPattern.py")], ["rows after each call"], "model-based history monitor")
prop("P24", "Block views and counts partition the design",
     "The stitch block, colour block, command block and per-stitch views together contain every row they cover exactly once, in order and with the thread of "
     "its colour block, and the counts and thread lists agree with them.",
     ["inputs"], "every pattern", "tests look at fixed patterns", [PK + "EmbPattern.py"], [("block generators", PK + "EmbPattern.py")], ["views"],
     "conservation monitor over the views")
prop("P25", "Merging patterns keeps both, transformed as asked",
     "Adding a pattern to another, by operator or with translation, scale and rotation, gives the rows of the first without its end followed by the "
     "transformed rows of the second, each, where it has a thread for every colour block, sewn in the threads of its own pattern, without changing the second.",
     ["inputs", "histories"], "every pair of patterns and transform, repeated", "tests merge two fixed patterns", [PK + "EmbPattern.py"],
     [("pattern merging", PK + "EmbPattern.py")], ["rows and threads after merging"], "reference model over merge histories")
prop("P26", "Bounds, translation and transforms are geometrically exact",
     "The bounds are the exact extremes of all rows; translating, transforming and centring move every row by the map asked for and nothing else.",
     ["inputs"], "every pattern and matrix", "tests use few shapes", [PK + "EmbPattern.py", PK + "EmbMatrix.py"], [("bounds, translate, transform", PK + "EmbPattern.py")],
     ["rows and bounds"], "invariant monitor over geometry operations")
prop("P27", "Post-processing passes keep the sewn design",
     "Passes that infer trims, frame ejects, stops or duplicate colours, merge jumps or stabilise a pattern keep every needle point, its position, order and "
     "thread colour, and change only the commands they are documented to change.",
     ["inputs"], "every pattern and threshold", "tests run each pass on one pattern", [PK + "EmbPattern.py"], [("interpolate passes", PK + "EmbPattern.py")],
     ["rows and colours before and after"], "conservation monitor and reference models of the passes")
prop("P28", "Copies are equal and independent, equality is exact",
     "A copy of a pattern equals it and has its own rows, thread list and metadata, a deep copy shares nothing mutable with it at all; two patterns are equal exactly when their rows, threads and text metadata are.",
     ["inputs", "histories"], "every pattern and single change", "tests copy one pattern", [PK + "EmbPattern.py", PK + "EmbThread.py"], [("copy and equality", PK + "EmbPattern.py")],
     ["copies after mutation"], "mutation monitor over copies")
prop("P29", "Command words pack and unpack without loss",
     "Packing a command with any thread, needle and order number and unpacking it gives the same four values, the parameters never disturb the command, and "
     "the command names map one to one.",
     ["inputs"], "all values 0..254 and none of each parameter, all commands", "tests try a few values", [PK + "EmbFunctions.py", PK + "EmbConstant.py"],
     [("bit fields", PK + "EmbFunctions.py")], ["packed words"], "exhaustive monitor per field")
prop("P30", "Thread colours parse, compare and print consistently",
     "Every documented way to give a thread colour - hex strings of 3, 4, 6 or 8 digits, names, numbers, components, other threads - yields the RGB it states; printing a "
     "colour and parsing it gives it back; equality and hash of threads follow their content and colour distance is zero only for equal colours.",
     ["inputs"], "all colours, spellings and thread contents", "tests try a dozen colours", [PK + "EmbThread.py"], [("colour parsing", PK + "EmbThread.py")], ["thread values"],
     "reference parser monitor")
prop("P31", "Nearest and unique palette assignment is correct",
     "The nearest colour found is one of minimal distance in the palette; the unique palette gives different colours different entries while entries last, the "
     "same colour always the same entry, and leaves no nearer entry unused; non-repeating palettes never repeat neighbours.",
     ["inputs"], "every colour list and palette", "tests use a few colours", [PK + "EmbThread.py", PK + "EmbThreadPec.py", PK + "EmbThreadJef.py"],
     [("palette search", PK + "EmbThread.py")], ["assigned indexes"], "brute force oracle")
prop("P32", "Matrix operations follow affine algebra",
     "Composing, inverting, resetting and applying matrices agrees with affine algebra: operations compose in call order, the inverse undoes, pivoted operations keep their "
     "pivot, and points, rows and lists transform alike.",
     ["inputs", "histories"], "every sequence of matrix operations", "tests try single operations", [PK + "EmbMatrix.py"], [("matrix product", PK + "EmbMatrix.py")], ["matrices and points"],
     "differential monitor against independent affine algebra")
prop("P33", "PNG previews are valid images of the design",
     "The PNG written for any design is a valid image whose size is that of the design, showing every stitch line in its thread's colour, in the line width asked for, nothing elsewhere, over the requested background.",
     ["inputs", "configurations"], "every design and option", "tests only check that a file appears", [PK + "PngWriter.py"], [("drawing and PNG encoding", PK + "PngWriter.py")], ["decoded pixels"],
     "independent PNG decoder and drawing oracle")
prop("P34", "SVG and text exports state the design exactly",
     "The SVG and text files written for any design are well formed and list every sewn block with its colour and every position in order.",
     ["inputs"], "every design", "tests only check that a file appears", [PK + "SvgWriter.py", PK + "TxtWriter.py"], [("block output", PK + "SvgWriter.py")], ["parsed files"],
     "independent parser and reference model")
prop("P35", "Files and streams are dispatched and handled the same way",
     "Every documented extension, in any letter case, is read by the reader of its format, and each format's own extension is written by its writer; file names and streams give the same "
     "result, converting equals reading then writing, unknown types are refused without touching files, and files are closed.",
     ["inputs", "configurations"], "every supported extension and entry point", "tests use the most common extensions", [PK + "EmbPattern.py", PK + "PyEmbroidery.py"],
     [("format table", PK + "EmbPattern.py")], ["files, streams, open handles"], "monitored entry points: differential and handle leak checks")
prop("P36", "Custom text templates expand over the whole design",
     "A template given for documents, colours, blocks, segments, stitches and commands is expanded once for each such element in order, colour and block joins only between elements, ends also where the design has none, with the values of "
     "that element, for any design.",
     ["inputs", "configurations"], "every design and template set", "tests expand one template", [PK + "GenericWriter.py"], [("template expansion", PK + "GenericWriter.py")], ["text written"],
     "reference expansion monitor")

prop("P37", "Converting a file keeps the design",
     "Converting any readable file to another format, and on through further formats, keeps the design: the same needle points in the same order, the events (trims, stops, changes, sequins, speeds, jumps) the formats of the "
     "chain can express, and the thread colours wherever they store them.",
     ["inputs", "configurations"], "every readable file and every chain of target formats", "the conversion tests use one small design per pair of formats and count stitches",
     MACH + [PK + "EmbPattern.py", PK + "EmbEncoder.py"], [("read, encode, write", PK + "EmbPattern.py convert")], ["files at every step of the chain"],
     "differential monitor: independent encoders at the start, independent decoders and a reference model after every step of random conversion chains")
prop("P38", "Encoding, writing and editing do work proportional to the design",
     "Encoding, writing in every format, post-processing, copying, comparing and editing terminate after an amount of work bounded by a constant plus a constant times the rows of the design, the rows it encodes to and its "
     "colours (for PES 6 also colours squared), and write output bounded in the same way.",
     ["inputs", "configurations"], "every design, operation and option", "tests use designs of a few dozen rows and measure nothing", ENC + [m for m in MACH if "Writer" in m],
     [("loops over rows", PK + "*.py")], ["loop iterations and calls, bytes written"], "resource monitor: interpreter jump and call events against a linear bound")
prop("P39", "Stream and file errors reach the caller and leave nothing behind",
     "When a stream or the file system fails at any point of a read or a write, the error reaches the caller; the design, its threads and metadata and the options are as before, the failed stream is not used any more, no "
     "descriptor stays open, and the operation repeated without the failure gives the same result as ever.",
     ["crash_points", "inputs"], "every call of the stream at which the failure may strike, every format", "no test injects a failure",
     [PK + "EmbPattern.py", PK + "WriteHelper.py", PK + "ReadHelper.py"] + MACH, [("streams opened and closed", PK + "EmbPattern.py"), ("caught exceptions", PK + "*Reader.py")],
     ["errors raised", "snapshots", "descriptors"], "fault enumeration: an error at the k-th stream call and refusals of the real file system, with state and descriptor monitors")
prop("P40", "Reading is deterministic and patterns read are independent",
     "Reading the same bytes with the same options gives an equal pattern - rows, every thread attribute, metadata - whatever was read, written or edited before, by name or from a stream and in every process; the options stay "
     "as they were; and patterns that were read share nothing that can be changed: whatever is done to one reaches no other and no later reading.",
     ["histories", "configurations", "inputs"], "every sequence of operations around a read, every process", "tests read each file once and throw the pattern away",
     [m for m in MACH if "Reader" in m] + [PK + x for x in ("EmbThread.py", "EmbThreadPec.py", "EmbThreadJef.py", "EmbThreadHus.py", "EmbThreadSew.py", "EmbThreadShv.py", "EmbPattern.py")],
     [("thread charts made anew", PK + "EmbThread*.py get_thread_set"), ("no state between reads", PK + "*Reader.py")], ["content digests of the patterns read"],
     "history monitor: content digests across orders, processes and deliberate damage to earlier results")
prop("P41", "Operations in parallel threads do not disturb each other",
     "Reads, writes, encodings, post-processing, thread look-ups and iterations over different objects, and writes, encodings and views of one pattern that nobody changes, give, when they run in parallel threads or are advanced in turns, exactly what each gives alone.",
     ["schedules", "inputs"], "every interleaving of operations on different objects, or only looking at one", "no test runs two operations at once", ENC + MACH + [PK + "EmbThread.py", PK + "EmbMatrix.py"],
     [("no state shared between operations", PK + "*.py")], ["results of every operation", "handovers"],
     "schedule exploration: a seeded scheduler hands over between threads at lines of the library, results compared with those alone")
prop("P42", "Colour files read into a design colour it",
     "Reading a colour file (EDR, COL, INF) into a pattern appends its threads in order and leaves stitches, earlier threads and metadata untouched; a stitch file without colours and a colour file read into one pattern, in either "
     "order and through any entry point, give the design with every stitch in its planned colour, in every format it is then written to; and a file converted to a colour file keeps its colours.",
     ["inputs", "configurations", "histories"], "every design, thread list, pair of formats and order", "no test reads into a pattern that holds something",
     [PK + x for x in ("ColReader.py", "ColWriter.py", "EdrReader.py", "EdrWriter.py", "InfReader.py", "InfWriter.py", "EmbPattern.py", "DstReader.py", "ExpReader.py")],
     [("pattern argument of the readers", PK + "EmbPattern.py")], ["patterns assembled and files written from them"], "end-to-end monitor against the planned colours")
prop("P43", "Writers get the design encoded as they declare and as the options say",
     "Every writer, those of the library and those of a caller alike, is handed a copy of the design encoded for the limits and needs it declares (longest stitch and jump, rounding, trims, sequins, speeds, thread changes, "
     "transform), each of which an option the caller gives replaces; with encode off, the design as it is; with the caller's options and stream, which is a file when a name is given, closed afterwards. So writing is the same "
     "as encoding first and then writing as it is. A caller's reader is handed the source, options and pattern likewise.",
     ["inputs", "configurations"], "every declaration, option, design and destination", "tests write with the few declarations and options of the formats that are there",
     [PK + "EmbPattern.py", PK + "EmbEncoder.py"], [("reading and writing", PK + "EmbPattern.py")], ["patterns, options and streams that reach a writer"], "recording writers against a reference encoder, and a two-way differential for every format")
prop("P44", "Designs with missing or spare threads are written whole",
     "A design that has fewer threads than colour blocks, or than its changes name, down to none, or more, is written to every format, exported and viewed block by block with the same stitches and events as with one thread for each block: the threads that "
     "are given stay with their blocks, each further block gets some thread where it is encoded for a format with a colour table, and threads that nothing is sewn in leave the file as it is.",
     ["inputs", "configurations"], "every design, number of threads, format and option", "tests give each block its thread",
     [PK + "EmbPattern.py", PK + "EmbEncoder.py", PK + "EmbThread.py"], [("missing threads", PK + "EmbPattern.py get_thread_or_filler")], ["files and views, against those of the complete design"],
     "differential monitor against the complete design")
prop("P45", "Reading into a pattern appends to it",
     "Reading any file into a pattern that holds something appends what the file holds, as one: its rows, moved by nothing or to where the pen was, its threads and its metadata, the same as when it is read alone; the "
     "stitches and threads that were there stay as they are, also when the file is damaged, and relative calls go on from where the file ends.",
     ["inputs", "histories"], "every sequence of readable files and calls", "tests only read colour files into a pattern, and count",
     [PK + x for x in ("EmbPattern.py", "PecReader.py", "PesReader.py", "JefReader.py", "DstReader.py", "ZhsReader.py", "PhbReader.py", "PhcReader.py", "Vp3Reader.py")],
     [("pattern argument of the readers", PK + "EmbPattern.py read_embroidery")], ["the pattern after every read of a history"], "differential monitor against each file read alone, over histories of reads")

prop("P46", "Numbers packed on a command change nothing but that command",
     "Thread, needle and order numbers packed on commands that take none (all but thread changes, change sequences and the empty command) leave everything that is derived from the design as it is without them: files of every "
     "writer under all settings, encoded or not (CSV, JSON and VP3 store such numbers: what reads back is equal but for them), the rows, threads and metadata the encoder, the passes, merges and transforms give (but for "
     "the numbers), counts, bounds, blocks and matches; nothing is refused or accepted because of them.",
     ["inputs"], "every design, assignment of numbers to commands, writer, setting, pass and query", "tests pack numbers on needle changes only",
     [PK + x for x in ("EmbPattern.py", "EmbEncoder.py", "PecWriter.py", "PesWriter.py", "DstWriter.py", "JefWriter.py", "ExpWriter.py", "XxxWriter.py", "TbfWriter.py", "U01Writer.py", "SvgWriter.py", "TxtWriter.py", "GenericWriter.py")],
     [("command words", PK + "EmbConstant.py COMMAND_MASK"), ("packed numbers", PK + "EmbFunctions.py encode_thread_change")], ["files, rows and query results of both designs"],
     "metamorphic monitor: each operation on a design with and without the numbers")

NA = {}


def main():
    with open("properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if not os.path.exists("props/%s.py" % p["id"]):
            na.append({"property": p["id"], "reason": NA.get(p["id"], "its monitor is not built yet")})
            continue
        src = importlib.import_module("props." + p["id"])
        note = "Held on the executions observed, nothing beyond. " + src.RULE + ". Assumes: " + ("; ".join(src.ASSUMPTIONS) or "nothing further") + "."
        checks.append({
            "property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"], "technique": "runtime monitoring: " + p["technique"],
            "level": src.LEVEL, "level_note": note})
    json.dump({"version": 1, "setup_cmd": "python3 -c 'import sys; sys.exit(sys.version_info < (3, 8))'", "checks": checks, "not_applicable": na,
               "notes": "Pure Python library without threads or native code: monitors run the real code from /repo's working tree, no hooks are needed."},
              open("MANIFEST.json", "w"), indent=1)
    design()


def design():
    """Rewrites the per-property section of DESIGN.md from the same texts."""
    t = open("DESIGN.md").read()
    a, b = "<!-- properties: generated by gen_meta.py -->\n", "<!-- end of properties -->\n"
    out = []
    for p in P:
        src = importlib.import_module("props." + p["id"])
        doc = " ".join((src.__doc__ or "").split())
        out.append("### %s %s\n\n*Specified:* %s\n\n*Monitored, workload and oracle:* %s.%s\n\n*Technique:* %s; level `%s`. *Inconclusive below:* %s. *Cases:* %d quick, %d thorough.\n\n"
                   "*Assumes / bounds:* %s.\n\n*Why this reaches further than the tests:* %s; the workload ranges over %s.\n\n" % (
                       p["id"], p["title"], p["statement"], src.RULE, " " + doc if doc else "", p["technique"], src.LEVEL,
                       ", ".join("%d %s" % (v, k) for k, v in src.MIN_EVENTS.items()), src.cases("quick"), src.cases("thorough"),
                       "; ".join(src.ASSUMPTIONS) or "nothing further", p["why"], p["text"]))
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + "\n" + "".join(out) + t[j:]
    a, b = "<!-- seeded: generated by gen_meta.py -->\n", "<!-- end of seeded -->\n"
    rows = ["| change | property | needs |\n|---|---|---|\n"]
    for d in sorted(os.listdir("seeded")):
        m = json.load(open("seeded/%s/meta.json" % d))
        rows.append("| %s | %s | %s |\n" % (d, m["property"], m["needs"].replace("|", "/")))
    i, j = t.index(a) + len(a), t.index(b)
    open("DESIGN.md", "w").write(t[:i] + "\n" + "".join(rows) + "\n" + t[j:])


if __name__ == "__main__":
    main()
