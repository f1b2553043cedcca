def more(prop):
    prop("C09", "File path helper agrees with its documentation",
         "After any sequence of setting, appending and changing the extension of a path, the queries for the full path, file name, base name and extension describe the path that results, no matter which of them were asked before. Existence tests distinguish files, directories and everything else.",
         ["operation_sequences", "inputs"], "all sequences of path operations and queries; all kinds of file system objects",
         "The answers are cached, so that the result depends on the order of operations and queries.",
         ["src/iges/mcad_utils.cpp", "src/include/geom/mcad_utils.h"],
         [("cached parts", "src/iges/mcad_utils.cpp MCAD_FILEPATH::GetBaseName"), ("extension replacement", "src/iges/mcad_utils.cpp MCAD_FILEPATH::SetExtension")],
         observe=["return values of the queries"],
         tech="model-based testing of random operation sequences (generated paths) against a stateless reference; enumeration of file system objects in a scratch directory",
         note="Random sequences of up to 12 operations; POSIX path conventions only.")
    prop("C10", "Curves report their true ends, closure, plane and spline data",
         "Every curve reports start and end points which lie where its data place them, with all nested transformations applied on request, and arcs, conics, lines and composite curves report correctly whether they are closed and which curves they contain. Spline curves and surfaces return exactly the data they were given, reject invalid data without changing, and spline curves report correctly whether they lie in a unique plane and which one. All of this also holds after the model has been saved and loaded.",
         ["inputs", "operation_sequences"], "all curves (lines, arcs, conics, splines of any order, composites) in any chain of transformations; all sequences of valid and invalid spline definitions",
         "Spline evaluation, weights, partial parameter ranges, collinear control points and transformation chains combine in ways a handful of fixed curves cannot cover.",
         ["src/entities/entity100.cpp", "src/entities/entity102.cpp", "src/entities/entity104.cpp", "src/entities/entity110.cpp", "src/entities/entity126.cpp", "src/entities/entity128.cpp"],
         [("spline evaluation", "src/entities/entity126.cpp GetStartPoint, GetEndPoint"), ("planarity", "src/entities/entity126.cpp hasUniquePlane"), ("definition of splines", "SetNURBSData in entity126.cpp, entity128.cpp"), ("composite curves", "src/entities/entity102.cpp")],
         observe=["start and end points", "closure", "planarity and normal", "spline data", "reloaded file"],
         tech="generated curves and spline definitions checked against an independent long-double de Boor evaluation, exact data comparison and a brute-force planarity oracle; repeated after a save/load/export cycle",
         note="Random exploration; closure of spline curves and near-degenerate planarity (within 1e-4 of the decision) are not judged.")
    prop("C11", "Point, matrix and transformation algebra is exact and composes",
         "Sums, products and scaling of points, matrices and transformations follow linear algebra for any sequence of operations, including an object combined with itself. The total transformation of an entity in a chain is the product of the chain, outermost first, at every moment while links are made and removed.",
         ["operation_sequences", "inputs"], "all sequences of algebraic operations, all acyclic chains of transformation entities",
         "Errors such as transposed indices, operands updated too early or a wrong order of composition vanish for the identity, for symmetric or single transformations.",
         ["src/geom/mcad_elements.cpp", "src/entities/entity124.cpp"],
         [("composition", "src/geom/mcad_elements.cpp MCAD_TRANSFORM::operator*="), ("chain", "src/entities/entity124.cpp GetTransformMatrix")],
         observe=["values of all objects after each operation", "transformed points"],
         tech="model-based testing: random operation sequences on integer operands, compared exactly with a reference implementation after each step",
         note="Random exploration with small integers, which make floating point results exact.")
    prop("C12", "Segments describe the curve they were given, also after splitting",
         "A line, arc or circle reports end points, angles, length, midpoint and bounding box of exactly the curve its parameters describe, and refuses parameters which describe none. Splitting replaces a segment by pieces which together are the same curve in the same sense and order, however often it is repeated; a split at points which are not on the curve fails and changes nothing.",
         ["inputs", "operation_sequences"], "all lines, arcs of either sense and circles; all sequences of splits at one or two points",
         "Angles wrap around, arcs run either way and bounding boxes depend on which quadrants an arc crosses; repeated splits reach angle ranges no directly constructed arc has.",
         ["src/geom/mcad_segment.cpp", "src/include/geom/mcad_segment.h"],
         [("parameters", "src/geom/mcad_segment.cpp MCAD_SEGMENT::SetParams"), ("splitting", "src/geom/mcad_segment.cpp MCAD_SEGMENT::Split, splitLine, splitArc, splitCircle"), ("extent", "src/geom/mcad_segment.cpp MCAD_SEGMENT::GetBoundingBox")],
         observe=["accessors of all pieces after each split", "return values"],
         tech="generated segments and random sequences of splits, compared after each step with a long-double model of the pieces",
         note="Random exploration; split points closer than 1e-4 to an end (but not at it) and radii above 300 are not generated.")
    prop("C13", "Intersections of two segments are complete and correctly classified",
         "For any two lines, arcs or circles the reported points are exactly their common points, in counterclockwise order along the arc, and the special cases (contact at an end, tangency, overlap along an edge, nested, separate and identical circles) are reported as such. The answer does not depend on which of the two segments is asked.",
         ["inputs"], "all pairs of lines, arcs and circles, including pairs sharing end points, supporting lines or circles, and touching pairs",
         "Every pair of kinds has its own formula, and the special positions have measure zero, so that they must be constructed in all their variants (either sense, wrap around, order).",
         ["src/geom/mcad_segment.cpp"],
         [("dispatch", "src/geom/mcad_segment.cpp MCAD_SEGMENT::GetIntersections"), ("lines", "src/geom/mcad_segment.cpp checkLines"), ("line and arc", "src/geom/mcad_segment.cpp checkArcLine"), ("arcs and circles", "src/geom/mcad_segment.cpp checkArcs, checkCircles")],
         observe=["list of points", "flag", "return value", "segments afterwards"],
         tech="generated pairs in general and constructed special positions against an independent long-double oracle; metamorphic swap of the two segments",
         note="Random exploration; pairs closer to a special position than the tolerances of the library (2e-3 for tangency, 1e-4 at ends) are not judged unless exactly constructed.")
    prop("C14", "Outlines know their interior and combine like regions",
         "A closed chain of lines and arcs becomes a counterclockwise outline of the same region, whichever way it was given, and every point is correctly told to be inside or outside. Adding, subtracting and cutting out circles and outlines yields exactly the union or difference of the regions whenever the boundaries cross at two points; otherwise the operation is refused and neither operand changes.",
         ["operation_sequences", "inputs"], "all simple outlines of lines and arcs (either sense, any starting segment) and circles; all sequences of add, subtract and cut out, including contact at vertices",
         "Correct stitching depends on which segments are hit, in which order they are stored and how arcs run; only point membership over many generated shapes and repeated operations decides it.",
         ["src/geom/mcad_outline.cpp", "src/geom/mcad_segment.cpp"],
         [("interior", "src/geom/mcad_outline.cpp MCAD_OUTLINE::IsInside"), ("closing and winding", "src/geom/mcad_outline.cpp MCAD_OUTLINE::AddSegment"), ("combination", "src/geom/mcad_outline.cpp MCAD_OUTLINE::opOutline"), ("cutouts", "src/geom/mcad_outline.cpp MCAD_OUTLINE::AddCutout")],
         observe=["segments, cutouts and drill holes after each operation", "membership of sample points", "return value and error flag", "ownership of the argument"],
         tech="stateful property-based testing: generated outlines and sequences of boolean operations, point membership compared with an independent ray-casting oracle on the operands",
         note="Random exploration; error flags of nested circles are not judged, and configurations nearer than 1e-4 to a special position must only be sound (right region or refused).")

    prop("C15", "Boards, walls and cylinders become closed, consistent surfaces",
         "The surfaces made for a board outline with cutouts and holes are exactly the faces of the solid between the two heights: one top, one bottom and walls along every boundary, without gap or overlap and facing away from the material. Every face is bounded by closed loops whose curves in space and in the parameter space of the surface describe the same boundary within the range of the surface. Cylinder parts and plane walls made on their own obey the same rules and cover exactly the arc or quadrangle they were given.",
         ["inputs"], "all outlines of lines, arcs of either sense and circles, with any cutouts and holes, at any heights; all arcs; all quadrangles",
         "Arcs are divided at the axes and turned around for faces which look down, so each of the many angle ranges has its own construction; consistency of two representations must be evaluated, not compared with a stored file.",
         ["src/geom/iges_geom_pcb.cpp", "src/geom/geom_cylinder.cpp", "src/geom/geom_wall.cpp"],
         [("planes", "src/geom/iges_geom_pcb.cpp IGES_GEOM_PCB::GetTrimmedPlane"), ("boundaries", "src/geom/iges_geom_pcb.cpp GetCurveOnPlane, GetCurves, getCurveArc, copArc"), ("vertical faces", "src/geom/iges_geom_pcb.cpp GetSegmentWall; src/geom/geom_wall.cpp; src/geom/geom_cylinder.cpp")],
         observe=["the written file: trimmed surfaces, boundary curves, transformations"],
         tech="generated outlines (also results of boolean operations); the written file is evaluated by an independent geometric kernel: closure, agreement of both boundary representations, orientation against a point-in-region oracle, matching edges",
         note="Random exploration; tolerance 2e-6 plus 2e-8 of the size; walls with the upper height below the lower one are not generated for boards.")

    prop("C16", "IDF boards and libraries survive reading and writing",
         "Reading a valid IDF board with its library (version 2 or 3, any unit) yields exactly the outlines, holes, notes, components, placements and parts in the files, and a board built or changed through the interface holds exactly what was put in and not removed, every change of an item owned by the other kind of CAD being refused without effect. Writing it in either unit produces valid files which state the same data, converted within the precision of the format, with every part that is used and no other. What was written reads back as the same board, and writing that again changes nothing but date and version.",
         ["inputs", "histories"], "all valid board and library files in the freedom of the format (spacing, quotes, letter case, comments, units, section order); all sequences of additions and removals; both CAD types, both output units",
         "The format has eight kinds of outlines, three units, two versions and several spellings for the same data, which combine freely; tests convert a few sample files.",
         ["src/idf/idf_parser.cpp", "src/idf/idf_outlines.cpp", "src/idf/idf_common.cpp", "src/idf/idf_helpers.cpp"],
         [("reading", "src/idf/idf_parser.cpp IDF3_BOARD::ReadFile, readBrdSection, readLibSection, readPlaceData; src/idf/idf_outlines.cpp readOutlines"), ("writing", "src/idf/idf_parser.cpp IDF3_BOARD::WriteFile, writeBoardFile, writeLibFile; src/idf/idf_outlines.cpp writeOutline"), ("building", "src/idf/idf_parser.cpp AddBoardOutline, AddBoardDrill, AddSlot, AddComponent, GetComponentOutline and their counterparts which remove")],
         observe=["the accessors of the board", "the written files, read by an independent parser"],
         tech="generated boards and libraries from an independent model, emitted as text with random spelling; memory compared with the model, written files parsed by an independent strict reader and compared with the model; stateful sequences of interface calls against the model, on new boards and on boards read from files",
         note="Random exploration; TNM is read only (as in the format), units of values read in TNM are not checked through the accessors.")

    prop("C17", "Damaged IDF files are refused cleanly",
         "Whatever bytes the board and library files hold, reading them ends with acceptance or with refusal and a message, without crash, undefined behaviour or lost memory. After a refusal, and after the board was cleared, the board is empty and reads a valid file exactly as a new board would. A board that was accepted and could be written can be read back.",
         ["inputs", "histories"], "all files near valid ones: cut at any byte, words replaced, removed, lines removed, repeated, exchanged, inserted, sections copied elsewhere, bytes changed, words of any length",
         "There are hundreds of places where a file may go wrong, each leaving a different half-built state; tests read only good files.",
         ["src/idf/idf_parser.cpp", "src/idf/idf_outlines.cpp", "src/idf/idf_common.cpp", "src/idf/idf_helpers.cpp"],
         [("reading", "src/idf/idf_parser.cpp IDF3_BOARD::ReadFile, readBrdSection, readLibSection; src/idf/idf_outlines.cpp readData, readOutlines"), ("recovery", "src/idf/idf_parser.cpp IDF3_BOARD::Clear")],
         observe=["return value, message, emptiness of the board", "allocated memory", "a valid board read afterwards"],
         tech="structure-aware mutation of generated files under address and undefined-behaviour sanitizers with a memory balance, followed by the model comparison of C16 on the same object",
         note="Random exploration with a CPU limit per case; the reread is not required when names hold quotes, which have no written form.")

    prop("C18", "The IDF to IGES converter makes exactly the solids of the board",
         "Converting a board gives a millimetre model with one solid for the board (with every cutout and drill hole, also overlapping ones, taken out), one for each part used and one for each other outline of noticeable height, each with the right thickness and place, closed and facing outwards. Every placement of a part which the library has becomes one instance of its solid, labelled with its designator, at its position, height and rotation, flipped at the bottom side. The converter reports success only if the complete model was written.",
         ["inputs"], "all boards with their libraries: any outlines, cutouts, holes apart or overlapping, placements on either side, missing or flat parts, both versions, all units",
         "Holes meet edges, cutouts and other holes in endless ways, and errors of sign or side only show up in the position of a surface; no test runs the converter.",
         ["src/idf/idf2igs.cpp"],
         [("board", "src/idf/idf2igs.cpp MakeBoard, mergeDrills, bundleDrills"), ("parts and placements", "src/idf/idf2igs.cpp MakeComponents, buildComponent, calcTransform"), ("other outlines", "src/idf/idf2igs.cpp MakeOtherOutlines")],
         observe=["the written IGES file: subfigures, faces, instances and their transformations", "result of the converter"],
         tech="generated boards and libraries emitted as text and converted; the written file is evaluated by the independent geometric kernel against the regions and placements of the generating model, with a memory balance and failure injection",
         note="Random exploration; where a hole overlaps several boundaries at once the conversion may be refused, but what is reported as success must be right; self-touching outlines and cutouts outside the board are not generated.")

    prop("C19", "The library API handles do exactly what the core classes do",
         "Every operation on models, entities, segments, outlines and boards through the handle classes of the library API has the result, the answers and the written file which the same operation on the core classes has, and arrays which are handed out hold every item once. A handle knows at any time whether its object exists: when the object was deleted by whatever way, taken over or detached, the handle says so, answers nothing and can be used again. Handles lose no memory and touch no object after its end.",
         ["inputs", "histories"], "all sequences of creating, changing, linking, asking, moving, taking over, deleting, attaching, detaching, writing, reading, merging on several models and outlines with any parameters",
         "The handle classes repeat hundreds of functions with slight differences, and life times depend on the history; the tests use few of them in one order.",
         ["src/dllapi/dll_iges.cpp", "src/dllapi/dll_iges_entity.cpp", "src/dllapi/dll_mcad_outline.cpp", "src/dllapi/dll_mcad_segment.cpp", "src/dllapi/dll_iges_geom_pcb.cpp"],
         [("models", "src/dllapi/dll_iges.cpp DLL_IGES"), ("entities", "src/dllapi/dll_iges_entity.cpp DLL_IGES_ENTITY; src/dllapi/dll_iges_curve.cpp; src/dllapi/dll_entity*.cpp"), ("geometry", "src/dllapi/dll_mcad_segment.cpp, dll_mcad_outline.cpp, dll_iges_geom_pcb.cpp")],
         observe=["return values and answers of both worlds", "validity of handles", "written files", "allocated memory"],
         tech="stateful differential testing: every generated operation is carried out through handles on one world and with the core classes on its twin, comparing results, contents, life times and files byte by byte under address and undefined-behaviour sanitizers with a memory balance",
         note="Random exploration; what core classes and handles get wrong alike is the subject of the other properties. Handles for the vertex, edge, loop, face, shell, solid and Boolean entities do not exist; the property entity cannot be made through the factory function.")

    prop("C20", "A finished session returns everything it used",
         "Whatever was done with models, entities, curves, outlines, boards and files, and whether each step succeeded or was refused, once the objects the user owns have been destroyed all memory has been returned. This includes what was taken over, consumed by an operation, replaced, culled, left incomplete or half built when a step was refused; repeating a session any number of times needs no more memory than doing it once. Nothing is released twice or used after it was released.",
         ["inputs", "histories"], "all sessions: building, loading intact and damaged files, editing, unit conversion, merging, saving with faults, spline definition, segment and outline operations, surface generation, board files, conversion, use through the handles",
         "Whether something is lost depends on which of the many refusals a history meets and on who owns an object at that moment; a test which loses memory passes like any other.",
         ["src/iges/iges.cpp", "src/entities/iges_entity.cpp", "src/entities/entity508.cpp", "src/entities/entity126.cpp", "src/entities/entity128.cpp", "src/geom/mcad_outline.cpp", "src/geom/iges_geom_pcb.cpp", "src/idf/idf_parser.cpp", "src/idf/idf_outlines.cpp", "src/dllapi"],
         [("models", "src/iges/iges.cpp IGES::Clear, ~IGES, Cull, DelEntity, Read; destructors of the entities"), ("outlines", "src/geom/mcad_outline.cpp ~MCAD_OUTLINE, opOutline, opCircle; src/geom/iges_geom_pcb.cpp"), ("boards", "src/idf/idf_parser.cpp IDF3_BOARD::Clear; src/idf/idf_outlines.cpp BOARD_OUTLINE::Clear")],
         observe=["memory in use before and after every repetition of a session", "address sanitizer"],
         tech="the generated sessions of the other properties are recorded as choice sequences and repeated: a metamorphic relation between the memory in use before and after, under the address sanitizer",
         note="Random exploration; memory which the library keeps on purpose for the whole process is not counted, and the session is only judged when it repeats identically.")

    prop("C21", "Loose segments are assembled into the closed outlines they form",
         "From any jumble of lines, arcs and circles, in any order and direction and with ends that meet within the tolerance, repeated assembly yields every closed loop exactly once, beginning with its leftmost segment and connected end to start, and takes exactly the segments it used from the jumble. Segments which had to be turned around describe the same curve as before, circles stay alone, and the reported winding is that of the enclosed area. A chain which does not close is completed with one straight line; what can form no outline is discarded without harm.",
         ["inputs"], "all sets of closed loops and open chains of lines, arcs of either sense and circles, apart or nested, shuffled, reversed, with inexact ends, arcs given by end points or by centre",
         "Order and direction of the segments multiply: the same loop of n segments can be given in n! 2^n ways, and the leftmost point may lie inside an arc of any angle.",
         ["src/idf/idf_common.cpp"],
         [("assembly", "src/idf/idf_common.cpp IDF3::GetOutline"), ("segments", "src/idf/idf_common.cpp IDF_SEGMENT::GetMinX, SwapEnds, CalcCenterAndRadius"), ("winding", "src/idf/idf_common.cpp IDF_OUTLINE::push, IsCCW")],
         observe=["the segments of the outline", "the segments which remain", "reported winding"],
         tech="generated loops are taken apart, shuffled, reversed and perturbed; the assembled outlines are compared with the loops they came from (identity of segments, order, ends, curves, winding from an independent area)",
         note="Random exploration; sets in which two corners of different places are closer than 0.01 mm are not judged.")
