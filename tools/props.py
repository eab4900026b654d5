"""The listed properties; tools/gen.py writes properties.jsonl and MANIFEST.json from this table.

Each entry: id, title, statement, over, quant, why, files, mech [(name, where)], observe, and for the
manifest: technique, note.
"""
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe,
                  technique=technique, note=note))


BASE = " Trusts the stand-in for abseil in /verif/shim, the compiler and the sanitizers; it samples the input space and proves nothing beyond the cases it ran."

prop("T01", "Durations never become NaN and follow extended-real arithmetic",
     "Every duration obtained by construction, unit conversion or arithmetic from non-NaN numbers is a real number of seconds or a signed infinity, never NaN. "
     "Infinities absorb finite terms, scaling by or dividing by NaN, zero or infinity gives the infinity or zero of the documented sign, and finite results equal real arithmetic up to float rounding. "
     "Comparison is a total order consistent with equality and hashing, and conversions to and from other units, the abseil duration type and text preserve the value.",
     ["inputs"], "all pairs of durations (finite, denormal, huge, zero of both signs, infinite) and all scale factors including zeros, infinities and NaN",
     "The unit tests sample a few dozen value pairs; the special-value table has 10 classes on each side of every operator and the rounding claims range over all floats.",
     ["ink/types/duration.h", "ink/types/duration.cc"],
     [("sign-aware handling of infinities and NaN in the operators", "ink/types/duration.cc"), ("NaN-free constructors", "ink/types/duration.h")],
     ["Duration32 operators", "Duration32::ToFormattedString"],
     "property-based testing against an extended-real reference model, coverage-guided fuzzing in the thorough tier",
     "Random and special-value search over all operators with shrinking." + BASE)

prop("T02", "Physical distances convert, add, scale and compare exactly like lengths",
     "A distance given in centimetres, inches or metres reads back in any unit with the exact conversion factor up to float rounding. "
     "Sums, differences, scalings and ratios equal the same operation on lengths, in-place forms (also with both sides the same object) equal the plain forms, and operands are left alone. "
     "Order, equality, hash and text agree with the underlying length.",
     ["inputs"], "all float lengths in three units, all pairs of distances and all scale factors, including infinities",
     "Tests check a handful of round numbers per unit; conversions and the in-place forms must be right for every float.",
     ["ink/types/physical_distance.h", "ink/types/physical_distance.cc"],
     [("unit factors and operators", "ink/types/physical_distance.h"), ("text form", "ink/types/physical_distance.cc")],
     ["PhysicalDistance accessors and operators"],
     "property-based testing against a double-precision reference, coverage-guided fuzzing in the thorough tier",
     "Random and special-value search over all units and operators with shrinking." + BASE)

prop("T03", "Containers behave as plain sequences and copies stay isolated",
     "A fixed-capacity array behaves like a resizable sequence under any history of construction, resize, assignment and comparison, and releases what a shrink drops. "
     "A copy-on-write holder gives every handle its own value: a write through one handle is never visible through another, a copy is made only when the value is shared, and every value is destroyed exactly once. "
     "An iterator range presents exactly the elements between its two iterators, with the right emptiness and size, for any container.",
     ["histories", "inputs"], "all operation histories on several live objects sharing values, for trivial, heap-owning and reference-counted element types; all sub-ranges of several container kinds",
     "Unit tests run short fixed histories on one or two handles; sharing bugs need particular copy/move/write/reset sequences across handles.",
     ["ink/types/small_array.h", "ink/types/internal/copy_on_write.h", "ink/types/iterator_range.h"],
     [("resize clears dropped elements", "ink/types/small_array.h"), ("copy before write when shared", "ink/types/internal/copy_on_write.h"), ("bounds and size of a range", "ink/types/iterator_range.h")],
     ["SmallArray", "CopyOnWrite", "iterator_range"],
     "stateful model-based property testing of operation histories, coverage-guided fuzzing in the thorough tier",
     "Random operation histories over several live objects checked step by step against a plain model, under address and undefined-behaviour sanitizers." + BASE)

prop("T04", "Asset URIs accept exactly the documented grammar and normalise losslessly",
     "A text is accepted as an asset URI exactly when it matches the documented grammar (optional case-insensitive scheme, optional authority, known asset type, name, optional revision), and everything else is refused with an invalid-argument error. "
     "The parts reported are those in the text with the documented defaults. "
     "The normalised form is the shortest equivalent text, parses back to an equal value with equal hash, and two URIs are equal exactly when their normalised forms are.",
     ["inputs"], "all byte strings, biased to valid URIs and to texts one edit away from valid, and all pairs of URIs",
     "Tests list about forty texts; the grammar has many boundary points (digit counts, empty parts, delimiters, scheme case) in combination.",
     ["ink/types/uri.h", "ink/types/uri.cc"],
     [("left-to-right part parsers", "ink/types/uri.cc"), ("default elision in the normal form", "ink/types/uri.cc")],
     ["Uri::Parse", "Uri::ToNormalizedString"],
     "grammar-based property testing against an independent reference parser, coverage-guided fuzzing in the thorough tier",
     "Grammar-generated and mutated texts compared with an independent reference recogniser." + BASE)

prop("G01", "Angles normalise into the stated range without changing direction",
     "Normalising any finite angle gives an equivalent angle (same direction modulo a full turn) inside the half-open range from zero to a full turn, respectively above minus a half turn up to and including a half turn, and leaves an angle already in that range bit-for-bit unchanged. "
     "The entry points offered to Java return the same values. "
     "Arithmetic, ordering, remainder, unit conversion, trigonometry, hashing and text agree with the same operation on the radian value.",
     ["inputs"], "all floats as radians or degrees, concentrated on multiples of an eighth of a turn and the floats next to them, on tiny negatives and on many turns",
     "Tests use about twenty angles; the range ends fail only for particular floats next to a boundary or tiny negative values.",
     ["ink/geometry/angle.h", "ink/geometry/angle.cc", "ink/geometry/internal/jni/angle_jni.cc", "ink/types/numbers.h", "ink/types/internal/float.h"],
     [("remainder and wrap with rounding guard", "ink/geometry/angle.cc"), ("Java entry points", "ink/geometry/internal/jni/angle_jni.cc")],
     ["Angle::Normalized", "Angle::NormalizedAboutZero"],
     "property-based testing with boundary-biased generators against a double-precision reference, coverage-guided fuzzing in the thorough tier",
     "Boundary-biased random search over floats." + BASE)

prop("J01", "Java strings and exceptions cross the bridge intact and release what they take",
     "A view of a Java string shows exactly that string's bytes for as long as the view lives, even after the caller's own reference is gone; a null string reads as empty; and every reference and buffer taken from the virtual machine is given back exactly once. "
     "A failed status becomes the documented exception class carrying its message, success throws nothing, and a pending exception (including subclasses and ones without a message) comes back as the matching status with that message and is cleared. "
     "No call is made on the virtual machine that its rules forbid.",
     ["histories", "inputs"], "all texts in the virtual machine's encoding including embedded NUL, all interleavings of creating and destroying several views, all status codes and exception classes",
     "There is no test of this code in the repository: it needs a virtual machine, and lifetime mistakes show only in particular interleavings.",
     ["ink/jni/internal/jni_string_util.h", "ink/jni/internal/jni_string_util.cc", "ink/jni/internal/jni_throw_util.cc"],
     [("global reference held while characters are borrowed", "ink/jni/internal/jni_string_util.cc"), ("status/exception table", "ink/jni/internal/jni_throw_util.cc")],
     ["JStringView", "JStringToStdString", "CatchExceptionAsStatus", "CheckOkOrThrow"],
     "stateful property testing against an instrumented fake virtual machine, coverage-guided fuzzing in the thorough tier",
     "Random histories against an in-memory JNI environment that checks reference and buffer discipline." + BASE + " The fake environment replaces a real virtual machine.")

prop("C01", "Colors convert exactly between formats, spaces and gamut forms, never NaN",
     "A colour built from any numbers in any channel format has no NaN channel and an alpha between zero and one, and reading it back in the linear, gamma-encoded, premultiplied, 8-bit or packed form gives the published transfer curve, primaries and rounding, so same-format round trips restore the value. "
     "Conversion between colour spaces keeps alpha and the colour itself and inverts; the curve parameters and matrices offered to shaders describe the same conversion. "
     "Gamut tests, clamping and scaling agree with the channel values, results lie in the gamut without becoming NaN, and colours already inside are unchanged.",
     ["inputs"], "all channel values including negative, out-of-range, infinite and NaN; all alphas, formats, colour spaces and 32-bit packed values",
     "Tests sample a few colours; wrong matrix entries, channel orders, thresholds or special values show only for particular channels, spaces or infinities.",
     ["ink/color/color.h", "ink/color/color.cc", "ink/color/color_space.h", "ink/color/color_space.cc", "ink/color/color_helpers.h", "ink/color/internal/jni/color_jni_helper.cc"],
     [("NaN-free construction and format conversion", "ink/color/color.cc"), ("matrices and transfer curve", "ink/color/color_space.cc")],
     ["Color::FromFloat", "Color::AsFloat", "Color::InColorSpace", "ConvertColor", "GetGammaDecodingParameters"],
     "property-based testing against the published colour-space definitions in double precision, coverage-guided fuzzing in the thorough tier",
     "The reference derives matrices from the CIE primaries and the sRGB curve." + BASE)

prop("R01", "Shaders draw each mesh vertex and pixel as the anti-aliasing model says",
     "Running the offered vertex and fragment programs on the bytes of a stroke mesh gives the position, outset, colour, texture coordinates and pixel coverage of the documented model, for strokes being drawn and for finished strokes in every supported packed layout. "
     "Values unpacked in the shader equal the values the mesh itself reports; vertices inside the stroke do not move and fully inside fragments are fully covered. "
     "Category labels survive packing exactly and colour shifts within half a quantisation step.",
     ["inputs"], "all vertex attribute values with a nonzero derivative, all invertible linear transforms, all brush colours, both texture mappings, all supported format layouts",
     "No unit test executes the shader sources at all; they are only compared as text in Kotlin or on a device.",
     ["ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h", "ink/rendering/skia/common_internal/sksl_fragment_shader_helper_functions.h",
      "ink/rendering/skia/common_internal/sksl_common_shader_helper_functions.h", "ink/rendering/skia/common_internal/mesh_specification_data.cc", "ink/strokes/internal/stroke_vertex.cc"],
     [("outset and coverage model", "ink/rendering/skia/common_internal/sksl_vertex_shader_helper_functions.h"), ("fixed packing ranges shared by CPU and shader", "ink/strokes/internal/stroke_vertex.cc")],
     ["MeshSpecificationData::CreateForStroke", "MeshSpecificationData::CreateForInProgressStroke", "Mesh::RawVertexData"],
     "property-based testing of the interpreted shader programs against a double-precision model",
     "The shaders are run by an interpreter written for this check, in 32-bit floats (half precision is not modelled)." + BASE)

prop("R02", "Renderers accept exactly the supported formats, with a consistent description",
     "A mesh format is accepted for drawing a finished stroke exactly when it has the required attributes next to each other in a supported type combination, and for a stroke being drawn exactly when it is the one strokes use; anything else is an invalid-argument error. "
     "The description then lists the stride, one shader input per attribute group at its true byte offset, and exactly the uniforms its shader source declares, with the right unpacking indices. "
     "The sources are valid and write every varying for every accepted format.",
     ["inputs"], "all mesh formats built from the fourteen attribute types in any order, biased to supported ones and to one or two edits away",
     "Tests try a few formats; the acceptance rule is a product of order, presence and type over eight attributes, and the shader text is assembled per combination.",
     ["ink/rendering/skia/common_internal/mesh_specification_data.cc", "ink/rendering/skia/common_internal/mesh_specification_data.h", "ink/geometry/mesh_format.cc"],
     [("format validation and shader assembly", "ink/rendering/skia/common_internal/mesh_specification_data.cc")],
     ["MeshSpecificationData::CreateForStroke", "MeshSpecificationData::GetUniformName"],
     "property-based testing against a reference acceptance rule and an interpreted run of the assembled shaders",
     "Random formats near the boundary of acceptance." + BASE)

prop("R03", "A canvas is told to draw exactly the geometry, paint and place of a stroke",
     "Drawing a stroke, finished or in progress, hands the canvas the transform and, coat by coat, every mesh with its vertices, triangles, enclosing bounds, brush color, unpacking parameters and texture mapping, with textures placed, wrapped and combined as the brush paint says; without a graphics context it fills the outlines in the brush color at the opacity of the tip. "
     "A drawable made earlier shows the stroke as it was then, follows only its own changes of transform and color, and shares nothing changeable with its copies or with what was drawn before. "
     "A missing texture store, an unknown or invalid bitmap and an unsupported mesh format give their error and draw nothing, and bitmaps are valid exactly when sizes, formats and pixel data fit together.",
     ["inputs", "histories"], "histories of drawing, drawables, copies, transform and color changes over strokes with up to three coats of up to three texture layers, shapes of several meshes, wrong bitmaps and failing image allocation",
     "Tests look at single drawables; caches, shared uniform data and per-mesh parameters only go wrong over histories and shapes that tests do not build.",
     ["ink/rendering/skia/native/skia_renderer.cc", "ink/rendering/skia/native/internal/mesh_drawable.cc", "ink/rendering/skia/native/internal/mesh_uniform_data.cc", "ink/rendering/skia/native/internal/create_mesh_specification.cc", "ink/rendering/skia/native/internal/mesh_specification_cache.cc", "ink/rendering/skia/native/internal/path_drawable.cc", "ink/rendering/skia/native/internal/shader_cache.cc", "ink/rendering/bitmap.cc"],
     [("drawables, uniforms, shader and specification caches, bitmap validation", "ink/rendering/skia/native")],
     ["SkiaRenderer::Draw", "SkiaRenderer::CreateDrawable", "SkiaRenderer::Drawable", "ValidateBitmap"],
     "stateful property-based testing against a model of what should be drawn, on a recording stand-in for Skia",
     "Skia is not available offline: a stand-in records what it is asked to draw and refuses what Skia documents as invalid. Texture rotation, jitter, opacity, keyframes and stroke-size units are marked unimplemented in the code and left open." + BASE)

prop("M01", "Mesh formats are validated, laid out and compared as published",
     "A list of typed attributes makes a mesh format exactly when it is non-empty, within the attribute limit, uses known types and identifiers without repeats, and has a two-component position; otherwise creation is an invalid-argument error. "
     "Offsets, widths, strides and per-type tables follow the published type table for both stored forms, and removing attributes gives the same format without them or an error. "
     "Equality, hashing, text and the two equivalence relations agree with the attribute lists.",
     ["inputs"], "all attribute lists up to 18 long over 14 types and 19 identifiers plus unknown values, and all pairs of formats one or two edits apart",
     "Tests cover a few formats; layout and equality must be right for every combination and order of types.",
     ["ink/geometry/mesh_format.h", "ink/geometry/mesh_format.cc", "ink/geometry/internal/mesh_constants.h"],
     [("creation rules and layout", "ink/geometry/mesh_format.cc"), ("type table", "ink/geometry/mesh_format.h")],
     ["MeshFormat::Create", "MeshFormat::WithoutAttributes", "MeshFormat::Attributes"],
     "property-based testing against a table-driven reference, coverage-guided fuzzing in the thorough tier",
     "Random attribute lists biased to valid ones and near misses; identifiers of 128 and above are left out because the documentation and the code disagree about them." + BASE)

prop("M02", "Read-only meshes take only valid input and return values within half a step",
     "A read-only mesh is created exactly when the columns fit the format, every value is finite and in range, vertex count and indices are within limits and any packing parameters are valid; otherwise creation is an invalid-argument error. "
     "Unpacked attributes come back bit for bit; packed ones come back finite, within half a quantisation step, stored in the published bit layout. "
     "Counts, bounds, triangle indices and corners equal the input, and splitting triangles into parts keeps every triangle once, in order, within the vertex limit.",
     ["inputs"], "all formats, all columns of finite floats including denormal and near-maximum ranges, all packing parameters, all index lists, partition limits from 3 to 12 and vertex counts around 65536",
     "Tests check a few values per type; quantisation and bit layout must hold for every value, range and component combination.",
     ["ink/geometry/mesh.h", "ink/geometry/mesh.cc", "ink/geometry/internal/mesh_packing.cc", "ink/geometry/internal/mesh_packing.h"],
     [("quantisation and bit layouts", "ink/geometry/internal/mesh_packing.cc"), ("creation rules", "ink/geometry/mesh.cc")],
     ["Mesh::Create", "Mesh::FloatVertexAttribute", "Mesh::RawVertexData", "PartitionTriangles"],
     "property-based testing: round trip within an error bound, reference bit layout and reference validation, coverage-guided fuzzing in the thorough tier",
     "Random formats and columns of every magnitude." + BASE)

prop("G02", "Vectors and segments give direction, projection and length accurately",
     "For every finite vector, however small or large, the unit vector has length one and the same direction, the angle between vectors and the parallel and perpendicular tests match the true ones, and a zero vector has the documented result. "
     "Points along a segment, its midpoint, length and the projection of a point onto it match exact arithmetic within rounding, end points included, and there is no projection exactly when the segment has no usable length. "
     "Vector and point arithmetic, equality, hashing and text agree with the components.",
     ["inputs"], "all finite vectors including subnormal and near-maximum ones, all segments and points of moderate size, axis-aligned and nearly parallel pairs",
     "Tests use round numbers; loss of precision or a crash occurs only at particular magnitudes and directions.",
     ["ink/geometry/vec.h", "ink/geometry/vec.cc", "ink/geometry/point.h", "ink/geometry/point.cc", "ink/geometry/segment.h", "ink/geometry/segment.cc"],
     [("unit vectors and angles", "ink/geometry/vec.cc"), ("projection", "ink/geometry/segment.cc")],
     ["Vec::AsUnitVec", "Vec::UnsignedAngleBetween", "Segment::Project", "Segment::Lerp"],
     "property-based testing against a double-precision reference, coverage-guided fuzzing in the thorough tier",
     "Boundary-biased random search over floats." + BASE)

prop("G03", "Rectangles and bounding envelopes keep bounds in order and hold what was added",
     "After any sequence of setters, joins, offsets and scalings a rectangle still has its minimum at or below its maximum and exactly the bounds the operation describes, a failed offset leaving it as it was; containment includes the boundary. "
     "Setting the width, height or aspect ratio keeps the centre and gives the asked value, and the result encloses or lies inside the original as named. "
     "An envelope of any shapes is the smallest rectangle holding every finite one of them, independent of order, and empty exactly when nothing was added.",
     ["inputs", "history"], "all finite rectangles including empty, inverted and near-maximum ones, all operation sequences of up to 12 steps, all sequences of points, segments, triangles, rectangles, quads and meshes",
     "Tests apply one operation to one rectangle; ordering and containment must survive every sequence and degenerate width.",
     ["ink/geometry/rect.h", "ink/geometry/rect.cc", "ink/geometry/envelope.h", "ink/geometry/envelope.cc"],
     [("setters, offset and aspect ratio", "ink/geometry/rect.cc"), ("accumulation", "ink/geometry/envelope.cc")],
     ["Rect::Offset", "Rect::SetWidth", "Rect::Join", "Envelope::Add"],
     "stateful property-based testing against a double-precision model",
     "Random operation histories." + BASE)

prop("G04", "Parallelograms keep size, axes, corners, containment and joins consistent",
     "However it is built or modified, a parallelogram has a non-negative width, the given height, a normalised rotation and a finite shear, and its axes, corners, area and bounds are those of that description; reading any of them between modifications changes nothing. "
     "It contains exactly the points of the closed shape, rounding aside. "
     "Joining a point or shape gives a parallelogram of the same orientation and shear that contains both and is no larger than needed.",
     ["inputs", "history"], "all finite centres, sizes, rotations and shears including degenerate and mirrored ones, setter histories of up to 10 steps, points inside, outside and near every edge",
     "Tests try a few parallelograms; cached axes and sign conventions go wrong only in particular orders of calls or orientations.",
     ["ink/geometry/quad.h", "ink/geometry/quad.cc"],
     [("axes, containment and joins", "ink/geometry/quad.cc"), ("lazily computed axes", "ink/geometry/quad.h")],
     ["Quad::Join", "Quad::Contains", "Quad::Corners", "Quad::SetRotation"],
     "stateful property-based testing against a double-precision model",
     "Random parallelograms and histories." + BASE)

prop("G05", "Affine transforms apply, compose, invert and recover exactly as matrices do",
     "Applying a transform to a point, segment, triangle, rectangle or parallelogram gives the image under its matrix, and a composition acts as one after the other. "
     "An inverse exists exactly for an invertible matrix and undoes it. "
     "The transform that maps one segment, triangle, rectangle or parallelogram to another does map it, and there is none exactly when the source has no extent to determine it.",
     ["inputs"], "all transforms with moderate entries including singular, mirrored and nearly singular ones, all shapes including degenerate ones",
     "Tests use rotations and scalings; shear, mirroring and collapse to a line are combinations no sample list covers.",
     ["ink/geometry/affine_transform.h", "ink/geometry/affine_transform.cc"],
     [("images of parallelograms, inverse, recovery", "ink/geometry/affine_transform.cc")],
     ["AffineTransform::Apply", "AffineTransform::Inverse", "AffineTransform::Find", "AffineTransform::operator*"],
     "property-based testing against double-precision matrix algebra",
     "Random matrices and shapes; tolerances follow the conditioning of the matrix." + BASE)

prop("G06", "Intersection tests and distances between shapes match exact geometry",
     "Two shapes among points, segments, triangles, rectangles and parallelograms are reported as intersecting exactly when they share a point, boundaries included, whichever is named first. "
     "The distance is zero exactly then, and otherwise the length of the shortest connection. "
     "Triangle containment, area and edges agree with the same geometry.",
     ["inputs"], "all pairs of shape kinds on small lattices, where the answer is exact, and in general position where the answer is clear of rounding; degenerate shapes included",
     "Tests check a few positions per pair of kinds; touching, containment and degenerate cases multiply over fifteen pairs.",
     ["ink/geometry/intersects.h", "ink/geometry/intersects.cc", "ink/geometry/internal/intersects_internal.cc", "ink/geometry/distance.h", "ink/geometry/distance.cc", "ink/geometry/triangle.h", "ink/geometry/triangle.cc"],
     [("pairwise tests", "ink/geometry/internal/intersects_internal.cc"), ("pairwise distances", "ink/geometry/distance.cc")],
     ["Intersects", "Distance", "Triangle::Contains"],
     "property-based testing against an exact lattice oracle for convex shapes",
     "Exact comparison on lattices, margin-guarded comparison elsewhere." + BASE)

prop("G07", "Interpolation and line-crossing computations are exact at ends and accurate",
     "Interpolating numbers, points, vectors, colours or angles gives the first value at zero, the second at one, the straight line between for other ratios (the shorter way round for angles) and never a value that is not finite from moderate ones; inverse interpolation undoes it. "
     "Ratios where two segments or their lines cross exist exactly when they do and locate the crossing, overlaps giving the first common point. "
     "The segment that a set of meshes collapses to under a singular transform spans exactly the images of its triangles.",
     ["inputs"], "all moderate values and ratios, segment pairs on small lattices including overlapping and degenerate ones, meshes with unused vertices under rank-one and rank-zero transforms",
     "Tests pick a few ratios and crossings; overlaps, degenerate ends and angle wrap occur only in particular arrangements.",
     ["ink/geometry/internal/algorithms.h", "ink/geometry/internal/algorithms.cc"],
     [("crossing ratios, interpolation, collapsed shapes", "ink/geometry/internal/algorithms.cc")],
     ["Lerp", "SegmentIntersectionRatio", "NormalizedAngleLerp", "CalculateCollapsedSegment"],
     "property-based testing against an exact lattice oracle and a double-precision reference",
     "Exact comparison on lattices." + BASE)

prop("G08", "Circles, convex hulls and line-side tests match exact geometry",
     "The hull of any points is the smallest convex polygon around them: its corners in counter-clockwise order starting from the lowest, each once, for any number, order or repetition of points. "
     "Tangent angles of two circles touch both on the named side and exist exactly when neither circle holds the other, and an arc is traced from start to end by evenly spaced points, as few as keep within the allowed chord height and never more than the cap. "
     "The tests for the side of a line, containment in a triangle and common part of two segments agree with exact arithmetic.",
     ["inputs"], "point sets of 0 to 700 points on lattices, lines and circles; all circle pairs and arcs of both directions; lattice segments at scales from 1e-20 to 1e18",
     "Tests use a dozen points; tie-breaking and the pruning used for large sets are reached only by special arrangements.",
     ["ink/geometry/convex_hull.h", "ink/geometry/internal/convex_hull_helper.h", "ink/geometry/internal/circle.h", "ink/geometry/internal/circle.cc",
      "ink/geometry/internal/legacy_segment_intersection.cc", "ink/geometry/internal/legacy_triangle_contains.cc", "ink/geometry/internal/legacy_vector_utils.cc"],
     [("hull", "ink/geometry/internal/convex_hull_helper.h"), ("arcs and tangents", "ink/geometry/internal/circle.cc"), ("side tests", "ink/geometry/internal/legacy_vector_utils.cc")],
     ["ConvexHull", "Circle::GetTangentAngles", "Circle::AppendArcToPolyline", "LegacyIntersection"],
     "property-based testing against exact lattice oracles",
     "Exact comparison on lattices." + BASE)

prop("M03", "Editable meshes behave as plain lists and convert to meshes faithfully",
     "An editable mesh behaves as a list of vertices and a list of index triples under any sequence of appends, updates, resizes and clears, and validation rejects exactly the triangles that repeat or miss a vertex. "
     "Converting it gives read-only meshes of at most 65536 vertices each that hold every triangle once, in order, with unused vertices dropped, chosen attributes left out and values preserved to half a packing step (positions to one step where a triangle would flip). "
     "No triangle that was not flipped before packing is flipped afterwards, unless the packer reports that it cannot prevent it.",
     ["inputs", "history"], "all attribute formats and both index widths, random edit sequences, meshes from one triangle to more than 65536 vertices, triangles near the packing resolution",
     "Tests edit a few fixed meshes; partitioning, vertex order and flip correction depend on the whole index pattern and its rounding.",
     ["ink/geometry/mutable_mesh.h", "ink/geometry/mutable_mesh.cc", "ink/geometry/internal/mesh_packing.cc", "ink/geometry/mesh.cc"],
     [("editing and conversion", "ink/geometry/mutable_mesh.cc"), ("partitioning", "ink/geometry/internal/mesh_packing.cc")],
     ["MutableMesh", "MutableMesh::AsMeshes", "MutableMesh::ValidateTriangles"],
     "stateful property-based testing against a list model",
     "Random edit sequences compared with plain lists after each step; conversion compared attribute by attribute." + BASE)

prop("M04", "Shapes made of meshes keep their parts and answer area queries exactly",
     "A shape made of groups of meshes keeps every mesh, outline and format in order, rejects inconsistent groups and outlines, and maps outlines of editable meshes to the same positions. "
     "A query shape under any transform, singular ones included, visits exactly the triangles it meets, each once, until told to stop; coverage is the share of the area of those triangles, and a shape without meshes meets and covers nothing. "
     "Two shapes intersect exactly when some of their triangles do, whichever is named first, and the spatial index finds exactly the elements whose boxes meet the query.",
     ["inputs"], "trees of 0 to 700 boxes with several branching factors, groups with zero to three meshes and outlines, lattice triangles and query shapes of all six kinds, integer transforms of rank 0 to 2, meshes of more than 65536 triangles",
     "Tests query a few fixed strips; the index, degenerate triangles, collapsing transforms and empty groups meet only in generated combinations.",
     ["ink/geometry/partitioned_mesh.h", "ink/geometry/partitioned_mesh.cc", "ink/geometry/internal/static_rtree.h", "ink/geometry/internal/static_rtree.cc", "ink/geometry/intersects.cc"],
     [("queries and coverage", "ink/geometry/partitioned_mesh.cc"), ("spatial index", "ink/geometry/internal/static_rtree.h"), ("shape intersection", "ink/geometry/intersects.cc")],
     ["PartitionedMesh", "StaticRTree", "Intersects"],
     "property-based testing against brute force on exact lattices",
     "Every triangle is classified by an exact polygon oracle and compared with what was visited; answers within rounding of a touch are left open where the transform is not exact." + BASE)

prop("B01", "Response curves follow their published definitions",
     "A response curve is the identity, a cubic Bezier, a piecewise-linear curve or a staircase, passes through (0,0) and (1,1), and at every input gives the value its definition gives (Beziers to the accuracy of interpolation between 14 samples). "
     "Outside the unit interval Beziers hold their end values, piecewise-linear curves extend their first and last segment, staircases give 0 and 1; at a jump the last of the points there counts, and NaN stays NaN. "
     "The listed critical points are exactly the corners, jumps and turns of the curve, in order.",
     ["inputs"], "all kinds and parameters, inputs at, next to and between samples, points and jumps",
     "Tests sample a handful of curves; sampling error, repeated points and step boundaries depend on every parameter.",
     ["ink/strokes/internal/easing_implementation.h", "ink/strokes/internal/easing_implementation.cc", "ink/brush/easing_function.h"],
     [("curve evaluation", "ink/strokes/internal/easing_implementation.cc")],
     ["EasingImplementation::GetY", "EasingImplementation::AppendUnitIntervalCriticalPoints"],
     "property-based testing against an exact reference model",
     "Beziers are solved by bisection in double precision, with a bound on the chord error of the sample table." + BASE)

prop("B02", "Exactly the documented brushes are accepted and brushes keep what they are given",
     "A brush family is accepted exactly when every curve, behavior graph, tip, texture layer, coat and name in it satisfies its documented ranges, and is refused with an invalid-argument error otherwise. "
     "Families and brushes keep what they were given; a brush takes a size or precision only if both are finite and positive and the size is at least the precision, and a refused change leaves it as it was. "
     "The mesh attributes a coat needs are the fixed ones, plus a color shift exactly when some behavior targets one and surface coordinates exactly when some layer winds.",
     ["inputs", "history"], "brush parts with each field valid, at an edge, just outside it or not finite, arbitrary node lists, sequences of brush setters",
     "Tests try one bad value per field; which combinations of fields, layers and node lists slip through depends on every branch of validation.",
     ["ink/brush/brush_behavior.cc", "ink/brush/brush_tip.cc", "ink/brush/brush_paint.cc", "ink/brush/brush_coat.cc", "ink/brush/brush_family.cc", "ink/brush/brush.cc", "ink/brush/easing_function.cc"],
     [("behavior graphs", "ink/brush/brush_behavior.cc"), ("tips", "ink/brush/brush_tip.cc"), ("paints", "ink/brush/brush_paint.cc"), ("families", "ink/brush/brush_family.cc"), ("brushes", "ink/brush/brush.cc")],
     ["BrushFamily::Create", "Brush::Create", "Brush::SetSize", "GetRequiredAttributeIds"],
     "property-based testing against an independent validity model",
     "A second statement of every documented range is compared with the verdict of the code." + BASE)

prop("B03", "Equality, hashing and text of brush parts see every field",
     "Two brush parts are equal exactly when all their fields are, equal paints hash alike, and a copy has the same text. "
     "Changing any one field of a curve, node, behavior, tip, texture layer or keyframe makes it unequal and shows in its text. "
     "Every enumerator is written by its published name and unknown ones with their number.",
     ["inputs"], "random brush parts and every single-field change of them",
     "Tests compare a few pairs; a forgotten field only shows when exactly that field differs.",
     ["ink/brush/brush_behavior.cc", "ink/brush/brush_tip.cc", "ink/brush/brush_paint.cc", "ink/brush/brush_paint.h", "ink/brush/easing_function.cc"],
     [("behavior equality and text", "ink/brush/brush_behavior.cc"), ("paint equality and text", "ink/brush/brush_paint.cc"), ("tip equality and text", "ink/brush/brush_tip.cc")],
     ["operator==", "AbslStringify", "AbslHashValue"],
     "property-based testing with single-field mutation",
     "Every value is compared with its copy and with a version that differs in one field." + BASE)

prop("S01", "A batch of stroke inputs is always valid and behaves as a list of its inputs",
     "Whatever operations are applied, a batch of stroke inputs behaves like a plain list of them: appended, inserted, erased, copied and transformed inputs come back exactly, and a copy stays independent of the original. "
     "An operation that would break validity (numbers out of range, time running backwards, a repeated position and time, a change of tool, unit or reported properties) is refused with an invalid-argument error and changes nothing. "
     "Everything valid is accepted, also when a batch is appended to itself.",
     ["inputs", "history"], "histories over three batches that share storage, with valid and invalid inputs of every kind",
     "Tests run short fixed sequences; sharing between copies and partial failures depend on the whole history.",
     ["ink/strokes/input/stroke_input_batch.h", "ink/strokes/input/stroke_input_batch.cc", "ink/strokes/input/stroke_input.h", "ink/strokes/input/internal/stroke_input_validation_helpers.cc"],
     [("storage", "ink/strokes/input/stroke_input_batch.cc"), ("validation", "ink/strokes/input/internal/stroke_input_validation_helpers.cc")],
     ["StrokeInputBatch"],
     "stateful property-based testing against a list model",
     "All batches alive are compared with their models after every step." + BASE)

prop("S05", "Brush behaviors change the tip as documented",
     "Every node of a brush behavior gives the value its documentation states: sources report the documented quantity mapped through their range, missing quantities stay missing, filters, damping, response curves and operators treat missing and overflowing values as documented, and a target keeps its last effect while its input is missing. "
     "Modifiers of one target stack by addition or multiplication in any order, and the tip's properties end up clamped or wrapped to their documented ranges. "
     "An input interpolated between two others lies between them in every property and reports the same properties.",
     ["inputs", "history"], "random behavior graphs over random input runs with every source, target and reported-property combination, and graphs with extreme numbers",
     "Tests check single nodes at a few values; combinations of missing values, ranges and accumulated damping are unbounded.",
     ["ink/strokes/internal/brush_tip_modeler_helpers.cc", "ink/strokes/internal/brush_tip_modeler_helpers.h", "ink/brush/brush_behavior.h"],
     [("node semantics and tip state", "ink/strokes/internal/brush_tip_modeler_helpers.cc")],
     ["ProcessBehaviorNode", "CreateTipState"],
     "property-based testing against a double-precision reference of every node and target",
     "Each node is judged from the values it was really given, so errors do not add up." + BASE)

prop("S06", "Incremental brush tip states equal those of the whole stroke at once",
     "After every update the tip states declared final so far, followed by the provisional ones, are exactly those that modeling all current inputs at once gives, and a final state never has to change whatever inputs follow. "
     "A continuous tip has one state per input; a particle tip places particles, separated by empty states, exactly where both its distance and time gap have passed. "
     "Passing time changes the states exactly as long as the modeler announces unfinished animation, and a reused modeler behaves like a new one.",
     ["inputs", "history", "schedules"], "random tips and behaviors, with every split of the inputs into stable, unstable and predicted updates",
     "Tests follow a few strokes; whether a state was fixed too early shows only for the right behavior, split and later input.",
     ["ink/strokes/internal/brush_tip_modeler.cc", "ink/strokes/internal/brush_tip_modeler.h"],
     [("fixed and volatile states, particles", "ink/strokes/internal/brush_tip_modeler.cc")],
     ["BrushTipModeler::UpdateStroke", "BrushTipModeler::NewFixedTipStates", "BrushTipModeler::HasUnfinishedTimeBehaviors"],
     "stateful metamorphic testing (incremental against all at once) with a reference driver",
     "Inputs that will not stay are random at every update; time and distance ahead lie on a grid so that 'far enough' is exact." + BASE)

prop("S02", "A stroke in progress shows exactly its queued and processed inputs",
     "A stroke in progress accepts inputs exactly while it is started and unfinished, in order and valid; a refused call changes nothing, and after each update its inputs are all queued real ones plus the latest prediction, its geometry refers only to vertices it has, its reported bounds are those of its geometry, and the reported changed region covers every triangle that came or went. "
     "It asks for an update exactly while inputs wait, a prediction outlives the end of inputs or an animation runs, and once dry its geometry stays. "
     "Copies hold the same inputs, brush, triangles and outlines, keep or drop optional attributes as asked, and stay what they are whatever happens to the original, which may be restarted, cleared or moved at any time.",
     ["inputs", "history", "schedules"], "histories of starts, queued real and predicted inputs, updates at any time, ends, copies, clears, moves and region resets with random brushes",
     "Tests run a handful of fixed histories with simple brushes; stale geometry, bounds or shared state shows only after particular sequences.",
     ["ink/strokes/in_progress_stroke.cc", "ink/strokes/in_progress_stroke.h", "ink/strokes/internal/stroke_shape_builder.cc", "ink/strokes/internal/brush_tip_extruder.cc", "ink/strokes/internal/brush_tip_extruder/geometry.cc"],
     [("stroke in progress", "ink/strokes/in_progress_stroke.cc"), ("geometry and bounds", "ink/strokes/internal/brush_tip_extruder.cc")],
     ["InProgressStroke"],
     "stateful property-based testing against a model of inputs and invariants over the geometry",
     "Geometry is compared as a whole before and after every call that must leave it alone; the changed region is judged from the difference of triangle multisets." + BASE)

prop("S03", "A stroke's geometry does not depend on how its inputs arrived",
     "Whatever split into real inputs, predictions and updates led there, and whatever the object drew before, the geometry after an update has exactly the positions, triangles, outlines and colors that giving all its current inputs at once produces. "
     "Predictions that were replaced or dropped leave no trace.",
     ["inputs", "history", "schedules"], "random brushes and pen paths with random splits, predictions and update times",
     "Tests compare a few scripted strokes; whether a saved state is resumed correctly shows only for particular splits, brushes and folds.",
     ["ink/strokes/internal/stroke_input_modeler.cc", "ink/strokes/internal/stroke_shape_builder.cc", "ink/strokes/internal/brush_tip_extruder.cc", "ink/strokes/internal/brush_tip_extruder/geometry.cc", "ink/strokes/in_progress_stroke.cc"],
     [("input modeling with predictions", "ink/strokes/internal/stroke_input_modeler.cc"), ("extrusion save points", "ink/strokes/internal/brush_tip_extruder.cc")],
     ["InProgressStroke::UpdateShape", "InProgressStroke::GetMesh"],
     "metamorphic testing: any schedule against all inputs at once",
     "Derivatives for smooth edges are compared too where a plain tip follows a smooth path; where outlines fold they depend on the steps." + BASE)

prop("S04", "A finished stroke's shape is what its own brush and inputs give",
     "After any sequence of setters, copies and moves, a stroke has the brush and inputs last set, and its shape is the one a thread without any history would generate from them: regenerated exactly when tips, size, precision or inputs change, kept when only color, paint or input model change, and empty without inputs. "
     "An invalid size or precision is refused and changes nothing; setting a stroke's own parts changes nothing; other strokes stay as they are. "
     "A stroke generated at once has the shape of the same stroke drawn step by step.",
     ["inputs", "history"], "histories over up to three strokes with every setter, invalid values, self-assignment and shared parts",
     "Tests call each setter once on a fresh stroke; state left behind in reused builders shows only after other strokes.",
     ["ink/strokes/stroke.cc", "ink/strokes/stroke.h", "ink/strokes/internal/stroke_shape_builder.cc", "ink/strokes/internal/stroke_vertex.cc"],
     [("stroke setters and shape generation", "ink/strokes/stroke.cc")],
     ["Stroke"],
     "stateful property-based testing against strokes generated on a fresh thread",
     "All strokes alive are compared with their models, byte for byte, after every step." + BASE)

prop("S08", "Stroke vertices keep their labels, margins and shifts",
     "A vertex label keeps its side and outset direction whatever margin it is limited to, and the margin reads back within one of its 126 steps and never larger than asked; interpolating vertices gives the documented weighted values, with an exterior label only where both ends share it. "
     "Writing one attribute of a vertex in a mesh changes only that attribute of that vertex, with color shifts limited to their range. "
     "Packing a stroke mesh for rendering, with any attributes left out, keeps labels and neutral shifts exactly and other shifts and texture coordinates within half a step.",
     ["inputs"], "random labels, margins, weights, edit histories and mesh formats",
     "Tests check a few labels and one format; an off-by-one step or a shared slot shows only for particular values.",
     ["ink/strokes/internal/stroke_vertex.cc", "ink/strokes/internal/stroke_vertex.h"],
     [("labels, interpolation, packing", "ink/strokes/internal/stroke_vertex.cc")],
     ["StrokeVertex", "Lerp", "BarycentricLerp", "MakeCustomPackingArray"],
     "property-based testing against reference formulas and round trips through packed meshes",
     "Derivatives are approximate by nature and are judged with the stroke checks." + BASE)
prop("S07", "Tip shapes and the area two of them sweep",
     "The shape of a tip is the rounded, pinched, slanted and turned box its state describes, up to what lies below the drawing threshold, and one shape is said to contain another exactly when it does. "
     "Two shapes count as joinable only if neither contains the other and one can be drawn from the other, the outline of both ends then encloses exactly their common hull, and a shape that cannot be joined is replaced by the last joinable one on the way to it. "
     "Simplifying an outline keeps its ends and drops only points within the threshold.",
     ["inputs", "history"], "random tip states, pairs of shapes, thresholds, polylines and outline edit histories",
     "Tests check a dozen hand-made shapes; which circles bound a joined shape depends on every size, angle and offset.",
     ["ink/strokes/internal/brush_tip_shape.cc", "ink/strokes/internal/brush_tip_extrusion.cc", "ink/strokes/internal/constrain_brush_tip_extrusion.cc", "ink/strokes/internal/circular_extrusion_helpers.cc", "ink/strokes/internal/rounded_polygon.cc", "ink/geometry/internal/circle.cc", "ink/strokes/internal/brush_tip_state.cc", "ink/strokes/internal/stroke_outline.cc", "ink/strokes/internal/brush_tip_extruder/simplify.cc"],
     [("control circles, tangents, caps", "ink/strokes/internal/brush_tip_shape.cc"), ("joinability", "ink/strokes/internal/brush_tip_extrusion.cc")],
     ["BrushTipShape", "BrushTipExtrusion", "ConstrainBrushTipExtrusion", "SimplifyPolyline", "StrokeOutline"],
     "property-based testing against convex hulls of discs in double precision, with winding numbers of sampled points",
     "Points within 2 % of the tip size of the hull boundary are left open, and control circles closer than that may be wound around twice." + BASE)
prop("S09", "A stroke's mesh covers what its tip sweeps, and no more",
     "When a tip of constant or slowly changing shape follows a smooth path, every point of the area swept between consecutive tip shapes is covered by the stroke's triangles, and every point of a triangle lies in that area, up to the drawing threshold. "
     "A shape around all of a part replaces it, one below the threshold starts a new part, and a single shape is drawn by itself. "
     "On any path and with any change of shape, no vertex strays further from the hull of all shapes than the size of the tip.",
     ["inputs", "history"], "random tips, paths and changes of shape, given in several steps with shapes that stay and shapes that are replaced",
     "Tests check the vertices of a few short strokes; a corner that is lost or a cap that is missing shows only for particular shapes and turns.",
     ["ink/strokes/internal/brush_tip_extruder.cc", "ink/strokes/internal/brush_tip_extruder/geometry.cc", "ink/strokes/internal/brush_tip_extrusion.cc", "ink/strokes/internal/circular_extrusion_helpers.cc", "ink/strokes/internal/brush_tip_shape.cc"],
     [("extrusion", "ink/strokes/internal/brush_tip_extruder.cc"), ("triangulation", "ink/strokes/internal/brush_tip_extruder/geometry.cc")],
     ["BrushTipExtruder::ExtendStroke", "MutableMesh"],
     "property-based testing against the union of convex hulls of consecutive tip shapes, at sampled points",
     "Points within twice the threshold plus 2 % of the tip size of the border are left open; sharp turns and sudden changes of shape may fold and are judged by the last clause only." + BASE)

prop("M05", "Filling an outline covers its inside exactly once",
     "Filling one closed outline, or several with a fill rule, gives triangles that cover exactly the points the outlines go around as the rule demands, each of them once, and an outline with too few points, only points on one line, or a coordinate that is no number is refused. "
     "The corners handed in come back unchanged and unused corners are not lost, crossings become new corners that know the corners on either side of them, and no two corners sit at one place. "
     "Asking for the neighbor of a corner in a triangle gives the next or previous corner around it.",
     ["inputs"], "random simple, star-shaped, self-crossing and repeated outlines on a grid, alone or several at once, with every fill rule",
     "Tests fill a handful of rectangles and bow ties; which corners are merged or added depends on every crossing.",
     ["ink/geometry/tessellator.cc", "ink/geometry/internal/generic_tessellator.h", "ink/geometry/internal/point_tessellation_helper.h"],
     [("tessellation", "ink/geometry/internal/generic_tessellator.h"), ("crossing corners", "ink/geometry/internal/point_tessellation_helper.h")],
     ["CreateMeshFromPolyline", "Tessellate", "FindNeighbor", "AdjacentTo"],
     "property-based testing against winding numbers at sampled points",
     "The tessellation library is not in this sandbox: an exact stand-in for points on a grid (/verif/shim) takes its place, so the code around it is checked, not the library." + BASE)
prop("M06", "Closing and trimming a hand-drawn outline",
     "Before a drawn line is filled, its ends are cut back to their outermost crossing or connected to the nearest point of the line, exactly when the given distances and ratios say so; every point in between stays as it was, and a line that neither crosses nor comes close to itself comes back unchanged. "
     "A pen that rests, giving the same point several times, changes nothing. "
     "No line, however short, makes it fail.",
     ["inputs"], "random walks, spirals and closed curves with touching and repeated points, all limits",
     "Tests use a few fixed shapes; which crossing is outermost and which end connects depends on the whole line.",
     ["ink/geometry/internal/polyline_processing.cc", "ink/geometry/internal/static_rtree.h"],
     [("end processing", "ink/geometry/internal/polyline_processing.cc")],
     ["ProcessPolylineForMeshCreation"],
     "property-based testing against an exhaustive reference in double precision, and a metamorphic relation for repeated points",
     "Decisions within rounding of a limit and nearly parallel overlaps are discarded." + BASE)
prop("S10", "Modeled inputs depend only on the inputs, not on how they arrived",
     "Whatever updates led there, the modeled inputs of a stroke are exactly those that its real inputs followed by the latest prediction give when modeled in one go, no two neighbors closer than the brush's precision and with the distance along them added up. "
     "The inputs once called stable never change and their number never shrinks, and the counts of stable and real ones mark exactly the results of all but the last real input and of all real inputs. "
     "The reported tool, unit length, distances and times are those of these inputs, a new stroke starts from nothing, and loop mitigation is asked for exactly with the newer input model and a known unit length.",
     ["inputs", "history"], "all valid input lists in every format, split at random into updates with real inputs, predictions or nothing, both input models, modelers used before",
     "Tests follow a few fixed sequences of updates; a prediction left behind or a count that is off shows only in particular histories.",
     ["ink/strokes/internal/stroke_input_modeler.cc", "ink/strokes/internal/stroke_input_modeler.h"],
     [("updates", "ink/strokes/internal/stroke_input_modeler.cc")],
     ["StrokeInputModeler::ExtendStroke", "StrokeInputModeler::GetState", "StrokeInputModeler::GetModeledInputs"],
     "stateful property-based testing: any history of updates against one run over the same inputs",
     "The smoothing library is not in this sandbox: a deterministic stand-in (/verif/shim) takes its place, so its use is checked, not its curves." + BASE)
prop("S11", "Stroke vertices carry the color shift and texture place of their tip",
     "Every vertex of a stroke carries the opacity, hue, saturation and luminosity shift of the tip state it was made from, blends of two states appearing only where an outline is cut at a crossing. "
     "When a coat has a single winding texture and spaced particles, each vertex also has its place in the texture: the middle at the particle's center, turned with the particle, reaching from edge to edge across its width and height and never beyond; in all other coats it has none. "
     "Neither other coats nor what was drawn before nor provisional states matter.",
     ["inputs", "history"], "random tip shapes and shifts, separate or swept along smooth and sharp paths, handed over final or provisional, and whole brushes with constant shifts, gaps and texture layers",
     "Tests look at one or two vertices; a shift taken from a neighboring tip or a wrong axis shows only for particular shapes, angles and orders.",
     ["ink/strokes/internal/brush_tip_extruder.cc", "ink/strokes/internal/stroke_shape_builder.cc", "ink/strokes/internal/brush_tip_extruder/geometry.cc", "ink/strokes/internal/brush_tip_modeler_helpers.cc"],
     [("shifts and places", "ink/strokes/internal/brush_tip_extruder.cc")],
     ["BrushTipExtruder::ExtendStroke", "InProgressStroke::GetMesh", "StrokeVertex::GetFromMesh"],
     "property-based testing: every vertex against the tip state that made it",
     "On sharp paths of differing tips, where outlines fold over, only the range of the values is checked." + BASE)
prop("J02", "Java geometry calls do what the native geometry does",
     "Every geometry call from Java gives what the native operation gives for the same numbers, and objects are made or filled with the values of the result, each exactly once. "
     "Meshes, formats and shapes handed to Java are copies of its own that outlive what they came from and are really freed when Java lets go. "
     "No call leaves an exception, a held reference or a broken rule of the virtual machine behind.",
     ["inputs", "history"], "random shapes, transforms and meshes for every entry point, with objects freed in random orders",
     "There is no test of this code in the repository: swapped arguments or a shared object show only for particular values.",
     ["ink/geometry/internal/jni/intersects_jni.cc", "ink/geometry/internal/jni/partitioned_mesh_jni.cc", "ink/geometry/internal/jni/mesh_jni.cc", "ink/geometry/internal/jni/mesh_format_jni.cc", "ink/geometry/internal/jni/mutable_envelope_jni.cc", "ink/geometry/internal/jni/parallelogram_jni.cc", "ink/geometry/internal/jni/rect_jni.cc", "ink/geometry/internal/jni/affine_transform_jni.cc", "ink/geometry/internal/jni/vec_jni.cc", "ink/geometry/internal/jni/triangle_jni.cc", "ink/geometry/internal/jni/angle_jni.cc"],
     [("geometry entry points", "ink/geometry/internal/jni/intersects_jni.cc")],
     ["Java_androidx_ink_geometry_*"],
     "differential property-based testing of the bridge against the native operations, on an instrumented fake virtual machine",
     "The fake environment replaces a real virtual machine." + BASE)
prop("J03", "Java brushes, inputs and strokes are the native ones, value for value",
     "A brush, input or stroke built from Java piece by piece is the native one with those values, in the published numbering, and what Java reads back (inputs, counts, outlines, bounds, vertex and index data, shader specifications) is what the native object holds. "
     "What the native rules refuse raises the matching exception or returns the message, changes nothing and leaves nothing allocated. "
     "Everything Java holds is its own: parts may be freed in any order, index data ends at the last whole triangle that fits into 16 bits, and freeing really frees.",
     ["inputs", "history"], "random brushes with every kind of node, valid and invalid, random input histories, strokes drawn in steps and mesh formats",
     "There is no test of this code in the repository: swapped fields, leaks on refusal or uninitialized output show only for particular values.",
     ["ink/brush/internal/jni/brush_behavior_jni.cc", "ink/brush/internal/jni/brush_tip_jni.cc", "ink/brush/internal/jni/brush_paint_jni.cc", "ink/brush/internal/jni/brush_coat_jni.cc", "ink/brush/internal/jni/brush_family_jni.cc", "ink/brush/internal/jni/brush_jni.cc", "ink/strokes/internal/jni/in_progress_stroke_jni.cc", "ink/strokes/internal/jni/stroke_input_batch_jni.cc", "ink/strokes/internal/jni/stroke_input_jni_helper.cc", "ink/strokes/internal/jni/stroke_jni.cc", "ink/rendering/skia/common_internal/jni/canvas_mesh_renderer_jni.cc"],
     [("brush entry points", "ink/brush/internal/jni/brush_behavior_jni.cc"), ("stroke entry points", "ink/strokes/internal/jni/in_progress_stroke_jni.cc")],
     ["Java_androidx_ink_brush_*", "Java_androidx_ink_strokes_*", "CanvasMeshRenderer"],
     "differential and stateful property-based testing of the bridge against native objects, on an instrumented fake virtual machine",
     "The numbering on the Java side is taken from the order of the native enumerators. The fake environment replaces a real virtual machine." + BASE)
