#!/usr/bin/env python3
"""Source of properties.jsonl (run it to regenerate)."""
import json, os
R = []
def p(id, title, statement, over, quant, why, files, mech, observe=None, hook=None, state=None):
    a = {"files": ["src/" + f for f in files], "mechanism": [{"name": m[0], "where": "src/" + m[1]} for m in mech],
         "hook_needed": hook}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": s[0], "meaning": s[1], "where": "src/" + s[2]} for s in state]
    R.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant},
              "why_tests_cant": why, "anchors": a})

p("C01", "Image film reconstructs the filter-weighted average of every sample",
  "For every set of samples handed to the image film, each saved pixel equals the average, weighted by the reconstruction filter, of exactly those samples whose distance from the pixel centre is within the filter's extent, clamped to the displayable range. No contribution is lost, duplicated or put on another pixel, whatever the image size, filter, sample position, order of arrival, tile division or number of threads adding concurrently.",
  ["inputs", "schedules", "histories"],
  "all image sizes, filters, sample positions (tile interior, tile borders, image borders), tile divisions and thread interleavings",
  "The film tests add a handful of samples from one thread; sums over overlapping tiles and concurrent merging of the shared border samples are a for-all-schedules claim.",
  ["cameras/image_film.cpp", "samplers/filter.hpp"],
  [("per-tile direct accumulation + deferred border samples merged under a lock", "cameras/image_film.cpp")],
  ["the written image file", "sequence of samples handed to the film"])

p("C02", "Rendering is free of data races and shutdown hazards",
  "Rendering a scene with any number of worker threads performs no unsynchronised conflicting access to shared memory (job queue, film, progress display, scene, materials, textures, random generators), never deadlocks, and has joined all its threads when rendering ends.",
  ["schedules", "configurations"],
  "all interleavings of 1..n workers and the progress display, for all scene kinds and samplers",
  "Tests render at most trivially and never look at interleavings; a race is invisible in a passing run.",
  ["renderer.cpp", "cameras/image_film.cpp", "integrators/path_tracer.cpp"],
  [("mutex protected job queue and film merge", "renderer.cpp")],
  ["ThreadSanitizer reports over the whole render", "process termination"])

p("C03", "Every pixel sample is taken exactly once and reaches the image",
  "A render of WxH pixels with spp samples per pixel evaluates for each pixel exactly spp camera samples (for the stratified sampler one in each cell of the pixel's grid), all lying inside the pixel (at the centre of its cell when the sampler is not random) and none outside the image, regardless of the number of threads and the order in which they take work. Different regions of an image and different threads draw different random offsets. Every returned radiance reaches the final image: a scene in which every ray returns the same colour gives an image in which every pixel has that colour.",
  ["inputs", "schedules", "configurations"],
  "all image sizes, sample counts, samplers, thread counts and schedules",
  "Tests check the samplers in isolation on one tile; the exactly-once claim ranges over tile divisions and schedules of the worker threads.",
  ["renderer.cpp", "samplers/sampler_random.cpp", "samplers/sampler_stratified.cpp", "samplers/sampler.cpp"],
  [("work queue of tiles, each popped once", "renderer.cpp"), ("per-tile sampler", "samplers/sampler_stratified.cpp")],
  ["camera samples received by a recording camera", "radiance results merged by the film"])

p("C04", "Random generator: range, determinism and uniformity",
  "The pseudo-random generator implements WELL1024a: the same seed always yields the same sequence, floating point outputs lie in the unit interval, and over long runs outputs of any well-mixed seed are uniform and serially uncorrelated. Two generators with different seeds or used by different threads do not influence each other.",
  ["inputs", "histories"],
  "all seeds and arbitrarily long output sequences",
  "Tests compare a few outputs of one seed; range and uniformity quantify over all seeds and positions.",
  ["utility/wellrng.cpp"],
  [("WELL512a state update", "utility/wellrng.cpp")], ["the output sequence"])

p("C05", "Reconstruction filters have the documented shapes",
  "Each reconstruction filter's weight equals, at every offset, its published definition for its parameters (box constant, tent linear, Gaussian minus its border value, the Mitchell-Netravali cubic, the windowed sinc), is symmetric in both axes and is finite everywhere, the Gaussian and tent never being negative. Outside their extent the tent, Gaussian and Lanczos filters give no weight.",
  ["inputs"], "all filter kinds, parameters and offsets",
  "Tests evaluate a few offsets of one parameter set.",
  ["samplers/filter_box.cpp", "samplers/filter_tent.cpp", "samplers/filter_gaussian.cpp", "samplers/filter_mitchell.cpp", "samplers/filter_lanczos.cpp"],
  [("closed form weight functions", "samplers/filter_mitchell.cpp")], ["weight(x, y)"])

p("C06", "Cameras generate the ray of their projection for every film position",
  "For every placement and film position, a camera's ray starts at and points along what the projection geometry dictates: perspective rays leave the eye inside the requested field of view with square pixels, orthographic rays are parallel to the view direction and spread linearly over the film, panoramic rays sweep the full sphere of directions. Directions have unit length, the centre of the image looks at the target, up is up, and the companion differential rays are those of the neighbouring pixels.",
  ["inputs", "configurations"], "all camera placements, fields of view, image sizes, film positions",
  "Tests pin a few rays of a few placements.",
  ["cameras/camera.cpp", "cameras/camera_perspective.cpp", "cameras/camera_orthographic.cpp", "cameras/camera360.cpp"],
  [("raster-to-camera and camera-to-world matrices", "cameras/camera.cpp")], ["rays returned for samples"])

p("C07", "Primitive intersection reports exactly the nearest true hit",
  "For every ray and primitive (sphere, box, triangle), intersection reports a hit exactly when the line from the ray's origin forward meets the surface, beyond a small self-intersection distance, nearer than the current limit, and then reports the nearest such distance, a point on both the ray and the surface, and the outward unit normal. A miss leaves the caller's distance and hit record unchanged, and no input makes it read or write outside its objects.",
  ["inputs"], "all rays (including axis-aligned, origin-inside, tangent, behind), all distance limits, all vertices",
  "Tests try a handful of rays; correctness is over a continuum with many special positions.",
  ["primitives/sphere.cpp", "primitives/box.cpp", "primitives/triangle.cpp", "utility/utility.cpp"],
  [("quadratic solver, slab test, edge/barycentric test", "primitives/triangle.cpp")], ["intersect() result, distance, hit record"])

p("C08", "Mesh hierarchy finds the same nearest triangle as exhaustive search",
  "For every triangle mesh and every ray, the mesh's acceleration hierarchy reports a hit exactly when testing all triangles one by one does, at the same smallest distance, and identifies the triangle hit. It does so for any triangle count and layout (clustered, coplanar, duplicated, degenerate, far apart), and each hit is shaded with the material assigned to that face of the mesh.",
  ["inputs", "configurations"], "all meshes from 1 to tens of thousands of triangles, all rays",
  "Tests intersect three fixed meshes with a few rays; pruning errors lose only particular ray/triangle pairs.",
  ["accelerators/bvh.cpp", "primitives/mesh.cpp", "primitives/asset.cpp"],
  [("agglomerative clustering build", "accelerators/bvh.cpp"), ("ordered stack traversal with pruning", "accelerators/bvh.cpp")],
  ["Mesh intersect() versus brute force over the same triangles"])

p("C09", "Scene accelerator finds the same nearest object as exhaustive search",
  "For every collection of placed objects and every ray, the scene's spatial index reports a hit exactly when testing all objects one by one does, at the same smallest distance and with the same object, including overlapping, coincident, nested, planar and widely separated objects. Building it again, or with any number of objects the scene accepts, keeps this true.",
  ["inputs", "histories", "configurations"], "all scenes from 0 to the maximum number of assets, all rays, repeated builds",
  "Tests build a few small fixed scenes.",
  ["accelerators/kdtree.cpp", "primitives/asset.cpp", "utility/scene.cpp"],
  [("SAH split with per-leaf asset lists", "accelerators/kdtree.cpp"), ("front-to-back traversal with early exit", "accelerators/kdtree.cpp")],
  ["scene intersection versus brute force over the same assets"])

p("C10", "Shadow queries answer visibility exactly and independently of history",
  "An occlusion query answers true exactly when some object lies on the given ray at less than the given distance (less a small documented tolerance), and gives the same answer whatever queries were made before on the same tester. The blocker cached from earlier queries can never change an answer.",
  ["inputs", "histories"], "all scenes, rays, distances and query histories",
  "Tests make two or three queries; the cached last blocker makes answers history dependent if wrong.",
  ["utility/occlusion_tester.cpp"],
  [("last blocker cache in front of the scene accelerator", "utility/occlusion_tester.cpp")], ["is_occluded()"])

p("C11", "Bounding boxes always enclose what they bound",
  "The bounding box of any primitive, mesh or placed object under any affine placement contains every point of its surface and is no larger, beyond a small tolerance, than the box around the placed local box, boxes grow monotonically when points are added, and a ray test against a box reports entry and exit exactly as the geometric slab intersection does. The volume, surface and longest-axis queries agree with the box's extents.",
  ["inputs"], "all shapes, vertices, affine placements, rays",
  "Tests check a few transformed boxes.",
  ["geometry/AABB.cpp", "primitives/sphere.cpp", "primitives/box.cpp", "primitives/triangle.cpp", "primitives/mesh.cpp"],
  [("min/max accumulation over transformed extremes", "primitives/mesh.cpp")], ["compute_AABB(), get_AABB(), AABB intersect"])

p("C12", "Vector and matrix algebra obey their mathematical laws",
  "Vector, point, ray and matrix operations agree with exact arithmetic to rounding: composition, inverse, transpose, look-at, scaling, rotation and translation behave as the corresponding maps on points, directions, normals and rays. Inverting an invertible matrix succeeds and composing it with its inverse gives the identity, however large or small its scale.",
  ["inputs"], "all vectors and matrices in floating range used by scenes (scales from 1e-3 to 1e4)",
  "Tests use a few literals.",
  ["geometry/matrix4.cpp", "geometry/vec3.cpp", "geometry/point3.cpp", "geometry/ray.cpp", "geometry/vec2.cpp", "geometry/point2.cpp"],
  [("closed-form 4x4 inverse and products", "geometry/matrix4.cpp")], ["operator results"])

p("C13", "Surface sampling is uniform over the true surface area",
  "Points sampled on a shape lie on its surface, carry the outward surface normal there, and are distributed uniformly with respect to surface area over all its faces; the reported surface area equals the true area of the shape, placed by any translation, rotation and uniform scale. All random numbers from zero to one, zero included and one excluded, give a valid point.",
  ["inputs"], "all shapes, meshes, random numbers, placements",
  "Tests sample a few fixed random numbers; uniformity is a statement about the whole distribution.",
  ["primitives/sphere.cpp", "primitives/box.cpp", "primitives/triangle.cpp", "primitives/mesh.cpp"],
  [("cumulative area table and binary search", "primitives/mesh.cpp"), ("area-preserving maps", "primitives/triangle.cpp")], ["sample_point(), surface()"])

p("C14", "Area-light sampling is unbiased for direct illumination",
  "Sampling an area light from a point gives an incident direction of unit length towards a point of the light's surface, the light's emission for points on its front, and a solid-angle density consistent with the density query for that direction, so that averaging emission over density reproduces the true irradiance from the light. Occluded or back-facing samples contribute nothing.",
  ["inputs", "configurations"], "all light shapes and placements, receiving points, occluders, random numbers",
  "Tests pin a few sampled values.",
  ["lights/area_light.cpp"],
  [("area to solid angle density conversion and shadow test", "lights/area_light.cpp")], ["sample_visible_surface(), radiance(), pdf()"])

p("C15", "Every material is a finite, non-negative, energy-conserving scattering law",
  "For every material, parameter set and pair of directions the scattering value is finite and non-negative, symmetric in the two directions for purely reflecting materials, and, when the colours of its lobes sum to at most one per band and the change of radiance with the refractive index is taken out, scatters no more energy than arrives; directions on the wrong side of the surface scatter nothing. The sampling density is non-negative and integrates to at most one over the sphere.",
  ["inputs", "configurations"], "all materials, parameters, direction pairs, hit points",
  "Tests pin a few values per material.",
  ["materials/lambertian.cpp", "materials/oren_nayar.cpp", "materials/microfacet.cpp", "materials/reflection.cpp", "materials/refraction.cpp", "materials/single_brdf.cpp", "materials/multi_bsdf.cpp"],
  [("closed-form lobes", "materials/microfacet.cpp"), ("lobe selection and averaging", "materials/multi_bsdf.cpp")], ["value(), sample_value(), pdf()"])

p("C16", "Material sampling draws directions from exactly the density it reports",
  "For every material, directions drawn by sampling follow the density reported by the density query, and the value and density returned with a sample are those the value and density queries give for that direction, for any shading frame aligned with the surface. Every sampled direction has unit length, and a zero density never accompanies a contributing sample.",
  ["inputs", "configurations"], "all materials, parameters, outgoing directions, random numbers",
  "Tests pin single samples; a density/sampler mismatch is a statement about distributions.",
  ["materials/lambertian.cpp", "materials/bdf.cpp", "materials/microfacet.cpp", "materials/microfacet_distributions.cpp", "materials/multi_bsdf.cpp"],
  [("importance sampling of cosine and microfacet distributions", "materials/microfacet_distributions.cpp")], ["sample_value(), value(), pdf()"])

p("C17", "Microfacet distributions, Fresnel terms and specular directions obey optics",
  "Each microfacet distribution is non-negative and normalised over projected area with masking between zero and one, Fresnel reflectance lies between zero and one, equals the exact equations for dielectrics and their standard approximation for conductors at every angle and is one under total internal reflection. Mirror and refracted directions obey the reflection and Snell laws and stay unit length.",
  ["inputs"], "all roughness values, indices, angles and directions",
  "Tests pin a few angles.",
  ["materials/microfacet_distributions.cpp", "materials/fresnel_conditions.cpp", "materials/reflection.cpp", "materials/refraction.cpp"],
  [("closed-form D, G, F", "materials/microfacet_distributions.cpp")], ["d(), G(), eval(), sample_value()"])

p("C18", "Path-traced radiance converges to the light transport solution",
  "The radiance computed for a camera ray is finite, non-negative and, averaged over random numbers, equals the solution of light transport (up to the limit of bounces) for scenes with a known answer: an emitter seen directly shows its emission, an unoccluded diffuse patch shows its albedo times the irradiance over pi, a furnace stays at its closed-form value, and an unlit scene is black. Rays that leave the scene return no light.",
  ["inputs", "configurations", "histories"], "all scenes with a closed-form solution, path lengths, random sequences",
  "Tests pin single random sequences of one scene.",
  ["integrators/path_tracer.cpp", "integrators/ray_tracer.cpp", "lights/area_light.cpp"],
  [("throughput product, next-event estimation, Russian roulette", "integrators/path_tracer.cpp")], ["radiance()"])

p("C19", "Colour and spectrum arithmetic and conversions are consistent",
  "Spectrum arithmetic is element-wise exact, luminance equals that of the converted tristimulus colour, RGB, sRGB and XYZ conversions invert each other and match the sRGB standard, and a colour turned into a spectrum and back keeps its value within a tolerance that is tight for the RGB build and loose for the tabulated spectral one. Illuminants and blackbody emission follow their physical definition and never give negative or non-finite light.",
  ["inputs"], "all colours, spectra, temperatures, in RGB and spectral builds",
  "Tests pin a few colours.",
  ["utility/color.cpp", "utility/spectrum.cpp"],
  [("conversion matrices, CIE tables, upsampling basis", "utility/spectrum.cpp")], ["to_xyz(), to_rgb(), luminance(), constructors"])

p("C20", "Image texture lookup returns the properly filtered texel colour",
  "A texture lookup with any finite coordinates (inside, outside by repetition, on borders, negative) and filter setting returns the colour obtained by the selected filter from the image's own texels: exact texel when unfiltered, and a convex combination of texels from suitable resolution levels otherwise. No lookup reads outside the image or returns a non-finite colour, a constant image always gives its constant, and shifting coordinates by whole repeats changes nothing.",
  ["inputs", "configurations"], "all images, sizes, coordinates, derivatives, shifts, scales, filters",
  "Tests look up a few coordinates of a few images.",
  ["textures/image_map.cpp", "textures/texture_image.cpp"],
  [("mip pyramid, trilinear and EWA filtering", "textures/image_map.cpp")], ["map() values"])

p("C21", "Masks and dual materials cut and switch surfaces exactly where specified",
  "A surface point is cut away, or switches to the second material, exactly where the mask texture is below or above the threshold at that point's texture coordinates, for direct rays, shadow rays and every shape kind alike; a cut point behaves as if absent, revealing what is behind it. Inverting a mask complements the set of points.",
  ["inputs", "configurations"], "all mask images, hit points, shapes, rays and shadow rays",
  "Tests check a few texels.",
  ["textures/mask_boolean.cpp", "materials/dual.cpp", "primitives/triangle.cpp", "primitives/sphere.cpp", "primitives/box.cpp"],
  [("mask consulted inside intersection", "primitives/triangle.cpp")], ["is_masked(), intersect(), shading"])

p("C22", "Saved images decode to exactly the pixels that were written",
  "For every image size and pixel content, the file written in each supported format is a valid file of that format which an independent decoder reads back as the same width, height and pixels (exactly for lossless formats, closely for smooth images in JPEG). A failing write is reported as failure.",
  ["inputs", "fault_sequences"], "all sizes, pixel contents, formats; unwritable and full destinations",
  "Tests write one 2x2 or similar image per format and re-read it with the same library.",
  ["utility/imageio/bmp.c", "utility/imageio/ppm.c", "utility/imageio/tga.c", "utility/imageio/png.c", "utility/imageio/jpg.c", "utility/imageio/tiff.c", "utility/imageio/imageio.c"],
  [("per-format encoders", "utility/imageio/bmp.c")], ["the files written", "return codes"])

p("C23", "Supported image files decode to their true pixels",
  "For every well-formed file of a supported format and variant (bit depths, colour types, row orders, padding, compression, palettes), reading reports the true dimensions and produces the true colours and alpha, as an independent encoder specified them. The dimension query and the read agree.",
  ["inputs"], "all valid files of the supported variants of six formats",
  "Tests read a few stock files.",
  ["utility/imageio/bmp.c", "utility/imageio/ppm.c", "utility/imageio/tga.c", "utility/imageio/png.c", "utility/imageio/jpg.c", "utility/imageio/tiff.c"],
  [("per-format decoders", "utility/imageio/tga.c")], ["img_read(), img_dimensions()"])

p("C24", "Hostile image files never corrupt memory, hang or crash",
  "For every byte sequence offered as an image in any supported format, querying dimensions and reading terminate, touch only memory they own and the caller's buffer, and report an error when the data cannot be decoded. A texture whose file cannot be decoded fails cleanly or falls back, without using unset data.",
  ["inputs", "fault_sequences"], "all byte sequences up to tens of kilobytes; truncation at every byte",
  "Tests feed only well-formed stock files and one or two broken ones.",
  ["utility/imageio/bmp.c", "utility/imageio/ppm.c", "utility/imageio/tga.c", "utility/imageio/png.c", "utility/imageio/jpg.c", "utility/imageio/tiff.c", "textures/image_map.cpp"],
  [("header validation and return codes", "utility/imageio/bmp.c")], ["sanitizer reports, return codes"])

p("C25", "OBJ models are loaded with the geometry the file describes",
  "For every well-formed OBJ file, loading yields, per named object, exactly the triangles its faces describe: correct vertices, texture coordinates and normals for every index form (absolute and negative), convex polygons triangulated into triangles covering them once, and each face carrying the material named for it. The result does not depend on white space, comments, line endings, buffer boundaries or how many objects precede it.",
  ["inputs", "histories"], "all OBJ texts in the supported grammar",
  "Tests load a few stock files; token/buffer-boundary errors depend on exact byte positions.",
  ["parsers/parser_obj.cpp"],
  [("buffered tokenizer and face assembly", "parsers/parser_obj.cpp")], ["meshes, face materials returned per object"])

p("C26", "Hostile model and configuration files never corrupt memory, hang or crash",
  "For every byte sequence offered as an OBJ model or as a scene configuration, parsing terminates and touches only memory it owns; unusable input is rejected with an error message naming the place, not a crash. Images of absurd dimensions are out of scope.",
  ["inputs"], "all byte sequences; truncation at every byte; unusual token lengths",
  "Tests feed a few hand-written mistakes.",
  ["parsers/parser_obj.cpp", "parsers/config_driver.cpp", "parsers/config_lexer.l", "parsers/config_parser.y"],
  [("lexer/grammar error productions", "parsers/config_parser.y")], ["sanitizer reports, exit behaviour, error text"])

p("C27", "A scene configuration builds the scene it describes",
  "For every configuration in the documented grammar, the scene, camera, film, sampler, filter, materials, textures, masks and lights built are those described: values are taken as written (last one wins where repeated), omitted ones take the documented defaults, placements apply scale, rotation in degrees and position in that order. Independent sections may appear in any order and be split over child files without changing the result, and each error is reported at its own line.",
  ["inputs", "programs"], "all configuration texts in the documented grammar",
  "Tests parse one snippet per keyword.",
  ["parsers/config_driver.cpp", "parsers/config_parser.y", "parsers/config_lexer.l"],
  [("deferred building after parsing", "parsers/config_driver.cpp")], ["driver state, scene contents, rays, error counters"])

p("C28", "File paths resolve as the file system resolves them",
  "For every chain of relative and absolute appends (with dots, double dots, repeated or trailing separators, and no symbolic links before the last part), the resulting path names the same file the operating system would reach, and extension, file name, folder, existence and directory queries agree with that path. Copying, assigning or querying a path object never changes another.",
  ["inputs", "histories"], "all path strings and operation sequences",
  "Tests try a list of strings.",
  ["utility/file.cpp"],
  [("lexical normalisation of . and ..", "utility/file.cpp")], ["File accessors"])

p("C29", "Everything created is released exactly once",
  "Building, using and destroying any scene, film, parser, texture, material library or renderer releases every object exactly once: nothing leaks, is freed twice or used after release, also after recoverable parse errors, repeated loading, clearing and duplicate names; an object a library refuses because its name is taken stays with the caller.",
  ["histories", "inputs"], "all sequences of building, using, clearing and destroying the public objects",
  "Unit tests run without a leak or lifetime checker and rarely reuse or reset objects.",
  ["utility/scene.cpp", "textures/texture_library.cpp", "materials/material_library.cpp", "parsers/config_driver.cpp", "parsers/parser_obj.cpp", "utility/file.cpp", "utility/array2D.hpp"],
  [("ownership inherited by containers", "utility/scene.cpp")], ["LeakSanitizer and AddressSanitizer reports"])

p("C30", "The command-line renderer honours its contract end to end",
  "Given a valid configuration the program exits successfully having written, at the configured path, an image of the configured resolution showing the described scene; given an unusable one it exits with failure, a message and no output image. Given the same scene, results are independent of the working directory and of the thread count up to sampling noise.",
  ["inputs", "configurations", "schedules"], "all command lines, configurations, working directories, thread counts",
  "No test runs the program.",
  ["main.cpp", "parsers/config_driver.cpp", "renderer.cpp"],
  [("argument check, driver, renderer in sequence", "main.cpp")], ["exit status, output file, stdout"])

p("C31", "Shading frames are orthonormal and bump maps tilt them correctly",
  "At every hit the shading frame used to evaluate a material is orthonormal, maps the surface normal to its pole, converts directions there and back without change, and interpolated normals, normal maps and height maps tilt it consistently with the stored normals and the surface parametrisation, a flat map leaving it unchanged; the shading normal stays on the outer side of the surface. Degenerate parametrisations still give a valid frame.",
  ["inputs"], "all hit points, normals, tangents, texture coordinates, maps",
  "Tests pin a few frames.",
  ["materials/shading_space.cpp", "materials/bump.cpp", "textures/texture_normal.cpp", "textures/texture_height.cpp", "primitives/triangle.cpp"],
  [("Gram-Schmidt frame from normal and parametrisation", "materials/shading_space.cpp")], ["frame vectors, world/shading conversions"])

p("C32", "Named resources and scene contents are kept faithfully",
  "Libraries of materials and textures and the scene's collections return exactly what was stored under each name or identifier until it is erased or cleared, whatever sequence of insertions, lookups, erasures and refused duplicates is performed, and missing names are reported as missing. Identifiers are never reused while in use and removal affects only its target.",
  ["histories"], "all operation sequences over names and identifiers",
  "Tests run one short sequence per operation.",
  ["textures/texture_library.cpp", "materials/material_library.cpp", "utility/scene.cpp"],
  [("maps keyed by name/id", "textures/texture_library.cpp")], ["lookups, sizes"])

p("C33", "Hits carry the true texture tangents and pixel footprint",
  "At every hit of a placed object the texture coordinates and the partial derivatives of position by them are those of the shape's parametrisation under its placement, and the footprint handed to texture filters is the change of texture coordinates from the pixel to its neighbours along the tangent plane, whatever the size of the object; where the parametrisation is degenerate or a neighbouring ray never meets the plane there is no footprint rather than a non-finite one. No hit of a render depends on samples traced before it, filtered masks included.",
  ["inputs", "histories"], "all shapes, placements, cameras and samples; all orders of samples",
  "Tests evaluate the footprint formula with three hand-made hits, never with the hits objects report, and never two hits one after the other.",
  ["primitives/hit_point.cpp", "primitives/asset.cpp", "primitives/sphere.cpp", "primitives/triangle.cpp", "renderer.cpp"],
  [("footprint from companion rays", "primitives/hit_point.cpp"), ("tangents placed in the world", "primitives/asset.cpp")], ["HitPoint after intersect and calculate_differentials", "hits seen by an integrator"])

p("C34", "Messages and progress reports are complete and true",
  "Every message reaches the stream of its severity (notes on standard output; warnings, errors and fatal errors on standard error) exactly once, on a line of its own, with its severity and all its arguments whatever their length, in order; a fatal one ends the program with failure. A duration below a hundred days is shown as days, hours, minutes and seconds adding up to it, in the documented space. Progress shown while rendering never decreases, follows the work taken, ends once at 100 percent after the last sample, and the remaining time, rendering time and number of threads shown agree with what happened.",
  ["inputs", "schedules"], "all messages, durations, fractions and schedules of the workers",
  "Tests replace the console by counters, so no output is ever looked at.",
  ["utility/console.cpp", "utility/utility.cpp", "renderer.cpp"],
  [("messages", "utility/console.cpp"), ("format_seconds", "utility/utility.cpp"), ("progress thread", "renderer.cpp")], ["standard output", "standard error", "exit status"])


p("C35", "The optimised Release build sees the same scene as the checked one",
  "The program compiled with the flags of the Release configuration (the one the README tells to build; its flags let the compiler assume that infinities, NaN and negative zeros do not matter) gives the same guarantees as any other build: rays, also parallel to an axis or with negative zero components, find the nearest visible object among all the objects, triangles and masks they cross; shadow queries agree with it; values out of range are refused in configurations and hostile ones are survived; models and scenes are built as described; area lights, shading frames, texture footprints and path-traced radiance are the same within rounding, and never NaN.",
  ["inputs", "configurations"], "all scenes, rays, models and configurations, under the compiler flags of the Release configuration",
  "The tests are compiled without optimisation only; code that relies on the arithmetic of infinite values or on tests for NaN passes them all and fails in the build that users run.",
  ["geometry/AABB.cpp", "accelerators/kdtree.cpp", "accelerators/bvh.cpp", "primitives/box.cpp", "primitives/sphere.cpp", "primitives/hit_point.cpp", "utility/utility.hpp", "lights/area_light.cpp", "parsers/lex.yy.cc"],
  [("parallel rays handled apart", "geometry/AABB.cpp"), ("finite values told by their bits", "utility/utility.hpp")], ["hits", "visibility", "built scenes", "radiance"])


out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in R:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r) + "\n")
print(len(R), "properties")
