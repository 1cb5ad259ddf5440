#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so the text can be reviewed as prose)."""
import json, os
P = []
H = "C++/DifferentiableRenderer.h"; R = "deodr/differentiable_renderer.py"; X = "deodr/differentiable_renderer_cython.pyx"
M = "deodr/triangulated_mesh.py"; T = "deodr/tools.py"; L = "deodr/laplacian_rigid_energy.py"; F = "deodr/mesh_fitter.py"
PT = "deodr/pytorch/"
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **({"observe_at": observe} if observe else {}))))

p("G01", "Visible-triangle gradients are the exact adjoint of the rendered interior",
  "For every scene, the gradients that back-propagation accumulates for 2D vertex positions, vertex colours, shading, texture coordinates and texels through the pixels covered by visible triangles equal the exact derivative of the forward pixel values contracted with the upstream image gradient. This holds for vertex-coloured and for textured triangles and for every number of channels and every image, triangle and texture size.",
  ["inputs", "configurations"], "all vertex positions, depths, colours, shades, uvs, textures, image sizes, channel counts and upstream gradients (real arithmetic; non-degenerate triangles)",
  "The tests compare loss values of a few optimisation runs; a missing or mis-scaled term in one hand-written adjoint still lets those runs decrease, and texture gradients are never read.",
  [H], [("hand-written adjoint of each triangle kind", H + ": rasterize_triangle_interpolated_B, rasterize_triangle_textured_gouraud_B"), ("adjoint kernels", H + ": render_part_*_B, bilinear_sample_B, inv_matrix_3x3_B, mul_matrix*_B"), ("gather/scatter of per-vertex gradients", H + ": renderScene_B")],
  ["ij_b, colors_b, shade_b, uv_b, texture_b of the scene after a backward render"])

p("G02", "Silhouette-edge gradients are the exact adjoint of the blended image",
  "For every scene rendered with antialiased silhouettes, the gradients accumulated through pixels blended along a silhouette edge equal the exact derivative of the blended pixel with respect to edge vertex positions, colours, shading, texture coordinates and texels, contracted with the upstream image gradient. The gradient handed on to what lies behind the edge is the upstream gradient times the transmittance.",
  ["inputs", "configurations"], "all edges, colours, textures, blend widths, orientations (clockwise or not) and upstream gradients",
  "Silhouette gradients are only exercised through the loss of three fitting demos; those losses are compared with recorded numbers for a handful of scenes and cannot separate one wrong derivative term.",
  [H], [("hand-written adjoint of each edge kind", H + ": rasterize_edge_interpolated_B, rasterize_edge_textured_gouraud_B"), ("edge equations adjoint", H + ": get_edge_stencil_equations_B")])

p("G03", "Error-buffer mode gradients are the exact adjoint of the antialiased error",
  "When rendering the antialiased squared-error buffer against an observation, the gradients accumulated for vertex positions, colours, shading, texture coordinates and texels equal the exact derivative of that error buffer contracted with its upstream gradient. This covers both the per-pixel error of interior pixels and the error blended along silhouette edges.",
  ["inputs", "configurations"], "all scenes, observations, upstream error gradients, channel counts and blend widths",
  "Only one soup-fitting scenario uses this mode and it checks the recorded loss after many steps.",
  [H], [("error-mode adjoints", H + ": rasterize_edge_interpolated_error_B, rasterize_edge_textured_gouraud_error_B"), ("error buffer initialisation adjoint", H + ": renderScene_B")])

p("G04", "Gradients of shared vertices, texture coordinates and texels add up",
  "When several pixels, edges, faces or face corners use the same vertex, texture coordinate or texel, its gradient after back-propagation is the value it held before the call plus the sum of all their contributions. No contribution overwrites, drops or double-counts another one.",
  ["inputs", "histories"], "all meshes and index patterns (shared, repeated and seam indices) and all initial contents of the gradient buffers",
  "The tests never read a texture gradient and never start from non-zero gradients; a contribution lost on a shared element only slows a fit.",
  [H, R], [("accumulate into the scene's gradient arrays", H + ": bilinear_sample_B, renderScene_B"), ("clearing is explicit", R + ": Scene2D.clear_gradients")])

p("G05", "Backward replays exactly the forward draws in reverse order",
  "Back-propagation visits exactly the triangles and silhouette edges that the forward pass drew, with the same visibility and coverage decisions, in the reverse of the drawing order. After each blended edge is undone, the colour (or error) buffer holds exactly what the forward pass had there before drawing that edge.",
  ["inputs", "configurations"], "all scenes, face orders, depth orders, edge flags, culling and orientation settings, and both image and error mode",
  "A scene in which two silhouette edges overlap in one pixel is needed to notice an order or selection mismatch; recorded losses cover a few such pixels only.",
  [H], [("two sweeps in the forward pass, their reversal in the backward pass", H + ": renderScene, renderScene_B"), ("un-blending", H + ": rasterize_edge_*_B")])

p("F01", "A covered pixel holds the interpolated attribute of its triangle",
  "A pixel covered by a visible triangle holds the attribute interpolated with the pixel's barycentric coordinates in that triangle: linearly in screen space by default, perspective-correctly (attribute over depth, divided by inverse depth) when requested. For textured triangles it is the bilinearly sampled, border-clamped texture at the interpolated texture coordinates multiplied by the interpolated shading.",
  ["inputs", "configurations"], "all triangles, attributes, textures, channel counts, both interpolation modes",
  "Rendered images are compared for a few meshes in one configuration; perspective-correct interpolation is compared only with one image and tolerance.",
  [H], [("attribute planes", H + ": rasterize_triangle_*"), ("scanline evaluation", H + ": render_part_*"), ("texture lookup", H + ": bilinear_sample")])

p("F02", "Nearest surface wins and the depth buffer records its depth",
  "After rendering, each pixel's depth is the smallest interpolated depth among the drawn triangles covering it (infinity where none does), and its interior colour comes from that same triangle, otherwise from the background. Silhouette blending never changes depth and only blends where the edge is in front of the recorded depth.",
  ["inputs", "configurations"], "all scenes, triangle orders, interpolation modes and textured/untextured mixes",
  "Tests render a few meshes; depth buffers of mixed or perspective-correct scenes are not checked.",
  [H], [("depth test and write", H + ": render_part_interpolated, render_part_textured_gouraud, rasterize_edge_*"), ("initialisation", H + ": renderScene")])

p("F03", "Silhouette antialiasing is a convex blend that ends exactly at its border",
  "Along a flagged silhouette edge, each touched pixel becomes t times what was there plus (1-t) times the colour (or error) interpolated along the edge, where t is the outward distance from the edge divided by the blend width. It is therefore 0 on the edge and 1 at the outer border, and no pixel outside the strip between the edge and that border or beyond its two end points is touched.",
  ["inputs", "configurations"], "all edges, orientations, blend widths, image and error modes, textured and untextured",
  "No test looks at the blend weights; only final images or losses of a few scenes are compared.",
  [H], [("edge equations", H + ": get_edge_stencil_equations"), ("strip bounds", H + ": get_edge_xrange_from_ineq"), ("blend", H + ": rasterize_edge_*")])

p("S01", "Native code stays inside every buffer for every accepted scene",
  "For every scene the Python entry points accept, the compiled renderer reads and writes only inside the arrays it was given, in forward and backward mode. No vertex position, triangle shape, texture coordinate or index makes it touch memory outside them.",
  ["inputs", "configurations"], "all accepted scenes: off-screen and huge coordinates, tiny textures, any index values allowed by validation, any image size",
  "An out-of-bounds access needs an unusual scene (off-screen triangle, one-texel texture, 1-pixel image) and usually does not crash.",
  [H], [("row and column clamps", H + ": render_part_*, get_xrange, get_edge_xrange_from_ineq, get_edge_stencil_equations"), ("texture clamp", H + ": bilinear_sample*"), ("index validation", H + ": checkSceneValid")])

p("S02", "Ill-formed scenes are rejected before native code runs",
  "Every array handed to the compiled renderer is first checked so that its dimensions and element counts agree with the image, vertex, uv and face counts the native code will assume, and every index is within range. A scene that violates this raises a Python exception and leaves native code uncalled.",
  ["inputs", "configurations"], "all combinations of shapes, dtypes, None values and index contents a caller can pass to the forward and backward entry points",
  "Tests only pass well-formed scenes.",
  [R, X], [("Python checks", R + ": renderScene, renderSceneB"), ("Cython checks", X + ": renderSceneCpp, renderSceneBCpp")])

p("S03", "Native temporaries are released on every exit and errors reach Python",
  "Every temporary buffer the compiled renderer allocates is released exactly once on every way out of the function that allocated it, including refusals. An error raised inside native code surfaces as a Python exception rather than aborting the interpreter.",
  ["inputs", "histories", "configurations"], "all exits of all native functions, including unsupported-mode refusals",
  "Leaks and the abort-on-refusal path have no observable effect in the tests.",
  [H, X], [("new[]/delete[] pairing", H + ": rasterize_*, render_part_*"), ("exception translation", X + ": extern declarations")])

p("S04", "Back-propagation refuses modes it has no gradients for",
  "Asking for gradients of a perspective-correct rendering, or of a rendering with back faces kept, raises an error in every public backward entry point and in the native backward pass. It never returns gradients computed for a different mode than the one rendered.",
  ["configurations", "histories"], "all backward entry points times all rendering modes",
  "Tests never request an unsupported combination.",
  [H, R], [("refusals", R + ": render_backward, render_error_backward, render_depth_backward, render_compare_and_backward"), ("native refusals", H + ": renderScene_B, rasterize_*_B")])

p("D01", "Every output pixel is written from inputs only",
  "Each forward call determines every element of the image, depth and error outputs from its arguments alone, whatever those buffers contained before. No result, forward or backward, depends on uninitialised memory.",
  ["inputs", "histories"], "all scenes (including empty ones), all previous buffer contents, both modes",
  "Output buffers are freshly allocated in tests, and uninitialised reads usually see plausible values.",
  [H, R], [("background copy, depth fill, error initialisation", H + ": renderScene"), ("local initialisations", H)])

p("G06", "Projection gradients are the exact adjoint of the camera model",
  "For every camera (any rotation, translation, skewed or non-uniform intrinsics, with or without lens distortion), the gradient propagated from image coordinates and depths back to 3D points is the exact derivative of the forward projection.",
  ["inputs", "configurations"], "all rotations, intrinsics including skew, all five distortion coefficients, all points in front of the camera",
  "The tests use a camera whose rotation equals its own inverse and whose intrinsic matrix is diagonal, so a wrong transpose cannot show.",
  [R], [("hand-written adjoint", R + ": Camera.project_points_backward")])

p("G07", "Lighting, colour and normal gradients are the exact adjoint of shading",
  "For every mesh and light, the gradients for vertex colours, ambient light, directional light and vertex positions that come from illumination are the exact derivative of the illuminated vertex colours. Every stage of the chain from luminosity through vertex and face normals to vertices contributes.",
  ["inputs", "configurations"], "all meshes, orientations, lights (including none) and upstream colour gradients",
  "Only fitting losses of the hand example exercise this chain, with one light and one orientation.",
  [R, M, T], [("adjoints", R + ": compute_vertices_luminosity_backward, _compute_vertices_colors_with_illumination_backward"), ("normal adjoints", M + ": TriMeshAdjacencies.*_backward, compute_vertex_normals_backward"), ("kernels", T + ": normalize_backward, cross_backward")])

p("G08", "Pose and regularisation gradients of the fitters are exact adjoints",
  "The gradient each mesh fitter uses for its rotation, translation and vertex parameters is the exact derivative of the energy it reports, through the quaternion rotation, its normalisation, the rigidity regulariser and the data term.",
  ["inputs", "histories"], "all poses, quaternions, vertices, images and iterations, for depth, colour and multi-frame fitters",
  "Energy after a few steps is compared with a recorded value; an inexact gradient with the same sign passes.",
  [F, T, L], [("adjoints", F + ": render_backward, energy/step"), ("kernels", T + ": qrot_backward, normalize_backward"), ("regulariser", L + ": LaplacianRigidEnergy.evaluate")])

p("G09", "The compare-and-backward call differentiates the error it returns",
  "For every observation and mask, in image and in error-buffer mode, the all-in-one compare-and-backward call returns the sum of the masked squared differences (or of the masked antialiased error), and the gradients it accumulates are the derivative of exactly that number. The separate backward calls use the caller's upstream gradient as it is, together with the image, depth and error buffers of the forward call.",
  ["inputs", "configurations"], "all scenes, observations, masks with any values, both modes, with and without defensive copies",
  "Tests use no mask or a 0/1 mask, for which a missing factor cannot show, and compare only recorded losses.",
  [R, X], [("error and its derivative", R + ": Scene2D.render_compare_and_backward"), ("hand-over", R + ": render_backward, render_error_backward; " + X + ": renderSceneBCpp")],
  ["returned error", "gradient fields of the scene"])

p("E01", "Rendering and back-propagation leave the caller's data unchanged",
  "A render or backward call does not modify any array the caller passed in or still holds: mesh, camera, textures, observation, mask, and upstream gradients keep their contents. Only the outputs and the documented gradient fields change; make_copies=False gives up the rendered and the upstream buffers passed to that call, and nothing else.",
  ["histories", "inputs"], "all call sequences over the public render and backward entry points",
  "Tests use each input once and never compare it afterwards.",
  [R, H, X], [("defensive copies", R + ": render_backward, render_error_backward, _render_2d_backward")])

p("H01", "Each backward uses the state of its own forward and starts from clean gradients",
  "What a backward call reads from earlier calls was stored by the matching forward call with the same meaning, for every path the forward can take. The all-in-one compare-and-backward call starts from zero gradients unless told otherwise, so repeating it returns the same gradients.",
  ["histories", "configurations"], "all sequences of renders and backward passes on one object, in all modes",
  "Tests run a single forward/backward cycle per object or compare only losses.",
  [R, M], [("stored forward state", R + ": store_backward, store_backward_current"), ("clearing", R + ": Scene2D.clear_gradients, render_compare_and_backward")])

p("C01", "Every 3D render mode honours the scene's and mesh's settings",
  "Colour, depth and deferred rendering all apply the mesh's face orientation, the caller's culling choice, the camera's image size, the pixel-centre convention and the perspective-correct setting, so the same scene shows the same faces at the same pixels in every mode. Colour and depth rendering use the background given on the scene; deferred buffers hold the attribute of the visible face's corners, over zero or, for depth, the farthest scaled vertex depth.",
  ["configurations"], "all combinations of settings and render modes",
  "Tests render with default settings; a setting that is silently dropped by one mode is invisible.",
  [R, X], [("scene construction", R + ": Scene3D.render, render_depth, render_deferred"), ("hand-over to native code", X + ": renderSceneCpp")])

p("C02", "Pixel-centre convention is applied once and consistently",
  "With integer pixel centres a vertex at (i, j) lies on the centre of pixel (i, j); with half-integer centres it lies at (i+0.5, j+0.5). The choice shifts every drawn primitive, triangle or silhouette edge, forward and backward, by the same amount and changes nothing else.",
  ["configurations", "inputs"], "both conventions, all primitives, forward and backward",
  "One image comparison exists for the forward triangle pass; edges and backward are not compared across conventions.",
  [H], [("offset", H + ": renderScene, renderScene_B")])

p("C03", "Silhouette flags and native edges agree on numbering and orientation",
  "The n-th silhouette flag of a face refers to the same pair of face corners for the mesh code that sets it and the native code that draws it, and a face counts as front-facing for one exactly when it does for the other. An edge is flagged exactly when it separates a front-facing face from a back-facing one or borders a single front-facing face.",
  ["inputs", "configurations"], "all meshes, both orientations, all edges",
  "A permuted edge numbering changes only antialiasing of some edges in tests with fixed images.",
  [H, M], [("edge numbering", M + ": TriMeshAdjacencies.__init__, edge_on_silhouette"), ("native edge list and orientation", H + ": list_sub, signedArea")])

p("M01", "Cached mesh quantities always match the current vertices",
  "Whatever sequence of vertex updates and queries is made, normals, volume, silhouette edges and normal gradients returned by a mesh are those of its current vertices, whether or not adjacencies were computed at construction. Changing vertices never leaves a stale derived value in use.",
  ["histories"], "all sequences of vertex updates and property reads",
  "Tests query a mesh once after construction.",
  [M], [("invalidation", M + ": TriMesh.set_vertices, vertices setter, compute_*_normals")])

p("A01", "Adjacency tables, normals and volume describe the mesh",
  "For every face list, the edge numbering gives one number to each unordered pair of vertices joined by a face side, the edge list holds its two end points, and the incidence matrices count the face sides, faces and vertices that meet. A mesh is manifold exactly when no edge has more than two faces nor more than one in each direction, closed when moreover every edge has two; the boundary edges are those with one face. Two vertices are adjacent exactly when a face has both, degrees count neighbours, and the Laplacian is the degree matrix minus the adjacency matrix. Face normals are the unit vectors on the outer side given by the clockwise flag, vertex normals the normalised sums of the normals of the incident faces, and the volume of a closed mesh, given for closed meshes only, is the sum of its signed tetrahedra.",
  ["inputs", "configurations"], "all face lists, both orientations, numpy and PyTorch meshes",
  "Tests use two closed meshes; open and non-manifold meshes, boundary edges and the tables themselves are never looked at.",
  [M, PT + "triangulated_mesh_pytorch.py"], [("tables", M + ": TriMeshAdjacencies.__init__, id_edge, boundary_edges"), ("normals and volume", M + ": compute_face_normals, compute_vertex_normals, compute_volume")])

p("M02", "Mesh orientation and settings survive subdivision and conversion",
  "Loop subdivision and conversion from and to external mesh objects produce a mesh with the same orientation, colour, texture and uv association as their source. Every sub-face has the orientation of its parent, and together the sub-faces cover it; the positions of the new vertices are affine combinations of those of the source, on open and closed meshes, so the result moves with its source.",
  ["inputs", "configurations"], "all meshes, both orientations, any number of subdivision iterations",
  "Subdivision is not tested with clockwise or textured meshes.",
  [M], [("construction of the result", M + ": loop_subdivision, ColoredTriMesh.from_trimesh, to_trimesh, subdivise")])

p("T01", "Framework bindings propagate the gradients of their own forward call",
  "The PyTorch scene renders the image and depth that the numpy scene renders for the same camera, mesh, lights and settings, and its rigidity energy is the numpy one. Backward returns, for each differentiable input of a forward call, the gradient of that very call, with other inputs reported as non-differentiable; every parameter reaches the renderer through the recorded graph. Backward is independent of renders performed in between, can be repeated, and modifies neither the incoming gradient nor the rendered image.",
  ["histories", "inputs", "configurations"], "all interleavings of forward and backward calls through the bindings, all meshes, both orientations, all scene settings",
  "The binding tests do one forward and one backward per step, with default settings.",
  [PT + "differentiable_renderer_pytorch.py", PT + "triangulated_mesh_pytorch.py", PT + "laplacian_rigid_energy_pytorch.py"], [("autograd function", PT + "differentiable_renderer_pytorch.py: TorchDifferentiableRenderer2DFunc"), ("tensor versions of projection, normals and lighting", PT + "differentiable_renderer_pytorch.py: CameraPytorch, Scene3DPytorch; " + PT + "triangulated_mesh_pytorch.py")])

p("K01", "Cameras follow the documented projection model",
  "A camera projects a point by the rigid transform, the division by depth, the OpenCV distortion and the intrinsic matrix, and reports its camera-space z as its depth, whether or not distortion or a stored backward is requested, in the numpy and the PyTorch camera alike. Its centre and camera-to-world matrix invert its extrinsic matrix. A perspective camera built from a centre, a rotation and a horizontal field of view has that centre, rotation and field of view, square pixels and the image centre as principal point; the default camera sees the whole mesh, centred, from the smallest distance at which its box fits in both directions.",
  ["inputs", "configurations"], "all points, rotations, centres, fields of view, image sizes and distortion coefficients",
  "Tests use cameras with rotations that are nearly symmetric, for which a transposed rotation goes unnoticed, and no distortion.",
  [R, PT + "differentiable_renderer_pytorch.py"], [("projection", R + ": Camera.project_points, world_to_camera, left_mul_intrinsic; " + PT + "differentiable_renderer_pytorch.py: CameraPytorch"), ("construction", R + ": PerspectiveCamera.__init__, default_camera, Camera.get_center, camera_to_world_mtx_4x4")])

p("L01", "Resetting a fitter restores the state of a freshly built one",
  "After reset, every quantity a fitting step reads or accumulates (poses, velocities, iteration counter, current vertices) has its initial value, so a fit after reset repeats the first fit exactly.",
  ["histories"], "all numbers of steps before the reset, all fitters",
  "Tests run each fitter once.",
  [F], [("reset", F + ": MeshDepthFitter.reset, MeshRGBFitterWithPose.reset, MeshRGBFitterWithPoseMultiFrame.reset")])

p("N01", "Rendered images converge to correct fits",
  "Optimising with the provided gradients decreases the energy and recovers the observed shape.",
  ["inputs", "histories"], "all observations and initialisations", "Tests run three recorded examples.",
  [F], [("descent with momentum", F)])

p("N02", "Shared edges are drawn without gaps or double coverage",
  "Under strict edges, two triangles that share an edge cover every pixel centre on or near it exactly once, for every position in floating point.",
  ["inputs"], "all pairs of adjacent triangles in floating-point arithmetic", "Tests render a few meshes only.",
  [H], [("edge ranges", H + ": get_xrange, floor_div, ceil_div")])

p("N03", "OpenGL and software renderers produce the same image",
  "For the same scene and camera, the OpenGL back end and the software renderer give the same image up to rasterisation differences.",
  ["inputs", "configurations"], "all scenes and cameras", "One duck image is compared.",
  ["deodr/opengl/moderngl.py", "deodr/opengl/shaders.py"], [("shaders", "deodr/opengl/shaders.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
