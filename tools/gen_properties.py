#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os

H = "C++/DifferentiableRenderer.h"
PYX = "deodr/differentiable_renderer_cython.pyx"
DR = "deodr/differentiable_renderer.py"
TM = "deodr/triangulated_mesh.py"
MF = "deodr/mesh_fitter.py"

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))


p("C01", "Visible surface and interpolated colour of every pixel without antialiasing",
  "With sigma=0, every pixel of the rendered image shows the background, or the vertex colours linearly interpolated "
  "(perspective-correctly when perspective_correct is on) from the nearest front-facing triangle that covers the pixel centre, and the "
  "z-buffer holds that triangle's interpolated depth, infinity where only background is seen. A triangle is ignored when one of its vertices has a negative depth, or when it faces away "
  "and backface culling is on (facing is decided by the clockwise flag); the order of the faces does not matter where depths differ.",
  ["inputs", "configurations"],
  "all 2.5D scenes (vertex positions, depths, colours, number of channels, image size, background image or colour) and all settings of clockwise, backface_culling, strict_edge, perspective_correct and integer_pixel_centers",
  "the tests render a handful of fixed scenes and compare them with stored images/hashes; no test ranges over triangle shapes, orders, depth layouts or flags",
  [H, PYX, DR],
  [("rasterize_triangle_interpolated", H), ("renderScene", H), ("renderSceneCpp", PYX), ("Scene2D.render", DR)],
  ["image and z_buffer returned by Scene2D.render / written by renderScene"])

p("C02", "Triangulations cover every pixel exactly once with strict edges",
  "With strict_edge on, when non-overlapping triangles tile a region, every pixel centre inside the region or on an edge or vertex shared within it is drawn by exactly one triangle: no holes, no double coverage. "
  "With strict_edge off each triangle covers exactly the pixel centres of its closed area. (For coordinates whose products are not exact in floating point, pixel centres within rounding of an edge are excepted.)",
  ["inputs", "configurations"],
  "all triangulations, including pixel centres falling exactly on shared edges and vertices, thin and axis-aligned triangles, triangles partly outside the image, both orientations",
  "no test checks coverage; ties on edges are only hit for special coordinates",
  [H], [("get_triangle_stencil_equations", H), ("get_xrange", H), ("floor_div/ceil_div", H)],
  ["pixels changed by each triangle in the rendered image"])

p("C03", "Texture lookup: bilinear, clamped at the border, modulated by shade",
  "A textured and shaded triangle shows, at each pixel it wins, the bilinear interpolation of the texture at the interpolated uv "
  "(uv measured in texels with (0,0) at the centre of the first texel, u along columns, v along rows; coordinates outside the texture are clamped to the border texel) multiplied by the interpolated shade, "
  "with perspective-correct uv and shade when perspective_correct is on. Every texture size with at least one texel per side works.",
  ["inputs", "configurations"],
  "all textures (any size and number of channels), uv coordinates inside, on and outside the border, uv faces different from the vertex faces, shades, and perspective settings",
  "one test checks four texels of one texture; borders, clamping, one-texel textures and perspective are not covered",
  [H, PYX], [("bilinear_sample", H), ("rasterize_triangle_textured_gouraud", H)],
  ["image returned by Scene2D.render"])

p("C04", "Antialiased edges change only a band outside flagged silhouette edges",
  "With sigma>0, each flagged edge of a front-facing triangle blends its own interpolated colour (or shaded texture) over the band of pixels lying within sigma pixels outside that edge and between the two perpendiculars at its ends, with a weight falling linearly "
  "from one on the edge to zero at distance sigma, and only where the edge is nearer than the surface already drawn there. Edges of farther triangles (by sum of vertex depths) are blended before those of nearer ones; every other pixel, and the z-buffer, are exactly those of the sigma=0 rendering.",
  ["inputs", "configurations"],
  "all scenes, edge-flag assignments, sigma values and flags; all positions of edges with respect to the pixel grid and image border",
  "tests only compare hashes of two antialiased renders; no test isolates the band, the weights or the painter's order",
  [H], [("rasterize_edge_interpolated", H), ("rasterize_edge_textured_gouraud", H), ("get_edge_stencil_equations", H), ("get_edge_xrange_from_ineq", H)],
  ["image and z_buffer returned by Scene2D.render"])

p("C05", "Antialiased residual rendering",
  "Rendering against an observed image returns the image and z-buffer of the sigma=0 rendering and, per pixel, the squared colour difference to the observation, into which each flagged edge blends the squared difference between its own colour and the observation with the same band, weights, visibility and order as image antialiasing uses.",
  ["inputs", "configurations"],
  "all scenes (coloured and textured), observations, sigma values and flags",
  "one hash test of one scene exercises this mode",
  [H, DR], [("rasterize_edge_interpolated_error", H), ("rasterize_edge_textured_gouraud_error", H), ("Scene2D.render_error", DR)],
  ["image, z_buffer and err_buffer returned by Scene2D.render_error"])

p("C06", "The image gradient is the exact derivative of the rendered image",
  "For every scene and every image adjoint, back-propagation yields the exact derivative, for fixed visibility, of the sum of adjoint times rendered image with respect to vertex positions, vertex colours, uv coordinates, shade and texture. "
  "This includes the contribution of the antialiased edges, pixels lying exactly on an edge, texels used by several pixels and uv clamped at the border, for both orientations and pixel-centre conventions; all gradients are finite.",
  ["inputs", "configurations"],
  "all scenes without exact depth ties, coloured and textured, all edge flags, sigma, clockwise, strict_edge and integer_pixel_centers settings, and all image adjoints",
  "no test compares a renderer gradient with a derivative; loss curves of two fits only pin the current values on a few scenes",
  [H, PYX, DR], [("renderScene_B", H), ("rasterize_*_B", H), ("Scene2D.render_backward", DR)],
  ["ij_b, colors_b, uv_b, shade_b, texture_b of the scene after render_backward"])

p("C07", "The residual gradient is the exact derivative of the antialiased residual",
  "For every scene, observation and residual adjoint, back-propagation in residual mode yields the exact derivative, for fixed visibility, of the sum of adjoint times residual buffer with respect to vertex positions, colours, uv, shade and texture, including edge contributions, and all gradients are finite.",
  ["inputs", "configurations"],
  "all scenes without exact depth ties, coloured and textured, all edge flags, sigma and orientation settings, observations and adjoints",
  "only one hash of one scene fixes current values of this mode",
  [H, PYX, DR], [("rasterize_edge_interpolated_error_B", H), ("rasterize_edge_textured_gouraud_error_B", H), ("Scene2D.render_error_backward", DR)],
  ["ij_b, colors_b, uv_b, shade_b, texture_b after render_error_backward"])

p("C08", "2D rendering calls are deterministic, pure, and accumulate gradients linearly",
  "Whatever sequence of render, residual render, backward, compare-and-backward and clear-gradients calls is made on scenes, each call returns what it would return on a fresh scene with the same content; with default arguments it modifies neither the arrays the caller supplied nor arrays it returned earlier. "
  "Backward calls add to the stored gradients exactly the gradient belonging to the latest render of that scene, linearly in the adjoint, until gradients are cleared.",
  ["histories"],
  "all sequences of calls up to the explored depth on one scene and on two interleaved scenes, including repeated backward calls and calls after mutation of the scene",
  "tests call one operation per scene; sequences, repetition and aliasing are never tested",
  [DR, PYX, H], [("Scene2D", DR), ("renderSceneBCpp", PYX)],
  ["returned arrays, gradient fields and caller-owned arrays after each call"],
  state=[dict(name="store_backward", meaning="buffers of the last render", where=DR), dict(name="*_b", meaning="accumulated gradients", where=DR)])

p("C09", "No out-of-bounds access, crash, hang or undefined behaviour for any finite scene",
  "Rendering and back-propagating any valid scene with finite values, however degenerate, tiny, huge or far off-screen, reads and writes only the supplied buffers, executes no undefined conversion or division that changes memory, and terminates. "
  "Parts of triangles and edges outside the image never affect pixels, and far-away vertices do not make geometry appear where it is not.",
  ["inputs", "configurations"],
  "all finite scenes: zero-area and repeated-vertex triangles, zero-length edges, coordinates from fractions of a pixel to far beyond 16-bit range, one-pixel images, one-texel textures, uv far outside, any flags",
  "tests only use well-formed on-screen scenes, without sanitizers",
  [H], [("get_triangle_stencil_equations", H), ("get_xrange", H), ("get_edge_xrange_from_ineq", H), ("bilinear_sample", H)],
  ["sanitizer reports, canaries around every buffer, image"])

p("C10", "Invalid or unsupported requests raise Python exceptions and change nothing",
  "A scene or call with an inconsistent array shape, out-of-range face or uv index, missing or contradictory background, wrong buffer size, or an unsupported combination (back-propagation with perspective_correct or without backface culling) is rejected with a catchable Python exception. "
  "The process survives, no output buffer is written out of bounds, and the same scene object renders correctly once repaired.",
  ["fault_sequences", "inputs"],
  "every single fault of the catalogue (each field: missing, wrong rank, too short, too long, out-of-range) applied to each entry point, and each unsupported flag combination for each backward entry point",
  "no test passes an invalid scene",
  [DR, PYX, H], [("renderScene/renderSceneB checks", DR), ("checkSceneValid", H), ("render_backward guards", DR)],
  ["exception type, process exit status, buffers"])

p("C11", "Rendering and gradients do not depend on how the same scene is written down",
  "Permuting faces, renumbering vertices, rotating the corners of a face together with its edge flags, duplicating vertices, reversing all faces while toggling clockwise, switching the pixel-centre convention while moving all points by half a pixel, "
  "translating by whole pixels, rendering a sub-window, or storing the arrays in another memory layout gives the correspondingly transformed image, z-buffer and gradients.",
  ["inputs", "configurations"],
  "all scenes and all transformations of the listed group, composed",
  "tests render each scene in one representation; one test checks the pixel-centre shift for a single triangle",
  [H, PYX], [("signedArea", H), ("sort3", H), ("sortcompare", H), ("get_triangle_stencil_equations", H)],
  ["image, z_buffer, gradients"])

p("C12", "Camera model: projection, inverse pose and automatic framing",
  "Points project as in OpenCV's model (extrinsic, pinhole, five distortion coefficients, intrinsic with skew), depth being the camera-space z; a perspective camera built with a centre and rotation has that centre and field of view, and the camera-to-world matrix inverts world-to-camera. "
  "The default camera looks along the requested rotation and frames the given vertices: the whole bounding box is in front of it and inside the undistorted image, touching it in one dimension.",
  ["inputs", "configurations"],
  "all rotations of a dense finite group, translations, intrinsics with skew and different focals, distortion vectors, image sizes, fields of view, and point sets",
  "the tests use one near-symmetric rotation, for which transposed formulas give the same result",
  [DR], [("Camera.project_points", DR), ("PerspectiveCamera.__init__", DR), ("default_camera", DR)],
  ["projected points, depths, get_center, camera_to_world_mtx_4x4, fov"])

p("C13", "The camera projection gradient is exact",
  "For any camera (any rotation, translation, intrinsics including skew, with or without distortion) and any adjoints on image points and depths, back-propagation through the projection equals the exact derivative with respect to the 3D points.",
  ["inputs", "configurations"],
  "all rotations of a dense finite group, intrinsics, distortions, points and adjoints",
  "no test checks the projection gradient; the fits use symmetric rotations and diagonal intrinsics where transposition errors vanish",
  [DR], [("Camera.project_points_backward", DR)], ["vertices adjoint returned"])

p("C14", "Mesh adjacency describes exactly the given face list",
  "For any list of triangles, the edges, incidence and adjacency matrices, degrees, Laplacian, boundary edges and the manifold and closed predicates agree with their set-theoretic definitions on the face list, whatever the numbering and orientation; "
  "the Laplacian annihilates constants and face-edge indices refer to the edge joining corners k and k+1 of the face.",
  ["inputs"],
  "all face lists on few vertices, all corner rotations, orientations and orders, meshes with boundary, isolated vertices and several components",
  "only closed test meshes loaded from files are used, through derived results",
  [TM], [("TriMeshAdjacencies.__init__", TM)], ["fields of mesh.adjacencies"])

p("C15", "Silhouette edges are exactly the edges with one visible face",
  "For any manifold mesh and any projected vertex positions, an edge of a face is flagged as silhouette exactly when one and only one of the faces containing the edge is front-facing in the image, so boundary edges of visible faces are flagged and edges between two visible or two hidden faces are not; front-facing agrees with the renderer's culling rule for the clockwise flag.",
  ["inputs", "configurations"],
  "all small manifold meshes, all lattice vertex positions, both orientations",
  "no test checks silhouette flags",
  [TM, H], [("TriMeshAdjacencies.edge_on_silhouette", TM), ("signedArea", H)], ["edge_on_silhouette result"])

p("C16", "Normals and their gradients",
  "Face normals are the unit normals of the faces (pointing to the counterclockwise side, or the opposite with clockwise), vertex normals the normalized sum of adjacent unit face normals; they always reflect the current vertices, and back-propagation of any vertex-normal adjoint adds the exact derivative to the vertex gradient.",
  ["inputs", "histories"],
  "all small meshes with non-degenerate faces, lattice vertices, adjoints, and sequences of vertex updates and normal queries",
  "no test checks normals or their derivative",
  [TM, "deodr/tools.py"], [("compute_face_normals(_backward)", TM), ("compute_vertex_normals(_backward)", TM), ("normalize_backward, cross_backward", "deodr/tools.py")],
  ["face_normals, vertex_normals, vertices gradient"])

p("C17", "Enclosed volume and orientation check of closed meshes",
  "For any closed mesh the computed volume is the signed enclosed volume with respect to the clockwise flag, invariant under rigid motion of the mesh, face order and corner rotation; construction is accepted when the volume is not negative and rejected otherwise, and asking for the volume of a mesh that is not a closed manifold raises. "
  "A mesh whose adjacency is computed lazily behaves like one whose adjacency is computed at construction.",
  ["inputs", "configurations"],
  "all closed triangulated surfaces on few vertices, embeddings, both orientations, clockwise settings, eager or lazy adjacency",
  "meshes in tests are all well oriented and eager",
  [TM], [("compute_volume", TM), ("check_orientation", TM), ("adjacencies property", TM)], ["compute_volume, constructor outcome"])

p("C18", "Loop subdivision",
  "Subdividing any closed manifold mesh gives a closed manifold mesh of the same topology and orientation flag, with four faces per face, one new vertex per edge, positions given by Loop's masks, corner order preserved and vertex colours interpolated; "
  "it commutes with affine maps of the vertices for every mesh, with or without boundary, n iterations equal n single ones, and the input mesh is not modified.",
  ["inputs"],
  "all small manifold meshes, closed or with boundary, both orientation flags, iterations",
  "one fitting test uses subdivided shapes indirectly",
  [TM], [("loop_subdivision", TM)], ["vertices, faces, colours, flags of the subdivided mesh"])

p("C19", "Rigid energy: value, gradient and Hessian agree",
  "For any connected mesh the Laplacian rigid energy is cregu/2 times the squared Laplacian of the displacement from the reference, its gradient and Hessian are the exact derivatives, it vanishes at the reference and is invariant to translations; it is independent of later changes to the arrays it was given, meshes with several components are rejected, and the PyTorch version agrees including through autograd.",
  ["inputs", "histories"],
  "all small connected meshes, displacements on a lattice, regularisation weights",
  "only exercised inside fits",
  ["deodr/laplacian_rigid_energy.py", "deodr/pytorch/laplacian_rigid_energy_pytorch.py"],
  [("LaplacianRigidEnergy.evaluate", "deodr/laplacian_rigid_energy.py"), ("LaplacianRigidEnergyPytorch.evaluate", "deodr/pytorch/laplacian_rigid_energy_pytorch.py")],
  ["energy, gradient, hessian"])

p("C20", "A 3D scene renders as its projected, lit 2D scene",
  "Rendering a 3D scene equals rendering the 2D scene made of the projected vertices, camera depths, colours (or texture shade) scaled by ambient plus clamped directional lighting of the outward vertex normals, and silhouette edge flags, over the scene's background, honouring the mesh's clockwise flag, backface_culling, perspective_correct, pixel-centre and sigma settings. "
  "Depth rendering does the same with the scaled depth as the only colour.",
  ["inputs", "configurations"],
  "all small meshes (coloured and textured, closed and open, both orientations), cameras, lights, backgrounds, sigmas and flags",
  "tests render two meshes with fixed settings",
  [DR, TM], [("Scene3D.render", DR), ("Scene3D.render_depth", DR), ("compute_vertices_luminosity", DR)],
  ["image and z_buffer from Scene3D.render, render_depth"])

p("C21", "The 3D scene gradient is exact end to end",
  "After rendering a 3D scene (colour or depth) and back-propagating an image adjoint, the gradients with respect to mesh vertices, vertex colours or texture, directional light and ambient light are the exact derivatives, for fixed visibility and silhouette, of the sum of adjoint times image, through camera, lighting, normals and antialiased edges.",
  ["inputs", "configurations"],
  "all small meshes (coloured or textured, open or closed, both orientations), camera rotations, distortions, lights, sigmas and adjoints, with unambiguous visibility",
  "fits pin loss curves for symmetric rotations; no derivative check exists, textured gradients are never run",
  [DR, TM], [("Scene3D.render_backward", DR), ("Scene3D.render_depth_backward", DR)],
  ["vertices gradient, vertices_colors_b, light_directional_b, light_ambient_b"])

p("C22", "A 3D scene's results depend only on its current content, not on its history",
  "After any sequence of mesh, vertex, colour, light and background changes, colour, depth and deferred renders, and backward passes, each render and each backward pass gives what a freshly built scene with the same content gives, without modifying the caller's arrays (vertices, colours, adjoints, backgrounds).",
  ["histories"],
  "all sequences of operations up to the explored depth, with the cameras and meshes of the model",
  "each test uses one linear sequence",
  [DR, TM], [("Scene3D", DR), ("TriMesh.set_vertices", TM)],
  ["images, gradients, caller-owned arrays"],
  state=[dict(name="store_backward_current / scene_2d", meaning="data of the last render", where=DR)])

p("C23", "Deferred channels agree with each other and with direct rendering",
  "In deferred rendering each requested channel (depth, face id, barycentric, normal, luminosity, xyz, uv, colour) holds at every covered pixel the value of that attribute on the face that a direct rendering shows there, background values elsewhere, whatever subset of channels is requested, and for both mesh orientations, any number of colour channels, culling and perspective settings.",
  ["inputs", "configurations"],
  "all channel subsets, small meshes of both orientations, cameras, culling, perspective and depth-scale settings",
  "no test uses deferred rendering",
  [DR], [("Scene3D.render_deferred", DR)], ["dictionary of channels"])

p("C24", "Mesh fitters: reset restarts, instances independent, updates follow settings",
  "For every fitter, resetting restarts the optimisation so that the following steps repeat the first run exactly, two fitters do not influence each other, inputs are not modified, poses stay unit quaternions, and parameters whose update flag is off do not change. "
  "The reported energies match the returned image and observation, multi-frame energies being means over the frames times cdata.",
  ["histories"],
  "all sequences of step, reset, set_image and set_mesh_transform_init up to the explored depth for each fitter and flag setting on a small mesh",
  "each fit is run once, in one order, with default flags",
  [MF, "deodr/pytorch/mesh_fitter_pytorch.py"],
  [("MeshDepthFitter", MF), ("MeshRGBFitterWithPose", MF), ("MeshRGBFitterWithPoseMultiFrame", MF)],
  ["return values of step, pose, vertices, colours, lights"])

p("C25", "OBJ files are read and written faithfully",
  "Reading an OBJ file gives the vertex positions and triangles it declares, for every legal spelling of vertex and face records (texture/normal suffixes, relative indices, other record types, comments, blank lines, continuation lines, extra spaces), and writing a mesh then reading it back gives the same faces and vertices.",
  ["inputs"],
  "all files up to a bounded number of records over an alphabet of legal records, and all small meshes including very small, very large and negative coordinates",
  "tests read two files",
  ["deodr/obj.py"], [("read_obj", "deodr/obj.py"), ("save_obj", "deodr/obj.py")], ["arrays returned; file read back"])

p("C26", "PyTorch rendering and its autograd equal the NumPy renderer",
  "For every scene, the PyTorch 2D and 3D renderers give the image of the NumPy renderer for the same settings (including sigma, clockwise and lights), and autograd gives its gradients, in whatever order renders and backward passes are interleaved, with retained graphs, several renders in one loss, expanded or non-contiguous adjoints, "
  "without modifying the tensors it is given.",
  ["histories", "inputs"],
  "all interleavings of renders and backward passes up to the explored depth, small scenes, adjoint layouts",
  "the fits always do one render followed by one backward pass with contiguous adjoints and sigma 1",
  ["deodr/pytorch/differentiable_renderer_pytorch.py", "deodr/pytorch/triangulated_mesh_pytorch.py"],
  [("TorchDifferentiableRenderer2DFunc", "deodr/pytorch/differentiable_renderer_pytorch.py"), ("Scene3DPytorch", "deodr/pytorch/differentiable_renderer_pytorch.py")],
  ["images, tensor.grad"])

p("C27", "Quaternion, normalisation and cross-product helpers and their gradients",
  "Rotation by a unit quaternion is the corresponding rotation (single or batched), normalisation gives unit vectors along any axis, and the backward helpers return the exact derivative of their forward function for every input, without modifying their arguments; the finite-difference helpers measure derivatives without changing their input.",
  ["inputs"],
  "all vectors and quaternions on a lattice, axes and shapes",
  "no direct test",
  ["deodr/tools.py"], [("qrot(_backward)", "deodr/tools.py"), ("normalize(_backward)", "deodr/tools.py"), ("cross_backward", "deodr/tools.py")], ["return values"])

p("C28", "MeshLab export describes the same cameras",
  "A project exported for MeshLab lists the given mesh and one image per view, and each exported camera (rotation, translation, focal length, centre, viewport) projects points to the same pixels as the camera it was made from.",
  ["inputs", "configurations"],
  "all rotations of a dense finite group, translations, focals, image sizes and numbers of views",
  "no test",
  ["deodr/meshlab_io.py"], [("export_meshlab", "deodr/meshlab_io.py")], ["written project file"])

p("C29", "OpenGL projection agrees with the camera",
  "The matrices handed to OpenGL map every point in front of the camera to the pixel given by the camera's own projection, for any pose, intrinsics and image size, and vertex and texture buffers contain the mesh's faces, positions, uv and normals.",
  ["inputs", "configurations"],
  "all rotations of a dense finite group, translations, focals, principal points, image sizes",
  "one image comparison of one scene",
  ["deodr/opengl/moderngl.py"], [("opencv_to_opengl_perspective", "deodr/opengl/moderngl.py"), ("OffscreenRenderer", "deodr/opengl/moderngl.py")], ["matrix"])

p("C30", "Interactive viewer camera control",
  "Under any sequence of mouse events the viewer's camera follows the documented controls: rotations turn about the orbit centre (trackball mode) or the camera centre (camera mode), pans move the orbit centre along, the field of view changes only with SHIFT + right drag, the pose stays a rigid motion, events without a pressed button have no effect, a drag that retraces its path restores the camera, and interactors do not alter the arrays they were given (float or integer) nor each other.",
  ["histories"],
  "all sequences of mouse events (buttons, modifier flags, positions) up to the explored depth in each mode",
  "no test",
  ["deodr/mesh_viewer.py" if os.path.exists("/repo/deodr/mesh_viewer.py") else "deodr/examples/mesh_viewer.py"], [("Interactor", "mesh viewer")], ["camera extrinsic after each event"])

p("C31", "Loss and gradient of compare-and-backward agree",
  "The one-call comparison returns the image, z-buffer, residual and loss of the corresponding render, the loss being the sum of the residual weighted by the optional mask, and sets gradients to the exact derivative of that loss for every mask (not only binary ones), in both antialiasing modes; with clear_gradients off it adds to previous gradients.",
  ["inputs", "configurations"],
  "all masks over a value set, both modes, sigma values, copies on or off",
  "tests use no mask",
  [DR], [("Scene2D.render_compare_and_backward", DR)], ["returned tuple, gradient fields"])

p("C32", "Conversion from and to trimesh",
  "Converting a trimesh mesh keeps the geometry: each face keeps its corners' positions, colours and texture location, vertices at equal positions are merged, conflicting vertex colours are rejected, and converting a textured mesh to trimesh and back gives the same surface, uv and texture up to 8-bit quantisation.",
  ["inputs"],
  "all small meshes with duplicated vertices, seams, colour and texture layouts",
  "one model is loaded",
  [TM], [("ColoredTriMesh.from_trimesh", TM), ("ColoredTriMesh.to_trimesh", TM)], ["resulting mesh"])

p("C33", "TensorFlow bindings agree with the NumPy renderer",
  "The TensorFlow renderer, mesh and energy classes give the images and gradients of the NumPy ones.",
  ["inputs", "histories"], "all scenes and interleavings of renders and gradient evaluations", "TensorFlow tests do not run here",
  ["deodr/tensorflow/differentiable_renderer_tensorflow.py"], [("TensorflowDifferentiableRender2D", "deodr/tensorflow/differentiable_renderer_tensorflow.py")], ["images, gradients"])

p("C34", "The viewer shows the scene under its current settings",
  "After any sequence of keys, mouse drags, window resizes and calls to the public setters, the displayed frame is the rendering of the current mesh from the current camera at the window's size with the current light, background, antialiasing and texture mapping settings (those given to the constructor at first) by the current renderer, values above 1 saturating; recorded videos hold every frame displayed while recording, and the saved scene and camera reproduce the displayed frame.",
  ["histories", "configurations"],
  "all sequences of commands up to the explored depth from several constructor settings",
  "no test opens the viewer",
  ["deodr/examples/mesh_viewer.py"], [("Viewer", "deodr/examples/mesh_viewer.py")], ["frame passed to imshow, frames passed to the video writer, saved files"])

p("C35", "Independent scenes do not interfere across threads",
  "Threads working on separate scenes, meshes and fitters that share only cameras and input arrays (vertices, colours, textures, observations) obtain, in every interleaving of their operations, the images, losses and gradients each obtains alone, and the shared arrays stay unchanged: the library keeps no hidden state across objects.",
  ["schedules", "histories"],
  "all schedules with one or two preemptions of two threads over the library's operations",
  "tests run in one thread",
  [DR, TM, "deodr/mesh_fitter.py", "deodr/pytorch/differentiable_renderer_pytorch.py"], [("Scene3D", DR), ("Scene2D", DR), ("TriMesh", TM), ("MeshDepthFitter", "deodr/mesh_fitter.py")], ["images, z-buffers, losses, gradients and fitted parameters of each thread"])

p("C36", "Operations give back the resources they take",
  "Rendering, differentiating, comparing, fitting, building meshes and reading or writing files can be repeated indefinitely: when an operation ends, whether it was accepted or refused with an exception, every native block it allocated is freed, files are closed, and objects, images and arrays the caller has dropped are released; repeating any sequence of operations, with the same or other content, does not make memory, live objects, open files or threads grow.",
  ["inputs", "histories", "fault_sequences"],
  "all scenes x flag settings x operations, accepted and refused, and all repeated sequences of operations",
  "tests do not measure resources",
  [DR, "C++/DifferentiableRenderer.h", TM, "deodr/obj.py", "deodr/mesh_fitter.py"], [("renderScene, renderScene_B", "C++/DifferentiableRenderer.h"), ("Scene3D", DR), ("read_obj", "deodr/obj.py")], ["live native blocks, Python memory, live objects, open files, threads"])

p("C37", "The MATLAB gateways render like the Python renderer",
  "Called with the arrays MATLAB stores for a scene (stored by columns), the gateways render and render_b return the image, z-buffer and residual, and add to the gradient arrays of the scene the gradients, that the Python renderer computes for the same scene with clockwise faces, backface culling, strict edges, integer pixel centres and no perspective correction. Inputs other than the documented outputs stay unchanged. Arguments that are missing, of the wrong class or size, or hold an index out of range, are refused with a MATLAB error before anything is written.",
  ["inputs", "histories"],
  "all scenes x sigmas x modes, all malformed arguments, all sequences of calls",
  "no test compiles the gateways",
  ["Matlab/render.cpp", "Matlab/render_b.cpp"], [("mexFunction", "Matlab/render.cpp"), ("mexFunction", "Matlab/render_b.cpp")], ["returned arrays, gradient arrays, error messages"])

p("C38", "Adding unrelated geometry that cannot be seen changes nothing",
  "Geometry that shares no vertex or face with a mesh and cannot be seen (behind the camera, outside the image, facing away under culling, behind nearer faces, or vertices used by no face) can be added anywhere in the lists, in any number (also past 65536 elements) and with any integer type of the faces, without changing the colour, depth and deferred images, the gradients, normals, silhouettes, laplacian, volume and subdivision of the rest, in the NumPy and PyTorch scenes; hidden elements receive zero gradients.",
  ["inputs", "configurations"],
  "all meshes x kinds, places and sizes of the added geometry x settings",
  "tests use a few closed meshes that are entirely visible",
  [DR, TM, "C++/DifferentiableRenderer.h", "deodr/pytorch/differentiable_renderer_pytorch.py", "deodr/pytorch/triangulated_mesh_pytorch.py"], [("Scene3D.render", DR), ("TriMeshAdjacencies", TM), ("renderScene", "C++/DifferentiableRenderer.h")], ["images, gradients and mesh quantities of the original part, gradients of the added part"])

p("C39", "Equal arguments give equal results in any memory layout and number type",
  "Every array given to the library (vertices, faces, texture coordinates, colours, textures, images, backgrounds, lights, cameras, poses, observations) may be stored by columns, strided, reversed, unaligned, read-only, byte-swapped, in single precision, or as integers of any width when its values are integers: the results equal those for a contiguous double precision copy (byte-swapped, single precision and integer arrays may instead be refused with an exception), integers never overflow silently, and the caller's arrays are left unchanged.",
  ["inputs", "histories"],
  "all tasks x arguments x storage variants",
  "tests pass contiguous double precision arrays",
  [DR, TM, MF, "deodr/tools.py", "deodr/laplacian_rigid_energy.py", "deodr/differentiable_renderer_cython.pyx", "deodr/obj.py", "deodr/pytorch/mesh_fitter_pytorch.py"], [("Scene3D.render", DR), ("Camera.__init__", DR), ("qrot", "deodr/tools.py"), ("renderSceneCpp", "deodr/differentiable_renderer_cython.pyx")], ["returned arrays, gradients, raised exceptions, contents of the caller's arrays"])

p("C40", "The choice of world frame, unit, image axes and channels does not matter",
  "Rotating and translating the world together with the camera and lights, changing the unit of length, turning or mirroring the image axes, permuting or selecting colour channels: images, depths, deferred buffers, gradients, normals, silhouettes, volume, subdivision, rigidity energy, default cameras and the trajectories of the fitters are those of the original scene expressed in the new axes, in the NumPy and PyTorch implementations.",
  ["inputs", "configurations"],
  "all scenes x frame, unit, image and channel changes x settings",
  "tests use one frame, one unit and one orientation of each scene",
  [DR, TM, MF, "C++/DifferentiableRenderer.h", "deodr/laplacian_rigid_energy.py", "deodr/pytorch/differentiable_renderer_pytorch.py", "deodr/pytorch/mesh_fitter_pytorch.py"], [("Scene3D.render", DR), ("default_camera", DR), ("get_edge_stencil_equations", "C++/DifferentiableRenderer.h"), ("MeshRGBFitterWithPoseMultiFrame", MF)], ["images, gradients, mesh quantities, energies and poses of the fitters"])

p("C41", "Images drawn by OpenGL equal the library's own",
  "Through a real OpenGL driver, the moderngl renderer draws, pixel for pixel, what the library's perspective-correct renderer and its deferred buffers give for the same textured mesh, light, camera, lens distortion, orientation and pixel-centre convention, at any distance and unit, whatever was drawn before by the same renderer object; the pyrender renderer draws the same surfaces, depths, textures and lit sides.",
  ["inputs", "configurations", "histories"],
  "all meshes x poses x settings of the enumerated families and all words of scenes drawn by one renderer, on every pixel away from projected edges",
  "one image comparison of one scene, not run without a display",
  ["deodr/opengl/moderngl.py", "deodr/opengl/pyrender.py", "deodr/opengl/shaders.py"], [("OffscreenRenderer.render", "deodr/opengl/moderngl.py"), ("render", "deodr/opengl/pyrender.py"), ("fragment_shader_rgb_source", "deodr/opengl/shaders.py")], ["images and depths read back from OpenGL"])
p("C42", "Finite scenes have finite images and gradients",
  "For a scene whose values are finite and whose depths are positive, the images, the residual and every gradient are finite numbers, also when triangles are flat to rounding error, seen exactly edge-on, have coincident corners or edges of zero length, or are out of sight; and a flat triangle that shows nowhere leaves the images and gradients of the others as they are. The same holds for meshes with faces in a plane through the camera centre, in colour, depth, deferred and PyTorch rendering.",
  ["inputs", "configurations"],
  "all enumerated flat, nearly flat and edge-on triangles x sizes x distances x flags x attributes x modes, and all enumerated edge-on mesh patches x poses x settings",
  "a few generic scenes, whose triangles all have an area",
  ["C++/DifferentiableRenderer.h", "deodr/differentiable_renderer.py"], [("inv_matrix_3x3", "C++/DifferentiableRenderer.h"), ("get_edge_stencil_equations_B", "C++/DifferentiableRenderer.h"), ("signedArea", "C++/DifferentiableRenderer.h")], ["images, residuals and gradients of 2D and 3D scenes"])

p("C43", "Independent parts of a scene do not influence each other, however many",
  "A scene composed of parts that do not touch in the image shows each part exactly as it looks alone, and every gradient of a part is the one it has alone: it does not matter how many parts there are, in which order their faces and vertices are listed, where in the image or in the texture they lie, nor whether the number of faces, vertices, pixels or texels passes 2^8, 2^15 or 2^16. "
  "The same holds for meshes: predicates, edges, boundaries, normals, silhouettes, Laplacian, volume, subdivision and files of a mesh of several components are those of the components; and components out of sight change neither images, buffers nor gradients in colour, depth, deferred and PyTorch rendering.",
  ["inputs", "configurations"],
  "all words over a library of cells and meshes, layouts, orders, numbering, positions in the texture, and repetitions beyond the limits of small integers",
  "scenes of one object of moderate size",
  ["C++/DifferentiableRenderer.h", "deodr/triangulated_mesh.py", "deodr/differentiable_renderer.py"], [("renderScene", "C++/DifferentiableRenderer.h"), ("renderScene_B", "C++/DifferentiableRenderer.h"), ("sortcompare", "C++/DifferentiableRenderer.h"), ("TriMeshAdjacencies", "deodr/triangulated_mesh.py")], ["images, z-buffers, residuals, gradients and mesh structures"])
p("C44", "Copies and saved states of scenes and fitters continue independently",
  "At any point of any history, a deep copy of a scene or fitter, or the result of pickling and unpickling it, is complete: it continues the history exactly as the original does (images, buffers, gradients of pending backward passes, energies, poses and fits, to the last digit for fits), and whatever is done to the copy does not show in the original, nor the other way round.",
  ["crash_points", "histories"],
  "all cut points of all histories up to the explored depth, followed by all operations on the copy and on the original",
  "tests never copy or save an object",
  ["deodr/differentiable_renderer.py", "deodr/triangulated_mesh.py", "deodr/mesh_fitter.py"], [("Scene3D", "deodr/differentiable_renderer.py"), ("Scene2D", "deodr/differentiable_renderer.py"), ("ColoredTriMesh", "deodr/triangulated_mesh.py"), ("MeshRGBFitterWithPose", "deodr/mesh_fitter.py")], ["results of operations on the copy and on the original"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
print(len(P))
