from mkseed import seed
R, T, TO, F = "deodr/differentiable_renderer.py", "deodr/triangulated_mesh.py", "deodr/tools.py", "deodr/mesh_fitter.py"
PR = "deodr/pytorch/differentiable_renderer_pytorch.py"
MESH = '''import numpy as np
V = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1.0]])
FACES = np.array([[0, 2, 1], [0, 1, 3], [0, 3, 2], [1, 2, 3]])
if np.sum(np.linalg.det(V[FACES])) < 0:
    FACES = FACES[:, ::-1].copy()
'''
seed("m01-same-array", "M01", "vertices updated in place and handed to set_vertices again (same array object) after normals were queried",
     "set_vertices keeps the cached normals when it receives the array it already holds",
     [(T, "        self._vertices = vertices\n        self._face_normals = None\n        self._vertex_normals = None\n",
          "        if vertices is not getattr(self, \"_vertices\", None):\n            self._face_normals = None\n            self._vertex_normals = None\n        self._vertices = vertices\n")],
     MESH + '''from deodr.triangulated_mesh import TriMesh
v = V.copy()
m = TriMesh(FACES, v)
m.vertex_normals
v[0] += [0.7, 0.1, -0.4]
m.set_vertices(v)
ref = TriMesh(FACES, v.copy())
bad = abs(m.vertex_normals - ref.vertex_normals).max() + abs(m.face_normals - ref.face_normals).max()
print(bad)
raise SystemExit(1 if bad > 1e-9 else 0)
''')
seed("m01-stale-vertex-normals", "M01", "vertex normals recomputed after an update of the vertices while face normals had been queried in between",
     "reading the face normals of updated vertices marks the old vertex normals as valid again",
     [(T, "    def compute_face_normals(self) -> None:\n        self._face_normals = self.adjacencies.compute_face_normals(self.vertices)\n",
          "    def compute_face_normals(self) -> None:\n        self._face_normals = self.adjacencies.compute_face_normals(self.vertices)\n        if self._vertex_normals is None:\n            self._vertex_normals = getattr(self, \"_last_vertex_normals\", None)\n"),
      (T, "    def compute_vertex_normals(self) -> None:\n        self._vertex_normals = self.adjacencies.compute_vertex_normals(self.face_normals)\n",
          "    def compute_vertex_normals(self) -> None:\n        self._vertex_normals = self.adjacencies.compute_vertex_normals(self.face_normals)\n        self._last_vertex_normals = self._vertex_normals\n")],
     MESH + '''from deodr.triangulated_mesh import TriMesh
m = TriMesh(FACES, V)
m.vertex_normals
w = V.copy()
w[0] += [0.7, 0.1, -0.4]
m.set_vertices(w)
m.face_normals
bad = abs(m.vertex_normals - TriMesh(FACES, w).vertex_normals).max()
print(bad)
raise SystemExit(1 if bad > 1e-9 else 0)
''')
seed("a01-manifold", "A01", "two faces that run along a shared edge in the same, decreasing, direction",
     "an inconsistently oriented mesh is reported as manifold when the doubled direction is from the larger to the smaller vertex number",
     [(T, "np.all(unique_counts <= 2) and np.all(nb_inc <= 1) and np.all(nb_dec <= 1)", "np.all(unique_counts <= 2) and np.all(nb_inc <= 1)")],
     '''import numpy as np
from deodr.triangulated_mesh import TriMeshAdjacencies
# both faces contain the directed edge 1 -> 0
a = TriMeshAdjacencies(np.array([[1, 0, 2], [1, 0, 3]]), nb_vertices=4)
b = TriMeshAdjacencies(np.array([[0, 1, 2], [0, 1, 3]]), nb_vertices=4)
c = TriMeshAdjacencies(np.array([[1, 0, 2], [0, 1, 3]]), nb_vertices=4)
print(a.is_manifold, b.is_manifold, c.is_manifold)
raise SystemExit(1 if a.is_manifold or b.is_manifold or not c.is_manifold else 0)
''')
seed("a01-edge-key", "A01", "an edge of the last two vertices and one whose number collides with it",
     "edge numbers use the largest face index instead of the number of vertices as multiplier, so two different edges can be merged",
     [(T, "np.minimum(idv[:, 0], idv[:, 1]).astype(np.uint64) * self.nb_vertices,", "np.minimum(idv[:, 0], idv[:, 1]).astype(np.uint64) * (self.nb_vertices - 3),")],
     '''import numpy as np
from deodr.triangulated_mesh import TriMeshAdjacencies
bad = 0
for n in (4, 5, 6, 7):
    faces = np.array([[i, j, k] for i in range(n) for j in range(i + 1, n) for k in range(j + 1, n)])
    a = TriMeshAdjacencies(faces, nb_vertices=n)
    bad += a.nb_edges != n * (n - 1) // 2
print(bad)
raise SystemExit(1 if bad else 0)
''')
seed("c03-thin-faces", "C03", "a silhouette face that covers almost nothing",
     "faces whose projection is thinner than a threshold count as hidden on both sides of the mesh: their silhouette edges lose the flag or gain one",
     [(T, "        face_visible = np.cross(u, v) > 0 if self.clockwise else np.cross(u, v) < 0\n", "        face_visible = np.cross(u, v) > 1e-12 if self.clockwise else np.cross(u, v) < -1e-12\n")],
     MESH + '''from deodr.triangulated_mesh import TriMeshAdjacencies
a = TriMeshAdjacencies(FACES, nb_vertices=4)
r = np.random.default_rng(0)
bad = 0
for i in range(20):
    p = r.uniform(-1, 1, (4, 2))
    bad += int((a.edge_on_silhouette(p) != a.edge_on_silhouette(p * 1e-7)).sum())
print(bad)
raise SystemExit(1 if bad else 0)
''')
seed("g07-unit-normals", "G07", "nearly degenerate but valid triangles",
     "the backward pass of normalize treats short vectors as if they had unit length",
     [(TO, "    n2 = np.sum(x**2, axis=axis)\n    n = np.sqrt(n2)\n    inv_n", "    n2 = np.maximum(np.sum(x**2, axis=axis), 1e-20)\n    n = np.sqrt(n2)\n    inv_n")],
     '''import numpy as np
from deodr.tools import normalize, normalize_backward
r = np.random.default_rng(0)
bad = 0
for scale in (1, 1e-4, 1e-12):
    x = r.uniform(-1, 1, (5, 3)) * scale
    b = r.uniform(-1, 1, (5, 3))
    g = normalize_backward(x, b, axis=1)
    n = np.zeros_like(x)
    for i in np.ndindex(*x.shape):
        d = np.zeros_like(x); d[i] = scale * 1e-5
        n[i] = ((normalize(x + d, axis=1) - normalize(x - d, axis=1)) * b).sum() / (2e-5 * scale)
    bad = max(bad, abs(g - n).max() * scale)
print(bad)
raise SystemExit(1 if bad > 1e-4 else 0)
''')
seed("g08-clip-edge", "G08", "rendered depths beyond max_depth",
     "the depth fitter propagates the gradient of pixels whose depth was clipped at the far end",
     [(F, "        depth_b[self.depth_not_clipped > self.max_depth] = 0\n", "        depth_b[self.depth_not_clipped > 2 * self.max_depth] = 0\n")],
     MESH + '''import contextlib, io
from deodr.mesh_fitter import MeshDepthFitter
def fitter(maxd):
    f = MeshDepthFitter(V + np.array([[0.13, 0.07, 0.02], [0.05, -0.11, 0.03], [0, 0.17, 0], [-0.09, 0, 0.1]]), FACES, np.zeros(3), np.zeros(3), cregu=1)
    f.set_max_depth(maxd)
    f.set_depth_scale(1)
    f.set_image(np.full((24, 24), 0.5), focal=30)
    return f
f = fitter(1e6)
d = f.render()
near, far = np.sort(f.depth_not_clipped[f.depth_not_clipped < 1e5])[[0, -1]]
f = fitter(0.75 * near)          # everything is clipped: the energy does not depend on the mesh
d = f.render()
f.render_backward(2 * (d - 0.5))
bad = abs(f.transform_translation_b).max() + abs(f._vertices_b).max()
print(near, far, bad)
raise SystemExit(1 if bad > 1e-9 else 0)
''')
seed("l01-reset-speed", "L01", "reset of the depth fitter after the quaternion has moved",
     "reset of the depth fitter keeps the rotation speed of the previous run",
     [(F, "        self.transform_quaternion = copy.copy(self.transform_quaternion_init)\n        self.transform_translation = copy.copy(self.transform_translation_init)\n        self.speed_translation = np.zeros(3)\n        self.speed_quaternion = np.zeros(4)\n",
          "        self.transform_quaternion = copy.copy(self.transform_quaternion_init)\n        self.transform_translation = copy.copy(self.transform_translation_init)\n        self.speed_translation = np.zeros(3)\n        self.speed_quaternion = getattr(self, \"speed_quaternion\", np.zeros(4))\n", 0)],
     MESH + '''import contextlib, io
from deodr.mesh_fitter import MeshDepthFitter
f = MeshDepthFitter(V + np.array([[0.13, 0.07, 0.02], [0.05, -0.11, 0.03], [0, 0.17, 0], [-0.09, 0, 0.1]]), FACES, np.zeros(3), np.zeros(3), cregu=1)
f.set_max_depth(20)
f.set_depth_scale(1)
r = np.random.default_rng(0)
f.set_image(r.uniform(3, 9, (24, 24)), focal=30)
with contextlib.redirect_stdout(io.StringIO()):
    a = [f.step()[0] for k in range(4)]
    f.reset()
    b = [f.step()[0] for k in range(4)]
print(a, b)
raise SystemExit(1 if a != b else 0)
''')
seed("g09-mask-once", "G09", "a mask with values other than 0 and 1",
     "the gradient of the masked error of compare-and-backward lacks one factor of the mask",
     [(R, "            image_b = 2 * diff_image * mask[:, :, None]\n", "            image_b = 2 * diff_image * (mask[:, :, None] > 0)\n")],
     """from nat import *
s = scene(0, 2)
r = np.random.default_rng(2)
obs, mask = r.uniform(0, 1, (14, 17, 3)), r.uniform(0.1, 0.9, (14, 17))
def err(c):
    s.colors = c
    return s.render_compare_and_backward(obs, mask=mask)[3]
c = s.colors.copy()
err(c)
g = s.colors_b.copy()
n = np.zeros_like(c)
for i in np.ndindex(*c.shape):
    d = np.zeros_like(c); d[i] = 1e-6
    n[i] = (err(c + d) - err(c - d)) / 2e-6
print(abs(g - n).max())
raise SystemExit(1 if abs(g - n).max() > 1e-4 else 0)
""", ("nat.py",))
seed("k01-distortion-order", "K01", "a camera with a tangential distortion coefficient p2",
     "the tangential distortion of the y coordinate uses the squared x coordinate",
     [(R, "            tangential_distortion_y = p1 * (r2 + 2 * y2) + 2 * p2 * x * y\n", "            tangential_distortion_y = p1 * (r2 + 2 * y2) + 2 * p2 * x2\n"),],
     '''import numpy as np
from deodr.differentiable_renderer import Camera
r = np.random.default_rng(0)
p = r.uniform(-1, 1, (20, 3)) + [0, 0, 4]
k1, k2, p1, p2, k3 = d = np.array([0.1, -0.05, 0.03, 0.04, 0.02])
c = Camera(np.eye(3, 4), np.array([[50, 0, 20], [0, 60, 30], [0, 0, 1.0]]), 60, 40, distortion=d)
x, y = p[:, 0] / p[:, 2], p[:, 1] / p[:, 2]
r2 = x * x + y * y
k = 1 + k1 * r2 + k2 * r2**2 + k3 * r2**3
want = np.stack((50 * (x * k + 2 * p1 * x * y + p2 * (r2 + 2 * x * x)) + 20, 60 * (y * k + p1 * (r2 + 2 * y * y) + 2 * p2 * x * y) + 30), 1)
bad = abs(c.project_points(p)[0] - want).max()
print(bad)
raise SystemExit(1 if bad > 1e-9 else 0)
''')
H, PYX = "C++/DifferentiableRenderer.h", "deodr/differentiable_renderer_cython.pyx"
N = ("nat.py",)
seed("c02-edge-offset", "C02", "integer_pixel_centers=False with antialiased silhouettes",
     "silhouette edges are drawn and differentiated without the half-pixel shift that triangles get",
     [(H, "								ij[i][j] = scene.ij[face[sub[i]] * 2 + j] - pixel_center_offset;\n", "								ij[i][j] = scene.ij[face[sub[i]] * 2 + j];\n", 0),
      (H, "ij[i][j] = scene.ij[face[sub[i]] * 2 + j] - pixel_center_offset;", "ij[i][j] = scene.ij[face[sub[i]] * 2 + j];")],
     """from nat import *
bad = 0
for seed in range(3):
    a = scene(seed, 2)
    b = scene(seed, 2, integer=False)
    b.ij = b.ij + 0.5
    bad = max(bad, abs(forward(a, 1.3, False, None)[0] - forward(b, 1.3, False, None)[0]).max())
print(bad)
raise SystemExit(1 if bad > 1e-6 else 0)
""", N)
seed("f02-far-plane", "F02", "surfaces further away than 100000",
     "surfaces with a depth of more than 1e5 are not drawn and pixels without surface get a finite depth",
     [(H, "numeric_limits<double>::infinity());", "1e5);")],
     """from nat import *
s = scene(0, 2, edges=False)
i0, z0, _ = forward(s, 0, False, None)
s.depths = s.depths * 1e6
i1, z1, _ = forward(s, 0, False, None)
ok = np.allclose(i0, i1) and np.allclose(z0 * 1e6, z1)
print(ok)
raise SystemExit(0 if ok else 1)
""", N)
seed("f03-band-end", "F03", "a blend width sigma other than 1",
     "the outer border of the blended band lies at distance 1 from the edge instead of sigma",
     [(H, "	ineq[3 * 3 + 2] = (1 - xy1_to_transp[2]);", "	ineq[3 * 3 + 2] = (1 / sigma - xy1_to_transp[2]);")],
     """from nat import *
s = scene(0, 1, textured=False)
s.ij = np.array([[4.2, 2.1], [12.3, 3.3], [5.4, 9.8]])
if forward(s, 0, False, None)[1].min() == np.inf:
    s.ij = s.ij[::-1].copy()
s.colors[:] = 1
s.background_image[:] = 0
a = forward(s, 3.0, False, None)[0][:, :, 0]
z = forward(s, 0, False, None)[1]
# distance of each pixel to the triangle
y, x = np.mgrid[:s.height, :s.width]
d = np.full(a.shape, np.inf)
p = np.stack((x, y), -1)
for u, v in ((0, 1), (1, 2), (2, 0)):
    e = s.ij[v] - s.ij[u]
    t = ((p - s.ij[u]) @ e) / (e @ e)
    q = abs((p - s.ij[u]) @ np.array([e[1], -e[0]])) / np.sqrt(e @ e)
    d = np.minimum(d, np.where((t > 0.001) & (t < 0.999) & (z == np.inf), q, np.inf))
sel = (d > 0.05) & (d < 2.95) & (a > 0)
want = 1 - d / 3
touched = (d < 2.9)
print((touched & (a == 0)).sum())
raise SystemExit(1 if (touched & (a == 0)).any() else 0)
""", N)
seed("f03-perspective-edge", "F03", "perspective_correct=True with a silhouette edge whose end points have different depths",
     "along a silhouette edge the perspective-correct colour is interpolated with the depth at the start of the row",
     [(H, "						double A = (A0y[k] + xy1_to_A[3 * k] * x) * Z;\n						image[sizeA * indx + k] += (1 - T) * A;",
          "						double A = (A0y[k] + xy1_to_A[3 * k] * x) / (Z0y + xy1_to_Z[0] * x_begin);\n						image[sizeA * indx + k] += (1 - T) * A;")],
     """from nat import *
s = scene(0, 1, textured=False, perspective_correct=True)
s.ij = np.array([[4.2, 2.1], [12.3, 3.3], [5.4, 9.8]])
s.depths = np.array([1.0, 6.0, 2.0])
if forward(s, 0, False, None)[1].min() == np.inf:
    s.ij, s.depths = s.ij[::-1].copy(), s.depths[::-1].copy()
s.colors[:] = 0.25       # a constant colour stays constant under any correct interpolation
s.background_image[:] = 0.25
a = forward(s, 2.0, False, None)[0]
print(abs(a - 0.25).max())
raise SystemExit(1 if abs(a - 0.25).max() > 1e-9 else 0)
""", N)
seed("s03-error-edge-leak", "S03", "many gradients of textured or plain error edges in one process",
     "one temporary per silhouette edge is not released by the gradient of the antialiased error",
     [(H, "	delete[] A0y;\n	delete[] A0y_B;\n	delete[] xy1_to_A;\n	delete[] xy1_to_A_B;\n}\n\nvoid get_edge_xrange_from_ineq", "	delete[] A0y;\n	delete[] A0y_B;\n	delete[] xy1_to_A;\n}\n\nvoid get_edge_xrange_from_ineq")],
     """from nat import *
import resource
r = np.random.default_rng(0)
C = 2000
s = scene(0, 2, textured=False, C=C)
obs = r.uniform(0, 1, (14, 17, C))
def use(n):
    for _ in range(n):
        gradients(s, sigma=1.0, err=True, obs=obs, up=np.ones((14, 17)))
    return resource.getrusage(resource.RUSAGE_SELF).ru_maxrss
a = use(20)
b = use(200)
print(a, b)
raise SystemExit(1 if b - a > 20000 else 0)
""", N)
seed("s04-culling-sigma", "S04", "back faces kept and sigma of 0",
     "gradients of a rendering with back faces kept are no longer refused when antialiasing is off",
     [(H, "	if (!scene.backface_culling)\n	{\n		throw", "	if (!scene.backface_culling && sigma > 0)\n	{\n		throw")],
     """from nat import *
s = scene(0, 2, backface_culling=False, edges=False)
ok = True
for err in (False, True):
    try:
        gradients(s, sigma=0.0, err=err, obs=np.zeros((14, 17, 3)))
        ok = False
    except Exception as e:
        print(repr(e))
raise SystemExit(0 if ok else 1)
""", N)
seed("s02-obs-channels", "S02", "an observation with fewer channels than the image",
     "an observation with a wrong number of channels is read past its end instead of being refused",
     [(R, "            assert obs.shape[0] == height\n            assert obs.shape[1] == width\n            assert obs.shape[2] == nb_colors\n", "            assert obs.shape[:2] == (height, width)\n"),
      (PYX, "		assert obs.shape[2]  ==  nb_colors \n", "		assert obs.ndim  ==  3\n", 0)],
     """from nat import *
s = scene(0, 2)
try:
    s.render_error(np.zeros((14, 17, 1)))
except Exception as e:
    print(repr(e))
    raise SystemExit(0)
raise SystemExit(1)
""", N)
seed("e01-mask-alias", "E01", "compare-and-backward of the antialiased error with a mask and make_copies=False",
     "the caller's mask is overwritten by the backward pass",
     [(R, "            err_buffer_b = copy.copy(mask)\n", "            err_buffer_b = np.asarray(mask, dtype=np.float64)\n")],
     """from nat import *
r = np.random.default_rng(0)
bad = 0
for i in range(3):
    s = scene(i, 2)
    mask = r.uniform(0.2, 1, (14, 17))
    m = mask.copy()
    s.render_compare_and_backward(r.uniform(0, 1, (14, 17, 3)), sigma=1.5, antialiase_error=True, mask=mask, make_copies=False)
    bad += (m != mask).sum()
print(bad)
raise SystemExit(1 if bad else 0)
""", N)
seed("h01-clear-texture", "H01", "repeated compare-and-backward calls on a scene with textured and untextured faces",
     "the texture gradient is only cleared when every face is textured, so it accumulates over calls",
     [(R, "        self.colors_b.fill(0)\n        self.texture_b.fill(0)\n", "        self.colors_b.fill(0)\n        if np.all(self.textured):\n            self.texture_b.fill(0)\n")],
     """from nat import *
r = np.random.default_rng(0)
obs = r.uniform(0, 1, (14, 17, 3))
bad = 0
for t in ([True, True], [True, False]):
    s = scene(0, 2, textured=t)
    s.render_compare_and_backward(obs)
    g = s.texture_b.copy()
    s.render_compare_and_backward(obs)
    bad = max(bad, abs(g - s.texture_b).max())
print(bad)
raise SystemExit(1 if bad > 1e-12 else 0)
""", N)
seed("h01-depth-scale", "H01", "depth gradients of a scene rendered with two different depth scales",
     "the depth scale of the first depth rendering is used in the gradient of every later one",
     [(R, "            self.store_backward_current[\"render_depth\"] = (camera, depth_scale)\n",
          "            self.depth_scale = getattr(self, \"depth_scale\", depth_scale)\n            self.store_backward_current[\"render_depth\"] = (camera, self.depth_scale)\n")],
     MESH + """from deodr.differentiable_renderer import Scene3D, default_camera
from deodr.triangulated_mesh import ColoredTriMesh
cam = default_camera(20, 20, 50, V, np.eye(3))
def grad(*scales):
    m = ColoredTriMesh(FACES, V.copy(), colors=np.ones((4, 3)))
    s = Scene3D(sigma=0)
    s.set_mesh(m)
    s.set_background_color([0.0])
    for k in scales:
        s.render_depth(cam, depth_scale=k)
    s.render_depth_backward(np.ones((20, 20, 1)))
    return m._vertices_b
bad = abs(grad(2.0) - grad(1.0, 2.0)).max()
print(bad)
raise SystemExit(1 if bad > 1e-9 else 0)
""")
seed("c01-deferred-centers", "C01", "a scene with half-integer pixel centres rendered with render_deferred",
     "deferred rendering always places pixel centres at integer coordinates",
     [(R, "            background_color=None,\n            perspective_correct=self.perspective_correct,\n            integer_pixel_centers=self.integer_pixel_centers,\n", "            background_color=None,\n            perspective_correct=self.perspective_correct,\n            integer_pixel_centers=True,\n")],
     MESH + """from deodr.differentiable_renderer import Scene3D, default_camera
from deodr.triangulated_mesh import ColoredTriMesh
cam = default_camera(20, 20, 50, V, np.eye(3))
bad = 0
for c in (True, False):
    s = Scene3D(sigma=0, integer_pixel_centers=c)
    s.set_mesh(ColoredTriMesh(FACES, V.copy(), colors=np.ones((4, 3))))
    s.set_background_color([1e3])
    d = s.render_depth(cam)[:, :, 0]
    e = s.render_deferred(cam)["depth"][:, :, 0]
    m = d < 1e3
    bad = max(bad, abs(d - e)[m].max())
print(bad)
raise SystemExit(1 if bad > 1e-9 else 0)
""")
seed("g06-k3", "G06", "a camera with a non-zero third radial distortion coefficient",
     "the derivative of the sixth-order radial term has the wrong factor",
     [(R, "3 * k3 * r2**2)", "2 * k3 * r2**2)")],
     """import numpy as np
from deodr.differentiable_renderer import Camera
r = np.random.default_rng(0)
p = r.uniform(-1, 1, (20, 3)) + [0, 0, 4]
bad = 0
for d in ([0.1, -0.05, 0.03, 0.04, 0], [0.1, -0.05, 0.03, 0.04, 0.7]):
    c = Camera(np.eye(3, 4), np.array([[50, 3, 20], [0, 60, 30], [0, 0, 1.0]]), 60, 40, distortion=np.array(d))
    b = r.uniform(-1, 1, (20, 2))
    st = {}
    c.project_points(p, store_backward=st)
    g = c.project_points_backward(b, st)
    for k in range(3):
        e = np.zeros(3); e[k] = 1e-6
        n = ((c.project_points(p + e)[0] - c.project_points(p - e)[0]) * b).sum(1) / 2e-6
        bad = max(bad, abs(n - g[:, k]).max())
print(bad)
raise SystemExit(1 if bad > 1e-5 else 0)
""")
seed("m02-boundary-winding", "M02", "Loop subdivision: orientation of the central triangle",
     "the middle triangle of each subdivided face has the opposite orientation",
     [(T, "            mesh.adjacencies.faces_edges[:, 0] + mesh.nb_vertices,\n            mesh.adjacencies.faces_edges[:, 1] + mesh.nb_vertices,\n            mesh.adjacencies.faces_edges[:, 2] + mesh.nb_vertices,\n", "            mesh.adjacencies.faces_edges[:, 0] + mesh.nb_vertices,\n            mesh.adjacencies.faces_edges[:, 2] + mesh.nb_vertices,\n            mesh.adjacencies.faces_edges[:, 1] + mesh.nb_vertices,\n")],
     """import numpy as np
from deodr.triangulated_mesh import ColoredTriMesh
v = np.array([[0, 0, 0], [4, 0, 0], [0, 4, 0.0]])
m = ColoredTriMesh(np.array([[0, 1, 2]]), v, colors=np.ones((3, 3))).subdivise(1)
n = m.face_normals[:, 2]
print(n)
raise SystemExit(0 if (n > 0.99).all() else 1)
""")
seed("t01-skew", "T01", "a camera with skewed pixels in the PyTorch renderer",
     "the PyTorch camera drops the skew of the intrinsic matrix",
     [(PR, "        return torch.cat((projected, torch.ones((projected.shape[0], 1), dtype=torch.double)), dim=1).mm(\n            torch.tensor(self.intrinsic[:2, :].T)\n        )\n",
           "        return projected * torch.tensor(np.diag(self.intrinsic)[:2]) + torch.tensor(self.intrinsic[:2, 2])\n")],
     """import numpy as np
import torch
from deodr.differentiable_renderer import Camera
from deodr.pytorch.differentiable_renderer_pytorch import CameraPytorch
p = np.random.default_rng(0).uniform(-1, 1, (20, 3)) + [0, 0, 4]
bad = 0
for skew in (0, 5.0):
    a = (np.eye(3, 4), np.array([[50, skew, 20], [0, 60, 30], [0, 0, 1.0]]), 60, 40)
    bad = max(bad, abs(Camera(*a).project_points(p)[0] - CameraPytorch(*a).project_points(torch.tensor(p))[0].numpy()).max())
print(bad)
raise SystemExit(1 if bad > 1e-9 else 0)
""")
