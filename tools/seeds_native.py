from mkseed import seed
H = "C++/DifferentiableRenderer.h"
N = ("nat.py",)
seed("g02-sigma-scale", "G02", "sigma other than 1",
     "the gradient of silhouette edges with respect to vertex positions misses the factor 1/sigma of the transparency ramp",
     [(H, "		xy1_to_edge_B[6 + k] += xy1_to_transp_B[k] * (1 / sigma);", "		xy1_to_edge_B[6 + k] += xy1_to_transp_B[k];")],
     "from nat import *\nexpect([(i, check(scene(i, 2), ('ij',), sigma=1.7)) for i in range(3)])\n", N)
seed("g01-strict-edge-backward", "G01", "strict_edge=False with a textured triangle and a pixel exactly on its left or top edge",
     "the backward pass of textured triangles always uses the strict edge rule: pixels on the border get no gradient",
     [(H, "scene.texture_b, Texture_size, scene.strict_edge, scene.perspective_correct);", "scene.texture_b, Texture_size, true, scene.perspective_correct);")],
     """from nat import *
s = scene(0, 1, textured=True, strict=False, edges=False)
s.ij = np.array([[2., 2.], [12., 2.], [2., 10.]])
expect([(0, check(s, ('shade', 'texture')))])
""", N)
seed("g03-obs-stride", "G03", "antialias_error with edges and a number of channels other than 3",
     "the backward pass of untextured error edges reads the observation with a stride of 3 channels",
     [(H, "					double diff = A - image[sizeA * indx + k];\n					//Err+=diff*diff;\n					double diff_B = 2 * diff * Err_B;\n					double A_B = diff_B;\n					A0y_B[k] += A_B;",
          "					double diff = A - image[3 * indx + k];\n					//Err+=diff*diff;\n					double diff_B = 2 * diff * Err_B;\n					double A_B = diff_B;\n					A0y_B[k] += A_B;")],
     """import os
from nat import *
# vertical edge row start at x = 0: compare with the gradient obtained for the same scene with padded channels
def grad(C):
    r = np.random.default_rng(3)
    obs = r.uniform(0, 1, (14, 17, 4))
    s = scene(1, 1, C=4, textured=False)
    bg = s.background_image
    s.colors = s.colors[:, :C].copy(); s.colors_b = None
    s.texture = s.texture[:, :, :C].copy(); s.background_image = bg[:, :, :C].copy(); s.nb_colors = C
    gradients(s, err=True, obs=obs[:, :, :C].copy(), up=np.ones((14, 17)))
    return s.colors_b
# gradients of the first 3 channels do not depend on the fourth
a, b = grad(4)[:, :3], grad(3)
print(abs(a - b).max())
raise SystemExit(1 if abs(a - b).max() > 1e-9 else 0)
""", N)
seed("g05-zero-depth", "G05", "a triangle with a vertex at depth exactly 0",
     "the backward pass treats vertices at depth 0 as behind the camera while the forward pass draws them: their edges are not undone",
     [(H, "			if (scene.depths[face[i]] < 0)", "			if (scene.depths[face[i]] <= 0)", 1)],
     """from nat import *
cases = []
for i in range(6):
    s = scene(i, 2, textured=False)
    s.depths = s.depths - s.depths.min()
    cases.append((i, check(s, ('colors',))))
expect(cases)
""", N)
seed("g05-swapped-size", "G05", "antialias_error with a textured edge and an image that is not square",
     "the backward pass of textured error edges walks an image with height and width swapped",
     [(H, "rasterize_edge_textured_gouraud_error_B(ij, ij_b, depths, uv, uv_b, shade, shade_b, z_buffer, obs, err_buffer, err_buffer_b, scene.height, scene.width,",
          "rasterize_edge_textured_gouraud_error_B(ij, ij_b, depths, uv, uv_b, shade, shade_b, z_buffer, obs, err_buffer, err_buffer_b, min(scene.height, scene.width), scene.width,")],
     """from nat import *
cases = []
for i in range(6):
    s = scene(i, 2, H=26, W=13, textured=True)
    cases.append((i, check(s, ('shade', 'texture'), err=True)))
expect(cases)
""", N)
seed("g04-shade-snapshot", "G04", "vertices shared by several textured triangles",
     "shade gradients of the triangle sweep start from a snapshot taken before the sweep: contributions of a vertex shared by two textured triangles overwrite each other",
     [(H, "	if (antialiaseError)\n	{\n		image_b = new double[scene.width", "	vector<double> shade_b0(scene.shade_b, scene.shade_b + scene.nb_vertices);\n\n	if (antialiaseError)\n	{\n		image_b = new double[scene.width"),
      (H, "					shade_b[i] = scene.shade_b[face[i]];", "					shade_b[i] = shade_b0[face[i]];")],
     """from nat import *
cases = []
for i in range(4):
    s = scene(i, 2, textured=True, edges=False)
    s.ij = np.array([[1.2, 1.1], [14.3, 2.2], [3.3, 12.1], [15.1, 12.7]])
    s.faces = np.array([[0, 1, 2], [2, 1, 3]], np.uint32)
    s.faces_uv = s.faces
    s.uv = s.uv[:4]; s.depths = np.ones(4); s.shade = np.linspace(0.5, 1.2, 4); s.colors = s.colors[:4]
    s.clockwise = True
    cases.append((i, check(s, ('shade',))))
expect(cases)
""", N)
seed("g02-lost-shade", "G02", "textured silhouette edges whose first vertex has a larger index than the second",
     "the shade gradient of one corner of a textured edge is dropped for some vertex orders",
     [(H, "								scene.shade_b[face[sub[i]]] = shade_b[i];", "								if (scene.sorted_vertices(face, sub) || i) scene.shade_b[face[sub[i]]] = shade_b[i];".replace("scene.sorted_vertices(face, sub)", "!(sigma > 1 && face[sub[0]] > face[sub[1]])"))],
     "from nat import *\nexpect([(i, check(scene(i, 2, textured=True), ('shade',), sigma=1.5)) for i in range(3)])\n", N)
