R0 = "C++/DifferentiableRenderer.h"
R = "deodr/differentiable_renderer.py"
T = "deodr/triangulated_mesh.py"
TO = "deodr/tools.py"
F = "deodr/mesh_fitter.py"
L = "deodr/laplacian_rigid_energy.py"
X = "deodr/differentiable_renderer_cython.pyx"
PR = "deodr/pytorch/differentiable_renderer_pytorch.py"
PM = "deodr/pytorch/triangulated_mesh_pytorch.py"
PL = "deodr/pytorch/laplacian_rigid_energy_pytorch.py"
M = [
    ("g06-r2", ["G06"], R, [("2 * k2 * r2 + 3 * k3 * r2**2", "2 * k2 * r2 + 3 * k3 * r2")], "catch"),
    ("g06-tang", ["G06"], R, [("y_b += tangential_distortion_x_b * 2 * p1 * x", "y_b += tangential_distortion_x_b * 2 * p1 * y")], "catch"),
    ("g06-depthb", ["G06", "G07"], R, [("p_camera_b[:, 2] += depths_b", "p_camera_b[:, 2] = depths_b")], "catch"),
    ("g06-refactor", ["G06", "G07"], R, [("return p_camera_b.dot(self.extrinsic[:3, :3])", "rotation = self.extrinsic[:, :3]\n        return (rotation.T @ p_camera_b.T).T"),
                                         ("                -np.sum(projected_b * p_camera[:, :2], axis=1) / (depths**2),", "                -(projected_b[:, 0] * p_camera[:, 0] + projected_b[:, 1] * p_camera[:, 1]) / depths / depths,")], "quiet"),
    ("g07-clamp", ["G07"], R, [("((vertices_luminosity_b * (directional > 0))[:, None]) * self.light_directional", "(vertices_luminosity_b[:, None]) * self.light_directional")], "catch"),
    ("g07-amb", ["G07"], R, [("self.light_ambient_b = np.sum(vertices_luminosity_b)", "self.light_ambient_b = np.sum(vertices_luminosity_b * (vertices_luminosity_b > 0))")], "catch"),
    ("g07-cross", ["G07"], TO, [("def cross_backward", "def cross_backward")], "quiet"),
    ("g07-normals-T", ["G07"], T, [("triangles_b = np.stack((-u_b - v_b, u_b, v_b), axis=1)", "triangles_b = np.stack((-u_b - v_b, v_b, u_b), axis=1)")], "catch"),
    ("g07-addat", ["G07"], T, [("np.add.at(vertices_b, self.faces, triangles_b)", "vertices_b[self.faces] += triangles_b")], "catch"),
    ("g07-cw", ["G07"], T, [("            u_b, v_b = cross_backward(u, v, -n_b)", "            u_b, v_b = cross_backward(u, v, n_b)")], "catch"),
    ("g07-over", ["G07"], T, [("self._vertices_b += self.adjacencies.compute_face", "self._vertices_b = self.adjacencies.compute_face")], "catch"),
    ("g07-lum", ["G07"], R, [("np.sum(self.mesh.vertices_colors * colors_b, axis=1)", "np.mean(self.mesh.vertices_colors * colors_b, axis=1)")], "catch"),
    ("g07-refactor-loop", ["G07"], T, [("np.add.at(vertices_b, self.faces, triangles_b)", "for k in range(3):\n            np.add.at(vertices_b, self.faces[:, k], triangles_b[:, k, :])"),
                                        ("n = -np.cross(u, v) if self.clockwise else np.cross(u, v)", "n = np.cross(u, v)\n        if self.clockwise:\n            n = -n")], "quiet"),
    ("g07-refactor-lum", ["G07"], R, [("np.maximum(0, -np.sum(self.mesh.vertex_normals * self.light_directional, axis=1))", "np.maximum(-self.mesh.vertex_normals.dot(self.light_directional), 0)"),
                                     ("vertices_luminosity_b = np.sum(self.mesh.vertices_colors * colors_b, axis=1)", "vertices_luminosity_b = np.einsum('ij,ij->i', self.mesh.vertices_colors, colors_b)")], "quiet"),
    ("s02-le", ["S02"], [R, X], [("scene.faces < nb_vertices)", "scene.faces <= nb_vertices)"), ("scene.faces < nb_vertices)", "scene.faces <= nb_vertices)")], "catch"),
    ("s02-uv-range", ["S02"], X, [("assert(np.all(scene.faces_uv < nb_vertices_uv))", "assert(np.all(scene.faces_uv < nb_vertices))")], "catch"),
    ("s02-obs", ["S02"], X, [("\t\tassert obs.shape[2]  ==  nb_colors \n", "")], "catch"),
    ("s02-obs-b", ["S02"], X, [("\t\t\tassert obs.shape[2]  ==  nb_colors \n", "")], "catch"),
    ("s02-mode", ["S02"], X, [("np.ndarray[double,ndim = 3,mode = \"c\"] obs = None", "np.ndarray[double,ndim = 3] obs = None")], "catch"),
    ("s02-shadeb", ["S02"], X, [("assert(scene.shade_b.shape[0]  ==  nb_vertices)", "assert(scene.shade_b.shape[0]  ==  scene.shade_b.size)")], "catch"),
    ("s02-python-only", ["S02"], R, [("        assert scene.uv.shape[1] == 2\n", "")], "quiet"),
    ("s02-tuple", ["S02"], X, [("assert(scene.ij.shape[0]  ==  nb_vertices)\n\t\tassert(scene.ij.shape[1]  ==  2)", "assert(scene.ij.shape == (nb_vertices, 2))"),
                               ("assert(np.all(scene.faces < nb_vertices))", "assert(not np.any(scene.faces >= nb_vertices))"),
                               ("assert(not(np.any(np.logical_and(scene.textured, scene.shaded))))", "") if False else ("if scene.texture.size>0:", "if scene.texture.size != 0:")], "quiet"),
    ("s02-switch", ["S02"], R, [("renderScene(self, sigma, image, z_buffer, antialiase_error, None, None)", "renderScene(self, sigma, image, z_buffer, antialiase_error, None, None, False)")], "catch"),
    ("c01-cull", ["C01"], R, [("            backface_culling=backface_culling,\n            strict_edge=True,", "            backface_culling=True,\n            strict_edge=True,")], "catch"),
    ("c01-ipc", ["C01"], R, [("            background_color=None,\n            perspective_correct=self.perspective_correct,\n            integer_pixel_centers=self.integer_pixel_centers,", "            background_color=None,\n            perspective_correct=self.perspective_correct,")], "catch"),
    ("c01-uvperm", ["C01"], R, [("soup_uv = self.mesh.uv[self.mesh.faces_uv]", "soup_uv = self.mesh.uv[self.mesh.faces_uv[:, ::-1]]")], "catch"),
    ("c01-faceid", ["C01"], R, [("np.tile(np.arange(0, self.mesh.nb_faces)[:, None], (1, 3))", "np.tile(np.arange(0, self.mesh.nb_faces), 3)")], "catch"),
    ("c01-cyculling", ["C01"], X, [("\tscene_c.backface_culling = scene.backface_culling", "\tscene_c.backface_culling = True")], "catch"),
    ("c01-size", ["C01"], R, [("            height=camera.height,\n            width=camera.width,", "            height=camera.width,\n            width=camera.height,")], "catch"),
    ("c01-ranges", ["C01"], R, [("channels[\"normal\"] = soup_normals", "channels[\"normal\"] = -soup_normals")], "catch"),
    ("c01-refactor", ["C01"], R, [("soup_faces = np.arange(0, soup_nb_vertices, dtype=np.uint32).reshape(self.mesh.nb_faces, 3)", "soup_faces = np.reshape(np.arange(3 * soup_nb_faces, dtype=np.uint32), (-1, 3))"),
                                  ("output: Dict[str, np.ndarray] = {k: buffers[:, :, ranges[k][0] : ranges[k][1]] for k in channels}", "output: Dict[str, np.ndarray] = {}\n        for k, (first, last) in ranges.items():\n            output[k] = buffers[:, :, first:last]"),
                                  ("np.tile(np.eye(3, 3)[None, :, :], (self.mesh.nb_faces, 1, 1)).reshape(\n                soup_nb_vertices, 3\n            )", "np.tile(np.eye(3), (soup_nb_faces, 1))")], "quiet"),
    ("c03-edges", ["C03"], T, [("self.faces[:, [1, 2]], self.faces[:, [2, 0]])", "self.faces[:, [2, 0]], self.faces[:, [1, 2]])")], "catch"),
    ("c03-ge1", ["C03"], T, [("self.edges_faces_ones * face_visible) == 1", "self.edges_faces_ones * face_visible) >= 1")], "catch"),
    ("c03-sign", ["C03"], T, [("np.cross(u, v) > 0 if self.clockwise else np.cross(u, v) < 0", "np.cross(u, v) < 0 if self.clockwise else np.cross(u, v) > 0")], "catch"),
    ("c03-nocw", ["C03"], T, [("TriMeshAdjacencies(self.faces, self.clockwise, nb_vertices", "TriMeshAdjacencies(self.faces, nb_vertices")], "catch"),
    ("c03-key", ["C03"], T, [("np.minimum(idv[:, 0], idv[:, 1]).astype(np.uint64) * self.nb_vertices", "np.minimum(idv[:, 0], idv[:, 1]).astype(np.uint64) * self.nb_faces")], "catch"),
    ("c03-faces", ["C03", "C01"], R, [("faces = self.mesh.faces.astype(np.uint32)\n", "faces = np.sort(self.mesh.faces, axis=1).astype(np.uint32)\n")], "catch"),
    ("c03-refactor", ["C03"], T, [("edges = np.vstack((self.faces[:, [0, 1]], self.faces[:, [1, 2]], self.faces[:, [2, 0]]))", "edges = np.concatenate([self.faces[:, [k, (k + 1) % 3]] for k in range(3)], axis=0)"),
                                  ("face_visible = np.cross(u, v) > 0 if self.clockwise else np.cross(u, v) < 0", "area = u[:, 0] * v[:, 1] - u[:, 1] * v[:, 0]\n        face_visible = (area if self.clockwise else -area) > 0"),
                                  ("v = np.hstack(\n            (\n                np.full((self.nb_faces), 0),\n                np.full((self.nb_faces), 1),\n                np.full((self.nb_faces), 2),\n            )\n        )", "v = np.repeat(np.arange(3), self.nb_faces)")], "quiet"),
    ("s04-persp", ["S04"], R, [("        if self.perspective_correct:\n            raise BaseException(\"perspective_correct not supported yet for gradient back propagation\")\n\n        if not", "        if not")], "quiet"),
    ("s04-cyflag", ["S04", "C01"], X, [("\tscene_c.perspective_correct = scene.perspective_correct", "\tscene_c.perspective_correct = False")], "catch"),
    ("s04-cyflagb", ["S04"], X, [("scene_c.backface_culling = scene.backface_culling\n\tscene_c.clockwise = scene.clockwise\t", "scene_c.backface_culling = True\n\tscene_c.clockwise = scene.clockwise\t")], "catch"),
    ("c02-cyipc", ["C02"], X, [("scene_c.integer_pixel_centers = scene.integer_pixel_centers", "scene_c.integer_pixel_centers = True")], "catch"),
    ("d01-empty", ["D01"], R, [("self.texture_b = np.zeros(self.texture.shape)", "self.texture_b = np.empty(self.texture.shape)")], "catch"),
    ("d01-empty2", ["D01"], T, [("vertices_b = np.zeros((self.nb_vertices, 3))", "vertices_b = np.empty((self.nb_vertices, 3))")], "catch"),
    ("d01-imageempty", ["D01"], R, [("image = np.zeros((self.height, self.width, self.nb_colors))", "image = np.empty((self.height, self.width, self.nb_colors))")], "quiet"),
    ("g09-errmask", ["G09"], R, [("err_buffer_b = copy.copy(mask)", "err_buffer_b = np.ones_like(mask)")], "catch"),
    ("g09-two", ["G09"], R, [("image_b = 2 * diff_image", "image_b = diff_image")], "catch"),
    ("g09-imagecopy", ["G09"], R, [("                image.copy(),\n                z_buffer,\n                image_b.copy(),", "                image,\n                z_buffer,\n                image_b.copy(),")], "catch"),
    ("g09-errmaskbuf", ["G09"], R, [("            err_buffer = err_buffer * mask\n", "")], "catch"),
    ("g09-refactor", ["G09"], R, [("err = float(np.sum(err_buffer))\n            image_b = 2 * diff_image * mask[:, :, None]", "err = float(err_buffer.sum())\n            image_b = (diff_image + diff_image) * np.expand_dims(mask, 2)")], "quiet"),
    ("e01-image", ["E01"], R, [("renderSceneB(self.scene_2d, self.sigma, image.copy(), z_buffer, image_b.copy())", "renderSceneB(self.scene_2d, self.sigma, image, z_buffer, image_b.copy())")], "catch"),
    ("e01-err", ["E01"], R, [("                err_buffer.copy(),\n                err_buffer_b.copy(),", "                err_buffer,\n                err_buffer_b.copy(),")], "catch"),
    ("e01-colors", ["E01", "H01"], R, [("return self.mesh.vertices_colors * vertices_luminosity[:, None]", "colors = self.mesh.vertices_colors\n        colors *= vertices_luminosity[:, None]\n        return colors")], "catch"),
    ("e01-proj", ["E01"], R, [("p_camera_b[:, 2] += depths_b", "p_camera_b[:, 2] += depths_b\n            depths_b.fill(0)")], "catch"),
    ("e01-diff", ["E01"], R, [("diff_image = (image - obs) * mask[:, :, None]", "obs -= image\n            diff_image = -obs * mask[:, :, None]")], "catch"),
    ("e01-refactor", ["E01", "H01"], R, [("renderSceneB(self.scene_2d, self.sigma, image.copy(), z_buffer, image_b.copy())", "gradient = np.array(image_b)\n        renderSceneB(self.scene_2d, self.sigma, image.copy(), z_buffer, gradient)"),
                                  ("                image.copy(),\n                z_buffer,\n                image_b.copy(),", "                np.copy(image),\n                z_buffer,\n                np.array(image_b),")], "quiet"),
    ("h01-clear", ["H01"], R, [("        self.texture_b.fill(0)\n", "")], "catch"),
    ("h01-clear2", ["H01"], R, [("        if clear_gradients:\n            self.clear_gradients()\n\n        if antialiase_error:", "        if antialiase_error:\n            if clear_gradients:\n                self.clear_gradients()\n")], "catch"),
    ("h01-store", ["H01"], R, [("        if self.store_backward_current is not None:\n            self.store_backward_current[\"compute_vertices_luminosity\"] = directional", "        if self.store_backward_current is not None:\n            self.store_backward_current.setdefault(\"compute_vertices_luminosity\", directional)"),
                               ("        assert self.mesh is not None, \"You need to provide a mesh first.\"\n        self.store_backward_current = {}", "        assert self.mesh is not None, \"You need to provide a mesh first.\"\n        if self.store_backward_current is None:\n            self.store_backward_current = {}")], "catch"),
    ("h01-sigma", ["H01"], R, [("        sigma, image, z_buffer = self.store_backward\n", "        sigma, image, z_buffer = self.store_backward\n        sigma = self.sigma\n"),
                              ("        self.store_backward = (sigma, image, z_buffer)", "        self.sigma = getattr(self, \"sigma\", sigma)\n        self.store_backward = (sigma, image, z_buffer)")], "catch"),
    ("g08-half", ["G08"], L, [("energy = 0.5 * diff.dot", "energy = diff.dot")], "catch"),
    ("g08-qrot", ["G08"], TO, [("v_b += np.cross(uv_b, q[:3])", "v_b -= np.cross(uv_b, q[:3])")], "catch"),
    ("g08-qrot2", ["G08"], TO, [("uv_b = 2 * vr_b * q[3] + np.cross(uuv_b, q[:3])", "uv_b = 2 * vr_b * q[3]")], "catch"),
    ("g08-norm", ["G08"], TO, [("n_b = -np.sum(xn_b * x, axis=axis) * (inv_n**2)", "n_b = -np.sum(xn_b * x, axis=axis) * inv_n")], "catch"),
    ("g08-cross", ["G08"], TO, [("u_b = np.cross(v, c_b)", "u_b = np.cross(c_b, v)")], "catch"),
    ("g08-clip", ["G08"], F, [("        depth_b[self.depth_not_clipped > self.max_depth] = 0\n", "")], "catch"),
    ("g08-clip2", ["G08"], F, [("depth_b[self.depth_not_clipped > self.max_depth] = 0", "depth_b[self.depth_not_clipped > self.mesh_image[:, :, None]] = 0")], "catch"),
    ("g08-trans", ["G08"], F, [("self.transform_translation_b = np.sum(vertices_transformed_b, axis=0)", "self.transform_translation_b = np.mean(vertices_transformed_b, axis=0)")], "catch"),
    ("g08-q", ["G08"], F, [("self.transform_quaternion_b = normalize_backward(\n            self.transform_quaternion, q_normalized_b\n        )", "self.transform_quaternion_b = q_normalized_b")], "catch"),
    ("g08-coef", ["G08"], F, [("image_b = coef_data * 2 * (image", "image_b = 2 * (image")], "catch"),
    ("g08-frame", ["G08"], F, [("unormalized_quaternion, q_normalized_b\n", "self.transform_quaternion[0], q_normalized_b\n")], "catch"),
    ("g08-acc", ["G08"], F, [("self.light_ambient_b += self.scene.light_ambient_b", "self.light_ambient_b = self.scene.light_ambient_b")], "catch"),
    ("g08-rigid", ["G08"], F, [("grad = grad_data + grad_rigidity", "grad = grad_data + 2 * grad_rigidity")], "catch"),
    ("g08-order", ["G08"], F, [("            self.render_backward(image_b)\n        energy_data = float", "        self.render_backward(image_b)\n        energy_data = float")], "catch"),
    ("g08-refactor", ["G08", "L01"], F, [("diff_image = np.sum((depth - self.mesh_image[:, :, None]) ** 2, axis=2)", "residual = depth - self.mesh_image[:, :, None]\n        diff_image = (residual * residual).sum(axis=2)"),
                                          ("depth_b = 2 * (depth - self.mesh_image[:, :, None])", "depth_b = residual + residual"),
                                          ("depth_b[self.depth_not_clipped < 0] = 0\n        depth_b[self.depth_not_clipped > self.max_depth] = 0", "outside = (self.depth_not_clipped < 0) | (self.depth_not_clipped > self.max_depth)\n        depth_b[outside] = 0")], "quiet"),
    ("l01-speed", ["L01"], F, [("        self.speed_vertices = np.zeros(self.vertices_init.shape)\n", "        if not hasattr(self, \"speed_vertices\"):\n            self.speed_vertices = np.zeros(self.vertices_init.shape)\n")], "catch"),
    ("l01-alias", ["L01"], F, [("self.vertices = copy.copy(self.vertices_init)", "self.vertices = self.vertices_init"), ("self.vertices = self.vertices - np.mean(self.vertices, axis=0)[None, :]", "self.vertices -= np.mean(self.vertices, axis=0)[None, :]")], "catch"),
    ("l01-iter", ["L01"], F, [("        self.light_ambient = self.default_light_ambient\n", "")], "catch"),
    ("l01-torch", ["L01"], "deodr/pytorch/mesh_fitter_pytorch.py", [("self.speed_quaternion = np.zeros(4)\n", "")], "catch"),
    ("l01-torch2", ["L01"], "deodr/pytorch/mesh_fitter_pytorch.py", [("self.vertices = self.vertices + torch.tensor(self.speed_vertices)", "self.vertices += torch.tensor(self.speed_vertices)")], "catch"),
    ("l01-refactor", ["L01"], F, [("        self.speed_translation = np.zeros(3)\n        self.speed_quaternion = np.zeros(4)\n", "        self._stop()\n\n    def _stop(self):\n        self.speed_quaternion, self.speed_translation = np.zeros((4,)), 0 * self.transform_translation\n")], "quiet"),
    ("m01-vn", ["M01"], T, [("        self._face_normals = None\n        self._vertex_normals = None\n        self._vertices_b", "        self._face_normals = None\n        self._vertices_b")], "catch"),
    ("m01-fn", ["M01"], T, [("        self._face_normals = None\n        self._vertex_normals = None\n        self._vertices_b", "        self._vertex_normals = None\n        self._vertices_b")], "catch"),
    ("m01-vb", ["M01"], T, [("        self._vertex_normals = None\n        self._vertices_b = np.zeros((self.nb_vertices, 3))\n", "        self._vertex_normals = None\n")], "quiet"),
    ("m01-inplace", ["M01"], T, [("        self._vertices = vertices\n", "        if self._vertices_b is vertices:\n            return\n        self._vertices = np.zeros_like(vertices)\n")], "catch"),
    ("m01-vol", ["M01"], T, [("        return (\n            (-1 if self.clockwise else 1)", "        if getattr(self, '_volume', None) is not None:\n            return self._volume\n        self._volume = (\n            (-1 if self.clockwise else 1)"), ("            / 6\n        )", "            / 6\n        )\n        return self._volume")], "catch"),
    ("m01-refactor", ["M01"], T, [("        self._face_normals = None\n        self._vertex_normals = None\n        self._vertices_b", "        self._invalidate()\n        self._vertices_b"), ("    def set_vertices(self", "    def _invalidate(self) -> None:\n        self._face_normals, self._vertex_normals = None, None\n\n    def set_vertices(self")], "quiet"),
    ("m02-swap", ["M02"], T, [("            mesh.adjacencies.faces_edges[:, 1] + mesh.nb_vertices,\n            mesh.adjacencies.faces_edges[:, 0] + mesh.nb_vertices,\n", "            mesh.adjacencies.faces_edges[:, 0] + mesh.nb_vertices,\n            mesh.adjacencies.faces_edges[:, 1] + mesh.nb_vertices,\n")], "catch"),
    ("m02-mid", ["M02"], T, [("            mesh.faces[:, 2],\n            mesh.adjacencies.faces_edges[:, 2]", "            mesh.faces[:, 2],\n            mesh.adjacencies.faces_edges[:, 0]")], "catch"),
    ("m02-colors", ["M02"], T, [("np.mean(mesh.vertices_colors[mesh.adjacencies.edges, :], axis=1)", "np.sum(mesh.vertices_colors[mesh.adjacencies.edges, :], axis=1)")], "catch"),
    ("m02-order", ["M02"], T, [("new_colors = np.vstack((mesh.vertices_colors, edge_mid_points_colors))", "new_colors = np.vstack((edge_mid_points_colors, mesh.vertices_colors))")], "catch"),
    ("m02-uv", ["M02"], T, [("(1 - mesh.visual.uv[:, 1]) * texture.shape[0],", "(1 - mesh.visual.uv[:, 1]) * texture.shape[1],")], "catch"),
    ("m02-uv2", ["M02"], T, [("1 - ((self.uv[:, 1] + 0.5) / self.texture.shape[0])", "1 - ((self.uv[:, 1] - 0.5) / self.texture.shape[0])")], "catch"),
    ("m02-ret", ["M02"], T, [("colors2 = colors[return_index, :]", "colors2 = colors[:len(return_index), :]")], "catch"),
    ("m02-edges", ["C03"], T, [("edges = np.vstack((self.faces[:, [0, 1]], self.faces[:, [1, 2]], self.faces[:, [2, 0]]))", "edges = np.vstack((self.faces[:, [0, 1]], self.faces[:, [2, 0]], self.faces[:, [1, 2]]))")], "catch"),
    ("m02-cw", ["M02"], T, [("        clockwise=mesh.clockwise,\n", "")], "catch"),
    ("m02-refactor", ["M02"], T, [("    new_faces = np.vstack((faces1, faces2, faces3, faces4))", "    new_faces = np.concatenate([faces4, faces2, faces1, faces3], axis=0)"), ("edge_mid_points_colors = np.mean(mesh.vertices_colors[mesh.adjacencies.edges, :], axis=1)", "ends = mesh.vertices_colors[mesh.adjacencies.edges, :]\n        edge_mid_points_colors = (ends[:, 1] + ends[:, 0]) / 2")], "quiet"),
    ("a01-bound", ["A01"], T, [("is_boundary_edge = np.array(np.sum(self.edges_faces_ones, axis=1) == 1)", "is_boundary_edge = np.array(np.sum(self.edges_faces_ones, axis=1) <= 1)")], "quiet"),
    ("a01-bound2", ["A01"], T, [("is_boundary_edge = np.array(np.sum(self.edges_faces_ones, axis=1) == 1)", "is_boundary_edge = np.array(np.sum(self.edges_faces_ones, axis=1) != 2)")], "catch"),
    ("a01-mani", ["A01"], T, [("np.all(unique_counts <= 2) and np.all(nb_inc <= 1) and np.all(nb_dec <= 1)", "np.all(unique_counts <= 2) and np.all(nb_inc <= 1)")], "catch"),
    ("a01-mani2", ["A01"], T, [("np.all(unique_counts <= 2) and np.all(nb_inc <= 1) and np.all(nb_dec <= 1)", "np.all(nb_inc <= 1) and np.all(nb_dec < 2)")], "quiet"),
    ("a01-closed", ["A01"], T, [("self.is_manifold and np.all(unique_counts == 2)", "np.all(unique_counts == 2)")], "catch"),
    ("a01-anyb", ["A01"], T, [("self.hasBoundaries = np.any(", "self.hasBoundaries = np.all(")], "catch"),
    ("a01-ends", ["A01"], T, [("self.edges[id_edge] = edges", "self.edges[np.sort(id_edge)] = edges")], "catch"),
    ("a01-ids", ["A01", "C03"], T, [("                np.arange(self.nb_faces),\n                np.arange(self.nb_faces),\n                np.arange(self.nb_faces),\n            )\n        )\n        self.clockwise", "                np.repeat(np.arange(self.nb_faces), 3),\n            )\n        )\n        self.clockwise")], "catch"),
    ("a01-ev", ["A01"], T, [("edges.flatten()),\n            ),\n            shape=(self.nb_edges, self.nb_vertices)", "edges[:, [0, 0]].flatten()),\n            ),\n            shape=(self.nb_edges, self.nb_vertices)")], "catch"),
    ("a01-lap", ["A01"], T, [("sparse.diags([self.degree_v_e], [0]", "sparse.diags([self.degree_v_f], [0]")], "catch"),
    ("a01-adj", ["A01"], T, [("((self._vertices_faces * self._vertices_faces.T) > 0)", "((self._vertices_faces * self._vertices_faces.T) > 1)")], "catch"),
    ("a01-vol", ["A01"], T, [("(-1 if self.clockwise else 1)\n            * np.sum(", "np.sum(")], "catch"),
    ("a01-volclosed", ["A01"], T, [("if not self.adjacencies.is_closed:", "if not self.adjacencies.is_manifold:")], "catch"),
    ("a01-norm", ["A01"], T, [("n = -np.cross(u, v) if self.clockwise else np.cross(u, v)", "n = np.cross(u, v)")], "catch"),
    ("a01-vnorm", ["A01"], T, [("n = self._vertices_faces * face_normals", "n = self._vertices_faces * face_normals / self.degree_v_f[:, None] ** 2")], "quiet"),
    ("a01-tnorm", ["A01"], PM, [("n = self._vertices_faces_torch.mm(face_normals)", "n = self._vertices_faces_torch.mm(face_normals) + face_normals.mean(dim=0)")], "catch"),
    ("a01-refactor", ["A01", "C03", "M02"], T, [("self.nb_edges = np.max(id_edge) + 1", "self.nb_edges = len(unique_counts)"),
                                  ("self.is_closed = self.is_manifold and np.all(unique_counts == 2)", "self.is_closed = bool(self.is_manifold) and not np.any(unique_counts != 2)"),
                                  ("np.any(np.sum(self.edges_faces_ones, axis=1) == 1)", "bool((unique_counts == 1).any())"),
                                  ("        self.degree_v_f = self._vertices_faces.dot(np.ones((self.nb_faces)))", "        self.degree_v_f = np.bincount(self.faces.flatten(), minlength=self.nb_vertices)"),
                                  ("        i = self.faces.flatten()\n        j = np.tile(np.arange(self.nb_faces)[:, None], [1, 3]).flatten()", "        i = self.faces.ravel()\n        j = np.repeat(np.arange(self.nb_faces), 3)"),
                                  ("self.edges[is_boundary_edge, :]", "self.edges[np.nonzero(is_boundary_edge)[0]]")], "quiet"),
    ("m02-affine", ["M02"], T, [("(5 / 8) * mesh.vertices", "(3 / 8) * mesh.vertices")], "catch"),
    ("m02-affine2", ["M02"], T, [("is_boundary_edge, 0.5 * np.sum", "is_boundary_edge, 0.25 * np.sum")], "catch"),
    ("m02-affine3", ["M02"], T, [("    edge_mid_points = np.where(\n        is_boundary_edge, 0.5 * np.sum(mesh.vertices[mesh.adjacencies.edges, :], axis=1), edge_mid_points\n    )\n", "    edge_mid_points[is_boundary_edge[:, 0]] = np.mean(mesh.vertices[mesh.adjacencies.edges[is_boundary_edge[:, 0]]], axis=1)\n")], "quiet"),
    ("k01-centre", ["K01"], R, [("return -self.extrinsic[:3, :3].T.dot(self.extrinsic[:, 3])", "return -self.extrinsic[:3, :3].dot(self.extrinsic[:, 3])")], "catch"),
    ("k01-inv", ["K01"], R, [("np.column_stack((self.extrinsic[:, :3].T, self.get_center()))", "np.column_stack((self.extrinsic[:, :3], self.get_center()))")], "catch"),
    ("k01-fov", ["K01"], R, [("focal = 0.5 * width / np.tan", "focal = 0.5 * max(width, height) / np.tan")], "catch"),
    ("k01-pp", ["K01"], R, [("cx = width / 2\n        cy = height / 2", "cx = (width - 1) / 2\n        cy = (height - 1) / 2")], "catch"),
    ("k01-tang", ["K01"], R, [("2 * p1 * x * y + p2 * (r2 + 2 * x2)", "2 * p2 * x * y + p1 * (r2 + 2 * x2)"), ("p1 * (r2 + 2 * y2) + 2 * p2 * x * y", "p2 * (r2 + 2 * y2) + 2 * p1 * x * y")], "catch"),
    ("k01-k3", ["K01"], R, [("                k1,\n                k2,\n                p1,\n                p2,\n                k3,\n            ) = self.distortion\n            x = projected[:, 0]\n            y = projected[:, 1]\n            x2", "                k1,\n                k2,\n                k3,\n                p1,\n                p2,\n            ) = self.distortion\n            x = projected[:, 0]\n            y = projected[:, 1]\n            x2")], "catch"),
    ("k01-dist", ["K01"], R, [("            distortion=distortion,\n            width=width,", "            distortion=None,\n            width=width,")], "catch"),
    ("k01-box", ["K01"], R, [("camera_distance = max(camera_distance_x, camera_distance_y)", "camera_distance = camera_distance_x")], "catch"),
    ("k01-ratio", ["K01"], R, [("* (width / height) / np.tan", "* (height / width) / np.tan")], "catch"),
    ("k01-skew", ["K01"], R, [("projected.dot(self.intrinsic[:2, :2].T) + self.intrinsic[:2, 2]", "projected * np.diag(self.intrinsic)[:2] + self.intrinsic[:2, 2]")], "catch"),
    ("k01-refactor", ["K01", "G06"], R, [("return points_3d.dot(self.extrinsic[:3, :3].T) + self.extrinsic[:3, 3]", "rotation, translation = self.extrinsic[:, :3], self.extrinsic[:, 3]\n        return points_3d @ rotation.T + translation"),
                                  ("focal = 0.5 * width / np.tan(0.5 * fov * np.pi / 180)", "focal = width / (2 * np.tan(np.radians(fov) / 2))"),
                                  ("    box_center = 0.5 * (box_max + box_min)\n    box_size = box_max - box_min", "    box_size = box_max - box_min\n    box_center = box_min + box_size / 2"),
                                  ("radial_distortion = 1 + k1 * r2 + k2 * r4 + k3 * r6", "radial_distortion = 1 + r2 * (k1 + r2 * (k2 + r2 * k3))")], "quiet"),
    ("t01-detach", ["T01"], PR, [("TorchDifferentiableRender2D(self.scene_2d.ij, self.scene_2d.colors, self)", "TorchDifferentiableRender2D(self.scene_2d.ij.detach(), self.scene_2d.colors, self)")], "catch"),
    ("t01-detach2", ["T01"], PM, [("l2 = (n**2).sum(dim=1)", "l2 = (n.detach() ** 2).sum(dim=1)")], "catch"),
    ("t01-detach3", ["T01"], PR, [("* vertices_luminosity[:, None]", "* vertices_luminosity.detach()[:, None]")], "catch"),
    ("t01-relu", ["T01"], PR, [("torch.relu(-torch.sum", "torch.abs(-torch.sum")], "catch"),
    ("t01-intr", ["T01"], PR, [("self.intrinsic[:2, :].T", "self.intrinsic[:2, :]")], "catch"),
    ("t01-image", ["T01"], PR, [("ctx.image.copy(), ctx.z", "ctx.image, ctx.z")], "catch"),
    ("t01-image2", ["T01"], PR, [("ctx.image = image.copy()", "ctx.image = image"), ("ctx.image.copy(), ctx.z", "ctx.image, ctx.z")], "catch"),
    ("t01-image3", ["T01"], PR, [("ctx.image = image.copy()", "ctx.image = image")], "quiet"),
    ("t01-grad", ["T01"], PR, [("np.array(grad_outputs[0].numpy(), dtype=np.float64, order=\"C\")", "grad_outputs[0].contiguous().numpy()")], "catch"),
    ("t01-scene", ["T01"], PR, [("ctx.scene_2d = copy.copy(scene.scene_2d)", "ctx.scene_2d = scene.scene_2d")], "catch"),
    ("t01-sigma", ["T01"], PR, [("scene_2d, ctx.sigma,", "scene_2d, 1,")], "catch"),
    ("t01-zero", ["T01"], PR, [("scene_2d.colors_b = np.zeros(scene_2d.colors.shape)", "scene_2d.colors_b = np.zeros(scene_2d.colors.shape) if getattr(scene_2d, 'colors_b', None) is None else scene_2d.colors_b")], "catch"),
    ("t01-mean", ["T01"], PM, [("l2 = (n**2).sum(dim=1)", "l2 = (n**2).mean(dim=1)")], "catch"),
    ("t01-order", ["T01"], PR, [("            torch.as_tensor(scene_2d.ij_b),\n            torch.as_tensor(scene_2d.colors_b),", "            torch.as_tensor(scene_2d.ij_b),\n            None,")], "catch"),
    ("t01-rigid", ["T01"], PL, [("energy = 0.5 * diff.dot(grad_vertices.flatten())", "energy = 0.5 * diff.dot(grad_vertices.detach().flatten())")], "catch"),
    ("t01-rigid2", ["T01"], PL, [("self.numpy_imp.cregu * (self.cT_torch", "(self.cT_torch")], "catch"),
    ("t01-refactor", ["T01"], PR, [("        ctx.save_for_backward(ij, colors)\n", ""), ("        vertices_luminosity = (\n            torch.relu(-torch.sum(self.mesh.vertex_normals * self.light_directional, dim=1))\n            + self.light_ambient_pytorch\n        )", "        cosine = (self.mesh.vertex_normals * self.light_directional).sum(dim=1)\n        vertices_luminosity = torch.clamp(-cosine, min=0) + self.light_ambient_pytorch"),
                                  ("        ctx.z_buffer = z_buffer\n        return torch.as_tensor(image)", "        result = torch.from_numpy(image)\n        ctx.z_buffer = z_buffer\n        return result")], "quiet"),
    ("t01-refactor2", ["T01"], PM, [("        l2 = (n**2).sum(dim=1)\n        norm = l2.sqrt()\n        return n / norm[:, None]", "        return n / torch.sqrt(torch.sum(n * n, dim=1, keepdim=True))")], "quiet"),
    ("s01-xmax", ["S01"], R0, [("	if (x_max > width - 1)\n	{\n		x_max = width - 1;", "	if (x_max > width)\n	{\n		x_max = width;")], "catch"),
    ("s01-xmin", ["S01"], R0, [("	if (x_min < 0)\n	{\n		x_min = 0;\n	}\n	if (x_max", "	if (x_max")], "catch"),
    ("s01-xend", ["S01"], R0, [("	x_begin = 0;\n	x_end = width - 1;", "	x_begin = 0;\n	x_end = width;")], "catch"),
    ("s01-xbegin", ["S01"], R0, [("	if (temp_x > x_begin)\n		x_begin = temp_x;", "	x_begin = temp_x;")], "catch"),
    ("s01-temp", ["S01"], R0, [("	if (temp_x < x_end)\n	{\n		x_end = temp_x;\n	}\n}", "	x_end = 1 + temp_x;\n}")], "catch"),
    ("s01-floordiv", ["S01"], R0, [("		x = (short int)floor(a / b);\n		if (x < x_min)\n		{\n			x = x_min;\n		}\n", "		x = (short int)floor(a / b);\n")], "quiet"),
    ("s01-yend", ["S01"], R0, [("	if (y_end > height - 1)\n	{\n		y_end = height - 1;", "	if (y_end > height)\n	{\n		y_end = height - 1;")], "catch"),
    ("s01-ybegin", ["S01"], R0, [("	if (y_begin < 0)\n	{\n		y_begin = 0;\n	}\n", "")], "catch"),
    ("s01-tex", ["S01"], R0, [("		next[k] = I_size[k] > 1 ? 1 : 0;", "		next[k] = 1;")], "catch"),
    ("s01-tex2", ["S01"], R0, [("else if (p[k] >= I_size[k] - 1)", "else if (p[k] > I_size[k] - 1)")], "catch"),
    ("s01-tex3", ["S01"], R0, [("		if (!(p[k] >= 0))\n		{\n			fp[k] = 0;\n			e[k] = 0;\n		}\n		else if", "		if")], "catch"),
    ("s01-tex4", ["S01"], R0, [("int indx11 = sizeA * (fp[0] + next[0] + I_size[0] * (fp[1] + next[1]));", "int indx11 = sizeA * (fp[0] + next[0] + I_size[1] * (fp[1] + next[1]));")], "catch"),
    ("s01-new", ["S01"], R0, [("xy1_to_A = new double[3 * sizeA];", "xy1_to_A = new double[2 * sizeA];")], "catch"),
    ("s01-new2", ["S01"], R0, [("A0y = new double[sizeA];", "A0y = new double[3];")], "catch"),
    ("s01-le", ["S01"], R0, [("for (short int k = 0; k < sizeA; k++)", "for (short int k = 0; k <= sizeA; k++)")], "catch"),
    ("s01-size", ["S01"], R0, [("Texture_size[0] = scene.texture_width", "Texture_size[0] = scene.texture_height"), ("Texture_size[1] = scene.texture_height", "Texture_size[1] = scene.texture_width")], "quiet"),
    ("s01-flag", ["S01"], R0, [("if ((scene.textured[k] && scene.shaded[k]))", "if ((scene.textured[k]))")], "catch"),
    ("s01-vec3", ["S01"], R0, [("elementwise_inverse_vec2(Zvertex, inv_Zvertex)", "elementwise_inverse_vec3(Zvertex, inv_Zvertex)")], "catch"),
    ("s01-faces", ["S01"], R0, [("scene.edgeflags[n + k * 3]", "scene.edgeflags[n + k * 4]")], "catch"),
    ("s01-refactor", ["S01"], R0, [("	if (x_min < 0)\n	{\n		x_min = 0;\n	}\n	if (x_max > width - 1)\n	{\n		x_max = width - 1;\n	}\n\n	x_begin = x_min;\n	x_end = x_max;", "	x_begin = x_min = x_min > 0 ? x_min : 0;\n	x_end = x_max = (x_max < width ? x_max : width - 1);")], "quiet"),
    ("s01-refactor2", ["S01"], R0, [("		if (!(p[k] >= 0))\n		{\n			fp[k] = 0;\n			e[k] = 0;\n		}\n		else if (p[k] >= I_size[k] - 1)\n		{\n			fp[k] = I_size[k] - 1 - next[k];\n			e[k] = 1;\n		}\n		else\n		{\n			fp[k] = (int)floor(p[k]);\n			e[k] = p[k] - fp[k];\n		}", "		double q = p[k] >= 0 ? p[k] : 0;\n		if (q > I_size[k] - 1)\n			q = I_size[k] - 1;\n		int f = (int)floor(q);\n		fp[k] = f >= I_size[k] - next[k] ? I_size[k] - 1 - next[k] : f;\n		e[k] = q - fp[k];")], "quiet"),
]
