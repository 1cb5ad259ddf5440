"""Behaviour-preserving rewrites of the Python sources: the checks must stay quiet. Run: KIND=py python3 tools/refactor.py [name…]
Entries: (name, file, [(old, new)…])"""
R = "deodr/differentiable_renderer.py"; M = "deodr/triangulated_mesh.py"; T = "deodr/tools.py"; L = "deodr/laplacian_rigid_energy.py"
F = "deodr/mesh_fitter.py"; PR = "deodr/pytorch/differentiable_renderer_pytorch.py"; PM = "deodr/pytorch/triangulated_mesh_pytorch.py"
PL = "deodr/pytorch/laplacian_rigid_energy_pytorch.py"; X = "deodr/differentiable_renderer_cython.pyx"
ZERO5 = """        self.uv_b.fill(0)
        self.ij_b.fill(0)
        self.shade_b.fill(0)
        self.colors_b.fill(0)
        self.texture_b.fill(0)
"""
P = [
    ("clear-loop", R, [(ZERO5, """        for buffer in (self.uv_b, self.ij_b, self.shade_b, self.colors_b, self.texture_b):
            buffer.fill(0)
""")]),
    ("clear-slices", R, [(ZERO5, """        self.uv_b[...] = 0
        self.ij_b[:] = 0
        self.shade_b[:] = 0.0
        self.colors_b *= 0
        self.texture_b[:, :] = 0
""")]),
    ("clear-getattr", R, [(ZERO5, """        for name in ["uv", "ij", "shade", "colors", "texture"]:
            getattr(self, name + "_b").fill(0)
""")]),
    ("clear-realloc", R, [(ZERO5, """        self.uv_b = np.zeros_like(self.uv_b)
        self.ij_b = np.zeros_like(self.ij_b)
        self.shade_b = np.zeros_like(self.shade_b)
        self.colors_b = np.zeros_like(self.colors_b)
        self.texture_b = np.zeros_like(self.texture_b)
""")]),
    ("lum-einsum", R, [("-np.sum(self.mesh.vertex_normals * self.light_directional, axis=1)", "-np.einsum(\"ij,j->i\", self.mesh.vertex_normals, self.light_directional)")]),
    ("lum-dot", R, [("-np.sum(self.mesh.vertex_normals * self.light_directional, axis=1)", "-(self.mesh.vertex_normals @ self.light_directional)")]),
    ("lum-clip", R, [("np.maximum(0, -np.sum(self.mesh.vertex_normals * self.light_directional, axis=1))", "np.clip(-np.dot(self.mesh.vertex_normals, self.light_directional), 0, None)")]),
    ("lum-helper", R, [("""    def compute_vertices_luminosity(self) -> np.ndarray:
        assert self.mesh is not None
        if self.light_directional is not None:
            directional = np.maximum(0, -np.sum(self.mesh.vertex_normals * self.light_directional, axis=1))
        else:
            directional = np.zeros((self.mesh.nb_vertices))
""", """    def _directional_luminosity(self) -> np.ndarray:
        if self.light_directional is None:
            return np.zeros(self.mesh.nb_vertices)
        cosine = -np.sum(self.mesh.vertex_normals * self.light_directional, axis=1)
        return np.where(cosine > 0, cosine, 0.0)

    def compute_vertices_luminosity(self) -> np.ndarray:
        assert self.mesh is not None
        directional = self._directional_luminosity()
""")]),
    ("lumb-mask", R, [("""            self.light_directional_b = -np.sum(
                ((vertices_luminosity_b * (directional > 0))[:, None]) * self.mesh.vertex_normals,
                axis=0,
            )
            self.vertex_normals_b = -((vertices_luminosity_b * (directional > 0))[:, None]) * self.light_directional
""", """            lit = directional > 0
            directional_b = np.where(lit, vertices_luminosity_b, 0)
            self.light_directional_b = -directional_b.dot(self.mesh.vertex_normals)
            self.vertex_normals_b = -np.outer(directional_b, self.light_directional)
""")]),
    ("lumb-early", R, [("""        if self.light_directional is not None:
            directional: np.ndarray = self.store_backward_current["compute_vertices_luminosity"]
            self.light_directional_b""", """        self.light_ambient_b = vertices_luminosity_b.sum()
        if self.light_directional is None:
            return
        if True:
            directional: np.ndarray = self.store_backward_current["compute_vertices_luminosity"]
            self.light_directional_b"""), ("        self.light_ambient_b = np.sum(vertices_luminosity_b)\n", "")]),
    ("illum-order", R, [("""        vertices_luminosity_b = np.sum(self.mesh.vertices_colors * colors_b, axis=1)
        self.mesh.vertices_colors_b = colors_b * vertices_luminosity[:, None]

        self.compute_vertices_luminosity_backward(vertices_luminosity_b)
""", """        self.mesh.vertices_colors_b = vertices_luminosity[:, np.newaxis] * colors_b
        self.compute_vertices_luminosity_backward(np.einsum("ij,ij->i", self.mesh.vertices_colors, colors_b))
""")]),
    ("proj-matmul", R, [("return points_3d.dot(self.extrinsic[:3, :3].T) + self.extrinsic[:3, 3]", "rotation, translation = self.extrinsic[:, :3], self.extrinsic[:, 3]\n        return points_3d @ rotation.T + translation"),
                        ("return projected.dot(self.intrinsic[:2, :2].T) + self.intrinsic[:2, 2]", "return np.matmul(projected, self.intrinsic[:2, :2].transpose()) + self.intrinsic[:2, 2][None, :]")]),
    ("proj-unpack", R, [("""            (
                k1,
                k2,
                p1,
                p2,
                k3,
            ) = self.distortion
            x = projected[:, 0]
            y = projected[:, 1]
            x2 = x**2
            y2 = y**2
            r2 = x2 + y2
            r4 = r2 * r2
            r6 = r2 * r4
            radial_distortion = 1 + k1 * r2 + k2 * r4 + k3 * r6
""", """            k1, k2, p1, p2, k3 = self.distortion
            x, y = projected.T
            x2, y2 = x * x, y * y
            r2 = x2 + y2
            radial_distortion = 1 + r2 * (k1 + r2 * (k2 + r2 * k3))
""")]),
    ("proj-tail", R, [("""        if return_depths:
            return projected_image_coordinates, depths
        else:
            return projected_image_coordinates

    def project_points_backward""", """        return (projected_image_coordinates, depths) if return_depths else projected_image_coordinates

    def project_points_backward""")]),
    ("projb-slices", R, [("""        p_camera_b = np.column_stack(
            (
                projected_b / depths[:, None],
                -np.sum(projected_b * p_camera[:, :2], axis=1) / (depths**2),
            )
        )
        if depths_b is not None:
            p_camera_b[:, 2] += depths_b
        return p_camera_b.dot(self.extrinsic[:3, :3])
""", """        p_camera_b = np.empty_like(p_camera)
        p_camera_b[:, :2] = projected_b / depths[:, np.newaxis]
        p_camera_b[:, 2] = -np.sum(projected_b * projected, axis=1) / depths
        if depths_b is not None:
            p_camera_b[:, 2] = p_camera_b[:, 2] + depths_b
        return p_camera_b @ self.extrinsic[:3, :3]
""")]),
    ("projb-hoist", R, [("""        if self.distortion is None:
            p_camera, depths, projected = store_backward["project_points"]
            projected_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2])

        else:
""", """        distorted_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2])
        if self.distortion is None:
            p_camera, depths, projected = store_backward["project_points"]
            projected_b = distorted_b
        else:
"""), ("            distorted_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2])\n            distorted_x_b", "            distorted_x_b")]),
    ("projb-dict", R, [("""            if store_backward is not None:
                store_backward["project_points"] = (p_camera, depths, projected)
        else:""", """            if store_backward is not None:
                store_backward.update(project_points=(p_camera, depths, projected))
        else:""")]),
    ("render-kwargs", R, [("""        scene_2d = Scene2D(
            faces=faces,
            faces_uv=faces_uv,
            ij=points_2d,
            depths=depths,
            textured=textured,
            uv=uv,
            shade=shade,
            colors=colors,
            shaded=shaded,
            edgeflags=edgeflags,
            height=height,
            width=width,
            nb_colors=nb_colors,
            texture=texture,
            background_image=self.background_image,
            background_color=self.background_color,
            clockwise=clockwise,
            backface_culling=backface_culling,
            strict_edge=strict_edge,
            perspective_correct=self.perspective_correct,
            integer_pixel_centers=self.integer_pixel_centers,
        )
""", """        geometry = dict(faces=faces, faces_uv=faces_uv, ij=points_2d, depths=depths)
        settings = dict(
            height=height,
            width=width,
            background_image=self.background_image,
            background_color=self.background_color,
            clockwise=clockwise,
            backface_culling=backface_culling,
            strict_edge=strict_edge,
            perspective_correct=self.perspective_correct,
            integer_pixel_centers=self.integer_pixel_centers,
        )
        scene_2d = Scene2D(
            **geometry,
            textured=textured,
            uv=uv,
            shade=shade,
            colors=colors,
            shaded=shaded,
            edgeflags=edgeflags,
            nb_colors=nb_colors,
            texture=texture,
            **settings,
        )
""")]),
    ("render-edgeflags-helper", R, [("""        # compute silhouette edges
        if self.sigma > 0:
            edgeflags = self.mesh.edge_on_silhouette(points_2d)
        else:
            edgeflags = np.zeros((self.mesh.nb_faces, 3), dtype=bool)
        # construct 2D scene
""", """        edgeflags = self._silhouette_edges(points_2d)
"""), ("""        # compute silhouette edges
        if self.sigma > 0:
            edgeflags = self.mesh.edge_on_silhouette(points_2d)
        else:
            edgeflags = np.zeros((self.mesh.nb_faces, 3), dtype=bool)

        scene_2d = Scene2D(
            ij=points_2d,""", """        edgeflags = self._silhouette_edges(points_2d)

        scene_2d = Scene2D(
            ij=points_2d,"""), ("""    def _render_2d(self)""", """    def _silhouette_edges(self, points_2d: np.ndarray) -> np.ndarray:
        \"\"\"Flags of the edges to antialias.\"\"\"
        if not self.sigma > 0:
            return np.zeros((self.mesh.nb_faces, 3), dtype=bool)
        return self.mesh.edge_on_silhouette(points_2d)

    def _render_2d(self)""")]),
    ("render-2d-zeros", R, [("""        image = np.empty((self.scene_2d.height, self.scene_2d.width, nb_color_channels))
        z_buffer = np.empty((self.scene_2d.height, self.scene_2d.width))
""", """        shape = (self.scene_2d.height, self.scene_2d.width)
        image = np.zeros(shape + (nb_color_channels,))
        z_buffer = np.full(shape, np.inf)
""")]),
    ("render-both-none", R, [("""        if (self.background_image is None) == (self.background_color is None):
            raise""", """        nb_backgrounds = sum(b is not None for b in (self.background_image, self.background_color))
        if nb_backgrounds != 1:
            raise""")]),
    ("render-split", R, [("""        if self.mesh.uv is not None:
            assert self.mesh.texture is not None
            uv = self.mesh.uv
            faces_uv = self.mesh.faces_uv
            textured = np.ones((self.mesh.nb_faces), dtype=bool)
            shade = self.compute_vertices_luminosity()
            shaded = np.ones((self.mesh.nb_faces), dtype=bool)  # could eventually be non zero if we were using texture
            texture = self.mesh.texture
            nb_colors = texture.shape[2]
            colors = np.zeros((self.mesh.nb_vertices, nb_colors))
        else:""", """        has_texture = self.mesh.uv is not None
        nb_faces, nb_vertices = self.mesh.nb_faces, self.mesh.nb_vertices
        if has_texture:
            assert self.mesh.texture is not None
            texture = self.mesh.texture
            nb_colors = texture.shape[-1]
            uv, faces_uv = self.mesh.uv, self.mesh.faces_uv
            textured = np.full(nb_faces, True)
            shaded = textured.copy()
            shade = self.compute_vertices_luminosity()
            colors = np.zeros((nb_vertices, nb_colors))
        else:""")]),
    ("renderb-order", R, [("""        self.mesh._vertices_b = camera.project_points_backward(
            self.scene_2d.ij_b, store_backward=self.store_backward_current
        )
        if self.light_directional is not None:
            self.mesh.compute_vertex_normals_backward(self.vertex_normals_b)
""", """        vertices_b = camera.project_points_backward(self.scene_2d.ij_b, self.store_backward_current)
        self.mesh._vertices_b = vertices_b
        if self.light_directional is not None:
            self.mesh.compute_vertex_normals_backward(self.vertex_normals_b)
""")]),
    ("depthb-slice", R, [("        depths_b = np.squeeze(self.scene_2d.colors_b * depth_scale, axis=1)\n", "        depths_b = depth_scale * self.scene_2d.colors_b[:, 0]\n")]),
    ("depth-reshape", R, [("colors=depths[:, None] * depth_scale,", "colors=(depth_scale * depths).reshape(-1, 1),")]),
    ("deferred-enumerate", R, [("""        offset = 0
        ranges = {}
        for k, v in channels.items():
            size = v.shape[1]
            ranges[k] = (offset, offset + size)
            offset += size
""", """        sizes = [v.shape[1] for v in channels.values()]
        ends = np.cumsum(sizes)
        ranges = {k: (end - size, end) for k, size, end in zip(channels, sizes, ends)}
""")]),
    ("deferred-acc", R, [("""        offset = 0
        ranges = {}
        for k, v in channels.items():
            size = v.shape[1]
            ranges[k] = (offset, offset + size)
            offset += size
""", """        nb_colors = 0
        ranges = {}
        for name in channels:
            start = nb_colors
            nb_colors = start + channels[name].shape[1]
            ranges[name] = (start, nb_colors)
""")]),
    ("deferred-repeat", R, [("np.tile(np.arange(0, self.mesh.nb_faces)[:, None], (1, 3)).reshape(soup_nb_vertices, 1)", "np.repeat(np.arange(self.mesh.nb_faces), 3).reshape(soup_nb_vertices, 1)"),
                            ("np.tile(np.eye(3, 3)[None, :, :], (self.mesh.nb_faces, 1, 1)).reshape(\n                soup_nb_vertices, 3\n            )", "np.tile(np.eye(3), (self.mesh.nb_faces, 1))")]),
    ("deferred-soup", R, [("""        soup_ij = points_2d[self.mesh.faces].reshape(soup_nb_vertices, 2)
        soup_depths = depths[self.mesh.faces].reshape(soup_nb_vertices, 1)
""", """        corners = self.mesh.faces.flatten()
        soup_ij = points_2d[corners]
        soup_depths = depths[corners][:, None]
"""), ("self.mesh.vertex_normals[self.mesh.faces].reshape(soup_nb_vertices, 3)", "self.mesh.vertex_normals[corners, :]"), ("self.mesh.vertices[self.mesh.faces].reshape(soup_nb_vertices, 3)", "self.mesh.vertices[corners]")]),
    ("deferred-helper", R, [("""        soup_ij = points_2d[self.mesh.faces].reshape(soup_nb_vertices, 2)
        soup_depths = depths[self.mesh.faces].reshape(soup_nb_vertices, 1)
""", """        def soup(values: np.ndarray, size: int) -> np.ndarray:
            return values[self.mesh.faces].reshape((soup_nb_vertices, size))

        soup_ij = soup(points_2d, 2)
        soup_depths = soup(depths, 1)
"""), ("self.mesh.vertex_normals[self.mesh.faces].reshape(soup_nb_vertices, 3)", "soup(self.mesh.vertex_normals, 3)"),
       ("vertices_luminosity[self.mesh.faces].reshape(soup_nb_vertices, 1)", "soup(vertices_luminosity, 1)")]),
    ("deferred-slice", R, [("""        output: Dict[str, np.ndarray] = {k: buffers[:, :, ranges[k][0] : ranges[k][1]] for k in channels}

        return output""", """        output: Dict[str, np.ndarray] = {}
        for k, (begin, end) in ranges.items():
            output[k] = buffers[:, :, begin:end]
        return output"""), ("background_image[:, :, ranges[\"depth\"][0] : ranges[\"depth\"][1]] = depths.max() * depth_scale", "background_image[:, :, slice(*ranges[\"depth\"])] = np.max(depths) * depth_scale")]),
    ("compare-order", R, [("""            diff_image = (image - obs) * mask[:, :, None]
            err_buffer = (diff_image) ** 2
            err = float(np.sum(err_buffer))
            image_b = 2 * diff_image * mask[:, :, None]
            self.render_backward(image_b, make_copies=make_copies)
""", """            weights = np.expand_dims(mask, 2)
            diff_image = weights * (image - obs)
            image_b = 2.0 * weights * diff_image
            self.render_backward(image_b, make_copies)
            err_buffer = np.square(diff_image)
            err = float(err_buffer.sum())
""")]),
    ("compare-mask-where", R, [("            mask = np.ones((obs.shape[0], obs.shape[1]))\n", "            mask = np.ones(obs.shape[:2])\n")]),
    ("compare-mask-like", R, [("            mask = np.ones((obs.shape[0], obs.shape[1]))\n", "            mask = np.ones_like(obs[:, :, 0], dtype=np.float64)\n")]),
    ("compare-early", R, [("""        if antialiase_error:
            image, z_buffer, err_buffer = self.render_error(obs, sigma)
        else:
            image, z_buffer = self.render(sigma)

        if clear_gradients:
            self.clear_gradients()

        if antialiase_error:
            err_buffer = err_buffer * mask
            err = float(np.sum(err_buffer))
            err_buffer_b = copy.copy(mask)
            self.render_error_backward(err_buffer_b, make_copies=make_copies)
        else:
            diff""", """        if clear_gradients:
            self.clear_gradients()

        if antialiase_error:
            image, z_buffer, err_buffer = self.render_error(obs, sigma)
            err_buffer = mask * err_buffer
            err = float(err_buffer.sum())
            self.render_error_backward(mask.copy(), make_copies=make_copies)
        else:
            image, z_buffer = self.render(sigma)
            diff""")]),
    ("backward-copies", R, [("""        sigma, image, z_buffer = self.store_backward
        antialiase_error = False
        if make_copies:  # if we make copies we keep the antialized image unchanged image
            # along the occlusion boundaries
            renderSceneB(
                self,
                sigma,
                image.copy(),
                z_buffer,
                image_b.copy(),
                antialiase_error,
                None,
                None,
                None,
            )
        else:
            renderSceneB(
                self,
                sigma,
                image,
                z_buffer,
                image_b,
                antialiase_error,
                None,
                None,
                None,
            )
""", """        sigma, image, z_buffer = self.store_backward
        if make_copies:  # if we make copies we keep the antialized image unchanged image
            # along the occlusion boundaries
            image, image_b = np.array(image), np.array(image_b)
        renderSceneB(self, sigma, image, z_buffer, image_b=image_b, antialiase_error=False)
""")]),
    ("backward-check-helper", R, [("""        if self.perspective_correct:
            raise BaseException("perspective_correct not supported yet for gradient back propagation")
        if not self.backface_culling:
            raise BaseException(
                "use backface_culling=True if you use gradient backpropagation "
                "to get valid gradient through edge anti-aliasing."
            )
        sigma, image, z_buffer""", """        self._check_differentiable()
        sigma, image, z_buffer"""), ("""    def render_backward(self, image_b: np.ndarray, make_copies: bool = True) -> None:
""", """    def _check_differentiable(self) -> None:
        if self.perspective_correct:
            raise BaseException("perspective_correct not supported yet for gradient back propagation")
        if not self.backface_culling:
            raise BaseException(
                "use backface_culling=True if you use gradient backpropagation "
                "to get valid gradient through edge anti-aliasing."
            )

    def render_backward(self, image_b: np.ndarray, make_copies: bool = True) -> None:
""")]),
    ("checks-tuple", R, [("""            assert scene.background_image.ndim == 3
            assert scene.background_image.shape[0] == height
            assert scene.background_image.shape[1] == width
            assert scene.background_image.shape[2] == nb_colors
            assert scene.background_color is None, "You need to provide either background_image or background_color"
        else:
            assert scene.background_color is not None, "You need to provide background_image or background_color"
            assert scene.background_color.shape[0] == nb_colors

        if scene.texture.size > 0:
            assert scene.texture.ndim == 3
            assert scene.texture.shape[0] > 0
            assert scene.texture.shape[1] > 0
            assert scene.texture.shape[2] == nb_colors

        assert z""", """            assert scene.background_image.shape == (height, width, nb_colors)
            assert scene.background_color is None, "You need to provide either background_image or background_color"
        else:
            assert scene.background_color is not None, "You need to provide background_image or background_color"
            assert scene.background_color.shape[0] == nb_colors

        if scene.texture.size > 0:
            assert scene.texture.ndim == 3 and min(scene.texture.shape[:2]) > 0
            assert scene.texture.shape[2] == nb_colors

        assert z""")]),
    ("checks-unpack", R, [("""        assert image is not None
        assert z_buffer is not None
        height = image.shape[0]
        width = image.shape[1]
        nb_colors = image.shape[2]

        nb_triangles = scene.faces.shape[0]
        assert nb_triangles == scene.faces_uv.shape[0]
        nb_vertices = scene.depths.shape[0]
""", """        assert image is not None and z_buffer is not None
        height, width, nb_colors = image.shape
        assert z_buffer.shape[:2] == (height, width)

        nb_triangles = scene.faces.shape[0]
        assert nb_triangles == scene.faces_uv.shape[0]
        nb_vertices = len(scene.depths)
"""), ("        assert np.all(scene.faces < nb_vertices)\n        assert np.all(scene.faces_uv < nb_vertices_uv)\n\n        assert scene.colors.ndim == 2\n        assert scene.uv.ndim == 2\n        assert scene.ij.ndim == 2\n        assert scene.shade.ndim == 1\n        assert scene.edgeflags.ndim == 2\n        assert scene.textured.ndim == 1\n        assert scene.shaded.ndim == 1\n        assert scene.uv.shape[1] == 2\n        assert scene.ij.shape[0] == nb_vertices\n        assert scene.ij.shape[1] == 2\n        assert scene.shade.shape[0] == nb_vertices\n        assert scene.colors.shape[0] == nb_vertices\n        assert scene.colors.shape[1] == nb_colors\n        assert scene.edgeflags.shape[0] == nb_triangles\n        assert scene.edgeflags.shape[1] == 3\n        assert scene.textured.shape[0] == nb_triangles\n        assert scene.shaded.shape[0] == nb_triangles\n\n        assert (scene.background_image is not None) != (scene.background_color is not None)\n\n        if scene.background_image is not None:\n            assert scene.background_image.ndim == 3\n            assert scene.background_image.shape[0] == height\n            assert scene.background_image.shape[1] == width\n            assert scene.background_image.shape[2] == nb_colors\n            assert scene.background_color is None, \"You need to provide either background_image or background_color\"\n        else:\n            assert scene.background_color is not None, \"You need to provide background_image or background_color\"\n            assert scene.background_color.shape[0] == nb_colors\n\n        if scene.texture.size > 0:\n            assert scene.texture.ndim == 3\n            assert scene.texture.shape[0] > 0\n            assert scene.texture.shape[1] > 0\n            assert scene.texture.shape[2] == nb_colors\n\n        assert z_buffer.shape[0] == height\n        assert z_buffer.shape[1] == width\n\n",
           """        assert (scene.faces < nb_vertices).all()
        assert (scene.faces_uv < nb_vertices_uv).all()
        for name, ndim in (("colors", 2), ("uv", 2), ("ij", 2), ("shade", 1), ("edgeflags", 2), ("textured", 1), ("shaded", 1)):
            assert getattr(scene, name).ndim == ndim
        assert scene.uv.shape[1] == 2
        assert scene.ij.shape == (nb_vertices, 2)
        assert scene.shade.shape == (nb_vertices,)
        assert scene.colors.shape == (nb_vertices, nb_colors)
        assert scene.edgeflags.shape == (nb_triangles, 3)
        assert scene.textured.shape[0] == scene.shaded.shape[0] == nb_triangles

        assert (scene.background_image is not None) != (scene.background_color is not None)

        if scene.background_image is not None:
            assert scene.background_image.ndim == 3
            assert scene.background_image.shape == image.shape
        else:
            assert scene.background_color.shape[0] == nb_colors

        if scene.texture.size > 0:
            assert scene.texture.ndim == 3
            assert scene.texture.shape[0] > 0
            assert scene.texture.shape[1] > 0
            assert scene.texture.shape[2] == nb_colors

""")]),
    ("persp-array", R, [("""        intrinsic = np.array([[focal_x, 0, cx], [0, focal_y, cy], [0, 0, 1]])
        extrinsic = np.column_stack((rot, trans))
        super()""", """        intrinsic = np.eye(3)
        intrinsic[0, 0], intrinsic[1, 1] = focal_x, focal_y
        intrinsic[:2, 2] = (cx, cy)
        extrinsic = np.hstack((rot, trans[:, None]))
        super()"""), ("focal = 0.5 * width / np.tan(0.5 * fov * np.pi / 180)\n", "half_angle = np.deg2rad(fov) / 2\n        focal = width / (2 * np.tan(half_angle))\n")]),
    ("default-cam", R, [("""    cam_vertices = vertices.dot(rot.T)
    box_min = cam_vertices.min(axis=0)
    box_max = cam_vertices.max(axis=0)
""", """    cam_vertices = vertices @ rot.T
    box_min, box_max = np.min(cam_vertices, axis=0), np.max(cam_vertices, axis=0)
"""), ("""    camera_distance_x = 0.5 * box_size[0] / np.tan(0.5 * fov * np.pi / 180) + 0.5 * box_size[2]
    camera_distance_y = 0.5 * box_size[1] * (width / height) / np.tan(0.5 * fov * np.pi / 180) + 0.5 * box_size[2]
    camera_distance = max(camera_distance_x, camera_distance_y)
    camera_center = rot.T.dot(box_center + np.array([0, 0, -camera_distance]))
""", """    tan_x = np.tan(0.5 * fov * np.pi / 180)
    tan_y = tan_x * height / width
    camera_distance = np.maximum(box_size[0] / tan_x, box_size[1] / tan_y) / 2 + box_size[2] / 2
    camera_center = rot.T.dot(box_center - np.array([0, 0, camera_distance]))
""")]),
    ("center-matmul", R, [("return -self.extrinsic[:3, :3].T.dot(self.extrinsic[:, 3])", "return -(self.extrinsic[:, 3] @ self.extrinsic[:, :3])")]),
    ("c2w-eye", R, [("""        return np.vstack(
            (
                np.column_stack((self.extrinsic[:, :3].T, self.get_center())),
                np.array((0, 0, 0, 1)),
            )
        )
""", """        mtx = np.eye(4)
        mtx[:3, :3] = self.extrinsic[:, :3].T
        mtx[:3, 3] = self.get_center()
        return mtx
""")]),
    # mesh
    ("adj-ravel", M, [("""        i = self.faces.flatten()
        j = np.tile(np.arange(self.nb_faces)[:, None], [1, 3]).flatten()
        v = np.ones((self.nb_faces, 3)).flatten()
""", """        i = self.faces.ravel()
        j = np.repeat(np.arange(self.nb_faces), 3)
        v = np.ones(3 * self.nb_faces)
""")]),
    ("adj-tile", M, [("""        id_faces = np.hstack(
            (
                np.arange(self.nb_faces),
                np.arange(self.nb_faces),
                np.arange(self.nb_faces),
            )
        )
""", """        id_faces = np.tile(np.arange(self.nb_faces), 3)
"""), ("""        v = np.hstack(
            (
                np.full((self.nb_faces), 0),
                np.full((self.nb_faces), 1),
                np.full((self.nb_faces), 2),
            )
        )
""", """        v = np.repeat(np.arange(3), self.nb_faces)
""")]),
    ("adj-edges-comp", M, [("np.vstack((self.faces[:, [0, 1]], self.faces[:, [1, 2]], self.faces[:, [2, 0]]))", "np.concatenate([self.faces[:, [k, (k + 1) % 3]] for k in range(3)], axis=0)")]),
    ("adj-faces-edges", M, [("self.faces_edges = sparse.coo_matrix((id_edge, (id_faces, v)), shape=(self.nb_faces, 3)).todense()", "self.faces_edges = id_edge.reshape(3, self.nb_faces).T")]),
    ("adj-logical-not", M, [("np.add.at(nb_dec, id_edge, ~edge_increase)", "np.add.at(nb_dec, id_edge, np.logical_not(edge_increase))"), ("nb_inc = np.zeros((self.nb_edges))\n", "nb_inc = np.zeros(self.nb_edges)\n")]),
    ("adj-bincount", M, [("""        nb_inc = np.zeros((self.nb_edges))
        np.add.at(nb_inc, id_edge, edge_increase)
        nb_dec = np.zeros((self.nb_edges))
        np.add.at(nb_dec, id_edge, ~edge_increase)
        self.is_manifold = np.all(unique_counts <= 2) and np.all(nb_inc <= 1) and np.all(nb_dec <= 1)
""", """        nb_inc = np.bincount(id_edge, weights=edge_increase, minlength=self.nb_edges)
        nb_dec = unique_counts - nb_inc
        self.is_manifold = np.all((unique_counts <= 2) & (nb_inc <= 1) & (nb_dec <= 1))
""")]),
    ("adj-max", M, [("self.is_manifold = np.all(unique_counts <= 2) and np.all(nb_inc <= 1) and np.all(nb_dec <= 1)", "self.is_manifold = bool(unique_counts.max() <= 2 and nb_inc.max() <= 1 and nb_dec.max() <= 1)")]),
    ("adj-nbedges", M, [("        self.nb_edges = np.max(id_edge) + 1\n", "        self.nb_edges = len(unique_counts)\n")]),
    ("adj-sort-id", M, [("""        return (
            np.maximum(idv[:, 0], idv[:, 1]).astype(np.uint64)
            + np.minimum(idv[:, 0], idv[:, 1]).astype(np.uint64) * self.nb_vertices,
            idv[:, 0] < idv[:, 1],
        )
""", """        first = idv[:, 0]
        second = idv[:, 1]
        low = np.minimum(first, second).astype(np.uint64)
        high = np.maximum(first, second).astype(np.uint64)
        return low * self.nb_vertices + high, first < second
""")]),
    ("fn-sign", M, [("""        n = -np.cross(u, v) if self.clockwise else np.cross(u, v)
        normals = normalize(n, axis=1)
        self.store""", """        n = np.cross(u, v)
        if self.clockwise:
            n = -n
        normals = normalize(n, axis=1)
        self.store"""), ("""        if self.clockwise:
            u_b, v_b = cross_backward(u, v, -n_b)
        else:
            u_b, v_b = cross_backward(u, v, n_b)
""", """        sign = -1 if self.clockwise else 1
        u_b, v_b = cross_backward(u, v, sign * n_b)
""")]),
    ("fn-corners", M, [("""        triangles = vertices[self.faces, :]
        u = triangles[:, 1, :] - triangles[:, 0, :]
        v = triangles[:, 2, :] - triangles[:, 0, :]
        n = -np""", """        a, b, c = (vertices[self.faces[:, k]] for k in range(3))
        u, v = b - a, c - a
        n = -np""")]),
    ("fnb-three", M, [("""        triangles_b = np.stack((-u_b - v_b, u_b, v_b), axis=1)
        vertices_b = np.zeros((self.nb_vertices, 3))
        np.add.at(vertices_b, self.faces, triangles_b)
        return vertices_b
""", """        vertices_b = np.zeros((self.nb_vertices, 3))
        for k, corner_b in enumerate((-(u_b + v_b), u_b, v_b)):
            np.add.at(vertices_b, self.faces[:, k], corner_b)
        return vertices_b
""")]),
    ("fnb-sparse", M, [("""        vertices_b = np.zeros((self.nb_vertices, 3))
        np.add.at(vertices_b, self.faces, triangles_b)
        return vertices_b
""", """        vertices_b = np.zeros((self.nb_vertices, 3))
        np.add.at(vertices_b, self.faces.ravel(), triangles_b.reshape(-1, 3))
        return vertices_b
""")]),
    ("vn-dot", M, [("        n = self._vertices_faces * face_normals\n", "        n = self._vertices_faces.dot(face_normals)\n"), ("        return self._vertices_faces.T * n_b\n", "        return self._vertices_faces.T @ n_b\n")]),
    ("edge-det", M, [("""        face_visible = np.cross(u, v) > 0 if self.clockwise else np.cross(u, v) < 0
        edge_bool = (self.edges_faces_ones * face_visible) == 1
        return edge_bool[self.faces_edges]
""", """        area = u[:, 0] * v[:, 1] - u[:, 1] * v[:, 0]
        face_visible = (area > 0) if self.clockwise else (area < 0)
        nb_visible = self.edges_faces_ones.dot(face_visible)
        return (nb_visible == 1)[self.faces_edges]
""")]),
    ("edge-sign", M, [("        face_visible = np.cross(u, v) > 0 if self.clockwise else np.cross(u, v) < 0\n", "        orientation = 1 if self.clockwise else -1\n        face_visible = orientation * np.cross(u, v) > 0\n")]),
    ("volume-triple", M, [("""        return (
            (-1 if self.clockwise else 1)
            * np.sum(
                np.linalg.det(
                    np.dstack(
                        (
                            self.vertices[self._faces[:, 0]],
                            self.vertices[self._faces[:, 1]],
                            self.vertices[self._faces[:, 2]],
                        )
                    )
                )
            )
            / 6
        )
""", """        a, b, c = (self.vertices[self._faces[:, k]] for k in range(3))
        volume = np.sum(a * np.cross(b, c)) / 6
        return -volume if self.clockwise else volume
""")]),
    ("volume-stack", M, [("""                np.linalg.det(
                    np.dstack(
                        (
                            self.vertices[self._faces[:, 0]],
                            self.vertices[self._faces[:, 1]],
                            self.vertices[self._faces[:, 2]],
                        )
                    )
                )
""", """                np.linalg.det(self.vertices[self._faces])
""")]),
    ("lazy-normals", M, [("""        if self._face_normals is None:
            self.compute_face_normals()
        assert self._face_normals is not None
        return self._face_normals
""", """        if self._face_normals is not None:
            return self._face_normals
        self.compute_face_normals()
        return self._face_normals
""")]),
    ("set-vertices-helper", M, [("""        self._vertices = vertices
        self._face_normals = None
        self._vertex_normals = None
        self._vertices_b = np.zeros((self.nb_vertices, 3))
""", """        self._invalidate()
        self._vertices = vertices

    def _invalidate(self) -> None:
        \"\"\"Forget what was derived from the previous vertices.\"\"\"
        self._face_normals = self._vertex_normals = None
        self._vertices_b = np.zeros_like(self._vertices_b)
""")]),
    ("vnb-acc", M, [("""        self._face_normals_b = self.adjacencies.compute_vertex_normals_backward(vertex_normals_b)
        self._vertices_b += self.adjacencies.compute_face_normals_backward(self._face_normals_b)
""", """        adjacencies = self.adjacencies
        self._face_normals_b = adjacencies.compute_vertex_normals_backward(vertex_normals_b)
        self._vertices_b = self._vertices_b + adjacencies.compute_face_normals_backward(self._face_normals_b)
""")]),
    ("subdiv-loop", M, [("""    faces1 = np.column_stack(
        (
            mesh.faces[:, 0],
            mesh.adjacencies.faces_edges[:, 0] + mesh.nb_vertices,
            mesh.adjacencies.faces_edges[:, 2] + mesh.nb_vertices,
        )
    )
    faces2 = np.column_stack(
        (
            mesh.faces[:, 1],
            mesh.adjacencies.faces_edges[:, 1] + mesh.nb_vertices,
            mesh.adjacencies.faces_edges[:, 0] + mesh.nb_vertices,
        )
    )
    faces3 = np.column_stack(
        (
            mesh.faces[:, 2],
            mesh.adjacencies.faces_edges[:, 2] + mesh.nb_vertices,
            mesh.adjacencies.faces_edges[:, 1] + mesh.nb_vertices,
        )
    )
    faces4 = np.column_stack(
        (
            mesh.adjacencies.faces_edges[:, 0] + mesh.nb_vertices,
            mesh.adjacencies.faces_edges[:, 1] + mesh.nb_vertices,
            mesh.adjacencies.faces_edges[:, 2] + mesh.nb_vertices,
        )
    )
    new_faces = np.vstack((faces1, faces2, faces3, faces4))
""", """    mid_points = np.array(mesh.adjacencies.faces_edges) + mesh.nb_vertices
    corner_faces = [
        np.column_stack((mesh.faces[:, k], mid_points[:, k], mid_points[:, (k + 2) % 3])) for k in range(3)
    ]
    new_faces = np.vstack(corner_faces + [mid_points])
""")]),
    ("subdiv-beta", M, [("    beta = (3 / 8) * (1 / mesh.adjacencies.degree_v_e)\n    moved_points = beta[:, None] * (mesh.adjacencies.adjacency_vertices * mesh.vertices) + (5 / 8) * mesh.vertices\n",
                         "    neighbour_sums = mesh.adjacencies.adjacency_vertices @ mesh.vertices\n    neighbour_means = neighbour_sums / mesh.adjacencies.degree_v_e[:, None]\n    moved_points = 0.375 * neighbour_means + 0.625 * mesh.vertices\n")]),
    ("subdiv-iter", M, [("    if n_iter > 1:\n        mesh = loop_subdivision(mesh, n_iter - 1)\n", "    for _ in range(n_iter - 1):\n        mesh = loop_subdivision(mesh, 1)\n")]),
    ("trimesh-uv", M, [("""                uv = (
                    np.column_stack(
                        (
                            (mesh.visual.uv[:, 0]) * texture.shape[1],
                            (1 - mesh.visual.uv[:, 1]) * texture.shape[0],
                        )
                    )
                    - 0.5
                )
""", """                texture_height, texture_width = texture.shape[:2]
                uv = np.empty((len(mesh.visual.uv), 2))
                uv[:, 0] = mesh.visual.uv[:, 0] * texture_width - 0.5
                uv[:, 1] = (1 - mesh.visual.uv[:, 1]) * texture_height - 0.5
""")]),
    # tools
    ("qrot-copy", T, [("""    v_b = vr_b.copy()
    q_b = np.zeros((4))
    q_b[3] = 2 * np.sum(vr_b * uv)
    uuv_b = 2 * vr_b.copy()
    uv_b = 2 * vr_b * q[3] + np.cross(uuv_b, q[:3])
    q_b[:3] = np.sum(np.cross(uv, uuv_b), axis=0) + np.sum(np.cross(v, uv_b), axis=0)
    v_b += np.cross(uv_b, q[:3])
    return q_b, v_b
""", """    uuv_b = 2 * vr_b
    uv_b = q[3] * uuv_b + np.cross(uuv_b, q[:3])
    xyz_b = (np.cross(uv, uuv_b) + np.cross(v, uv_b)).sum(axis=0)
    q_b = np.append(xyz_b, np.sum(uuv_b * uv))
    v_b = vr_b + np.cross(uv_b, q[:3])
    return q_b, v_b
""")]),
    ("qrot-xyz", T, [("""        uv = np.cross(q[:3], v)
        uuv = np.cross(q[:3], uv)
        return v + 2 * (q[3] * uv + uuv)
""", """        axis, w = q[:3], q[3]
        uv = 2 * np.cross(axis, v)
        return v + w * uv + np.cross(axis, uv)
""")]),
    ("norm-linalg", T, [("""    n2 = np.sum(x**2, axis=axis)
    n = np.sqrt(n2)
    return x / np.expand_dims(n, axis)
""", """    return x / np.linalg.norm(x, axis=axis, keepdims=True)
""")]),
    ("norm-keepdims", T, [("""    n2 = np.sum(x**2, axis=axis)
    n = np.sqrt(n2)
    inv_n = 1 / n
    n_b = -np.sum(xn_b * x, axis=axis) * (inv_n**2)
    return (xn_b + x * np.expand_dims(n_b, axis)) * np.expand_dims(inv_n, axis)
""", """    n = np.sqrt(np.sum(x * x, axis=axis, keepdims=True))
    xn = x / n
    radial = np.sum(xn_b * xn, axis=axis, keepdims=True)
    return (xn_b - radial * xn) / n
""")]),
    ("cross-swap", T, [("    v_b = np.cross(c_b, u)\n    u_b = np.cross(v, c_b)\n    return u_b, v_b\n", "    return np.cross(v, c_b), -np.cross(u, c_b)\n")]),
    # rigidity
    ("rigid-ravel", L, [("""        diff = (vertices - self.vertices_ref).flatten()
        grad_vertices = self.cregu * (self.cT * diff).reshape((vertices.shape[0], 3))
        energy = 0.5 * diff.dot(grad_vertices.flatten())
""", """        diff = vertices - self.vertices_ref
        grad_vertices = self.cregu * self.cT.dot(diff.ravel()).reshape(diff.shape)
        energy = 0.5 * np.sum(diff * grad_vertices)
""")]),
    ("rigid-hessian", L, [("        grad_vertices = self.cregu * (self.cT * diff).reshape((vertices.shape[0], 3))\n", "        grad_vertices = (self.approx_hessian @ diff).reshape(-1, 3)\n")]),
    # fitters
    ("fit-clip", F, [("""        def mult_and_clamp(x: np.ndarray, a: float, t: float) -> np.ndarray:
            return np.minimum(np.maximum(x * a, -t), t)
""", """        def mult_and_clamp(x: np.ndarray, a: float, t: float) -> np.ndarray:
            return np.clip(a * x, -t, t)
""")]),
    ("fit-reset-helper", F, [("""        self.iter = 0
        self.vertices = copy.copy(self.vertices_init)
        self.speed_vertices = np.zeros(self.vertices.shape)
        self.transform_quaternion = copy.copy(self.transform_quaternion_init)
        self.transform_translation = copy.copy(self.transform_translation_init)
        self.speed_translation = np.zeros(3)
        self.speed_quaternion = np.zeros(4)

        self.mesh_color = copy.copy(self.default_color)
        self.light_directional = copy.copy(self.default_light_directional)
        self.light_ambient = copy""", """        self._reset_pose()
        self.vertices = self.vertices_init.copy()
        self.speed_vertices = np.zeros_like(self.vertices)
        self.mesh_color = np.array(self.default_color)
        self.light_directional = np.array(self.default_light_directional)
        self.light_ambient = copy"""), ("""    def set_image(
        self,
        mesh_image: np.ndarray,
        focal: Optional[float] = None,
        distortion: Optional[np.ndarray] = None,
    ) -> None:
        self.width = mesh_image.shape[1]
        self.height = mesh_image.shape[0]
        assert mesh_image.ndim == 3
""", """    def _reset_pose(self) -> None:
        self.transform_quaternion = self.transform_quaternion_init.copy()
        self.transform_translation = copy.deepcopy(self.transform_translation_init)
        self.speed_translation, self.speed_quaternion = np.zeros(3), np.zeros(4)
        self.iter = 0

    def set_image(
        self,
        mesh_image: np.ndarray,
        focal: Optional[float] = None,
        distortion: Optional[np.ndarray] = None,
    ) -> None:
        self.height, self.width = mesh_image.shape[:2]
        assert mesh_image.ndim == 3
""")]),
    ("fit-depth-where", F, [("""        depth_b = depth_b.copy()  # keep the caller's array unchanged
        depth_b[self.depth_not_clipped < 0] = 0
        depth_b[self.depth_not_clipped > self.max_depth] = 0
        self.scene.render_depth_backward(depth_b)
""", """        clipped = (self.depth_not_clipped < 0) | (self.depth_not_clipped > self.max_depth)
        self.scene.render_depth_backward(np.where(clipped, 0, depth_b))
""")]),
    ("fit-momentum", F, [("""        self.speed_vertices = (1 - self.damping) * (
            self.speed_vertices * self.inertia + (1 - self.inertia) * step_vertices
        )
        self.vertices = self.vertices + self.speed_vertices
""", """        self.speed_vertices = self._momentum(self.speed_vertices, step_vertices)
        self.vertices = self.vertices + self.speed_vertices
"""), ("""    def step(self) -> Tuple[float, np.ndarray, np.ndarray]:
        self.vertices = self.vertices - np.mean(self.vertices, axis=0)[None, :]
        depth = self.render()
""", """    def _momentum(self, speed: np.ndarray, step: np.ndarray) -> np.ndarray:
        return (1 - self.damping) * (speed * self.inertia + (1 - self.inertia) * step)

    def step(self) -> Tuple[float, np.ndarray, np.ndarray]:
        self.vertices = self.vertices - self.vertices.mean(axis=0, keepdims=True)
        depth = self.render()
""")]),
    ("fit-energy", F, [("""        diff_image = np.sum((depth - self.mesh_image[:, :, None]) ** 2, axis=2)
        energy_data = np.sum(diff_image)
        depth_b = 2 * (depth - self.mesh_image[:, :, None])
        self.render_backward(depth_b)
""", """        residual = depth - self.mesh_image[..., np.newaxis]
        self.render_backward(2 * residual)
        diff_image = np.sum(residual**2, axis=-1)
        energy_data = diff_image.sum()
""")]),
    ("fit-backward-pose", F, [("""        vertices_transformed_b = self.scene.mesh._vertices_b
        self.transform_translation_b[idframe] += np.sum(vertices_transformed_b, axis=0)
        q_normalized_b, _vertices_b = qrot_backward(q_normalized, self.vertices, vertices_transformed_b)
        self._vertices_b += _vertices_b
        self.transform_quaternion_b[idframe] += normalize_backward(
            unormalized_quaternion, q_normalized_b
        )  # that will lead to a gradient that is in the tangent space
""", """        vertices_transformed_b = self.scene.mesh._vertices_b
        q_normalized_b, vertices_b = qrot_backward(q_normalized, self.vertices, vertices_transformed_b)
        quaternion_b = normalize_backward(unormalized_quaternion, q_normalized_b)
        self.transform_quaternion_b[idframe, :] += quaternion_b
        self.transform_translation_b[idframe, :] += vertices_transformed_b.sum(axis=0)
        self._vertices_b = self._vertices_b + vertices_b
""")]),
    ("fit-frames-zip", F, [("""        for idframe in range(self.nb_frames):
            image = self.render(idframe=idframe)

            diff_image = np.sum((image - self.mesh_images[idframe]) ** 2, axis=2)
            images.append(image)
            diff_images.append(diff_image)

            image_b = coef_data * 2 * (image - self.mesh_images[idframe])
            energy_data_image = coef_data * np.sum(diff_image)
            energy_datas.append(energy_data_image)
            self.render_backward(image_b)
        energy_data = float(np.sum(energy_datas))
""", """        energy_data = 0.0
        for idframe, observed in enumerate(self.mesh_images):
            image = self.render(idframe=idframe)
            residual = image - observed
            diff_image = np.sum(residual**2, axis=2)
            images += [image]
            diff_images += [diff_image]
            energy_data += float(coef_data * np.sum(diff_image))
            self.render_backward(2 * coef_data * residual)
"""), ("        energy_datas: List[float] = []\n", "")]),
    # pytorch
    ("pt-proj", PR, [("""        return torch.cat((points_3d, torch.ones((points_3d.shape[0], 1), dtype=torch.double)), dim=1).mm(
            torch.tensor(self.extrinsic.T)
        )
""", """        extrinsic = torch.tensor(self.extrinsic)
        return points_3d.mm(extrinsic[:, :3].t()) + extrinsic[:, 3]
""")]),
    ("pt-intrinsic", PR, [("""        return torch.cat((projected, torch.ones((projected.shape[0], 1), dtype=torch.double)), dim=1).mm(
            torch.tensor(self.intrinsic[:2, :].T)
        )
""", """        intrinsic = torch.as_tensor(self.intrinsic)
        return torch.matmul(projected, intrinsic[:2, :2].T) + intrinsic[:2, 2]
""")]),
    ("pt-lum", PR, [("""            torch.relu(-torch.sum(self.mesh.vertex_normals * self.light_directional, dim=1))
            + self.light_ambient_pytorch
""", """            torch.clamp(-(self.mesh.vertex_normals * self.light_directional).sum(dim=1), min=0)
            + self.light_ambient_pytorch
""")]),
    ("pt-normals", PM, [("""        n = -torch.cross(u, v, dim=1) if self.clockwise else torch.cross(u, v, dim=1)
        l2 = (n**2).sum(dim=1)
        norm = l2.sqrt()
        return n / norm[:, None]
""", """        n = torch.cross(v, u, dim=1) if self.clockwise else torch.cross(u, v, dim=1)
        return self._normalized(n)

    def _normalized(self, n: torch.Tensor) -> torch.Tensor:
        return n / torch.norm(n, dim=1, keepdim=True)
""")]),
    ("pt-forward", PR, [("""        nb_color_channels = colors.shape[1]
        image = np.empty((scene.scene_2d.height, scene.scene_2d.width, nb_color_channels))
        z_buffer = np.empty((scene.scene_2d.height, scene.scene_2d.width))
        scene.scene_2d.ij = ij.detach().numpy()  # should automatically detached according to
        # https://pytorch.org/docs/master/notes/extending.html
        scene.scene_2d.colors = colors.detach().numpy()
        differentiable_renderer_cython.renderSceneCpp(scene.scene_2d, scene.sigma, image, z_buffer)
""", """        scene_2d = scene.scene_2d
        height, width = scene_2d.height, scene_2d.width
        image = np.empty((height, width, colors.shape[1]))
        z_buffer = np.empty((height, width))
        scene_2d.ij, scene_2d.colors = ij.detach().numpy(), colors.detach().numpy()
        differentiable_renderer_cython.renderSceneCpp(scene_2d, scene.sigma, image, z_buffer)
""")]),
    ("pt-rigid", PL, [("""        if vertices.requires_grad:
            diff = (vertices - torch.tensor(self.numpy_imp.vertices_ref)).flatten()
            grad_vertices""", """        diff = (vertices - torch.as_tensor(self.numpy_imp.vertices_ref)).reshape(-1)
        if vertices.requires_grad:
            grad_vertices"""), ("""        else:
            diff = (vertices - torch.tensor(self.numpy_imp.vertices_ref)).flatten()
""", """        else:
""")]),
    ("pyx-helper", X, []),
]
P = [p for p in P if p[2]]
