"""Behaviour-preserving rewrites of the C++ core: every native check must stay quiet. Run: python3 tools/refactor.py [name…]"""
H = "C++/DifferentiableRenderer.h"
EDGE_LOOP = """					for (short int k = 0; k < sizeA; k++)
					{
						image[sizeA * indx + k] *= T;
						double A = (A0y[k] + xy1_to_A[3 * k] * x);
						image[sizeA * indx + k] += (1 - T) * A;
					}
"""
R = [
    ("edge-pixel-pointer", [(EDGE_LOOP, """					Te *pixel = &image[sizeA * indx];
					for (int k = 0; k < sizeA; k++)
					{
						double value = A0y[k] + xy1_to_A[3 * k] * x;
						pixel[k] = T * pixel[k] + (1 - T) * value;
					}
""")]),
    ("edge-helper", [(EDGE_LOOP, """					for (short int k = 0; k < sizeA; k++)
						blend(image[sizeA * indx + k], T, A0y[k] + xy1_to_A[3 * k] * x);
"""), ("""template <class Te>
void rasterize_edge_interpolated(double""", """inline void blend(double &value, double transparency, double drawn)
{
	value = transparency * value + (1 - transparency) * drawn;
}

template <class Te>
void rasterize_edge_interpolated(double""")]),
    ("edge-index", [("""			for (short int x = x_begin; x <= x_end; x++)
			{
				double Z = Z0y + xy1_to_Z[0] * x;
				if (Z < z_buffer[indx])
				{
					double T = T0y + T_inc * x;

					for (short int k = 0; k < sizeA; k++)
					{
						image[sizeA * indx + k] *= T;
						double A = (A0y[k] + xy1_to_A[3 * k] * x);
						image[sizeA * indx + k] += (1 - T) * A;
					}
				}
				indx++;
			}
""", """			for (short int x = x_begin; x <= x_end; x++)
			{
				const int pixel = y * width + x;
				const double Z = Z0y + xy1_to_Z[0] * x;
				if (!(Z < z_buffer[pixel]))
					continue;
				const double T = T0y + T_inc * x;
				for (short int k = 0; k < sizeA; k++)
				{
					const double A = A0y[k] + xy1_to_A[3 * k] * x;
					image[sizeA * pixel + k] = image[sizeA * pixel + k] * T + A * (1 - T);
				}
			}
""")]),
    ("edge-while", [("""			for (short int x = x_begin; x <= x_end; x++)
			{
				Z = Z0y + xy1_to_Z[0] * x;
				if (Z < z_buffer[indx])
				{
					z_buffer[indx] = Z;
					for (short int k = 0; k < sizeA; k++)
						image[sizeA * indx + k] = A0y[k] + xy1_to_A[3 * k] * x;
				}
				indx++;
			}
""", """			short int x = x_begin;
			while (x <= x_end)
			{
				double depth = Z0y + xy1_to_Z[0] * x;
				double &nearest = z_buffer[indx];
				if (nearest > depth)
				{
					nearest = depth;
					double *out = image + sizeA * indx;
					for (short int k = 0; k < sizeA; ++k)
						out[k] = A0y[k] + xy1_to_A[3 * k] * x;
				}
				++indx;
				++x;
			}
""")]),
    ("bilinear-helper", [("""	for (int k = 0; k < 2; k++)
	{
		next[k] = I_size[k] > 1 ? 1 : 0;
		if (!(p[k] >= 0))
		{
			fp[k] = 0;
			e[k] = 0;
		}
		else if (p[k] >= I_size[k] - 1)
		{
			fp[k] = I_size[k] - 1 - next[k];
			e[k] = 1;
		}
		else
		{
			fp[k] = (int)floor(p[k]);
			e[k] = p[k] - fp[k];
		}
	}
	// bilinear""", """	for (int k = 0; k < 2; k++)
		locate_texel(p[k], I_size[k], fp[k], next[k], e[k]);
	// bilinear"""), ("""template <class T>
void bilinear_sample(T""", """inline bool locate_texel(double p, int size, int &first, int &step, double &fraction)
{
	step = size > 1 ? 1 : 0;
	if (!(p >= 0))
	{
		first = 0;
		fraction = 0;
		return true;
	}
	if (p >= size - 1)
	{
		first = size - 1 - step;
		fraction = 1;
		return true;
	}
	first = (int)floor(p);
	fraction = p - first;
	return false;
}

template <class T>
void bilinear_sample(T"""), ("""	for (int k = 0; k < 2; k++)
	{
		next[k] = I_size[k] > 1 ? 1 : 0;
		if (!(p[k] >= 0))
		{
			out[k] = true;
			fp[k] = 0;
			e[k] = 0;
		}
		else if (p[k] >= I_size[k] - 1)
		{
			out[k] = true;
			fp[k] = I_size[k] - 1 - next[k];
			e[k] = 1;
		}
		else
		{
			fp[k] = (int)floor(p[k]);
			e[k] = p[k] - fp[k];
		}
	}
""", """	for (int k = 0; k < 2; k++)
		out[k] = locate_texel(p[k], I_size[k], fp[k], next[k], e[k]);
""")]),
    ("bilinear-weights", [("""		A[k] = ((1 - e[0]) * I[indx00 + k] + e[0] * I[indx10 + k]) * (1 - e[1]) + ((1 - e[0]) * I[indx01 + k] + e[0] * I[indx11 + k]) * e[1];
}
""", """	{
		double w11 = e[0] * e[1];
		A[k] = (1 - e[0] - e[1] + w11) * I[indx00 + k] + (e[0] - w11) * I[indx10 + k] + (e[1] - w11) * I[indx01 + k] + w11 * I[indx11 + k];
	}
}
"""), ("""		e_B[1] += -A_B[k] * t1;
		e_B[1] += A_B[k] * t2;

		double t1_B""", """		e_B[1] += A_B[k] * (t2 - t1);

		double t1_B"""), ("""	for (int k = 0; k < 2; k++)
	{
		if (!out[k])
			p_B[k] += e_B[k];
	}
""", """	for (int k = 0; k < 2; k++)
		p_B[k] += out[k] ? 0 : e_B[k];
""")]),
    ("small-matrices", [("""	double R = 0;
	for (int i = 0; i < 3; i++)
		R += V1[i] * V2[i];
	return R;
""", """	return V1[0] * V2[0] + V1[1] * V2[1] + V1[2] * V2[2];
"""), ("""			double *ptr = &AB[K * i + k];
			*ptr = 0;
			for (int j = 0; j < J; j++)
				*ptr += A[i * J + j] * B[j * K + k];
		}
}

inline void mul_matrix_B""", """			double sum = 0;
			for (int j = 0; j < J; j++)
				sum += A[i * J + j] * B[j * K + k];
			AB[K * i + k] = sum;
		}
}

inline void mul_matrix_B"""), ("""	double inv_det = 1 / (S[0] * T[0] + S[1] * T[3] + S[2] * T[6]);

	// rescale the cofactor matrix to get the inverse matrix
	for (int k = 0; k < 9; k++)
		T[k] *= inv_det;
}

//void""", """	double det = S[0] * T[0] + S[1] * T[3] + S[2] * T[6];
	double *end = T + 9;
	for (double *p = T; p != end; p++)
		*p /= det;
}

//void"""), ("""	for (int i = 0; i < N; i++) //v:vertex , d:dimension
	{
		R[i] = 0;
		for (int j = 0; j < 3; j++)
			R[i] += M[3 * i + j] * V[j];
	}
""", """	for (int i = 0; i < N; i++)
		R[i] = dot_prod(M + 3 * i, V);
"""), ("inline void mul_matrixNx3_vect(int", "inline double dot_prod(const double V1[3], const double V2[3]);\ninline void mul_matrixNx3_vect(int")]),
    ("area", [("""	double ux = ij[1][0] - ij[0][0];
	double uy = ij[1][1] - ij[0][1];
	double vx = ij[2][0] - ij[0][0];
	double vy = ij[2][1] - ij[0][1];
	return 0.5 * (ux * vy - vx * uy) * (clockwise ? 1 : -1);
""", """	double area = 0;
	for (int i = 0; i < 3; i++)
	{
		const double *p = ij[i];
		const double *q = ij[(i + 1) % 3];
		area += p[0] * q[1] - q[0] * p[1];
	}
	return clockwise ? area / 2 : -area / 2;
""")]),
    ("front-helper", [("""		sum_depth[k].value = 0;
		sum_depth[k].index = k;

		bool all_verticesInFront = true;
		unsigned int *face = &scene.faces[k * 3];

		for (int i = 0; i < 3; i++)
		{
			if (scene.depths[face[i]] < 0)
			{
				all_verticesInFront = false;
			}
			sum_depth[k].value += scene.depths[face[i]];
		}
		if (all_verticesInFront)
		{
			double ij[3][2];
			for (int i = 0; i < 3; i++)
				for (int j = 0; j < 2; j++)
					ij[i][j] = scene.ij[face[i] * 2 + j];
			signedAreaV[k] = signedArea(ij, scene.clockwise);
		}
		else
		{
			signedAreaV[k] = 0;
		}
	}
""", """		const unsigned int *face = &scene.faces[k * 3];
		sum_depth[k].index = k;
		sum_depth[k].value = scene.depths[face[0]] + scene.depths[face[1]] + scene.depths[face[2]];
		signedAreaV[k] = visibleArea(scene, face);
	}
"""), ("void renderScene(Scene scene, double *image", """double visibleArea(const Scene &scene, const unsigned int *face)
{
	double ij[3][2];
	for (int i = 0; i < 3; i++)
	{
		if (scene.depths[face[i]] < 0)
			return 0;
		ij[i][0] = scene.ij[face[i] * 2];
		ij[i][1] = scene.ij[face[i] * 2 + 1];
	}
	return signedArea(ij, scene.clockwise);
}

void renderScene(Scene scene, double *image""")]),
    ("sweep-continue", [("""	for (int k = 0; k < scene.nb_triangles; k++)
		if ((signedAreaV[k] > 0) || (!scene.backface_culling))
		{
""", """	for (int k = 0; k < scene.nb_triangles; k++)
		{
			if (scene.backface_culling && !(signedAreaV[k] > 0))
				continue;
"""), ("""			//k=order[i];
			if (signedAreaV[k] > 0)
			{

				for (int n = 0; n < 3; n++)
				{

					if (scene.edgeflags[n + k * 3])
					{
""", """			//k=order[i];
			if (!(signedAreaV[k] > 0))
				continue;
			{
				for (int n = 0; n < 3; n++)
				{
					if (!scene.edgeflags[3 * k + n])
						continue;
					{
"""), ("		for (int it = scene.nb_triangles - 1; it >= 0; it--)\n", "		for (int it = scene.nb_triangles; it-- > 0;)\n")]),
    ("sort-lambda", [("	sort(sum_depth.begin(), sum_depth.end(), sortcompare());", "	std::sort(sum_depth.begin(), sum_depth.end(), [](const sortdata &a, const sortdata &b) { return b.value < a.value; });"),
                     ("	vector<sortdata> sum_depth;\n	sum_depth.resize(scene.nb_triangles);\n	vector<double> signedAreaV;\n	signedAreaV.resize(scene.nb_triangles);\n", "	std::vector<sortdata> sum_depth(scene.nb_triangles);\n	std::vector<double> signedAreaV(scene.nb_triangles);\n")]),
    ("vectors", [("	double *A0y;\n	double Z0y;\n	short int x_begin, x_end;\n	double Z;\n	A0y = new double[sizeA];\n", "	std::vector<double> row(sizeA);\n	double *A0y = row.data();\n	double Z0y;\n	short int x_begin, x_end;\n	double Z;\n"), ("				indx++;\n			}\n		}\n	}\n	delete[] A0y;\n}\n\ninline void render_part_interpolated_B", "				indx++;\n			}\n		}\n	}\n}\n\ninline void render_part_interpolated_B")]),
    ("background", [("""		for (int i = 0; i < scene.height * scene.width; i++)
		{
			for (int k = 0; k < scene.nb_colors; k++)
			{
				image[i * scene.nb_colors + k] = scene.background_color[k];
			}
		}
""", """		const int nb_pixels = scene.height * scene.width;
		double *pixel = image;
		for (int i = 0; i < nb_pixels; i++, pixel += scene.nb_colors)
			for (int k = 0; k < scene.nb_colors; k++)
				pixel[k] = scene.background_color[k];
"""), ("	fill(z_buffer, z_buffer + scene.height * scene.width, numeric_limits<double>::infinity());", "	for (int i = 0; i < scene.height * scene.width; i++)\n		z_buffer[i] = std::numeric_limits<double>::infinity();"),
     ("		memcpy(image, scene.background_image, scene.height * scene.width * scene.nb_colors * sizeof(double));", "		std::copy(scene.background_image, scene.background_image + scene.height * scene.width * scene.nb_colors, image);")]),
    ("error-loop", [("""			double s = 0;
			double d;
			for (int i = 0; i < scene.nb_colors; i++)
			{
				d = (image[scene.nb_colors * k + i] - obs[scene.nb_colors * k + i]);
				s += d * d;
			}
			err_buffer[k] = s;
""", """			err_buffer[k] = 0;
			for (int i = 0; i < scene.nb_colors; i++)
			{
				const int index = scene.nb_colors * k + i;
				const double d = obs[index] - image[index];
				err_buffer[k] += d * d;
			}
"""), ("""				image_b[scene.nb_colors * k + i] = -2 * (obs[scene.nb_colors * k + i] - image[scene.nb_colors * k + i]) * err_buffer_b[k];
""", """			{
				int index = scene.nb_colors * k + i;
				image_b[index] = 2 * err_buffer_b[k] * (image[index] - obs[index]);
			}
""")]),
    ("stencil-helper", [("""	if (clockwise)
	{
		n[0] = Vxy[0][1] - Vxy[1][1];
		n[1] = Vxy[1][0] - Vxy[0][0];
	}
	else
	{
		n[0] = Vxy[1][1] - Vxy[0][1];
		n[1] = Vxy[0][0] - Vxy[1][0];
	}
	double inv_norm = 1 / sqrt(n[0] * n[0] + n[1] * n[1]);
	n[0] *= inv_norm;
	n[1] *= inv_norm;
""", """	double direction = clockwise ? 1. : -1.;
	double length = sqrt(pow(Vxy[0][1] - Vxy[1][1], 2) + pow(Vxy[1][0] - Vxy[0][0], 2));
	n[0] = direction * (Vxy[0][1] - Vxy[1][1]) / length;
	n[1] = direction * (Vxy[1][0] - Vxy[0][0]) / length;
""")]),
    ("clamp-minmax", [("""	if (y_begin < 0)
	{
		y_begin = 0;
	}
	if (y_end > height - 1)
	{
		y_end = height - 1;
	}
	for""", """	y_begin = std::max(y_begin, 0);
	y_end = std::min(y_end, height - 1);
	for"""), ("""	if (x_min < 0)
	{
		x_min = 0;
	}
	if (x_max > width - 1)
	{
		x_max = width - 1;
	}
""", """	x_min = x_min < 0 ? 0 : x_min;
	x_max = x_max > width - 1 ? width - 1 : x_max;
""")]),
    ("scatter", [("""						double ij_b[2][2];
						sub = list_sub[n];
						for (int i = 0; i < 2; i++)
							for (int j = 0; j < 2; j++)
								ij_b[i][j] = scene.ij_b[face[sub[i]] * 2 + j];
""", """						double ij_b[2][2] = {{0, 0}, {0, 0}};
"""), ("""								scene.ij_b[face[sub[i]] * 2 + j] = ij_b[i][j];
""", """								scene.ij_b[face[sub[i]] * 2 + j] += ij_b[i][j];
"""), ("""				for (int i = 0; i < 3; i++)
					shade_b[i] = scene.shade_b[face[i]];
""", """				for (int i = 0; i < 3; i++)
					shade_b[i] = 0;
"""), ("					scene.shade_b[face[i]] = shade_b[i];", "					scene.shade_b[face[i]] += shade_b[i];")]),
    ("invalid-throws", [("""	if (scene.faces == NULL)
		throw "scene.texture == NULL";
	if (scene.faces_uv == NULL)
		throw "scene.faces_uv == NULL";
""", """	if (!scene.faces)
		throw std::invalid_argument("scene.faces == NULL");
	if (!scene.faces_uv)
		throw std::invalid_argument("scene.faces_uv == NULL");
"""), ("#include <vector>\n", "#include <vector>\n#include <stdexcept>\n")]),
    ("const-ref", [("void renderScene(Scene scene, double *image", "void renderScene(const Scene &scene, double *image"), ("void checkSceneValid(Scene scene, bool", "void checkSceneValid(const Scene &scene, bool")]),
    ("alpha-order", [("""					T_B += -image_B[sizeA * indx + k] * A;
					double A_B = (1 - T) * image_B[sizeA * indx + k];

					// restoring the color before edge drawned

					image[sizeA * indx + k] = (image[sizeA * indx + k] - (1 - T) * A) / T;

					T_B += image_B[sizeA * indx + k] * image[sizeA * indx + k];

					image_B[sizeA * indx + k] *= T;
""", """					double &color = image[sizeA * indx + k];
					double &color_B = image_B[sizeA * indx + k];
					const double upstream = color_B;
					color -= (1 - T) * A;
					color /= T;
					color_B = T * upstream;
					const double A_B = upstream - color_B;
					T_B += upstream * (color - A);
""")]),
    ("lists", [("	int list_sub[3][2] = {1, 0, 2, 1, 0, 2};\n", "	const int list_sub[3][2] = {{1, 0}, {2, 1}, {0, 2}};\n"), ("						int *sub;\n						sub = list_sub[n];\n", "						const int *sub = list_sub[n];\n"), ("						double ij_b[2][2];\n						sub = list_sub[n];\n", "						double ij_b[2][2];\n")]),
    ("lists2", [("						int *sub;\n						sub = list_sub[n];\n", "						int sub[2] = {(n + 1) % 3, n};\n"), ("						double ij_b[2][2];\n						sub = list_sub[n];\n", "						double ij_b[2][2];\n"), ("	int list_sub[3][2] = {1, 0, 2, 1, 0, 2};\n", "")]),
    ("mode-locals", [("			if ((scene.textured[k] && scene.shaded[k]))\n			{\n				unsigned int", "			const bool textured = scene.textured[k];\n			const bool shaded = textured ? scene.shaded[k] : false;\n			if (shaded)\n			{\n				unsigned int"), ("			if (!scene.textured[k])\n			{\n				double *colors[3];\n				for (int i = 0; i < 3; i++)\n					colors[i]", "			else if (!textured)\n			{\n				double *colors[3];\n				for (int i = 0; i < 3; i++)\n					colors[i]")]),
]
