From c9a0bb2b973ac4a88d8e2a55078cfbd75c90eb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:41 +0000
Subject: [PATCH 01/30] fix: accumulate texel gradients instead of overwriting
 them

---
 C++/DifferentiableRenderer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 9140bfb..55f050d 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -618,10 +618,10 @@ void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], d
 		e_B[0] += t1_B * (I[indx10 + k] - I[indx00 + k]);
 		e_B[0] += t2_B * (I[indx11 + k] - I[indx01 + k]);
 
-		I_B[indx00 + k] = (1 - e[0]) * (1 - e[1]) * A_B[k];
-		I_B[indx10 + k] = e[0] * (1 - e[1]) * A_B[k];
-		I_B[indx01 + k] = (1 - e[0]) * e[1] * A_B[k];
-		I_B[indx11 + k] = e[0] * e[1] * A_B[k];
+		I_B[indx00 + k] += (1 - e[0]) * (1 - e[1]) * A_B[k];
+		I_B[indx10 + k] += e[0] * (1 - e[1]) * A_B[k];
+		I_B[indx01 + k] += (1 - e[0]) * e[1] * A_B[k];
+		I_B[indx11 + k] += e[0] * e[1] * A_B[k];
 	}
 	for (int k = 0; k < 2; k++)
 	{
-- 
2.43.0


From 40b3f4e4d71f0e9d5166d6f91fef6d1410be28e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 02/30] fix: add up uv gradients of face corners sharing a
 texture coordinate

---
 C++/DifferentiableRenderer.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 55f050d..943c5c2 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -2991,12 +2991,12 @@ void renderScene_B(Scene scene, double *image, double *z_buffer, double *image_b
 
 							unsigned int *face_uv = &scene.faces_uv[k * 3];
 							double uv[2][2];
-							double uv_b[2][2];
+							// several corners may share the same uv: accumulate locally and add to scene.uv_b afterwards
+							double uv_b[2][2] = {{0}};
 							for (int i = 0; i < 2; i++)
 								for (int j = 0; j < 2; j++)
 								{
 									uv[i][j] = scene.uv[face_uv[sub[i]] * 2 + j];
-									uv_b[i][j] = scene.uv_b[face_uv[sub[i]] * 2 + j];
 								}
 
 							double shade[2];
@@ -3019,7 +3019,7 @@ void renderScene_B(Scene scene, double *image, double *z_buffer, double *image_b
 							for (int i = 0; i < 2; i++)
 								for (int j = 0; j < 2; j++)
 								{
-									scene.uv_b[face_uv[sub[i]] * 2 + j] = uv_b[i][j];
+									scene.uv_b[face_uv[sub[i]] * 2 + j] += uv_b[i][j];
 								}
 							for (int i = 0; i < 2; i++)
 							{
@@ -3083,7 +3083,8 @@ void renderScene_B(Scene scene, double *image, double *z_buffer, double *image_b
 
 				unsigned int *face_uv = &scene.faces_uv[k * 3];
 				double uv[3][2];
-				double uv_b[3][2];
+				// several corners may share the same uv: accumulate locally and add to scene.uv_b afterwards
+				double uv_b[3][2] = {{0}};
 				double shade[3];
 				double shade_b[3];
 
@@ -3097,14 +3098,13 @@ void renderScene_B(Scene scene, double *image, double *z_buffer, double *image_b
 					for (int j = 0; j < 2; j++)
 					{
 						uv[i][j] = scene.uv[face_uv[i] * 2 + j];
-						uv_b[i][j] = scene.uv_b[face_uv[i] * 2 + j];
 					}
 
 				rasterize_triangle_textured_gouraud_B(ij, ij_b, depths, uv, uv_b, shade, shade_b, z_buffer, image, image_b, scene.height, scene.width, scene.nb_colors, scene.texture, scene.texture_b, Texture_size, scene.strict_edge, scene.perspective_correct);
 				for (int i = 0; i < 3; i++)
 					for (int j = 0; j < 2; j++)
 					{
-						scene.uv_b[face_uv[i] * 2 + j] = uv_b[i][j];
+						scene.uv_b[face_uv[i] * 2 + j] += uv_b[i][j];
 					}
 				for (int i = 0; i < 3; i++)
 					scene.shade_b[face[i]] = shade_b[i];
-- 
2.43.0


From cca51ee524edd9dac8e1ed23738b5cf291f10884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:32 +0000
Subject: [PATCH 03/30] fix: do not count the image gradient of a textured
 pixel twice

---
 C++/DifferentiableRenderer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 943c5c2..9742881 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -1340,6 +1340,7 @@ inline void render_part_textured_gouraud_B(double *image, double *image_B, doubl
 				{
 					A_B[k] += image_B[sizeA * indx + k] * L;
 					L_B += image_B[sizeA * indx + k] * A[k];
+					image_B[sizeA * indx + k] = 0; // the pixel may be visited again: upper and lower parts share a row when strict_edge is false
 				}
 				bilinear_sample_B(A, A_B, Texture, Texture_B, Texture_size, UV, UV_B, sizeA);
 				for (int k = 0; k < 2; k++)
-- 
2.43.0


From f3c30ab8c15e9154e27afc8864e7859250c7ab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:56 +0000
Subject: [PATCH 04/30] fix: report native errors as Python exceptions and do
 not leak temporaries when refusing perspective-correct gradients

---
 C++/DifferentiableRenderer.h             | 26 ++++++++++++++----------
 deodr/differentiable_renderer_cython.pyx |  4 ++--
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 9742881..e398c54 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -1269,14 +1269,14 @@ inline void render_part_textured_gouraud_B(double *image, double *image_B, doubl
 	double UV0y[2];
 	double UV0y_B[2];
 
-	A = new double[sizeA];
-	A_B = new double[sizeA];
-
 	if (perspective_correct)
 	{
 		throw "backward gradient propagation not supported yet with perspective_correct=True";
 	}
 
+	A = new double[sizeA];
+	A_B = new double[sizeA];
+
 	if (y_begin < 0)
 	{
 		y_begin = 0;
@@ -1660,14 +1660,14 @@ void rasterize_edge_interpolated_B(double Vxy[][2], double Vxy_B[][2], Te image[
 	int y_begin, y_end;
 	double xy1_to_Z[3];
 	double *xy1_to_A;
-	double *A0y = new double[sizeA];
-	double *A0y_B = new double[sizeA];
-
 	if (perspective_correct)
 	{
 		throw "backward gradient propagation not supported yet with perspective_correct=True";
 	}
 
+	double *A0y = new double[sizeA];
+	double *A0y_B = new double[sizeA];
+
 	get_edge_stencil_equations(Vxy, height, width, sigma, xy1_to_bary, xy1_to_transp, ineq, y_begin, y_end, clockwise);
 
 	//double B_inc[2];
@@ -2488,16 +2488,16 @@ void rasterize_edge_interpolated_error_B(double Vxy[][2], double Vxy_B[][2], dou
 	int y_begin, y_end;
 	double xy1_to_Z[3];
 
-	double *A0y = new double[sizeA];
-	double *A0y_B = new double[sizeA];
-	double *xy1_to_A = new double[3 * sizeA];
-	double *xy1_to_A_B = new double[3 * sizeA];
-
 	if (perspective_correct)
 	{
 		throw "backward gradient propagation not supported yet with perspective_correct=True";
 	}
 
+	double *A0y = new double[sizeA];
+	double *A0y_B = new double[sizeA];
+	double *xy1_to_A = new double[3 * sizeA];
+	double *xy1_to_A_B = new double[3 * sizeA];
+
 	get_edge_stencil_equations(Vxy, height, width, sigma, xy1_to_bary, xy1_to_transp, ineq, y_begin, y_end, clockwise);
 
 	double xy1_to_bary_B[6] = {0};
@@ -2924,6 +2924,10 @@ void renderScene_B(Scene scene, double *image, double *z_buffer, double *image_b
 	{
 		throw "You have to use backface_culling true if you ant to compute gradients";
 	}
+	if (scene.perspective_correct)
+	{
+		throw "backward gradient propagation not supported yet with perspective_correct=True";
+	}
 
 	for (int k = 0; k < scene.nb_triangles; k++)
 	{
diff --git a/deodr/differentiable_renderer_cython.pyx b/deodr/differentiable_renderer_cython.pyx
index f274249..d6b3d2c 100644
--- a/deodr/differentiable_renderer_cython.pyx
+++ b/deodr/differentiable_renderer_cython.pyx
@@ -41,8 +41,8 @@ cdef extern from "../C++/DifferentiableRenderer.h":
 		bool strict_edge
 		bool perspective_correct
 		bool integer_pixel_centers
-	void renderScene(Scene scene,double* image,double* z_buffer,double sigma,bool antialiase_error ,double* obs,double*  err_buffer)
-	void renderScene_B(Scene scene,double* image,double* z_buffer,double* image_b,double sigma,bool antialiase_error ,double* obs,double*  err_buffer, double* err_buffer_b)
+	void renderScene(Scene scene,double* image,double* z_buffer,double sigma,bool antialiase_error ,double* obs,double*  err_buffer) except +
+	void renderScene_B(Scene scene,double* image,double* z_buffer,double* image_b,double sigma,bool antialiase_error ,double* obs,double*  err_buffer, double* err_buffer_b) except +
 
 
 @cython.boundscheck(False)
-- 
2.43.0


From 54b088186e16a53f5c352838747bac8ba8270dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:21 +0000
Subject: [PATCH 05/30] fix: sample textures of one row or column, and far away
 texture coordinates, inside the texture

---
 C++/DifferentiableRenderer.h | 50 +++++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index e398c54..f900c79 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -525,35 +525,36 @@ void bilinear_sample(T *A, T I[], int *I_size, double p[2], int sizeA)
 	// compute integer part and fractional part
 
 	int fp[2];
+	int next[2]; // offset of the second texel, 0 when the texture has a single row or column
 	double e[2];
 
-	for (int k = 0; k < 2; k++)
-	{
-		fp[k] = (int)floor(p[k]);
-		e[k] = p[k] - fp[k];
-	}
-
 	//  if outside the texture domain then project inside. we could periodize texture
 
 	for (int k = 0; k < 2; k++)
 	{
-		if (fp[k] < 0)
+		next[k] = I_size[k] > 1 ? 1 : 0;
+		if (!(p[k] >= 0))
 		{
 			fp[k] = 0;
 			e[k] = 0;
 		}
-		if (fp[k] > I_size[k] - 2)
+		else if (p[k] >= I_size[k] - 1)
 		{
-			fp[k] = I_size[k] - 2;
+			fp[k] = I_size[k] - 1 - next[k];
 			e[k] = 1;
 		}
+		else
+		{
+			fp[k] = (int)floor(p[k]);
+			e[k] = p[k] - fp[k];
+		}
 	}
 	// bilinear interpolation
 
 	int indx00 = sizeA * (fp[0] + I_size[0] * fp[1]);
-	int indx10 = sizeA * (fp[0] + 1 + I_size[0] * fp[1]);
-	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + 1));
-	int indx11 = sizeA * (fp[0] + 1 + I_size[0] * (fp[1] + 1));
+	int indx10 = sizeA * (fp[0] + next[0] + I_size[0] * fp[1]);
+	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + next[1]));
+	int indx11 = sizeA * (fp[0] + next[0] + I_size[0] * (fp[1] + next[1]));
 
 	for (int k = 0; k < sizeA; k++)
 		A[k] = ((1 - e[0]) * I[indx00 + k] + e[0] * I[indx10 + k]) * (1 - e[1]) + ((1 - e[0]) * I[indx01 + k] + e[0] * I[indx11 + k]) * e[1];
@@ -566,40 +567,41 @@ void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], d
 	// compute integer part and fractional part
 
 	int fp[2];
+	int next[2]; // offset of the second texel, 0 when the texture has a single row or column
 	double e[2];
 	double e_B[2] = {0};
 	int out[2] = {0};
 
-	for (int k = 0; k < 2; k++)
-	{
-		fp[k] = (int)floor(p[k]);
-		e[k] = p[k] - fp[k];
-	}
-
 	//  if outside the texture domain then project inside. we could periodize texture
 
 	for (int k = 0; k < 2; k++)
 	{
-		if (fp[k] < 0)
+		next[k] = I_size[k] > 1 ? 1 : 0;
+		if (!(p[k] >= 0))
 		{
 			out[k] = true;
 			fp[k] = 0;
 			e[k] = 0;
 		}
-		if (fp[k] > I_size[k] - 2)
+		else if (p[k] >= I_size[k] - 1)
 		{
 			out[k] = true;
-			fp[k] = I_size[k] - 2;
+			fp[k] = I_size[k] - 1 - next[k];
 			e[k] = 1;
 		}
+		else
+		{
+			fp[k] = (int)floor(p[k]);
+			e[k] = p[k] - fp[k];
+		}
 	}
 
 	// bilinear interpolation
 
 	int indx00 = sizeA * (fp[0] + I_size[0] * fp[1]);
-	int indx10 = sizeA * (fp[0] + 1 + I_size[0] * fp[1]);
-	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + 1));
-	int indx11 = sizeA * (fp[0] + 1 + I_size[0] * (fp[1] + 1));
+	int indx10 = sizeA * (fp[0] + next[0] + I_size[0] * fp[1]);
+	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + next[1]));
+	int indx11 = sizeA * (fp[0] + next[0] + I_size[0] * (fp[1] + next[1]));
 
 	//for(int k=0;k<sizeA;k++)
 	//	A[k]=( (1-e[0])*I[indx00+k] + e[0]*I[indx10+k] )*(1-e[1])+( (1-e[0])*I[indx01+k] + e[0]*I[indx11+k] )*e[1];
-- 
2.43.0


From 354e8b99d490cb45659ff2a077fc68c698f732bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:28 +0000
Subject: [PATCH 06/30] fix: draw triangles and edges reaching far outside the
 image instead of wrapping their coordinates

---
 C++/DifferentiableRenderer.h | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index f900c79..a4c2d69 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -437,6 +437,16 @@ inline void elementwise_prod_vec3(const double input1[3], const double input2[3]
 		ouput[i] = input1[i] * input2[i];
 }
 
+inline short int saturate_to_short(double x)
+{
+	// conversion to short that keeps values outside the image outside instead of wrapping around
+	if (!(x > SHRT_MIN))
+		return SHRT_MIN;
+	if (x > SHRT_MAX - 1)
+		return SHRT_MAX - 1;
+	return (short int)x;
+}
+
 short int floor_div(double a, double b, int x_min, int x_max)
 {
 
@@ -678,39 +688,39 @@ void get_triangle_stencil_equations(double Vxy[][2], double bary_to_xy1[9], doub
 	// computing x bounds
 	if (strict_edge)
 	{
-		x_min = (short)floor(x_sorted[0]);
+		x_min = saturate_to_short(floor(x_sorted[0]));
 	}
 	else
 	{
-		x_min = (short)ceil(x_sorted[0]);
+		x_min = saturate_to_short(ceil(x_sorted[0]));
 	}
 
-	x_max = (short)floor(x_sorted[2]);
+	x_max = saturate_to_short(floor(x_sorted[2]));
 
 	// limit upper part
 	if (strict_edge)
 	{
 
-		y_begin[0] = (short)floor(y_sorted[0]) + 1;
+		y_begin[0] = saturate_to_short(floor(y_sorted[0])) + 1;
 	}
 	else
 	{
 
-		y_begin[0] = (short)ceil(y_sorted[0]);
+		y_begin[0] = saturate_to_short(ceil(y_sorted[0]));
 	}
 
-	y_end[0] = (short)floor(y_sorted[1]);
+	y_end[0] = saturate_to_short(floor(y_sorted[1]));
 
 	// limit lower part
 	if (strict_edge)
 	{
-		y_begin[1] = (short)floor(y_sorted[1]) + 1;
+		y_begin[1] = saturate_to_short(floor(y_sorted[1])) + 1;
 	}
 	else
 	{
-		y_begin[1] = (short)ceil(y_sorted[1]);
+		y_begin[1] = saturate_to_short(ceil(y_sorted[1]));
 	}
-	y_end[1] = (short)floor(y_sorted[2]);
+	y_end[1] = saturate_to_short(floor(y_sorted[2]));
 
 	// set left_edge_id and right_edge_id
 
@@ -1443,7 +1453,7 @@ void get_edge_stencil_equations(double Vxy[][2], int height, int width, double s
 	for (short int k = 0; k < 2; k++)
 	{
 		if (Vxy[k][1] - sigma < y_begin)
-			y_begin = (int)floor(Vxy[k][1] - sigma) + 1;
+			y_begin = saturate_to_short(floor(Vxy[k][1] - sigma)) + 1;
 	}
 	if (y_begin < 0)
 	{
@@ -1454,7 +1464,7 @@ void get_edge_stencil_equations(double Vxy[][2], int height, int width, double s
 	for (short int k = 0; k < 2; k++)
 	{
 		if (Vxy[k][1] + sigma > y_end)
-			y_end = (int)floor(Vxy[k][1] + sigma);
+			y_end = saturate_to_short(floor(Vxy[k][1] + sigma));
 	}
 	if (y_end > height - 1)
 	{
-- 
2.43.0


From d99fa024b9ebb3972aade109847ad716a5348e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:15 +0000
Subject: [PATCH 07/30] fix: check every array shape and range the native
 renderer relies on

---
 deodr/differentiable_renderer_cython.pyx | 40 ++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/deodr/differentiable_renderer_cython.pyx b/deodr/differentiable_renderer_cython.pyx
index d6b3d2c..300e050 100644
--- a/deodr/differentiable_renderer_cython.pyx
+++ b/deodr/differentiable_renderer_cython.pyx
@@ -72,6 +72,18 @@ def renderSceneCpp(scene,
 	nb_vertices_uv  =  scene.uv.shape[0]
 
 	if check_valid:	
+		assert(scene.height  ==  height)
+		assert(scene.width  ==  width)
+		# native loop counters are 16 bits integers
+		assert(height  <=  32767)
+		assert(width  <=  32767)
+		assert(3 * nb_colors  <=  32767)
+		assert(scene.faces.ndim  ==  2)
+		assert(scene.faces.shape[1]  ==  3)
+		assert(scene.faces_uv.ndim  ==  2)
+		assert(scene.faces_uv.shape[1]  ==  3)
+		assert(np.prod(scene.depths.shape)  ==  nb_vertices)
+		assert(np.all(scene.faces_uv >= 0))
 		assert(scene.faces.dtype  ==  np.uint32)
 		assert(np.all(scene.faces < nb_vertices))
 		assert(np.all(scene.faces_uv < nb_vertices_uv))
@@ -102,6 +114,7 @@ def renderSceneCpp(scene,
 			assert scene.background_image.shape[1] == width
 			assert scene.background_image.shape[2] == nb_colors
 		else:
+			assert scene.background_color.ndim == 1
 			assert scene.background_color.shape[0] == nb_colors
 		
 		if scene.texture.size>0:
@@ -109,6 +122,8 @@ def renderSceneCpp(scene,
 			assert(scene.texture.shape[0]>0)
 			assert(scene.texture.shape[1]>0)
 			assert(scene.texture.shape[2]  ==  nb_colors)
+		else:
+			assert(not np.any(np.logical_and(scene.textured, scene.shaded)))
 		
 		assert z_buffer.shape[0]  ==  height 
 		assert z_buffer.shape[1]  ==  width 
@@ -184,6 +199,8 @@ def renderSceneCpp(scene,
 
 	
 	if antialiase_error:
+		assert (not(err_buffer is None))
+		assert (not(obs is None))
 		assert err_buffer.shape[0]  ==  height 
 		assert err_buffer.shape[1]  ==  width
 		assert obs.shape[0]  ==  height 
@@ -235,6 +252,18 @@ def renderSceneBCpp(scene,
 	nb_vertices_uv  =  scene.uv.shape[0]
 	
 	if check_valid:
+		assert(scene.height  ==  height)
+		assert(scene.width  ==  width)
+		# native loop counters are 16 bits integers
+		assert(height  <=  32767)
+		assert(width  <=  32767)
+		assert(3 * nb_colors  <=  32767)
+		assert(scene.faces.ndim  ==  2)
+		assert(scene.faces.shape[1]  ==  3)
+		assert(scene.faces_uv.ndim  ==  2)
+		assert(scene.faces_uv.shape[1]  ==  3)
+		assert(np.prod(scene.depths.shape)  ==  nb_vertices)
+		assert(np.all(scene.faces_uv >= 0))
 		assert(scene.faces.dtype == np.uint32)
 		assert(np.all(scene.faces<nb_vertices))
 		assert(np.all(scene.faces_uv<nb_vertices_uv))
@@ -265,6 +294,7 @@ def renderSceneBCpp(scene,
 			assert scene.background_image.shape[1] == width
 			assert scene.background_image.shape[2] == nb_colors
 		else:
+			assert scene.background_color.ndim == 1
 			assert scene.background_color.shape[0] == nb_colors
 				
 		assert(scene.uv_b.ndim  ==  2)
@@ -278,6 +308,7 @@ def renderSceneBCpp(scene,
 		assert(scene.ij_b.shape[0]  ==  nb_vertices)
 		assert(scene.ij_b.shape[1]  ==  2)
 		assert(scene.shade_b.shape[0]  ==  nb_vertices)	
+		assert(scene.colors_b.ndim  ==  2)
 		assert(scene.colors_b.shape[0]  ==  nb_vertices)
 		assert(scene.colors_b.shape[1]  ==  nb_colors)
 
@@ -291,6 +322,8 @@ def renderSceneBCpp(scene,
 			assert(scene.texture.shape[1]  ==  scene.texture_b.shape[1])
 			assert(scene.texture.shape[2]  ==  nb_colors)	
 			assert(scene.texture_b.shape[2]  ==  nb_colors)
+		else:
+			assert(not np.any(np.logical_and(scene.textured, scene.shaded)))
 			
 	scene_c.nb_colors = nb_colors
 	
@@ -378,10 +411,16 @@ def renderSceneBCpp(scene,
 	
 	if antialiase_error:
 		if check_valid:
+			assert (not(err_buffer is None))
+			assert (not(err_buffer_b is None))
+			assert (not(obs is None))
 			assert err_buffer.shape[0]  ==  height 
 			assert err_buffer.shape[1]  ==  width 
+			assert err_buffer_b.shape[0]  ==  height 
+			assert err_buffer_b.shape[1]  ==  width 
 			assert obs.shape[0]  ==  height 
 			assert obs.shape[1]  ==  width 
+			assert obs.shape[2]  ==  nb_colors 
 	
 		err_buffer_ptr = <double*>err_buffer.data
 		err_buffer_b_ptr = <double*>err_buffer_b.data
@@ -398,6 +437,7 @@ def renderSceneBCpp(scene,
 			assert (not(image_b is None))
 			assert image_b.shape[0]  ==  height 
 			assert image_b.shape[1]  ==  width 
+			assert image_b.shape[2]  ==  nb_colors 
 		image_b_ptr  =  <double*> image_b.data
 		if image_b_ptr  ==  NULL:
 			raise BaseException('image_b_ptr is NULL')
-- 
2.43.0


From b1745421c720337153965a60761ff37b5311d72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:46 +0000
Subject: [PATCH 08/30] fix: antialias silhouette edges that are exactly
 horizontal or vertical

---
 C++/DifferentiableRenderer.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index a4c2d69..6236048 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -2641,7 +2641,15 @@ void get_edge_xrange_from_ineq(double ineq[12], int width, int y, int &x_begin,
 	for (short int k = 0; k < 4; k++)
 	{
 		numerator = -(ineq[3 * k + 1] * y + ineq[3 * k + 2]);
-		if (ineq[3 * k] < 0)
+		if (ineq[3 * k] == 0)
+		{
+			// edge aligned with an image axis: the line is either entirely inside or entirely outside
+			if (!(numerator < 0))
+			{
+				x_end = x_begin - 1;
+			}
+		}
+		else if (ineq[3 * k] < 0)
 		{
 			short int temp_x = floor_div(numerator, ineq[3 * k], x_begin - 1, x_end + 1);
 			if (temp_x < x_end)
-- 
2.43.0


From 239ec699e1a935c32d531163960813ecd06d0f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 09/30] fix: project_points_backward uses the transposed
 Jacobian of the rotation and intrinsics

The forward map multiplies by the transposed matrices, so the adjoint multiplies by the matrices
themselves. The previous code was right only for symmetric rotations and unskewed intrinsics.
---
 deodr/differentiable_renderer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 0022cca..f0285ef 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -396,7 +396,7 @@ class Camera:
     ) -> np.ndarray:
         if self.distortion is None:
             p_camera, depths, projected = store_backward["project_points"]
-            projected_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2].T)  # not sure about transpose
+            projected_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2])
 
         else:
             p_camera, depths, projected, r2, radial_distortion = store_backward["project_points"]
@@ -409,7 +409,7 @@ class Camera:
             ) = self.distortion
             x = projected[:, 0]
             y = projected[:, 1]
-            distorted_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2].T)  # not sure about transpose
+            distorted_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2])
             distorted_x_b = distorted_b[:, 0]
             distorted_y_b = distorted_b[:, 1]
             x_b = distorted_x_b * radial_distortion
@@ -435,7 +435,7 @@ class Camera:
         )
         if depths_b is not None:
             p_camera_b[:, 2] += depths_b
-        return p_camera_b.dot(self.extrinsic[:3, :3].T)
+        return p_camera_b.dot(self.extrinsic[:3, :3])
 
     def get_center(self) -> np.ndarray:
         return -self.extrinsic[:3, :3].T.dot(self.extrinsic[:, 3])
-- 
2.43.0


From ed70f0c9fe8afefd8823f571365d548707774d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 10/30] fix: back-propagate the illumination of textured meshes

---
 deodr/differentiable_renderer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index f0285ef..a88ec87 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -991,7 +991,11 @@ class Scene3D:
         assert self.store_backward_current is not None
         camera, self.edgeflags = self.store_backward_current["render"]
         self._render_2d_backward(image_b)
-        self._compute_vertices_colors_with_illumination_backward(self.scene_2d.colors_b)
+        if self.mesh.uv is not None:
+            assert self.scene_2d.shade_b is not None
+            self.compute_vertices_luminosity_backward(self.scene_2d.shade_b)
+        else:
+            self._compute_vertices_colors_with_illumination_backward(self.scene_2d.colors_b)
         self.mesh._vertices_b = camera.project_points_backward(
             self.scene_2d.ij_b, store_backward=self.store_backward_current
         )
-- 
2.43.0


From a8fb27147cf9507773a45c7996ca4af709c280fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:18 +0000
Subject: [PATCH 11/30] fix: deferred and depth rendering ignored mesh
 orientation, perspective correctness, background image and depth scale of the
 background

---
 deodr/differentiable_renderer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index a88ec87..7b8323f 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -1031,7 +1031,9 @@ class Scene3D:
             clockwise=self.mesh.clockwise,
             backface_culling=backface_culling,
             strict_edge=True,
+            background_image=self.background_image,
             background_color=self.background_color,
+            perspective_correct=self.perspective_correct,
             integer_pixel_centers=self.integer_pixel_centers,
         )
         self.scene_2d = scene_2d
@@ -1120,7 +1122,9 @@ class Scene3D:
         if self.mesh.uv is None:
             if color:
                 assert self.mesh.vertices_colors is not None
-                soup_vertices_colors = self.mesh.vertices_colors[self.mesh.faces].reshape(soup_nb_vertices, 3)
+                soup_vertices_colors = self.mesh.vertices_colors[self.mesh.faces].reshape(
+                    soup_nb_vertices, self.mesh.vertices_colors.shape[1]
+                )
                 channels["color"] = soup_vertices_colors
         elif uv:
             soup_uv = self.mesh.uv[self.mesh.faces_uv].reshape(soup_nb_vertices, 2)
@@ -1147,7 +1151,7 @@ class Scene3D:
 
         background_image = np.zeros((height, width, nb_colors))
         if "depth" in channels:
-            background_image[:, :, ranges["depth"][0] : ranges["depth"][1]] = depths.max()
+            background_image[:, :, ranges["depth"][0] : ranges["depth"][1]] = depths.max() * depth_scale
 
         scene_2d = Scene2DBase(
             faces=soup_faces,
@@ -1165,8 +1169,10 @@ class Scene3D:
             nb_colors=nb_colors,
             texture=texture,
             background_image=background_image,
+            clockwise=self.mesh.clockwise,
             backface_culling=backface_culling,
             background_color=None,
+            perspective_correct=self.perspective_correct,
             integer_pixel_centers=self.integer_pixel_centers,
         )
         buffers = np.empty((camera.height, camera.width, nb_colors))
-- 
2.43.0


From a5811d51502480ec1b6dbf50e6f7d3ff6bacc13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 12/30] fix: gradient of the masked image error was not
 multiplied by the mask twice

---
 deodr/differentiable_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 7b8323f..bd47eec 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -728,7 +728,7 @@ class Scene2D(Scene2DBase):
             diff_image = (image - obs) * mask[:, :, None]
             err_buffer = (diff_image) ** 2
             err = float(np.sum(err_buffer))
-            image_b = 2 * diff_image
+            image_b = 2 * diff_image * mask[:, :, None]
             self.render_backward(image_b, make_copies=make_copies)
 
         return image, z_buffer, err_buffer, err
-- 
2.43.0


From 0bea727132b2607334cf1a47c774c1731915fcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:20 +0000
Subject: [PATCH 13/30] fix: backward passes modified the upstream gradient
 given by the caller

---
 deodr/differentiable_renderer.py | 6 +++---
 deodr/mesh_fitter.py             | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index bd47eec..50b9567 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -647,7 +647,7 @@ class Scene2D(Scene2DBase):
                 antialiase_error,
                 obs,
                 err_buffer.copy(),
-                err_buffer_b,
+                err_buffer_b.copy(),
             )
         else:
             renderSceneB(
@@ -679,7 +679,7 @@ class Scene2D(Scene2DBase):
                 sigma,
                 image.copy(),
                 z_buffer,
-                image_b,
+                image_b.copy(),
                 antialiase_error,
                 None,
                 None,
@@ -868,7 +868,7 @@ class Scene3D:
         image, z_buffer = self.store_backward_current["render_2d"]
         # self.ij = np.array(ij)
         # self.colors = np.array(colors)
-        renderSceneB(self.scene_2d, self.sigma, image.copy(), z_buffer, image_b)
+        renderSceneB(self.scene_2d, self.sigma, image.copy(), z_buffer, image_b.copy())
         self.scene_2D = None
 
     @overload
diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index 9e34612..eecfcc5 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -113,6 +113,7 @@ class MeshDepthFitter:
 
     def render_backward(self, depth_b: np.ndarray) -> None:
         self.scene.clear_gradients()
+        depth_b = depth_b.copy()  # keep the caller's array unchanged
         depth_b[self.depth_not_clipped < 0] = 0
         depth_b[self.depth_not_clipped > self.max_depth] = 0
         self.scene.render_depth_backward(depth_b)
-- 
2.43.0


From c2b3149da31564ba13f4f3c9685b7856e6983c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 14/30] fix: the multi-frame fitter compared one row of the
 rendered image with the observation

---
 deodr/mesh_fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index eecfcc5..d70de34 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -537,11 +537,11 @@ class MeshRGBFitterWithPoseMultiFrame:
         for idframe in range(self.nb_frames):
             image = self.render(idframe=idframe)
 
-            diff_image = np.sum((image[idframe] - self.mesh_images[idframe]) ** 2, axis=2)
+            diff_image = np.sum((image - self.mesh_images[idframe]) ** 2, axis=2)
             images.append(image)
             diff_images.append(diff_image)
 
-            image_b = coef_data * 2 * (image[idframe] - self.mesh_images[idframe])
+            image_b = coef_data * 2 * (image - self.mesh_images[idframe])
             energy_data_image = coef_data * np.sum(diff_image)
             energy_datas.append(energy_data_image)
             self.render_backward(image_b)
-- 
2.43.0


From 227ca31bab9bb0317ab4f45ca37d49920d84c58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:35 +0000
Subject: [PATCH 15/30] fix: reset() of the mesh fitters did not restart the
 iteration count

---
 deodr/mesh_fitter.py                       | 3 +++
 deodr/pytorch/mesh_fitter_pytorch.py       | 2 ++
 deodr/tensorflow/mesh_fitter_tensorflow.py | 2 ++
 3 files changed, 7 insertions(+)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index d70de34..9780e8e 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -62,6 +62,7 @@ class MeshDepthFitter:
         self.transform_translation_init = translation
 
     def reset(self) -> None:
+        self.iter = 0
         self.vertices = copy.copy(self.vertices_init)
         self.speed_vertices = np.zeros(self.vertices_init.shape)
         self.transform_quaternion = copy.copy(self.transform_quaternion_init)
@@ -241,6 +242,7 @@ class MeshRGBFitterWithPose:
         self.transform_translation_init = translation
 
     def reset(self) -> None:
+        self.iter = 0
         self.vertices = copy.copy(self.vertices_init)
         self.speed_vertices = np.zeros(self.vertices.shape)
         self.transform_quaternion = copy.copy(self.transform_quaternion_init)
@@ -434,6 +436,7 @@ class MeshRGBFitterWithPoseMultiFrame:
         self.transform_translation_init = translation
 
     def reset(self) -> None:
+        self.iter = 0
         self.vertices = copy.copy(self.vertices_init)
         self.speed_vertices = np.zeros(self.vertices.shape)
         self.transform_quaternion = copy.copy(self.transform_quaternion_init)
diff --git a/deodr/pytorch/mesh_fitter_pytorch.py b/deodr/pytorch/mesh_fitter_pytorch.py
index badd532..01e766a 100644
--- a/deodr/pytorch/mesh_fitter_pytorch.py
+++ b/deodr/pytorch/mesh_fitter_pytorch.py
@@ -220,6 +220,7 @@ class MeshDepthFitter:
         self.transform_translation_init = translation
 
     def reset(self) -> None:
+        self.iter = 0
         self.vertices = copy.copy(self.vertices_init)
         self.speed_vertices = np.zeros(self.vertices_init.shape)
         self.transform_quaternion = copy.copy(self.transform_quaternion_init)
@@ -391,6 +392,7 @@ class MeshRGBFitterWithPose:
         self.transform_translation_init = translation
 
     def reset(self) -> None:
+        self.iter = 0
         self.vertices = copy.copy(self.vertices_init)
         self.speed_vertices = np.zeros(self.vertices.shape)
         self.transform_quaternion = copy.copy(self.transform_quaternion_init)
diff --git a/deodr/tensorflow/mesh_fitter_tensorflow.py b/deodr/tensorflow/mesh_fitter_tensorflow.py
index 15bbd43..4fd0ee7 100644
--- a/deodr/tensorflow/mesh_fitter_tensorflow.py
+++ b/deodr/tensorflow/mesh_fitter_tensorflow.py
@@ -69,6 +69,7 @@ class MeshDepthFitter:
         self.transform_translation_init = translation
 
     def reset(self) -> None:
+        self.iter = 0
         self.vertices = copy.copy(self.vertices_init)
         self.speed_vertices = np.zeros(self.vertices_init.shape)
         self.transform_quaternion = copy.copy(self.transform_quaternion_init)
@@ -256,6 +257,7 @@ class MeshRGBFitterWithPose:
         self.transform_translation_init = translation
 
     def reset(self) -> None:
+        self.iter = 0
         self.vertices = copy.copy(self.vertices_init)
         self.speed_vertices = np.zeros(self.vertices.shape)
         self.transform_quaternion = copy.copy(self.transform_quaternion_init)
-- 
2.43.0


From 5dc8abdd596cb4ae9447020cfe0b0312cf5b592c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:51 +0000
Subject: [PATCH 16/30] fix: meshes created with compute_adjacencies=False had
 no lazy adjacencies

---
 deodr/triangulated_mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 25806e8..862925a 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -192,6 +192,7 @@ class TriMesh:
 
         self._vertices_b = np.zeros((self.nb_vertices, 3))
 
+        self._adjacencies: Optional[TriMeshAdjacencies] = None
         self.set_vertices(vertices)
         if compute_adjacencies:
             self.compute_adjacencies()
@@ -229,7 +230,7 @@ class TriMesh:
         surfaces is a closed manifold. This is done by summing the volumes of the
         simplices formed by joining the origin and the vertices of each triangle.
         """
-        if not self._adjacencies.is_closed:
+        if not self.adjacencies.is_closed:
             raise (BaseException("The volume can only be computed for closed manifold surfaces"))
         return (
             (-1 if self.clockwise else 1)
-- 
2.43.0


From 10ffdf34484f923880a1b3a53b9826fc64235b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:51 +0000
Subject: [PATCH 17/30] fix: loop_subdivision dropped the clockwise flag of the
 mesh

---
 deodr/triangulated_mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 862925a..e7a1326 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -558,6 +558,7 @@ def loop_subdivision(mesh: ColoredTriMesh, n_iter: int = 1) -> ColoredTriMesh:
     return ColoredTriMesh(
         vertices=new_vertices,
         faces=new_faces,
+        clockwise=mesh.clockwise,
         colors=new_colors,
         nb_colors=mesh.nb_colors,
     )
-- 
2.43.0


From 407e50d3aa10ffdf46e05a6c74060fa1181a0b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:51 +0000
Subject: [PATCH 18/30] fix: to_trimesh exported clockwise faces inside out

---
 deodr/triangulated_mesh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index e7a1326..96b8e37 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -452,6 +452,10 @@ class ColoredTriMesh(TriMesh):
         v = self.vertices
         faces = self.faces
         faces_tex = self.faces_uv
+        if self.clockwise:
+            # trimesh expects counter-clockwise faces
+            faces = faces[:, ::-1]
+            faces_tex = faces_tex[:, ::-1]
 
         assert self.uv is not None, "Only mesh with texture supported."
         assert self.texture is not None, "Only mesh with texture supported."
-- 
2.43.0


From f030e0c3ee8c7398fd7fb6f2f2e10906bb0998a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 19/30] fix: pytorch backward used the scene of the last
 rendering instead of its own forward call

---
 .../differentiable_renderer_pytorch.py        | 24 ++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/deodr/pytorch/differentiable_renderer_pytorch.py b/deodr/pytorch/differentiable_renderer_pytorch.py
index 1ce09c2..89541bd 100644
--- a/deodr/pytorch/differentiable_renderer_pytorch.py
+++ b/deodr/pytorch/differentiable_renderer_pytorch.py
@@ -1,6 +1,7 @@
 # type: ignore
 """Pytorch interface to deodr."""
 
+import copy
 from typing import Any, List, Optional, Tuple, Union
 
 import numpy as np
@@ -48,11 +49,12 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
         nb_color_channels = colors.shape[1]
         image = np.empty((scene.scene_2d.height, scene.scene_2d.width, nb_color_channels))
         z_buffer = np.empty((scene.scene_2d.height, scene.scene_2d.width))
-        ctx.scene = scene
         scene.scene_2d.ij = ij.detach().numpy()  # should automatically detached according to
         # https://pytorch.org/docs/master/notes/extending.html
-        scene.colors = colors.detach().numpy()
+        scene.scene_2d.colors = colors.detach().numpy()
         differentiable_renderer_cython.renderSceneCpp(scene.scene_2d, 1, image, z_buffer)
+        # keeping the 2D scene of this call, as scene.scene_2d is replaced by the next rendering
+        ctx.scene_2d = copy.copy(scene.scene_2d)
         ctx.save_for_backward(ij, colors)
         ctx.image = image.copy()
         # making a copy to keep the antializaed image for visualization ,
@@ -64,16 +66,16 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
     def backward(ctx: Any, *grad_outputs: Any) -> Any:
         assert len(grad_outputs) == 1
         image_b = grad_outputs[0]
-        scene = ctx.scene
-        scene.scene_2d.uv_b = np.zeros(scene.scene_2d.uv.shape)
-        scene.scene_2d.ij_b = np.zeros(scene.scene_2d.ij.shape)
-        scene.scene_2d.shade_b = np.zeros(scene.scene_2d.shade.shape)
-        scene.scene_2d.colors_b = np.zeros(scene.scene_2d.colors.shape)
-        scene.scene_2d.texture_b = np.zeros(scene.scene_2d.texture.shape)
-        differentiable_renderer_cython.renderSceneBCpp(scene.scene_2d, 1, ctx.image, ctx.z_buffer, image_b.numpy())
+        scene_2d = ctx.scene_2d
+        scene_2d.uv_b = np.zeros(scene_2d.uv.shape)
+        scene_2d.ij_b = np.zeros(scene_2d.ij.shape)
+        scene_2d.shade_b = np.zeros(scene_2d.shade.shape)
+        scene_2d.colors_b = np.zeros(scene_2d.colors.shape)
+        scene_2d.texture_b = np.zeros(scene_2d.texture.shape)
+        differentiable_renderer_cython.renderSceneBCpp(scene_2d, 1, ctx.image, ctx.z_buffer, image_b.numpy())
         return (
-            torch.as_tensor(scene.scene_2d.ij_b),
-            torch.as_tensor(scene.scene_2d.colors_b),
+            torch.as_tensor(scene_2d.ij_b),
+            torch.as_tensor(scene_2d.colors_b),
             None,
         )
 
-- 
2.43.0


From 2366a5103a82c7f53ddec26b5ed68b4587c10e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 20/30] fix: pytorch backward modified the incoming gradient
 and its saved image, and failed on non-contiguous gradients

---
 deodr/pytorch/differentiable_renderer_pytorch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deodr/pytorch/differentiable_renderer_pytorch.py b/deodr/pytorch/differentiable_renderer_pytorch.py
index 89541bd..1cbe44a 100644
--- a/deodr/pytorch/differentiable_renderer_pytorch.py
+++ b/deodr/pytorch/differentiable_renderer_pytorch.py
@@ -65,14 +65,15 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
     @staticmethod
     def backward(ctx: Any, *grad_outputs: Any) -> Any:
         assert len(grad_outputs) == 1
-        image_b = grad_outputs[0]
+        # the c++ code needs contiguous arrays and overwrites the image and its gradient
+        image_b = np.array(grad_outputs[0].numpy(), dtype=np.float64, order="C")
         scene_2d = ctx.scene_2d
         scene_2d.uv_b = np.zeros(scene_2d.uv.shape)
         scene_2d.ij_b = np.zeros(scene_2d.ij.shape)
         scene_2d.shade_b = np.zeros(scene_2d.shade.shape)
         scene_2d.colors_b = np.zeros(scene_2d.colors.shape)
         scene_2d.texture_b = np.zeros(scene_2d.texture.shape)
-        differentiable_renderer_cython.renderSceneBCpp(scene_2d, 1, ctx.image, ctx.z_buffer, image_b.numpy())
+        differentiable_renderer_cython.renderSceneBCpp(scene_2d, 1, ctx.image.copy(), ctx.z_buffer, image_b)
         return (
             torch.as_tensor(scene_2d.ij_b),
             torch.as_tensor(scene_2d.colors_b),
-- 
2.43.0


From 07c8791a8288a6ac7780ea2aaf25e915691171f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 21/30] fix: the pytorch scene ignored its sigma

---
 deodr/pytorch/differentiable_renderer_pytorch.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/deodr/pytorch/differentiable_renderer_pytorch.py b/deodr/pytorch/differentiable_renderer_pytorch.py
index 1cbe44a..d188100 100644
--- a/deodr/pytorch/differentiable_renderer_pytorch.py
+++ b/deodr/pytorch/differentiable_renderer_pytorch.py
@@ -52,9 +52,10 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
         scene.scene_2d.ij = ij.detach().numpy()  # should automatically detached according to
         # https://pytorch.org/docs/master/notes/extending.html
         scene.scene_2d.colors = colors.detach().numpy()
-        differentiable_renderer_cython.renderSceneCpp(scene.scene_2d, 1, image, z_buffer)
+        differentiable_renderer_cython.renderSceneCpp(scene.scene_2d, scene.sigma, image, z_buffer)
         # keeping the 2D scene of this call, as scene.scene_2d is replaced by the next rendering
         ctx.scene_2d = copy.copy(scene.scene_2d)
+        ctx.sigma = scene.sigma
         ctx.save_for_backward(ij, colors)
         ctx.image = image.copy()
         # making a copy to keep the antializaed image for visualization ,
@@ -73,7 +74,7 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
         scene_2d.shade_b = np.zeros(scene_2d.shade.shape)
         scene_2d.colors_b = np.zeros(scene_2d.colors.shape)
         scene_2d.texture_b = np.zeros(scene_2d.texture.shape)
-        differentiable_renderer_cython.renderSceneBCpp(scene_2d, 1, ctx.image.copy(), ctx.z_buffer, image_b)
+        differentiable_renderer_cython.renderSceneBCpp(scene_2d, ctx.sigma, ctx.image.copy(), ctx.z_buffer, image_b)
         return (
             torch.as_tensor(scene_2d.ij_b),
             torch.as_tensor(scene_2d.colors_b),
-- 
2.43.0


From 29ed15cba5502a2311fa1fcddd2045641213e1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 22/30] fix: the adjacencies of pytorch meshes ignored the
 clockwise flag and the number of vertices

---
 deodr/pytorch/triangulated_mesh_pytorch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deodr/pytorch/triangulated_mesh_pytorch.py b/deodr/pytorch/triangulated_mesh_pytorch.py
index a7fa043..9e87861 100644
--- a/deodr/pytorch/triangulated_mesh_pytorch.py
+++ b/deodr/pytorch/triangulated_mesh_pytorch.py
@@ -22,8 +22,8 @@ class TriMeshAdjacenciesPytorch(TriMeshAdjacencies):
     Unlike the TriMesh class there are no vertices stored in this class.
     """
 
-    def __init__(self, faces: np.ndarray, clockwise: bool = False):
-        super().__init__(faces, clockwise)
+    def __init__(self, faces: np.ndarray, clockwise: bool = False, nb_vertices: Optional[int] = None):
+        super().__init__(faces, clockwise, nb_vertices)
         self.faces_torch = torch.LongTensor(faces)
         i = self.faces_torch.flatten()
         j = torch.LongTensor(np.tile(np.arange(self.nb_faces)[:, None], [1, 3]).flatten())
@@ -76,7 +76,7 @@ class ColoredTriMeshPytorch(ColoredTriMesh):
         )
 
     def compute_adjacencies(self) -> None:
-        self._adjacencies = TriMeshAdjacenciesPytorch(self.faces)
+        self._adjacencies = TriMeshAdjacenciesPytorch(self.faces, self.clockwise, nb_vertices=self.nb_vertices)
 
     def set_vertices_colors(self, colors: torch.Tensor) -> None:
         self.vertices_colors = colors
-- 
2.43.0


From ee52e6ce3163fc5d4393e9ac343b756e9ea232c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 23/30] fix: pytorch face normals of a mesh with three faces
 were computed along the wrong dimension

---
 deodr/pytorch/triangulated_mesh_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/pytorch/triangulated_mesh_pytorch.py b/deodr/pytorch/triangulated_mesh_pytorch.py
index 9e87861..bd1da11 100644
--- a/deodr/pytorch/triangulated_mesh_pytorch.py
+++ b/deodr/pytorch/triangulated_mesh_pytorch.py
@@ -37,7 +37,7 @@ class TriMeshAdjacenciesPytorch(TriMeshAdjacencies):
         triangles = vertices[self.faces_torch, :]
         u = triangles[::, 1] - triangles[::, 0]
         v = triangles[::, 2] - triangles[::, 0]
-        n = -torch.cross(u, v) if self.clockwise else torch.cross(u, v)
+        n = -torch.cross(u, v, dim=1) if self.clockwise else torch.cross(u, v, dim=1)
         l2 = (n**2).sum(dim=1)
         norm = l2.sqrt()
         return n / norm[:, None]
-- 
2.43.0


From 01dc020f514e0ea64d29526b1aaa1262b95f7a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:46 +0000
Subject: [PATCH 24/30] fix: the pytorch rigid energy failed on vertices that
 require a gradient

---
 deodr/pytorch/laplacian_rigid_energy_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/pytorch/laplacian_rigid_energy_pytorch.py b/deodr/pytorch/laplacian_rigid_energy_pytorch.py
index 77795b6..c43cf47 100644
--- a/deodr/pytorch/laplacian_rigid_energy_pytorch.py
+++ b/deodr/pytorch/laplacian_rigid_energy_pytorch.py
@@ -36,7 +36,7 @@ class LaplacianRigidEnergyPytorch:
     ) -> Tuple[torch.Tensor, torch.Tensor, torch.Tensor]:
         assert isinstance(vertices, torch.Tensor)
         if vertices.requires_grad:
-            diff = (vertices - self.numpy_imp.vertices_ref).flatten()
+            diff = (vertices - torch.tensor(self.numpy_imp.vertices_ref)).flatten()
             grad_vertices = self.numpy_imp.cregu * (self.cT_torch.matmul(diff[:, None])).reshape_as(vertices)
         else:
             diff = (vertices - torch.tensor(self.numpy_imp.vertices_ref)).flatten()
-- 
2.43.0


From 02b38670b2b5621cdc2327457bbf6d4c50899ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 25/30] fix: PerspectiveCamera placed the camera at the wrong
 centre for rotations that are not symmetric

---
 deodr/differentiable_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 50b9567..2741c8e 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -485,7 +485,7 @@ class PerspectiveCamera(Camera):
         focal_x = focal
         pixel_aspect_ratio = 1
         focal_y = focal * pixel_aspect_ratio
-        trans = -rot.T.dot(camera_center)
+        trans = -rot.dot(camera_center)
         cx = width / 2
         cy = height / 2
         intrinsic = np.array([[focal_x, 0, cx], [0, focal_y, cy], [0, 0, 1]])
-- 
2.43.0


From 8f60a36328822f39da9fe45b26e7cfcc01d46769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:00 +0000
Subject: [PATCH 26/30] fix: loop subdivision pulled the boundary edges of open
 meshes towards the origin

---
 deodr/triangulated_mesh.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 96b8e37..691d995 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -515,6 +515,11 @@ def loop_subdivision(mesh: ColoredTriMesh, n_iter: int = 1) -> ColoredTriMesh:
     edge_mid_points = (mesh.adjacencies.edges_faces_ones * (mesh.adjacencies._vertices_faces.T * mesh.vertices) / 8) + (
         1 / 8
     ) * np.sum(mesh.vertices[mesh.adjacencies.edges, :], axis=1)
+    # an edge with a single face lacks the second opposite vertex, use the middle of the edge
+    is_boundary_edge = np.array(np.sum(mesh.adjacencies.edges_faces_ones, axis=1) == 1)
+    edge_mid_points = np.where(
+        is_boundary_edge, 0.5 * np.sum(mesh.vertices[mesh.adjacencies.edges, :], axis=1), edge_mid_points
+    )
 
     # edge_mid_points = 0.5 * np.sum(self.vertices[self.adjacencies.edges, :], axis=1)
 
-- 
2.43.0


From 3b007328bf79882ff66265b74b0c6a674036317f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 27/30] fix: read_obj took texture coordinates and normals for
 vertices and misplaced negative indices

---
 deodr/obj.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/deodr/obj.py b/deodr/obj.py
index 0651322..33bd409 100644
--- a/deodr/obj.py
+++ b/deodr/obj.py
@@ -26,7 +26,7 @@ def read_obj(filename: str) -> Tuple[np.ndarray, np.ndarray]:
         while line.endswith("\\"):
             # Remove backslash and concatenate with next line
             line = line[:-1] + fid.readline()
-        if line.startswith("v"):
+        if line.startswith(("v ", "v\t")):
             coord = line.split()
             coord.pop(0)
             node_counter += 1
@@ -39,9 +39,9 @@ def read_obj(filename: str) -> Tuple[np.ndarray, np.ndarray]:
             # in some obj faces are defined as -70//-70 -69//-69 -62//-62
             cleaned_fields: List[int] = []
             for f in fields:
-                v = int(f.split("/")[0]) - 1
-                if v < 0:
-                    v = node_counter + v
+                v = int(f.split("/")[0])
+                # negative indices are relative to the end of the list of vertices
+                v = node_counter + v if v < 0 else v - 1
                 cleaned_fields.append(v)
             faces.append(np.array(cleaned_fields))
 
-- 
2.43.0


From 851acaa67e5e733e9ffabff8afb67ce8e00e2bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 28/30] fix: read_obj did not join lines continued with a
 backslash

---
 deodr/obj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deodr/obj.py b/deodr/obj.py
index 33bd409..d823ecc 100644
--- a/deodr/obj.py
+++ b/deodr/obj.py
@@ -23,9 +23,9 @@ def read_obj(filename: str) -> Tuple[np.ndarray, np.ndarray]:
         line = fid.readline()
         if not line:
             break
-        while line.endswith("\\"):
+        while line.endswith("\\\n"):
             # Remove backslash and concatenate with next line
-            line = line[:-1] + fid.readline()
+            line = line[:-2] + fid.readline()
         if line.startswith(("v ", "v\t")):
             coord = line.split()
             coord.pop(0)
-- 
2.43.0


From 06f11f3d1f9d495903d1fb9803fa9715bdb21927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 29/30] fix: texture coordinates given to pyrender were divided
 by the wrong texture dimensions

---
 deodr/opengl/pyrender.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deodr/opengl/pyrender.py b/deodr/opengl/pyrender.py
index b9a1cef..d23f2e4 100644
--- a/deodr/opengl/pyrender.py
+++ b/deodr/opengl/pyrender.py
@@ -71,8 +71,8 @@ def deodr_mesh_to_pyrender(deodr_mesh: ColoredTriMesh) -> pyrender.Mesh:
     uv = deodr_mesh.uv[mask_vt]
     pyrender_uv = np.column_stack(
         (
-            (uv[:, 0]) / deodr_mesh.texture.shape[0],
-            (1 - uv[:, 1] / deodr_mesh.texture.shape[1]),
+            (uv[:, 0] + 0.5) / deodr_mesh.texture.shape[1],
+            1 - (uv[:, 1] + 0.5) / deodr_mesh.texture.shape[0],
         )
     )
 
-- 
2.43.0


From 970c7820211ea477e02baa1882c28e13ebf1d4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:46 +0000
Subject: [PATCH 30/30] fix: perspective-correct edges read past the two depths
 and shades of the edge

---
 C++/DifferentiableRenderer.h | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 6236048..b980f4b 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -431,12 +431,24 @@ inline void elementwise_inverse_vec3(const double input[3], double ouput[3])
 		ouput[i] = 1 / input[i];
 }
 
+inline void elementwise_inverse_vec2(const double input[2], double ouput[2])
+{
+	for (int i = 0; i < 2; i++)
+		ouput[i] = 1 / input[i];
+}
+
 inline void elementwise_prod_vec3(const double input1[3], const double input2[3], double ouput[3])
 {
 	for (int i = 0; i < 3; i++)
 		ouput[i] = input1[i] * input2[i];
 }
 
+inline void elementwise_prod_vec2(const double input1[2], const double input2[2], double ouput[2])
+{
+	for (int i = 0; i < 2; i++)
+		ouput[i] = input1[i] * input2[i];
+}
+
 inline short int saturate_to_short(double x)
 {
 	// conversion to short that keeps values outside the image outside instead of wrapping around
@@ -1572,8 +1584,8 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 
 	if (perspective_correct)
 	{
-		double inv_Zvertex[3];
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
+		double inv_Zvertex[2];
+		elementwise_inverse_vec2(Zvertex, inv_Zvertex);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 
 		xy1_to_A = new double[3 * sizeA];
@@ -1815,11 +1827,11 @@ void rasterize_edge_textured_gouraud(double Vxy[][2], double Zvertex[2], double
 	double T_inc = xy1_to_transp[0];
 	if (perspective_correct)
 	{
-		double inv_Zvertex[3];
-		double ShadeVertex_div_z[3];
+		double inv_Zvertex[2];
+		double ShadeVertex_div_z[2];
 
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
-		elementwise_prod_vec3(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
+		elementwise_inverse_vec2(Zvertex, inv_Zvertex);
+		elementwise_prod_vec2(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 		mul_matrix(1, 2, 3, xy1_to_L, ShadeVertex_div_z, xy1_to_bary);
 
@@ -2102,10 +2114,10 @@ void rasterize_edge_textured_gouraud_error(double Vxy[][2], double Zvertex[2], d
 
 	if (perspective_correct)
 	{
-		double inv_Zvertex[3];
-		double ShadeVertex_div_z[3];
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
-		elementwise_prod_vec3(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
+		double inv_Zvertex[2];
+		double ShadeVertex_div_z[2];
+		elementwise_inverse_vec2(Zvertex, inv_Zvertex);
+		elementwise_prod_vec2(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 		mul_matrix(1, 2, 3, xy1_to_L, ShadeVertex_div_z, xy1_to_bary);
 
@@ -2402,8 +2414,8 @@ void rasterize_edge_interpolated_error(double Vxy[][2], double Zvertex[2], T *Av
 
 	if (perspective_correct)
 	{
-		double inv_Zvertex[3];
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
+		double inv_Zvertex[2];
+		elementwise_inverse_vec2(Zvertex, inv_Zvertex);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 		for (int i = 0; i < sizeA; i++)
 		{
-- 
2.43.0

