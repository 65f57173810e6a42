From a72ae4c090982054e40ba01fed4c7214c5ccacf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:57 +0000
Subject: [PATCH 01/59] fix: do not draw triangles with a vertex behind the
 camera when backface culling is off

---
 C++/DifferentiableRenderer.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 9140bfb..4cb0016 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -2747,6 +2747,8 @@ void renderScene(Scene scene, double *image, double *z_buffer, double sigma, boo
 	sum_depth.resize(scene.nb_triangles);
 	vector<double> signedAreaV;
 	signedAreaV.resize(scene.nb_triangles);
+	vector<bool> inFrontV;
+	inFrontV.resize(scene.nb_triangles);
 
 	for (int k = 0; k < scene.nb_triangles; k++)
 	{
@@ -2764,6 +2766,7 @@ void renderScene(Scene scene, double *image, double *z_buffer, double sigma, boo
 			}
 			sum_depth[k].value += scene.depths[face[i]];
 		}
+		inFrontV[k] = all_verticesInFront;
 		if (all_verticesInFront)
 		{
 			double ij[3][2];
@@ -2783,7 +2786,7 @@ void renderScene(Scene scene, double *image, double *z_buffer, double sigma, boo
 	float pixel_center_offset = scene.integer_pixel_centers ? 0 : 0.5;
 
 	for (int k = 0; k < scene.nb_triangles; k++)
-		if ((signedAreaV[k] > 0) || (!scene.backface_culling))
+		if (inFrontV[k] && ((signedAreaV[k] > 0) || (!scene.backface_culling)))
 		{
 			unsigned int *face = &scene.faces[k * 3];
 			double ij[3][2];
-- 
2.43.0


From f76953b3f26e4328d03d75b73122594c1c91e6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 02/59] fix: without strict_edge do not draw the last column of
 a triangle outside its left edge

---
 C++/DifferentiableRenderer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 4cb0016..10c13e5 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -892,7 +892,7 @@ inline void get_xrange(int width, const double *left_eq, const double *right_eq,
 	else
 	{
 		// pixels falling exactly on an edge shared by two triangle will be drawn twice
-		temp_x = ceil_div(numerator, left_eq[0], x_min - 1, x_max);
+		temp_x = ceil_div(numerator, left_eq[0], x_min - 1, x_max + 1);
 	}
 	if (temp_x > x_begin)
 		x_begin = temp_x;
-- 
2.43.0


From f9f206a3095c17124d9da2bf7b970a6508efb979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 03/59] fix: without strict_edge draw the row of the middle
 vertex once and ignore horizontal edges as bounds

---
 C++/DifferentiableRenderer.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 10c13e5..99b23b0 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -704,8 +704,15 @@ void get_triangle_stencil_equations(double Vxy[][2], double bary_to_xy1[9], doub
 	{
 		y_begin[1] = (short)floor(y_sorted[1]) + 1;
 	}
+	else if (y_sorted[0] < y_sorted[1])
+	{
+		// the row of the middle vertex belongs to the upper part only
+		y_begin[1] = (short)floor(y_sorted[1]) + 1;
+	}
 	else
 	{
+		// flat top: the upper part is empty, its horizontal edge does not bound the row
+		y_end[0] = y_begin[0] - 1;
 		y_begin[1] = (short)ceil(y_sorted[1]);
 	}
 	y_end[1] = (short)floor(y_sorted[2]);
-- 
2.43.0


From 12b7c6695e22e0c1e7ade8bd4f19242f014ccd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:58 +0000
Subject: [PATCH 04/59] fix: bilinear sampling of textures with a single row or
 column read out of bounds

---
 C++/DifferentiableRenderer.h | 88 ++++++++++++++++--------------------
 1 file changed, 38 insertions(+), 50 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 99b23b0..cab3542 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -518,42 +518,50 @@ short int ceil_div(double a, double b, int x_min, int x_max)
 	return x;
 }
 
+inline void texture_cell(double p, int size, int &fp, int &step, double &e, bool &out)
+{
+	// integer and fractional part of a texture coordinate, clamped to the texture domain
+	// step is the offset to the next texel, zero if the texture has a single texel in that direction
+	step = (size > 1) ? 1 : 0;
+	out = true;
+	if (!(p >= 0))
+	{
+		fp = 0;
+		e = 0;
+	}
+	else if (p >= size - 1)
+	{
+		fp = size - 1 - step;
+		e = step;
+	}
+	else
+	{
+		out = false;
+		fp = (int)p;
+		e = p - fp;
+	}
+}
+
 template <class T>
 void bilinear_sample(T *A, T I[], int *I_size, double p[2], int sizeA)
 {
 
-	// compute integer part and fractional part
+	// compute integer part and fractional part, projected inside the texture domain. we could periodize texture
 
 	int fp[2];
+	int step[2];
 	double e[2];
+	bool out[2];
 
 	for (int k = 0; k < 2; k++)
-	{
-		fp[k] = (int)floor(p[k]);
-		e[k] = p[k] - fp[k];
-	}
+		texture_cell(p[k], I_size[k], fp[k], step[k], e[k], out[k]);
 
-	//  if outside the texture domain then project inside. we could periodize texture
-
-	for (int k = 0; k < 2; k++)
-	{
-		if (fp[k] < 0)
-		{
-			fp[k] = 0;
-			e[k] = 0;
-		}
-		if (fp[k] > I_size[k] - 2)
-		{
-			fp[k] = I_size[k] - 2;
-			e[k] = 1;
-		}
-	}
 	// bilinear interpolation
 
 	int indx00 = sizeA * (fp[0] + I_size[0] * fp[1]);
-	int indx10 = sizeA * (fp[0] + 1 + I_size[0] * fp[1]);
-	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + 1));
-	int indx11 = sizeA * (fp[0] + 1 + I_size[0] * (fp[1] + 1));
+	int indx10 = sizeA * (fp[0] + step[0] + I_size[0] * fp[1]);
+	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + step[1]));
+	int indx11 = sizeA * (fp[0] + step[0] + I_size[0] * (fp[1] + step[1]));
 
 	for (int k = 0; k < sizeA; k++)
 		A[k] = ((1 - e[0]) * I[indx00 + k] + e[0] * I[indx10 + k]) * (1 - e[1]) + ((1 - e[0]) * I[indx01 + k] + e[0] * I[indx11 + k]) * e[1];
@@ -563,43 +571,23 @@ template <class T>
 void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], double p_B[2], int sizeA)
 {
 
-	// compute integer part and fractional part
+	// compute integer part and fractional part, projected inside the texture domain. we could periodize texture
 
 	int fp[2];
+	int step[2];
 	double e[2];
 	double e_B[2] = {0};
-	int out[2] = {0};
+	bool out[2];
 
 	for (int k = 0; k < 2; k++)
-	{
-		fp[k] = (int)floor(p[k]);
-		e[k] = p[k] - fp[k];
-	}
-
-	//  if outside the texture domain then project inside. we could periodize texture
-
-	for (int k = 0; k < 2; k++)
-	{
-		if (fp[k] < 0)
-		{
-			out[k] = true;
-			fp[k] = 0;
-			e[k] = 0;
-		}
-		if (fp[k] > I_size[k] - 2)
-		{
-			out[k] = true;
-			fp[k] = I_size[k] - 2;
-			e[k] = 1;
-		}
-	}
+		texture_cell(p[k], I_size[k], fp[k], step[k], e[k], out[k]);
 
 	// bilinear interpolation
 
 	int indx00 = sizeA * (fp[0] + I_size[0] * fp[1]);
-	int indx10 = sizeA * (fp[0] + 1 + I_size[0] * fp[1]);
-	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + 1));
-	int indx11 = sizeA * (fp[0] + 1 + I_size[0] * (fp[1] + 1));
+	int indx10 = sizeA * (fp[0] + step[0] + I_size[0] * fp[1]);
+	int indx01 = sizeA * (fp[0] + I_size[0] * (fp[1] + step[1]));
+	int indx11 = sizeA * (fp[0] + step[0] + I_size[0] * (fp[1] + step[1]));
 
 	//for(int k=0;k<sizeA;k++)
 	//	A[k]=( (1-e[0])*I[indx00+k] + e[0]*I[indx10+k] )*(1-e[1])+( (1-e[0])*I[indx01+k] + e[0]*I[indx11+k] )*e[1];
-- 
2.43.0


From 6cfa5cc0b022c28bd8bbb94ddb180363a681f765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 05/59] fix: antialiased edges parallel to an image axis were
 not blended

---
 C++/DifferentiableRenderer.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index cab3542..98ae4d2 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -2623,7 +2623,15 @@ void get_edge_xrange_from_ineq(double ineq[12], int width, int y, int &x_begin,
 	for (short int k = 0; k < 4; k++)
 	{
 		numerator = -(ineq[3 * k + 1] * y + ineq[3 * k + 2]);
-		if (ineq[3 * k] < 0)
+		if (ineq[3 * k] == 0)
+		{
+			// the inequality does not depend on x
+			if (numerator >= 0)
+			{
+				x_end = x_begin - 1;
+			}
+		}
+		else if (ineq[3 * k] < 0)
 		{
 			short int temp_x = floor_div(numerator, ineq[3 * k], x_begin - 1, x_end + 1);
 			if (temp_x < x_end)
-- 
2.43.0


From 9e7e2bb673cc81f12f6b2677a4318c0ee0fc09d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:21 +0000
Subject: [PATCH 06/59] fix: accumulate the texture gradient over the pixels
 that sample the same texel

---
 C++/DifferentiableRenderer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 98ae4d2..b3000a4 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -606,10 +606,10 @@ void bilinear_sample_B(T *A, T *A_B, T I[], T I_B[], int *I_size, double p[2], d
 		e_B[0] += t1_B * (I[indx10 + k] - I[indx00 + k]);
 		e_B[0] += t2_B * (I[indx11 + k] - I[indx01 + k]);
 
-		I_B[indx00 + k] = (1 - e[0]) * (1 - e[1]) * A_B[k];
-		I_B[indx10 + k] = e[0] * (1 - e[1]) * A_B[k];
-		I_B[indx01 + k] = (1 - e[0]) * e[1] * A_B[k];
-		I_B[indx11 + k] = e[0] * e[1] * A_B[k];
+		I_B[indx00 + k] += (1 - e[0]) * (1 - e[1]) * A_B[k];
+		I_B[indx10 + k] += e[0] * (1 - e[1]) * A_B[k];
+		I_B[indx01 + k] += (1 - e[0]) * e[1] * A_B[k];
+		I_B[indx11 + k] += e[0] * e[1] * A_B[k];
 	}
 	for (int k = 0; k < 2; k++)
 	{
-- 
2.43.0


From 4098b6ae82f6f38193bd2f91e9e8ac08178ce926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:53 +0000
Subject: [PATCH 07/59] fix: non finite gradients when a pixel center lies
 exactly on an antialiased edge

---
 C++/DifferentiableRenderer.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index b3000a4..776ef93 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -2648,6 +2648,17 @@ void get_edge_xrange_from_ineq(double ineq[12], int width, int y, int &x_begin,
 			}
 		}
 	}
+
+	// pixels on the edge itself are outside the band: their transparency is zero
+	// and the color they had before drawing the edge could not be restored
+	while ((x_begin <= x_end) && (ineq[6] * x_begin + (ineq[7] * y + ineq[8]) <= 0))
+	{
+		x_begin++;
+	}
+	while ((x_begin <= x_end) && (ineq[6] * x_end + (ineq[7] * y + ineq[8]) <= 0))
+	{
+		x_end--;
+	}
 }
 
 struct sortdata
-- 
2.43.0


From 7a258f9c8fae7013fe7fa6f1fe99915097030724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:45 +0000
Subject: [PATCH 08/59] fix: uv gradient of faces that use the same uv index at
 several corners

---
 C++/DifferentiableRenderer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 776ef93..7af1902 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -3013,7 +3013,7 @@ void renderScene_B(Scene scene, double *image, double *z_buffer, double *image_b
 								for (int j = 0; j < 2; j++)
 								{
 									uv[i][j] = scene.uv[face_uv[sub[i]] * 2 + j];
-									uv_b[i][j] = scene.uv_b[face_uv[sub[i]] * 2 + j];
+									uv_b[i][j] = 0;
 								}
 
 							double shade[2];
@@ -3036,7 +3036,7 @@ void renderScene_B(Scene scene, double *image, double *z_buffer, double *image_b
 							for (int i = 0; i < 2; i++)
 								for (int j = 0; j < 2; j++)
 								{
-									scene.uv_b[face_uv[sub[i]] * 2 + j] = uv_b[i][j];
+									scene.uv_b[face_uv[sub[i]] * 2 + j] += uv_b[i][j];
 								}
 							for (int i = 0; i < 2; i++)
 							{
@@ -3114,14 +3114,14 @@ void renderScene_B(Scene scene, double *image, double *z_buffer, double *image_b
 					for (int j = 0; j < 2; j++)
 					{
 						uv[i][j] = scene.uv[face_uv[i] * 2 + j];
-						uv_b[i][j] = scene.uv_b[face_uv[i] * 2 + j];
+						uv_b[i][j] = 0;
 					}
 
 				rasterize_triangle_textured_gouraud_B(ij, ij_b, depths, uv, uv_b, shade, shade_b, z_buffer, image, image_b, scene.height, scene.width, scene.nb_colors, scene.texture, scene.texture_b, Texture_size, scene.strict_edge, scene.perspective_correct);
 				for (int i = 0; i < 3; i++)
 					for (int j = 0; j < 2; j++)
 					{
-						scene.uv_b[face_uv[i] * 2 + j] = uv_b[i][j];
+						scene.uv_b[face_uv[i] * 2 + j] += uv_b[i][j];
 					}
 				for (int i = 0; i < 3; i++)
 					scene.shade_b[face[i]] = shade_b[i];
-- 
2.43.0


From 864934304a04c2d1782fe009f64ccb0286d5a6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:31 +0000
Subject: [PATCH 09/59] fix: backward passes with make_copies overwrote the
 adjoint given by the caller

---
 deodr/differentiable_renderer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 0022cca..39298b6 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -647,7 +647,7 @@ class Scene2D(Scene2DBase):
                 antialiase_error,
                 obs,
                 err_buffer.copy(),
-                err_buffer_b,
+                err_buffer_b.copy(),
             )
         else:
             renderSceneB(
@@ -679,7 +679,7 @@ class Scene2D(Scene2DBase):
                 sigma,
                 image.copy(),
                 z_buffer,
-                image_b,
+                image_b.copy(),
                 antialiase_error,
                 None,
                 None,
-- 
2.43.0


From c1f966602e7f9d6d0ab5cbd30422537aec8d4bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 10/59] fix: edge rasterization with perspective_correct read
 past the two edge vertices

---
 C++/DifferentiableRenderer.h | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 7af1902..2fa5d41 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -437,6 +437,18 @@ inline void elementwise_prod_vec3(const double input1[3], const double input2[3]
 		ouput[i] = input1[i] * input2[i];
 }
 
+inline void elementwise_inverse_vec2(const double input[2], double ouput[2])
+{
+	for (int k = 0; k < 2; k++)
+		ouput[k] = 1 / input[k];
+}
+
+inline void elementwise_prod_vec2(const double input1[2], const double input2[2], double ouput[2])
+{
+	for (int k = 0; k < 2; k++)
+		ouput[k] = input1[k] * input2[k];
+}
+
 short int floor_div(double a, double b, int x_min, int x_max)
 {
 
@@ -1554,8 +1566,8 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 
 	if (perspective_correct)
 	{
-		double inv_Zvertex[3];
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
+		double inv_Zvertex[2];
+		elementwise_inverse_vec2(Zvertex, inv_Zvertex);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 
 		xy1_to_A = new double[3 * sizeA];
@@ -1797,11 +1809,11 @@ void rasterize_edge_textured_gouraud(double Vxy[][2], double Zvertex[2], double
 	double T_inc = xy1_to_transp[0];
 	if (perspective_correct)
 	{
-		double inv_Zvertex[3];
-		double ShadeVertex_div_z[3];
+		double inv_Zvertex[2];
+		double ShadeVertex_div_z[2];
 
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
-		elementwise_prod_vec3(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
+		elementwise_inverse_vec2(Zvertex, inv_Zvertex);
+		elementwise_prod_vec2(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 		mul_matrix(1, 2, 3, xy1_to_L, ShadeVertex_div_z, xy1_to_bary);
 
@@ -2084,10 +2096,10 @@ void rasterize_edge_textured_gouraud_error(double Vxy[][2], double Zvertex[2], d
 
 	if (perspective_correct)
 	{
-		double inv_Zvertex[3];
-		double ShadeVertex_div_z[3];
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
-		elementwise_prod_vec3(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
+		double inv_Zvertex[2];
+		double ShadeVertex_div_z[2];
+		elementwise_inverse_vec2(Zvertex, inv_Zvertex);
+		elementwise_prod_vec2(inv_Zvertex, ShadeVertex, ShadeVertex_div_z);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 		mul_matrix(1, 2, 3, xy1_to_L, ShadeVertex_div_z, xy1_to_bary);
 
@@ -2384,8 +2396,8 @@ void rasterize_edge_interpolated_error(double Vxy[][2], double Zvertex[2], T *Av
 
 	if (perspective_correct)
 	{
-		double inv_Zvertex[3];
-		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
+		double inv_Zvertex[2];
+		elementwise_inverse_vec2(Zvertex, inv_Zvertex);
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 		for (int i = 0; i < sizeA; i++)
 		{
-- 
2.43.0


From 3fe14a3481601ad1dda190a775cafcc164dc91a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 11/59] fix: coordinates and image sizes beyond the range of 16
 bit integers

---
 C++/DifferentiableRenderer.h | 111 ++++++++++++++++++++---------------
 1 file changed, 63 insertions(+), 48 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 2fa5d41..0b2a709 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -449,16 +449,31 @@ inline void elementwise_prod_vec2(const double input1[2], const double input2[2]
 		ouput[k] = input1[k] * input2[k];
 }
 
-short int floor_div(double a, double b, int x_min, int x_max)
+inline int bounded_int(double v)
+{
+	// conversion of a coordinate that may exceed the range of integers, keeping some margin for further additions
+	const int bound = INT_MAX / 4;
+	if (v > bound)
+		return bound;
+	if (v > -bound)
+		return (int)v;
+	return -bound;
+}
+
+inline int floor_int(double v) { return bounded_int(floor(v)); }
+
+inline int ceil_int(double v) { return bounded_int(ceil(v)); }
+
+int floor_div(double a, double b, int x_min, int x_max)
 {
 
 	// robust implementation of min ( x_max, max (x_min, floor(a / b)))
 
-	short int x;
+	int x;
 
-	if (abs(b) * SHRT_MAX > abs(a) + abs(b))
+	if (abs(b) * INT_MAX > abs(a) + abs(b))
 	{
-		x = (short int)floor(a / b);
+		x = (int)floor(a / b);
 		if (x < x_min)
 		{
 			x = x_min;
@@ -490,15 +505,15 @@ short int floor_div(double a, double b, int x_min, int x_max)
 	return x;
 }
 
-short int ceil_div(double a, double b, int x_min, int x_max)
+int ceil_div(double a, double b, int x_min, int x_max)
 {
 	// robust implementation of min ( x_max, max (x_min, ceil(a / b)))
 
-	short int x;
+	int x;
 
-	if (abs(b) * SHRT_MAX > abs(a) + abs(b))
+	if (abs(b) * INT_MAX > abs(a) + abs(b))
 	{
-		x = (short int)ceil(a / b);
+		x = (int)ceil(a / b);
 		if (x < x_min)
 		{
 			x = x_min;
@@ -676,46 +691,46 @@ void get_triangle_stencil_equations(double Vxy[][2], double bary_to_xy1[9], doub
 	// computing x bounds
 	if (strict_edge)
 	{
-		x_min = (short)floor(x_sorted[0]);
+		x_min = floor_int(x_sorted[0]);
 	}
 	else
 	{
-		x_min = (short)ceil(x_sorted[0]);
+		x_min = ceil_int(x_sorted[0]);
 	}
 
-	x_max = (short)floor(x_sorted[2]);
+	x_max = floor_int(x_sorted[2]);
 
 	// limit upper part
 	if (strict_edge)
 	{
 
-		y_begin[0] = (short)floor(y_sorted[0]) + 1;
+		y_begin[0] = floor_int(y_sorted[0]) + 1;
 	}
 	else
 	{
 
-		y_begin[0] = (short)ceil(y_sorted[0]);
+		y_begin[0] = ceil_int(y_sorted[0]);
 	}
 
-	y_end[0] = (short)floor(y_sorted[1]);
+	y_end[0] = floor_int(y_sorted[1]);
 
 	// limit lower part
 	if (strict_edge)
 	{
-		y_begin[1] = (short)floor(y_sorted[1]) + 1;
+		y_begin[1] = floor_int(y_sorted[1]) + 1;
 	}
 	else if (y_sorted[0] < y_sorted[1])
 	{
 		// the row of the middle vertex belongs to the upper part only
-		y_begin[1] = (short)floor(y_sorted[1]) + 1;
+		y_begin[1] = floor_int(y_sorted[1]) + 1;
 	}
 	else
 	{
 		// flat top: the upper part is empty, its horizontal edge does not bound the row
 		y_end[0] = y_begin[0] - 1;
-		y_begin[1] = (short)ceil(y_sorted[1]);
+		y_begin[1] = ceil_int(y_sorted[1]);
 	}
-	y_end[1] = (short)floor(y_sorted[2]);
+	y_end[1] = floor_int(y_sorted[2]);
 
 	// set left_edge_id and right_edge_id
 
@@ -868,11 +883,11 @@ void rasterize_triangle_interpolated_B(double Vxy[][2], double Vxy_B[][2], doubl
 	delete[] xy1_to_A_B;
 }
 
-inline void get_xrange(int width, const double *left_eq, const double *right_eq, short int y, bool strict_edge, short int x_min, short int x_max, short int &x_begin, short int &x_end)
+inline void get_xrange(int width, const double *left_eq, const double *right_eq, int y, bool strict_edge, int x_min, int x_max, int &x_begin, int &x_end)
 {
 	// compute beginning and ending of the rasterized line
 
-	short int temp_x;
+	int temp_x;
 
 	double numerator;
 
@@ -917,7 +932,7 @@ inline void render_part_interpolated(double *image, double *z_buffer, int x_min,
 	double t[3];
 	double *A0y;
 	double Z0y;
-	short int x_begin, x_end;
+	int x_begin, x_end;
 	double Z;
 	A0y = new double[sizeA];
 
@@ -929,7 +944,7 @@ inline void render_part_interpolated(double *image, double *z_buffer, int x_min,
 	{
 		y_end = height - 1;
 	}
-	for (short int y = y_begin; y <= y_end; y++)
+	for (int y = y_begin; y <= y_end; y++)
 	{
 		// Line rasterization setup for interpolated values
 
@@ -948,7 +963,7 @@ inline void render_part_interpolated(double *image, double *z_buffer, int x_min,
 
 		int indx = y * width + x_begin;
 		if (perspective_correct)
-			for (short int x = x_begin; x <= x_end; x++)
+			for (int x = x_begin; x <= x_end; x++)
 			{
 				double inv_Z = Z0y + xy1_to_Z[0] * x;
 				Z = 1 / (inv_Z);
@@ -962,7 +977,7 @@ inline void render_part_interpolated(double *image, double *z_buffer, int x_min,
 			}
 		else
 		{
-			for (short int x = x_begin; x <= x_end; x++)
+			for (int x = x_begin; x <= x_end; x++)
 			{
 				Z = Z0y + xy1_to_Z[0] * x;
 				if (Z < z_buffer[indx])
@@ -984,7 +999,7 @@ inline void render_part_interpolated_B(double *image, double *image_B, double *z
 	//double *A0y;
 	double *A0y_B;
 	double Z0y;
-	short int x_begin, x_end;
+	int x_begin, x_end;
 	double Z;
 
 	if (perspective_correct)
@@ -1004,7 +1019,7 @@ inline void render_part_interpolated_B(double *image, double *image_B, double *z
 		y_end = height - 1;
 	}
 
-	for (short int y = y_begin; y <= y_end; y++)
+	for (int y = y_begin; y <= y_end; y++)
 	{
 		// Line rasterization setup for interpolated values
 
@@ -1025,7 +1040,7 @@ inline void render_part_interpolated_B(double *image, double *image_B, double *z
 		//rasterize line
 
 		int indx = y * width + x_begin;
-		for (short int x = x_begin; x <= x_end; x++)
+		for (int x = x_begin; x <= x_end; x++)
 		{
 			Z = Z0y + xy1_to_Z[0] * x;
 			if (Z == z_buffer[indx])
@@ -1168,7 +1183,7 @@ inline void render_part_textured_gouraud(double *image, double *z_buffer, int x_
 	double t[3];
 	double L0y;
 	double Z0y;
-	short int x_begin, x_end;
+	int x_begin, x_end;
 	double Z;
 	double *A;
 	double UV0y[2];
@@ -1184,7 +1199,7 @@ inline void render_part_textured_gouraud(double *image, double *z_buffer, int x_
 		y_end = height - 1;
 	}
 
-	for (short int y = y_begin; y <= y_end; y++)
+	for (int y = y_begin; y <= y_end; y++)
 	{
 
 		// Line rasterization setup for interpolated values
@@ -1212,7 +1227,7 @@ inline void render_part_textured_gouraud(double *image, double *z_buffer, int x_
 		int indx = y * width + x_begin;
 		if (perspective_correct)
 		{
-			for (short int x = x_begin; x <= x_end; x++)
+			for (int x = x_begin; x <= x_end; x++)
 			{
 				double inv_Z = Z0y + xy1_to_Z[0] * x;
 				Z = 1 / inv_Z;
@@ -1237,7 +1252,7 @@ inline void render_part_textured_gouraud(double *image, double *z_buffer, int x_
 		}
 		else
 		{
-			for (short int x = x_begin; x <= x_end; x++)
+			for (int x = x_begin; x <= x_end; x++)
 			{
 
 				Z = Z0y + xy1_to_Z[0] * x;
@@ -1269,7 +1284,7 @@ inline void render_part_textured_gouraud_B(double *image, double *image_B, doubl
 	double t[3];
 	double L0y;
 	double Z0y;
-	short int x_begin, x_end;
+	int x_begin, x_end;
 	double Z;
 	double *A;
 	double *A_B;
@@ -1293,7 +1308,7 @@ inline void render_part_textured_gouraud_B(double *image, double *image_B, doubl
 		y_end = height - 1;
 	}
 
-	for (short int y = y_begin; y <= y_end; y++)
+	for (int y = y_begin; y <= y_end; y++)
 	{
 
 		// Line rasterization setup for interpolated values
@@ -1321,7 +1336,7 @@ inline void render_part_textured_gouraud_B(double *image, double *image_B, doubl
 		// line rasterization
 
 		int indx = y * width + x_begin;
-		for (short int x = x_begin; x <= x_end; x++)
+		for (int x = x_begin; x <= x_end; x++)
 		{
 			Z = Z0y + xy1_to_Z[0] * x;
 			if (Z == z_buffer[indx])
@@ -1447,7 +1462,7 @@ void get_edge_stencil_equations(double Vxy[][2], int height, int width, double s
 	for (short int k = 0; k < 2; k++)
 	{
 		if (Vxy[k][1] - sigma < y_begin)
-			y_begin = (int)floor(Vxy[k][1] - sigma) + 1;
+			y_begin = floor_int(Vxy[k][1] - sigma) + 1;
 	}
 	if (y_begin < 0)
 	{
@@ -1458,7 +1473,7 @@ void get_edge_stencil_equations(double Vxy[][2], int height, int width, double s
 	for (short int k = 0; k < 2; k++)
 	{
 		if (Vxy[k][1] + sigma > y_end)
-			y_end = (int)floor(Vxy[k][1] + sigma);
+			y_end = floor_int(Vxy[k][1] + sigma);
 	}
 	if (y_end > height - 1)
 	{
@@ -1592,7 +1607,7 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 			}
 	}
 
-	for (short int y = y_begin; y <= y_end; y++)
+	for (int y = y_begin; y <= y_end; y++)
 	{ // Line rasterization setup for interpolated values
 		double t[3];
 		double T0y, Z0y;
@@ -1613,7 +1628,7 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 		int indx = y * width + x_begin;
 		if (perspective_correct)
 		{
-			for (short int x = x_begin; x <= x_end; x++)
+			for (int x = x_begin; x <= x_end; x++)
 			{
 				double inv_Z = Z0y + xy1_to_Z[0] * x;
 				double Z = 1 / inv_Z;
@@ -1633,7 +1648,7 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 		}
 		else
 		{
-			for (short int x = x_begin; x <= x_end; x++)
+			for (int x = x_begin; x <= x_end; x++)
 			{
 				double Z = Z0y + xy1_to_Z[0] * x;
 				if (Z < z_buffer[indx])
@@ -1699,7 +1714,7 @@ void rasterize_edge_interpolated_B(double Vxy[][2], double Vxy_B[][2], Te image[
 				xy1_to_A[3 * i + j] += Avertex[k][i] * xy1_to_bary[k * 3 + j];
 		}
 
-	for (short int y = y_begin; y <= y_end; y++)
+	for (int y = y_begin; y <= y_end; y++)
 	{ // Line rasterization setup for interpolated values
 		double t[3];
 		double T0y, Z0y;
@@ -1722,7 +1737,7 @@ void rasterize_edge_interpolated_B(double Vxy[][2], double Vxy_B[][2], Te image[
 		//rasterize line
 
 		int indx = y * width + x_begin;
-		for (short int x = x_begin; x <= x_end; x++)
+		for (int x = x_begin; x <= x_end; x++)
 		{
 			double Z = Z0y + xy1_to_Z[0] * x;
 			if (Z < z_buffer[indx])
@@ -1841,7 +1856,7 @@ void rasterize_edge_textured_gouraud(double Vxy[][2], double Zvertex[2], double
 			}
 	}
 
-	for (short int y = y_begin; y <= y_end; y++)
+	for (int y = y_begin; y <= y_end; y++)
 	{ // Line rasterization setup for interpolated values
 
 		double t[3];
@@ -1869,7 +1884,7 @@ void rasterize_edge_textured_gouraud(double Vxy[][2], double Zvertex[2], double
 		//rasterize line
 
 		int indx = y * width + x_begin;
-		for (short int x = x_begin; x <= x_end; x++)
+		for (int x = x_begin; x <= x_end; x++)
 		{
 			double Z;
 			if (perspective_correct)
@@ -1962,7 +1977,7 @@ void rasterize_edge_textured_gouraud_B(double Vxy[][2], double Vxy_B[][2], doubl
 				xy1_to_UV[3 * i + j] += UVvertex[k][i] * xy1_to_bary[k * 3 + j];
 		}
 
-	for (short int y = y_begin; y <= y_end; y++)
+	for (int y = y_begin; y <= y_end; y++)
 	{ // Line rasterization setup for interpolated values
 
 		double t[3];
@@ -1993,7 +2008,7 @@ void rasterize_edge_textured_gouraud_B(double Vxy[][2], double Vxy_B[][2], doubl
 		//rasterize line
 
 		int indx = y * width + x_begin;
-		for (short int x = x_begin; x <= x_end; x++)
+		for (int x = x_begin; x <= x_end; x++)
 		{
 			double Z = Z0y + xy1_to_Z[0] * x;
 			if (Z < z_buffer[indx])
@@ -2531,7 +2546,7 @@ void rasterize_edge_interpolated_error_B(double Vxy[][2], double Vxy_B[][2], dou
 		}
 	}
 
-	for (short int y = y_begin; y <= y_end; y++)
+	for (int y = y_begin; y <= y_end; y++)
 	{
 		// Line rasterization setup for interpolated values
 
@@ -2645,7 +2660,7 @@ void get_edge_xrange_from_ineq(double ineq[12], int width, int y, int &x_begin,
 		}
 		else if (ineq[3 * k] < 0)
 		{
-			short int temp_x = floor_div(numerator, ineq[3 * k], x_begin - 1, x_end + 1);
+			int temp_x = floor_div(numerator, ineq[3 * k], x_begin - 1, x_end + 1);
 			if (temp_x < x_end)
 			{
 				x_end = temp_x;
@@ -2653,7 +2668,7 @@ void get_edge_xrange_from_ineq(double ineq[12], int width, int y, int &x_begin,
 		}
 		else
 		{
-			short int temp_x = 1 + floor_div(numerator, ineq[3 * k], x_begin - 1, x_end + 1);
+			int temp_x = 1 + floor_div(numerator, ineq[3 * k], x_begin - 1, x_end + 1);
 			if (temp_x > x_begin)
 			{
 				x_begin = temp_x;
-- 
2.43.0


From 9cd70cd1deceac25dce1bbc7b3c476bb207cf99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:03 +0000
Subject: [PATCH 12/59] fix: reject inconsistent scenes and unsupported
 gradients with an exception instead of aborting or reading out of bounds

---
 deodr/differentiable_renderer.py         | 29 ++++++++++++++++++++++--
 deodr/differentiable_renderer_cython.pyx |  4 ++--
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 39298b6..cee35fa 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -71,9 +71,15 @@ def renderScene(
         nb_vertices = scene.depths.shape[0]
         nb_vertices_uv = scene.uv.shape[0]
 
+        assert scene.height == height
+        assert scene.width == width
         assert scene.faces.dtype == np.uint32
+        assert scene.faces.shape == (nb_triangles, 3)
+        assert scene.faces_uv.shape == (nb_triangles, 3)
         assert np.all(scene.faces < nb_vertices)
         assert np.all(scene.faces_uv < nb_vertices_uv)
+        assert np.all(scene.faces_uv >= 0)
+        assert scene.depths.size == nb_vertices
 
         assert scene.colors.ndim == 2
         assert scene.uv.ndim == 2
@@ -103,13 +109,15 @@ def renderScene(
             assert scene.background_color is None, "You need to provide either background_image or background_color"
         else:
             assert scene.background_color is not None, "You need to provide background_image or background_color"
-            assert scene.background_color.shape[0] == nb_colors
+            assert scene.background_color.shape == (nb_colors,)
 
         if scene.texture.size > 0:
             assert scene.texture.ndim == 3
             assert scene.texture.shape[0] > 0
             assert scene.texture.shape[1] > 0
             assert scene.texture.shape[2] == nb_colors
+        else:
+            assert not np.any(scene.textured), "You need to provide a texture"
 
         assert z_buffer.shape[0] == height
         assert z_buffer.shape[1] == width
@@ -138,6 +146,10 @@ def renderSceneB(
     err_buffer_b: Optional[np.ndarray] = None,
     check_valid: bool = True,
 ) -> None:
+    if scene.perspective_correct:
+        raise BaseException("perspective_correct not supported yet for gradient back propagation")
+    if not scene.backface_culling:
+        raise BaseException("use backface_culling=True if you use gradient backpropagation")
     if check_valid:
         # doing checks here as it seems the debugger in not able to find the pyx file
         # when installed from a wheel. this also make interactive debugging easier
@@ -159,9 +171,15 @@ def renderSceneB(
         nb_vertices = scene.depths.shape[0]
         nb_vertices_uv = scene.uv.shape[0]
 
+        assert scene.height == height
+        assert scene.width == width
         assert scene.faces.dtype == np.uint32
+        assert scene.faces.shape == (nb_triangles, 3)
+        assert scene.faces_uv.shape == (nb_triangles, 3)
         assert np.all(scene.faces < nb_vertices)
         assert np.all(scene.faces_uv < nb_vertices_uv)
+        assert np.all(scene.faces_uv >= 0)
+        assert scene.depths.size == nb_vertices
 
         assert scene.colors.ndim == 2
         assert scene.uv.ndim == 2
@@ -191,7 +209,7 @@ def renderSceneB(
             assert scene.background_color is None, "You need to provide either background_image or background_color"
         else:
             assert scene.background_color is not None, "You need to provide background_image or background_color"
-            assert scene.background_color.shape[0] == nb_colors
+            assert scene.background_color.shape == (nb_colors,)
 
         assert scene.uv_b is not None
         assert scene.ij_b is not None
@@ -223,18 +241,25 @@ def renderSceneB(
             assert scene.texture.shape[1] == scene.texture_b.shape[1]
             assert scene.texture.shape[2] == nb_colors
             assert scene.texture_b.shape[2] == nb_colors
+        else:
+            assert not np.any(scene.textured), "You need to provide a texture"
 
         if antialiase_error:
             assert err_buffer is not None
+            assert err_buffer_b is not None
             assert obs is not None
             assert err_buffer.shape[0] == height
             assert err_buffer.shape[1] == width
+            assert err_buffer_b.shape[0] == height
+            assert err_buffer_b.shape[1] == width
             assert obs.shape[0] == height
             assert obs.shape[1] == width
+            assert obs.shape[2] == nb_colors
         else:
             assert image_b is not None
             assert image_b.shape[0] == height
             assert image_b.shape[1] == width
+            assert image_b.shape[2] == nb_colors
 
     differentiable_renderer_cython.renderSceneBCpp(
         scene,
diff --git a/deodr/differentiable_renderer_cython.pyx b/deodr/differentiable_renderer_cython.pyx
index f274249..d6b3d2c 100644
--- a/deodr/differentiable_renderer_cython.pyx
+++ b/deodr/differentiable_renderer_cython.pyx
@@ -41,8 +41,8 @@ cdef extern from "../C++/DifferentiableRenderer.h":
 		bool strict_edge
 		bool perspective_correct
 		bool integer_pixel_centers
-	void renderScene(Scene scene,double* image,double* z_buffer,double sigma,bool antialiase_error ,double* obs,double*  err_buffer)
-	void renderScene_B(Scene scene,double* image,double* z_buffer,double* image_b,double sigma,bool antialiase_error ,double* obs,double*  err_buffer, double* err_buffer_b)
+	void renderScene(Scene scene,double* image,double* z_buffer,double sigma,bool antialiase_error ,double* obs,double*  err_buffer) except +
+	void renderScene_B(Scene scene,double* image,double* z_buffer,double* image_b,double sigma,bool antialiase_error ,double* obs,double*  err_buffer, double* err_buffer_b) except +
 
 
 @cython.boundscheck(False)
-- 
2.43.0


From 89fea402d1976d8fe98ca29f80c77914009ed64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:51 +0000
Subject: [PATCH 13/59] fix: reject one dimensional textures, whose shape was
 read out of bounds

---
 deodr/differentiable_renderer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index cee35fa..cbab397 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -111,6 +111,7 @@ def renderScene(
             assert scene.background_color is not None, "You need to provide background_image or background_color"
             assert scene.background_color.shape == (nb_colors,)
 
+        assert scene.texture.ndim >= 2
         if scene.texture.size > 0:
             assert scene.texture.ndim == 3
             assert scene.texture.shape[0] > 0
@@ -231,6 +232,7 @@ def renderSceneB(
         assert scene.colors_b.shape[0] == nb_vertices
         assert scene.colors_b.shape[1] == nb_colors
 
+        assert scene.texture.ndim >= 2
         if scene.texture.size > 0:
             assert scene.texture_b is not None
             assert scene.texture.ndim == 3
-- 
2.43.0


From 10ea541a72e278f5f9b9e905ecb72dfd21ac15d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:56 +0000
Subject: [PATCH 14/59] fix: the camera projection gradient was transposed for
 non symmetric rotations and skew

---
 deodr/differentiable_renderer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index cbab397..2f83f5a 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -423,7 +423,7 @@ class Camera:
     ) -> np.ndarray:
         if self.distortion is None:
             p_camera, depths, projected = store_backward["project_points"]
-            projected_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2].T)  # not sure about transpose
+            projected_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2])
 
         else:
             p_camera, depths, projected, r2, radial_distortion = store_backward["project_points"]
@@ -436,7 +436,7 @@ class Camera:
             ) = self.distortion
             x = projected[:, 0]
             y = projected[:, 1]
-            distorted_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2].T)  # not sure about transpose
+            distorted_b = projected_image_coordinates_b.dot(self.intrinsic[:2, :2])
             distorted_x_b = distorted_b[:, 0]
             distorted_y_b = distorted_b[:, 1]
             x_b = distorted_x_b * radial_distortion
@@ -462,7 +462,7 @@ class Camera:
         )
         if depths_b is not None:
             p_camera_b[:, 2] += depths_b
-        return p_camera_b.dot(self.extrinsic[:3, :3].T)
+        return p_camera_b.dot(self.extrinsic[:3, :3])
 
     def get_center(self) -> np.ndarray:
         return -self.extrinsic[:3, :3].T.dot(self.extrinsic[:, 3])
-- 
2.43.0


From d5ab89bdec2497feafe5f26f8ddbed72647bba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:09 +0000
Subject: [PATCH 15/59] fix: PerspectiveCamera was not at the requested center
 for non symmetric rotations

---
 deodr/differentiable_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 2f83f5a..41959cb 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -512,7 +512,7 @@ class PerspectiveCamera(Camera):
         focal_x = focal
         pixel_aspect_ratio = 1
         focal_y = focal * pixel_aspect_ratio
-        trans = -rot.T.dot(camera_center)
+        trans = -rot.dot(camera_center)
         cx = width / 2
         cy = height / 2
         intrinsic = np.array([[focal_x, 0, cx], [0, focal_y, cy], [0, 0, 1]])
-- 
2.43.0


From 718d3ef71ebf71afe38651be4d42b53b8afbc9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:29 +0000
Subject: [PATCH 16/59] fix: vertices without faces had a negative degree and
 were adjacent to themselves

---
 deodr/triangulated_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 25806e8..c1d252b 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -83,7 +83,9 @@ class TriMeshAdjacencies:
             )
         )
         self.faces_edges = sparse.coo_matrix((id_edge, (id_faces, v)), shape=(self.nb_faces, 3)).todense()
-        self.adjacency_vertices = ((self._vertices_faces * self._vertices_faces.T) > 0) - sparse.eye(self.nb_vertices)
+        share_face = (self._vertices_faces * self._vertices_faces.T) > 0
+        # the diagonal is not all ones when some vertices do not belong to any face
+        self.adjacency_vertices = share_face - sparse.diags([share_face.diagonal().astype(np.float64)], [0])
 
         self.degree_v_f = self._vertices_faces.dot(np.ones((self.nb_faces)))
 
-- 
2.43.0


From 8c5aaf0d6041313050a21099e0fa6aaec9eb29fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:42 +0000
Subject: [PATCH 17/59] fix: meshes created with compute_adjacencies=False had
 no adjacencies attribute

---
 deodr/triangulated_mesh.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index c1d252b..214640b 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -193,6 +193,7 @@ class TriMesh:
         self.clockwise = clockwise
 
         self._vertices_b = np.zeros((self.nb_vertices, 3))
+        self._adjacencies: Optional[TriMeshAdjacencies] = None
 
         self.set_vertices(vertices)
         if compute_adjacencies:
@@ -216,6 +217,7 @@ class TriMesh:
     def adjacencies(self) -> TriMeshAdjacencies:
         if self._adjacencies is None:
             self.compute_adjacencies()
+        assert self._adjacencies is not None
         return self._adjacencies
 
     def set_vertices(self, vertices: np.ndarray) -> None:
@@ -231,7 +233,7 @@ class TriMesh:
         surfaces is a closed manifold. This is done by summing the volumes of the
         simplices formed by joining the origin and the vertices of each triangle.
         """
-        if not self._adjacencies.is_closed:
+        if not self.adjacencies.is_closed:
             raise (BaseException("The volume can only be computed for closed manifold surfaces"))
         return (
             (-1 if self.clockwise else 1)
-- 
2.43.0


From b21a246c993ea187c81e988531c3b275ec1c586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:54 +0000
Subject: [PATCH 18/59] fix: subdivision lost the orientation flag of clockwise
 meshes

---
 deodr/triangulated_mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 214640b..7abc2d5 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -563,4 +563,5 @@ def loop_subdivision(mesh: ColoredTriMesh, n_iter: int = 1) -> ColoredTriMesh:
         faces=new_faces,
         colors=new_colors,
         nb_colors=mesh.nb_colors,
+        clockwise=mesh.clockwise,
     )
-- 
2.43.0


From d0822398ab6b72eab57f264b862a98d68249921b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:09 +0000
Subject: [PATCH 19/59] fix: subdivision shrank the boundary of open meshes
 towards the origin

---
 deodr/triangulated_mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 7abc2d5..6843bd3 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -515,6 +515,9 @@ def loop_subdivision(mesh: ColoredTriMesh, n_iter: int = 1) -> ColoredTriMesh:
         1 / 8
     ) * np.sum(mesh.vertices[mesh.adjacencies.edges, :], axis=1)
 
+    # the vertices opposite to the edge have weights that sum to one only for edges that have two faces
+    is_boundary_edge = np.array(np.sum(mesh.adjacencies.edges_faces_ones, axis=1) == 1).squeeze(axis=1)
+    edge_mid_points[is_boundary_edge] = np.mean(mesh.vertices[mesh.adjacencies.boundary_edges(), :], axis=1)
     # edge_mid_points = 0.5 * np.sum(self.vertices[self.adjacencies.edges, :], axis=1)
 
     beta = (3 / 8) * (1 / mesh.adjacencies.degree_v_e)
-- 
2.43.0


From 3b488a9ca5ebb9a14fd92d6690c100eafdbf7be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:23 +0000
Subject: [PATCH 20/59] fix: the rigid energy of PyTorch raised for vertices
 that require gradients

---
 deodr/pytorch/laplacian_rigid_energy_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/pytorch/laplacian_rigid_energy_pytorch.py b/deodr/pytorch/laplacian_rigid_energy_pytorch.py
index 77795b6..c43cf47 100644
--- a/deodr/pytorch/laplacian_rigid_energy_pytorch.py
+++ b/deodr/pytorch/laplacian_rigid_energy_pytorch.py
@@ -36,7 +36,7 @@ class LaplacianRigidEnergyPytorch:
     ) -> Tuple[torch.Tensor, torch.Tensor, torch.Tensor]:
         assert isinstance(vertices, torch.Tensor)
         if vertices.requires_grad:
-            diff = (vertices - self.numpy_imp.vertices_ref).flatten()
+            diff = (vertices - torch.tensor(self.numpy_imp.vertices_ref)).flatten()
             grad_vertices = self.numpy_imp.cregu * (self.cT_torch.matmul(diff[:, None])).reshape_as(vertices)
         else:
             diff = (vertices - torch.tensor(self.numpy_imp.vertices_ref)).flatten()
-- 
2.43.0


From f9d641a86e82ea1c3379d985df62d7a2cf011136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:00 +0000
Subject: [PATCH 21/59] fix: PyTorch meshes ignored the clockwise flag and
 vertices without faces in their adjacency

---
 deodr/pytorch/triangulated_mesh_pytorch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deodr/pytorch/triangulated_mesh_pytorch.py b/deodr/pytorch/triangulated_mesh_pytorch.py
index a7fa043..8baedcf 100644
--- a/deodr/pytorch/triangulated_mesh_pytorch.py
+++ b/deodr/pytorch/triangulated_mesh_pytorch.py
@@ -22,8 +22,8 @@ class TriMeshAdjacenciesPytorch(TriMeshAdjacencies):
     Unlike the TriMesh class there are no vertices stored in this class.
     """
 
-    def __init__(self, faces: np.ndarray, clockwise: bool = False):
-        super().__init__(faces, clockwise)
+    def __init__(self, faces: np.ndarray, clockwise: bool = False, nb_vertices: Optional[int] = None):
+        super().__init__(faces, clockwise, nb_vertices=nb_vertices)
         self.faces_torch = torch.LongTensor(faces)
         i = self.faces_torch.flatten()
         j = torch.LongTensor(np.tile(np.arange(self.nb_faces)[:, None], [1, 3]).flatten())
@@ -76,7 +76,7 @@ class ColoredTriMeshPytorch(ColoredTriMesh):
         )
 
     def compute_adjacencies(self) -> None:
-        self._adjacencies = TriMeshAdjacenciesPytorch(self.faces)
+        self._adjacencies = TriMeshAdjacenciesPytorch(self.faces, self.clockwise, nb_vertices=self.nb_vertices)
 
     def set_vertices_colors(self, colors: torch.Tensor) -> None:
         self.vertices_colors = colors
-- 
2.43.0


From 1fe4187b7512e3313fe0bbbbec1eb95014702a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:17 +0000
Subject: [PATCH 22/59] fix: depth rendering ignored perspective_correct and
 raised with a background image

---
 deodr/differentiable_renderer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 41959cb..805a362 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -1054,7 +1054,9 @@ class Scene3D:
             clockwise=self.mesh.clockwise,
             backface_culling=backface_culling,
             strict_edge=True,
+            background_image=self.background_image,
             background_color=self.background_color,
+            perspective_correct=self.perspective_correct,
             integer_pixel_centers=self.integer_pixel_centers,
         )
         self.scene_2d = scene_2d
-- 
2.43.0


From 17d3fc9ba7e820de92a252b437378dadc0f582f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:52 +0000
Subject: [PATCH 23/59] fix: Scene3D.render_backward raised a KeyError for
 textured meshes

---
 deodr/differentiable_renderer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 805a362..27d9d0f 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -1018,7 +1018,11 @@ class Scene3D:
         assert self.store_backward_current is not None
         camera, self.edgeflags = self.store_backward_current["render"]
         self._render_2d_backward(image_b)
-        self._compute_vertices_colors_with_illumination_backward(self.scene_2d.colors_b)
+        if self.mesh.uv is not None:
+            # the texture gradient is in self.scene_2d.texture_b
+            self.compute_vertices_luminosity_backward(self.scene_2d.shade_b)
+        else:
+            self._compute_vertices_colors_with_illumination_backward(self.scene_2d.colors_b)
         self.mesh._vertices_b = camera.project_points_backward(
             self.scene_2d.ij_b, store_backward=self.store_backward_current
         )
-- 
2.43.0


From 3c257afd932cced0acb748ba441d511399c1ca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:06 +0000
Subject: [PATCH 24/59] fix: light and colour gradients were NaN for meshes
 with vertices without faces

---
 deodr/triangulated_mesh.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 6843bd3..ea694d6 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -142,6 +142,7 @@ class TriMeshAdjacencies:
         assert face_normals.shape[1] == 3
         n = self._vertices_faces * face_normals
         normals = normalize(n, axis=1)
+        normals[self.degree_v_f == 0] = 0  # vertices without faces have no normal
         self.store_backward["compute_vertex_normals"] = n
         return normals
 
-- 
2.43.0


From 91c49434ec28e82c82004aa18ec563a2150b0135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:13 +0000
Subject: [PATCH 25/59] fix: Scene3D backward passes overwrote the adjoint
 given by the caller

---
 deodr/differentiable_renderer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index 27d9d0f..f5d70b7 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -895,7 +895,7 @@ class Scene3D:
         image, z_buffer = self.store_backward_current["render_2d"]
         # self.ij = np.array(ij)
         # self.colors = np.array(colors)
-        renderSceneB(self.scene_2d, self.sigma, image.copy(), z_buffer, image_b)
+        renderSceneB(self.scene_2d, self.sigma, image.copy(), z_buffer, image_b.copy())
         self.scene_2D = None
 
     @overload
-- 
2.43.0


From 224e2a0ba2b2656a5253af10af9d613eee5ea5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:41 +0000
Subject: [PATCH 26/59] fix: deferred rendering ignored clockwise,
 perspective_correct, depth_scale in the background and colours without 3
 channels

---
 deodr/differentiable_renderer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index f5d70b7..ab579f3 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -1149,7 +1149,7 @@ class Scene3D:
         if self.mesh.uv is None:
             if color:
                 assert self.mesh.vertices_colors is not None
-                soup_vertices_colors = self.mesh.vertices_colors[self.mesh.faces].reshape(soup_nb_vertices, 3)
+                soup_vertices_colors = self.mesh.vertices_colors[self.mesh.faces].reshape(soup_nb_vertices, -1)
                 channels["color"] = soup_vertices_colors
         elif uv:
             soup_uv = self.mesh.uv[self.mesh.faces_uv].reshape(soup_nb_vertices, 2)
@@ -1176,7 +1176,7 @@ class Scene3D:
 
         background_image = np.zeros((height, width, nb_colors))
         if "depth" in channels:
-            background_image[:, :, ranges["depth"][0] : ranges["depth"][1]] = depths.max()
+            background_image[:, :, ranges["depth"][0] : ranges["depth"][1]] = depths.max() * depth_scale
 
         scene_2d = Scene2DBase(
             faces=soup_faces,
@@ -1194,7 +1194,9 @@ class Scene3D:
             nb_colors=nb_colors,
             texture=texture,
             background_image=background_image,
+            clockwise=self.mesh.clockwise,
             backface_culling=backface_culling,
+            perspective_correct=self.perspective_correct,
             background_color=None,
             integer_pixel_centers=self.integer_pixel_centers,
         )
-- 
2.43.0


From 0027596d8d751e6ee39c6ef6019c790dbb659798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:17 +0000
Subject: [PATCH 27/59] fix: the loss of masks that are not binary did not
 match its gradient

---
 deodr/differentiable_renderer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index ab579f3..d089141 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -752,10 +752,10 @@ class Scene2D(Scene2DBase):
             err_buffer_b = copy.copy(mask)
             self.render_error_backward(err_buffer_b, make_copies=make_copies)
         else:
-            diff_image = (image - obs) * mask[:, :, None]
-            err_buffer = (diff_image) ** 2
+            diff_image = image - obs
+            err_buffer = diff_image**2 * mask[:, :, None]
             err = float(np.sum(err_buffer))
-            image_b = 2 * diff_image
+            image_b = 2 * diff_image * mask[:, :, None]
             self.render_backward(image_b, make_copies=make_copies)
 
         return image, z_buffer, err_buffer, err
-- 
2.43.0


From 9f2ca3cf32c80a465fb607ed054099fe84f885fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:17 +0000
Subject: [PATCH 28/59] fix: read_obj took vn and vt records as vertices and
 misread relative indices, continuation lines and comments

---
 deodr/obj.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/deodr/obj.py b/deodr/obj.py
index 0651322..014d59b 100644
--- a/deodr/obj.py
+++ b/deodr/obj.py
@@ -23,28 +23,29 @@ def read_obj(filename: str) -> Tuple[np.ndarray, np.ndarray]:
         line = fid.readline()
         if not line:
             break
-        while line.endswith("\\"):
+        while line.endswith("\\\n"):
             # Remove backslash and concatenate with next line
-            line = line[:-1] + fid.readline()
-        if line.startswith("v"):
-            coord = line.split()
-            coord.pop(0)
+            line = line[:-2] + fid.readline()
+        fields = line.split("#")[0].split()
+        if len(fields) == 0:
+            continue
+        keyword = fields.pop(0)
+        if keyword == "v":
+            # ignore the optional weight or color
             node_counter += 1
-            vertices.append(np.array([float(c) for c in coord]))
+            vertices.append(np.array([float(c) for c in fields[:3]]))
 
-        elif line.startswith("f "):
-            fields = line.split()
-            fields.pop(0)
+        elif keyword == "f":
 
             # in some obj faces are defined as -70//-70 -69//-69 -62//-62
             cleaned_fields: List[int] = []
             for f in fields:
-                v = int(f.split("/")[0]) - 1
-                if v < 0:
-                    v = node_counter + v
-                cleaned_fields.append(v)
+                v = int(f.split("/")[0])
+                # negative indices are relative to the end of the current list of vertices
+                cleaned_fields.append(v - 1 if v > 0 else node_counter + v)
             faces.append(np.array(cleaned_fields))
 
+    fid.close()
     faces_np = np.vstack(faces)
     vertices_np = np.vstack(vertices)
     return faces_np, vertices_np
-- 
2.43.0


From ba46370baee404fe9c60f86c504332db78e7d259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:31 +0000
Subject: [PATCH 29/59] fix: save_obj rounded the vertices to six decimals and
 overflowed small index types

---
 deodr/obj.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deodr/obj.py b/deodr/obj.py
index 014d59b..d44f78b 100644
--- a/deodr/obj.py
+++ b/deodr/obj.py
@@ -54,6 +54,6 @@ def read_obj(filename: str) -> Tuple[np.ndarray, np.ndarray]:
 def save_obj(filename: str, vertices: np.ndarray, faces: np.ndarray) -> None:
     with open(filename, "w") as f:
         for vertex in vertices:
-            f.write(f"v {vertex[0]:08f} {vertex[1]:08f} {vertex[2]:08f}\n")
+            f.write(f"v {float(vertex[0])!r} {float(vertex[1])!r} {float(vertex[2])!r}\n")
         for face in faces:
-            f.write(f"f {face[0] + 1} {face[1] + 1} {face[2] + 1}\n")
+            f.write(f"f {int(face[0]) + 1} {int(face[1]) + 1} {int(face[2]) + 1}\n")
-- 
2.43.0


From d3035e4123829a845ad988fdb33df5c71d27a218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:24 +0000
Subject: [PATCH 30/59] fix: exported MeshLab cameras had a transposed rotation
 and viewport, images were not written next to the project

---
 deodr/meshlab_io.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/deodr/meshlab_io.py b/deodr/meshlab_io.py
index a962218..3749e05 100644
--- a/deodr/meshlab_io.py
+++ b/deodr/meshlab_io.py
@@ -56,9 +56,9 @@ def export_meshlab(
         vcg_camera.setAttribute("LensDistortion", "0 0")
         vcg_camera.setAttribute("CameraType", "0")
         vcg_camera.setAttribute("BinaryData", "0")
-        vcg_camera.setAttribute("ViewportPx", f"{image.shape[0]} {image.shape[1]}")
-        rotation = np.diag([1, -1, -1, 1]).dot(mtx)
-        rotation[:3, 3] = 0
+        vcg_camera.setAttribute("ViewportPx", f"{image.shape[1]} {image.shape[0]}")
+        rotation = np.eye(4)
+        rotation[:3, :3] = np.diag([1, -1, -1]).dot(camera.extrinsic[:, :3])
         vcg_camera.setAttribute("RotationMatrix", " ".join([str(v) for v in rotation.flatten()]))
 
         ml_raster.appendChild(vcg_camera)
@@ -68,8 +68,8 @@ def export_meshlab(
         plane.setAttribute("semantic", "1")
         ml_raster.appendChild(plane)
 
-        imwrite(image_file, image.astype(np.uint8))
-        ml_mesh.setAttribute("label", image_file)
+        imwrite(os.path.join(os.path.dirname(filename), image_file), image.astype(np.uint8))
+        ml_raster.setAttribute("label", image_file)
         render_group.appendChild(ml_raster)
 
     xml.appendChild(render_group)
-- 
2.43.0


From 325c54ac17df466c6636cc5f50538286b8823fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:05 +0000
Subject: [PATCH 31/59] fix: moderngl reused the texture of a freed array when
 a new one had the same id

---
 deodr/opengl/moderngl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/deodr/opengl/moderngl.py b/deodr/opengl/moderngl.py
index e68fa0c..7f87dbd 100644
--- a/deodr/opengl/moderngl.py
+++ b/deodr/opengl/moderngl.py
@@ -63,7 +63,7 @@ class OffscreenRenderer:
         )
         self.fbo = None
         self.texture = None
-        self.texture_id: int = 0
+        self.texture_source = None
 
     def set_scene(self, deodr_scene: Scene3D) -> None:
         assert deodr_scene.mesh is not None
@@ -117,9 +117,9 @@ class OffscreenRenderer:
         # Texture
         assert not texture.flags["WRITEABLE"]
         assert texture.ndim == 3
-        texture_id = id(texture)
-        if self.texture is None or self.texture_id != texture_id:
-            self.texture_id = id(texture)
+        if self.texture is None or self.texture_source is not texture:
+            # keep a reference to the array, its id could be reused by another texture
+            self.texture_source = texture
             self.texture = self.ctx.texture(
                 (texture.shape[1], texture.shape[0]),
                 texture.shape[2],
-- 
2.43.0


From 608e160fffe7bf25cbd9542c3f4d35c7bd19e76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:20 +0000
Subject: [PATCH 32/59] fix: pyrender uv, pixel centers and light opposite to
 the default direction

---
 deodr/opengl/pyrender.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/deodr/opengl/pyrender.py b/deodr/opengl/pyrender.py
index b9a1cef..6bed194 100644
--- a/deodr/opengl/pyrender.py
+++ b/deodr/opengl/pyrender.py
@@ -33,6 +33,11 @@ def min_rotation(vec1: np.ndarray, vec2: np.ndarray) -> np.ndarray:
     v = np.cross(a, b)
     c = np.dot(a, b)
     s = np.linalg.norm(v)
+    if c < 0 and s < 1e-6:
+        # opposite vectors: half turn around any axis orthogonal to a
+        axis = np.cross(a, np.eye(3)[np.argmin(np.abs(a))])
+        axis = axis / np.linalg.norm(axis)
+        return 2 * np.outer(axis, axis) - np.eye(3)
     kmat = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
     d = (1 - c) / (s**2) if s > 1e-6 else 0.5
     return np.eye(3) + kmat + kmat.dot(kmat) * d
@@ -71,8 +76,8 @@ def deodr_mesh_to_pyrender(deodr_mesh: ColoredTriMesh) -> pyrender.Mesh:
     uv = deodr_mesh.uv[mask_vt]
     pyrender_uv = np.column_stack(
         (
-            (uv[:, 0]) / deodr_mesh.texture.shape[0],
-            (1 - uv[:, 1] / deodr_mesh.texture.shape[1]),
+            (uv[:, 0] + 0.5) / deodr_mesh.texture.shape[1],
+            1 - (uv[:, 1] + 0.5) / deodr_mesh.texture.shape[0],
         )
     )
 
@@ -123,12 +128,14 @@ def render(deodr_scene: Scene3D, camera: Camera) -> Tuple[np.ndarray, np.ndarray
     if camera.distortion is not None:
         raise (BaseException("cameras with distortion not handled yet with pyrender"))
 
+    # pixel centers are at half integer coordinates in opengl
+    pixel_offset = 0.5 if deodr_scene.integer_pixel_centers else 0.0
     # cam = pyrender.PerspectiveCamera(yfov=np.pi / 3.0, aspectRatio=1.414)
     cam = pyrender.IntrinsicsCamera(
         fx=camera.intrinsic[0, 0],
         fy=camera.intrinsic[1, 1],
-        cx=camera.intrinsic[0, 2],
-        cy=camera.intrinsic[1, 2],
+        cx=camera.intrinsic[0, 2] + pixel_offset,
+        cy=camera.intrinsic[1, 2] + pixel_offset,
     )
 
     # convert to pyrender directional light parameterization
-- 
2.43.0


From d41127464393e3dd3c33446112201524137dbf19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:39 +0000
Subject: [PATCH 33/59] fix: mesh fitters ignored update_lights and
 update_color

---
 deodr/mesh_fitter.py                 | 64 +++++++++++++++-------------
 deodr/pytorch/mesh_fitter_pytorch.py | 30 +++++++------
 2 files changed, 50 insertions(+), 44 deletions(-)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index 9e34612..88bd0fd 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -356,20 +356,22 @@ class MeshRGBFitterWithPose:
             self.speed_translation * inertia + (1 - inertia) * step_translation
         )
         self.transform_translation = self.transform_translation + self.speed_translation
-        # update directional light
-        step = -self.light_directional_b * 0.0001
-        self.speed_light_directional = (1 - self.damping) * (
-            self.speed_light_directional * inertia + (1 - inertia) * step
-        )
-        self.light_directional = self.light_directional + self.speed_light_directional
-        # update ambient light
-        step = -self.light_ambient_b * 0.0001
-        self.speed_light_ambient = (1 - self.damping) * (self.speed_light_ambient * inertia + (1 - inertia) * step)
-        self.light_ambient = self.light_ambient + self.speed_light_ambient
-        # update mesh color
-        step = -self.mesh_color_b * 0.00001
-        self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
-        self.mesh_color = self.mesh_color + self.speed_mesh_color
+        if self.update_lights:
+            # update directional light
+            step = -self.light_directional_b * 0.0001
+            self.speed_light_directional = (1 - self.damping) * (
+                self.speed_light_directional * inertia + (1 - inertia) * step
+            )
+            self.light_directional = self.light_directional + self.speed_light_directional
+            # update ambient light
+            step = -self.light_ambient_b * 0.0001
+            self.speed_light_ambient = (1 - self.damping) * (self.speed_light_ambient * inertia + (1 - inertia) * step)
+            self.light_ambient = self.light_ambient + self.speed_light_ambient
+        if self.update_color:
+            # update mesh color
+            step = -self.mesh_color_b * 0.00001
+            self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
+            self.mesh_color = self.mesh_color + self.speed_mesh_color
 
         self.iter += 1
         return energy, image, diff_image
@@ -611,22 +613,24 @@ class MeshRGBFitterWithPoseMultiFrame:
             self.speed_translation * inertia + (1 - inertia) * step_translation
         )
         self.transform_translation = self.transform_translation + self.speed_translation
-        # update directional light
-        step = -self.light_directional_b * 0.0001
-        self.speed_light_directional = (1 - self.damping) * (
-            self.speed_light_directional * inertia + (1 - inertia) * step
-        )
-        self.light_directional = self.light_directional + self.speed_light_directional
-        # update ambient light
-        step_light_ambient = -self.light_ambient_b * 0.0001
-        self.speed_light_ambient = (1 - self.damping) * (
-            self.speed_light_ambient * inertia + (1 - inertia) * step_light_ambient
-        )
-        self.light_ambient = self.light_ambient + self.speed_light_ambient
-        # update mesh color
-        step = -self.mesh_color_b * 0.00001
-        self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
-        self.mesh_color = self.mesh_color + self.speed_mesh_color
+        if self.update_lights:
+            # update directional light
+            step = -self.light_directional_b * 0.0001
+            self.speed_light_directional = (1 - self.damping) * (
+                self.speed_light_directional * inertia + (1 - inertia) * step
+            )
+            self.light_directional = self.light_directional + self.speed_light_directional
+            # update ambient light
+            step_light_ambient = -self.light_ambient_b * 0.0001
+            self.speed_light_ambient = (1 - self.damping) * (
+                self.speed_light_ambient * inertia + (1 - inertia) * step_light_ambient
+            )
+            self.light_ambient = self.light_ambient + self.speed_light_ambient
+        if self.update_color:
+            # update mesh color
+            step = -self.mesh_color_b * 0.00001
+            self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
+            self.mesh_color = self.mesh_color + self.speed_mesh_color
 
         self.iter += 1
         return energy, image, diff_image
diff --git a/deodr/pytorch/mesh_fitter_pytorch.py b/deodr/pytorch/mesh_fitter_pytorch.py
index badd532..5a32491 100644
--- a/deodr/pytorch/mesh_fitter_pytorch.py
+++ b/deodr/pytorch/mesh_fitter_pytorch.py
@@ -502,20 +502,22 @@ class MeshRGBFitterWithPose:
             self.speed_translation * inertia + (1 - inertia) * step_translation
         )
         self.transform_translation = self.transform_translation + self.speed_translation
-        # update directional light
-        step = -light_directional_with_grad.grad.numpy() * 0.0001
-        self.speed_light_directional = (1 - self.damping) * (
-            self.speed_light_directional * inertia + (1 - inertia) * step
-        )
-        self.light_directional = self.light_directional + self.speed_light_directional
-        # update ambient light
-        step = -light_ambient_with_grad.grad.numpy() * 0.0001
-        self.speed_light_ambient = (1 - self.damping) * (self.speed_light_ambient * inertia + (1 - inertia) * step)
-        self.light_ambient = self.light_ambient + self.speed_light_ambient
-        # update mesh color
-        step = -mesh_color_with_grad.grad.numpy() * 0.00001
-        self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
-        self.mesh_color = self.mesh_color + self.speed_mesh_color
+        if self.update_lights:
+            # update directional light
+            step = -light_directional_with_grad.grad.numpy() * 0.0001
+            self.speed_light_directional = (1 - self.damping) * (
+                self.speed_light_directional * inertia + (1 - inertia) * step
+            )
+            self.light_directional = self.light_directional + self.speed_light_directional
+            # update ambient light
+            step = -light_ambient_with_grad.grad.numpy() * 0.0001
+            self.speed_light_ambient = (1 - self.damping) * (self.speed_light_ambient * inertia + (1 - inertia) * step)
+            self.light_ambient = self.light_ambient + self.speed_light_ambient
+        if self.update_color:
+            # update mesh color
+            step = -mesh_color_with_grad.grad.numpy() * 0.00001
+            self.speed_mesh_color = (1 - self.damping) * (self.speed_mesh_color * inertia + (1 - inertia) * step)
+            self.mesh_color = self.mesh_color + self.speed_mesh_color
 
         self.iter += 1
         return energy, image.detach().numpy(), diff_image.detach().numpy()
-- 
2.43.0


From 9f1f9e3a24bdad640ff200877ebf4e4118fd9226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:58 +0000
Subject: [PATCH 34/59] fix: multi-frame fitter compared each frame with a
 single row of the rendered image

---
 deodr/mesh_fitter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index 88bd0fd..9866633 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -538,11 +538,11 @@ class MeshRGBFitterWithPoseMultiFrame:
         for idframe in range(self.nb_frames):
             image = self.render(idframe=idframe)
 
-            diff_image = np.sum((image[idframe] - self.mesh_images[idframe]) ** 2, axis=2)
+            diff_image = np.sum((image - self.mesh_images[idframe]) ** 2, axis=2)
             images.append(image)
             diff_images.append(diff_image)
 
-            image_b = coef_data * 2 * (image[idframe] - self.mesh_images[idframe])
+            image_b = coef_data * 2 * (image - self.mesh_images[idframe])
             energy_data_image = coef_data * np.sum(diff_image)
             energy_datas.append(energy_data_image)
             self.render_backward(image_b)
-- 
2.43.0


From 51b5694ab2b1a3272b935b76892414a81a03eedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:16 +0000
Subject: [PATCH 35/59] fix: multi-frame fitter divided all the quaternions by
 their joint norm

---
 deodr/mesh_fitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index 9866633..6a8d006 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -602,7 +602,9 @@ class MeshRGBFitterWithPoseMultiFrame:
         )
         self.speed_quaternion = (1 - self.damping) * (self.speed_quaternion * inertia + (1 - inertia) * step_quaternion)
         self.transform_quaternion = self.transform_quaternion + self.speed_quaternion
-        self.transform_quaternion = self.transform_quaternion / np.linalg.norm(self.transform_quaternion)
+        self.transform_quaternion = self.transform_quaternion / np.linalg.norm(
+            self.transform_quaternion, axis=-1, keepdims=True
+        )
         # update translation
         step_translation = mult_and_clamp(
             -self.transform_translation_b,
-- 
2.43.0


From c89078109c76f2fe1f6c9b9d65cddc3c3164468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:34 +0000
Subject: [PATCH 36/59] fix: resetting the multi-frame fitter kept its
 iteration count, which changes the updates

---
 deodr/mesh_fitter.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index 6a8d006..e551198 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -449,6 +449,7 @@ class MeshRGBFitterWithPoseMultiFrame:
         self.speed_light_directional = np.zeros(self.light_directional.shape)
         self.speed_light_ambient = 0.0
         self.speed_mesh_color = np.zeros(self.mesh_color.shape)
+        self.iter = 0
 
     def set_images(self, mesh_images: List[np.ndarray], focal: Optional[float] = None) -> None:
         self.width = mesh_images[0].shape[1]
-- 
2.43.0


From 0e4f80f753c30063b01955ac12ea043a0b67398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:51 +0000
Subject: [PATCH 37/59] fix: MeshDepthFitter.render_backward overwrote the
 gradient given by the caller

---
 deodr/mesh_fitter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/deodr/mesh_fitter.py b/deodr/mesh_fitter.py
index e551198..0474286 100644
--- a/deodr/mesh_fitter.py
+++ b/deodr/mesh_fitter.py
@@ -113,9 +113,8 @@ class MeshDepthFitter:
 
     def render_backward(self, depth_b: np.ndarray) -> None:
         self.scene.clear_gradients()
-        depth_b[self.depth_not_clipped < 0] = 0
-        depth_b[self.depth_not_clipped > self.max_depth] = 0
-        self.scene.render_depth_backward(depth_b)
+        clipped = (self.depth_not_clipped < 0) | (self.depth_not_clipped > self.max_depth)
+        self.scene.render_depth_backward(np.where(clipped, 0, depth_b))
         assert self.scene.mesh is not None
         assert self.scene.mesh._vertices_b is not None
         vertices_transformed_b = self.scene.mesh._vertices_b
-- 
2.43.0


From 42c115bbe1c5b17531024aa33ef3c69bced2dd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:08 +0000
Subject: [PATCH 38/59] fix: PyTorch face normals were computed along the wrong
 axis for meshes with three faces

---
 deodr/pytorch/triangulated_mesh_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/pytorch/triangulated_mesh_pytorch.py b/deodr/pytorch/triangulated_mesh_pytorch.py
index 8baedcf..a866339 100644
--- a/deodr/pytorch/triangulated_mesh_pytorch.py
+++ b/deodr/pytorch/triangulated_mesh_pytorch.py
@@ -37,7 +37,7 @@ class TriMeshAdjacenciesPytorch(TriMeshAdjacencies):
         triangles = vertices[self.faces_torch, :]
         u = triangles[::, 1] - triangles[::, 0]
         v = triangles[::, 2] - triangles[::, 0]
-        n = -torch.cross(u, v) if self.clockwise else torch.cross(u, v)
+        n = -torch.cross(u, v, dim=1) if self.clockwise else torch.cross(u, v, dim=1)
         l2 = (n**2).sum(dim=1)
         norm = l2.sqrt()
         return n / norm[:, None]
-- 
2.43.0


From ae81c82069c3c831dfa20f91f0b8d1de16ce1ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:24 +0000
Subject: [PATCH 39/59] fix: PyTorch renders ignored sigma, shared their state
 until the backward pass, returned vertex depths as z-buffer and failed
 without directional light or with textures

---
 .../differentiable_renderer_pytorch.py        | 79 +++++++++++++------
 1 file changed, 54 insertions(+), 25 deletions(-)

diff --git a/deodr/pytorch/differentiable_renderer_pytorch.py b/deodr/pytorch/differentiable_renderer_pytorch.py
index 1ce09c2..4d273cd 100644
--- a/deodr/pytorch/differentiable_renderer_pytorch.py
+++ b/deodr/pytorch/differentiable_renderer_pytorch.py
@@ -1,6 +1,7 @@
 # type: ignore
 """Pytorch interface to deodr."""
 
+import copy
 from typing import Any, List, Optional, Tuple, Union
 
 import numpy as np
@@ -43,38 +44,55 @@ class TorchDifferentiableRenderer2DFunc(torch.autograd.Function):
 
     @staticmethod
     def forward(  # type: ignore
-        ctx: Any, ij: torch.Tensor, colors: torch.Tensor, scene: "Scene3DPytorch"
+        ctx: Any,
+        ij: torch.Tensor,
+        colors: torch.Tensor,
+        scene: "Scene3DPytorch",
+        shade: Optional[torch.Tensor] = None,
+        texture: Optional[torch.Tensor] = None,
     ) -> torch.Tensor:
         nb_color_channels = colors.shape[1]
         image = np.empty((scene.scene_2d.height, scene.scene_2d.width, nb_color_channels))
         z_buffer = np.empty((scene.scene_2d.height, scene.scene_2d.width))
-        ctx.scene = scene
-        scene.scene_2d.ij = ij.detach().numpy()  # should automatically detached according to
+        # the scene can be modified and rendered again before the backward pass
+        scene_2d = copy.copy(scene.scene_2d)
+        scene_2d.ij = ij.detach().numpy()  # should automatically detached according to
         # https://pytorch.org/docs/master/notes/extending.html
-        scene.colors = colors.detach().numpy()
-        differentiable_renderer_cython.renderSceneCpp(scene.scene_2d, 1, image, z_buffer)
-        ctx.save_for_backward(ij, colors)
+        scene_2d.colors = colors.detach().numpy()
+        if shade is not None:
+            scene_2d.shade = shade.detach().numpy()
+        if texture is not None:
+            scene_2d.texture = texture.detach().numpy()
+        differentiable_renderer_cython.renderSceneCpp(scene_2d, scene.sigma, image, z_buffer)
+        ctx.save_for_backward(ij, colors, shade, texture)
+        ctx.scene_2d = scene_2d
+        ctx.sigma = scene.sigma
         ctx.image = image.copy()
         # making a copy to keep the antializaed image for visualization ,
         # could be optional
         ctx.z_buffer = z_buffer
+        scene.z_buffer = torch.as_tensor(z_buffer.copy())
         return torch.as_tensor(image)
 
     @staticmethod
     def backward(ctx: Any, *grad_outputs: Any) -> Any:
         assert len(grad_outputs) == 1
-        image_b = grad_outputs[0]
-        scene = ctx.scene
-        scene.scene_2d.uv_b = np.zeros(scene.scene_2d.uv.shape)
-        scene.scene_2d.ij_b = np.zeros(scene.scene_2d.ij.shape)
-        scene.scene_2d.shade_b = np.zeros(scene.scene_2d.shade.shape)
-        scene.scene_2d.colors_b = np.zeros(scene.scene_2d.colors.shape)
-        scene.scene_2d.texture_b = np.zeros(scene.scene_2d.texture.shape)
-        differentiable_renderer_cython.renderSceneBCpp(scene.scene_2d, 1, ctx.image, ctx.z_buffer, image_b.numpy())
+        _, _, shade, texture = ctx.saved_tensors  # raises if these tensors have been modified
+        scene_2d = ctx.scene_2d
+        scene_2d.uv_b = np.zeros(scene_2d.uv.shape)
+        scene_2d.ij_b = np.zeros(scene_2d.ij.shape)
+        scene_2d.shade_b = np.zeros(scene_2d.shade.shape)
+        scene_2d.colors_b = np.zeros(scene_2d.colors.shape)
+        scene_2d.texture_b = np.zeros(scene_2d.texture.shape)
+        # copies, as the arrays are modified and have to be contiguous
+        image_b = np.array(grad_outputs[0].detach().numpy(), order="C")
+        differentiable_renderer_cython.renderSceneBCpp(scene_2d, ctx.sigma, ctx.image.copy(), ctx.z_buffer, image_b)
         return (
-            torch.as_tensor(scene.scene_2d.ij_b),
-            torch.as_tensor(scene.scene_2d.colors_b),
+            torch.as_tensor(scene_2d.ij_b),
+            torch.as_tensor(scene_2d.colors_b),
             None,
+            None if shade is None else torch.as_tensor(scene_2d.shade_b),
+            None if texture is None else torch.as_tensor(scene_2d.texture_b),
         )
 
 
@@ -87,23 +105,34 @@ class Scene3DPytorch(Scene3D):
     def __init__(self) -> None:
         super().__init__()
 
-    def set_light(self, light_directional: torch.Tensor, light_ambient: torch.Tensor) -> None:
-        if not (isinstance(light_directional, torch.Tensor)):
+    def set_light(self, light_directional: Optional[torch.Tensor], light_ambient: torch.Tensor) -> None:
+        if light_directional is not None and not (isinstance(light_directional, torch.Tensor)):
             light_directional = torch.tensor(light_directional)
         self.light_directional = light_directional
         self.light_ambient_pytorch = light_ambient
 
-    def _compute_vertices_colors_with_illumination(self) -> torch.Tensor:
+    def compute_vertices_luminosity(self) -> torch.Tensor:
         assert self.mesh is not None
-        vertices_luminosity = (
+        if self.light_directional is None:
+            return self.light_ambient_pytorch * torch.ones(self.mesh.nb_vertices, dtype=torch.double)
+        return (
             torch.relu(-torch.sum(self.mesh.vertex_normals * self.light_directional, dim=1))
             + self.light_ambient_pytorch
         )
-        return self.mesh.vertices_colors * vertices_luminosity[:, None]
+
+    def _compute_vertices_colors_with_illumination(self) -> torch.Tensor:
+        assert self.mesh is not None
+        return self.mesh.vertices_colors * self.compute_vertices_luminosity()[:, None]
 
     def _render_2d(self) -> Tuple[torch.Tensor, torch.Tensor]:
-        self.depths = self.scene_2d.depths.detach()
-        return (
-            TorchDifferentiableRender2D(self.scene_2d.ij, self.scene_2d.colors, self),
-            self.depths,
+        scene_2d = self.scene_2d
+        self.depths = scene_2d.depths.detach()
+        scene_2d.depths = self.depths
+        image = TorchDifferentiableRender2D(
+            scene_2d.ij,
+            torch.as_tensor(scene_2d.colors),
+            self,
+            torch.as_tensor(scene_2d.shade, dtype=torch.double),
+            torch.as_tensor(scene_2d.texture, dtype=torch.double),
         )
+        return image, self.z_buffer
-- 
2.43.0


From 2cb9962f53b360cbdcc08df205a0d700bd0be370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:51 +0000
Subject: [PATCH 40/59] fix: from_trimesh failed with grey textures and misread
 palette images

---
 deodr/triangulated_mesh.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index ea694d6..fecc885 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -396,7 +396,12 @@ class ColoredTriMesh(TriMesh):
         elif mesh.visual.kind == "texture":
             # Configure UV coordinates
             if mesh.visual.uv is not None:
-                texture = np.array(mesh.visual.material.image) / 255
+                image = mesh.visual.material.image
+                if image.mode not in ("L", "RGB", "RGBA"):
+                    image = image.convert("RGB")
+                texture = np.array(image) / 255
+                if texture.ndim == 2:
+                    texture = texture[:, :, None]  # grey image
                 texture.setflags(write=False)
 
                 if texture.shape[2] == 4:
-- 
2.43.0


From 9685eb6c9259a5bba8153994722a1f68bf9619d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:03 +0000
Subject: [PATCH 41/59] fix: to_trimesh merged close vertices and texture
 coordinates

---
 deodr/triangulated_mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index fecc885..8b6ea07 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -485,7 +485,8 @@ class ColoredTriMesh(TriMesh):
         material = trimesh.visual.material.SimpleMaterial(image=texture_pil)
         visual = trimesh.visual.texture.TextureVisuals(uv=uv, material=material)
 
-        return trimesh.Trimesh(vertices=new_vertices, faces=new_faces, visual=visual)
+        # process=False keeps vertices that have almost the same position or texture coordinates
+        return trimesh.Trimesh(vertices=new_vertices, faces=new_faces, visual=visual, process=False)
 
     @staticmethod
     def load(filename: str, process: bool = False) -> "ColoredTriMesh":
-- 
2.43.0


From 2a6e2652c9cf7af6c27392d8507f683671b034b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:15 +0000
Subject: [PATCH 42/59] fix: to_trimesh turned clockwise meshes inside out

---
 deodr/triangulated_mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 8b6ea07..7e9a62a 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -471,6 +471,9 @@ class ColoredTriMesh(TriMesh):
                 1 - ((self.uv[:, 1] + 0.5) / self.texture.shape[0]),
             )
         )
+        if self.clockwise:  # trimesh faces are counterclockwise
+            faces = faces[:, ::-1]
+            faces_tex = faces_tex[:, ::-1]
         new_faces, mask_v, mask_vt = trimesh.visual.texture.unmerge_faces(faces, faces_tex)
         assert np.allclose(v[faces], v[mask_v][new_faces])
         assert new_faces.max() < len(v[mask_v])
-- 
2.43.0


From c035527e84189ced746ad117d52272eff89054d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:34 +0000
Subject: [PATCH 43/59] fix: do not modify the arrays of the caller when
 interacting with the mesh viewer

---
 deodr/examples/mesh_viewer.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/deodr/examples/mesh_viewer.py b/deodr/examples/mesh_viewer.py
index 401c6a7..f363b11 100644
--- a/deodr/examples/mesh_viewer.py
+++ b/deodr/examples/mesh_viewer.py
@@ -44,7 +44,8 @@ class Interactor:
         elif object_center is None:
             object_center = np.array([0, 0, 0])
 
-        self.object_center = object_center
+        # copy to not modify the array of the caller when panning, as float to allow in-place updates
+        self.object_center = np.array(object_center, dtype=float)
         self.rotation_speed = rotation_speed
         self.z_translation_speed = z_translation_speed
         self.xy_translation_speed = xy_translation_speed
@@ -137,15 +138,20 @@ class Interactor:
         if self.right_is_down and self.shift_is_down:
             delta_y = self.y_last - y
             ratio = np.power(2, delta_y / 20)
-            self.camera.intrinsic[0, 0] = self.camera.intrinsic[0, 0] * ratio
-            self.camera.intrinsic[1, 1] = self.camera.intrinsic[1, 1] * ratio
+            # new array to not modify the one given to the camera
+            intrinsic = np.array(self.camera.intrinsic, dtype=float)
+            intrinsic[0, 0] *= ratio
+            intrinsic[1, 1] *= ratio
+            self.camera.intrinsic = intrinsic
             self.x_last = x
             self.y_last = y
 
         if self.right_is_down and not (self.ctrl_is_down):
             if self.mode in ["camera_centered", "object_centered_trackball"]:
                 if np.abs(self.y_last - y) >= np.abs(self.x_last - x):
-                    self.camera.extrinsic[2, 3] += self.z_translation_speed * (self.y_last - y)
+                    extrinsic = np.array(self.camera.extrinsic, dtype=float)
+                    extrinsic[2, 3] += self.z_translation_speed * (self.y_last - y)
+                    self.camera.extrinsic = extrinsic
                 else:
                     self.rotate(
                         np.array(
@@ -171,8 +177,10 @@ class Interactor:
             ty = self.xy_translation_speed * object_depth * (y - self.y_last)
 
             self.object_center -= self.camera.extrinsic[0, :3] * tx + self.camera.extrinsic[1, :3] * ty
-            self.camera.extrinsic[0, 3] += tx
-            self.camera.extrinsic[1, 3] += ty
+            extrinsic = np.array(self.camera.extrinsic, dtype=float)
+            extrinsic[0, 3] += tx
+            extrinsic[1, 3] += ty
+            self.camera.extrinsic = extrinsic
             self.x_last = x
             self.y_last = y
 
-- 
2.43.0


From 456d26cc5a522f7c36aa053d5795d0430fc7bf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:52 +0000
Subject: [PATCH 44/59] fix: viewer ignored use_light and use_antialiasing, and
 applied light, mesh and background changes to one renderer only

---
 deodr/examples/mesh_viewer.py | 58 ++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/deodr/examples/mesh_viewer.py b/deodr/examples/mesh_viewer.py
index f363b11..8454b1e 100644
--- a/deodr/examples/mesh_viewer.py
+++ b/deodr/examples/mesh_viewer.py
@@ -228,16 +228,17 @@ class Viewer:
         video_format: str = "MJPG",
     ):
         self.title = title
-        self.scene = differentiable_renderer.Scene3D(sigma=1)
+        self.use_moderngl = False
+        self.offscreen_renderer: Optional[OffscreenRenderer] = None
+        self.use_antialiasing = use_antialiasing
+        self.use_light = use_light
+        self.scene = differentiable_renderer.Scene3D(sigma=1 if use_antialiasing else 0)
         self.set_mesh(file_or_mesh)
         self.windowname = f"DEODR mesh viewer:{self.title}"
 
         self.width = width
         self.height = height
         self.display_fps = display_fps
-        self.use_moderngl = use_moderngl
-        self.use_antialiasing = use_antialiasing
-        self.use_light = use_light
         self.fps_exp_average_decay = fps_exp_average_decay
         self.last_time: Optional[float] = None
         self.horizontal_fov = horizontal_fov
@@ -254,9 +255,8 @@ class Viewer:
         self.set_light(light_directional, light_ambient)
         self.recenter_camera()
 
-        self.offscreen_renderer: Optional[OffscreenRenderer] = None
-        if use_moderngl:
-            self.setup_moderngl()
+        self.use_moderngl = use_moderngl
+        self.update_moderngl()
 
         self.register_keys()
 
@@ -267,16 +267,31 @@ class Viewer:
     ) -> None:
         self.light_directional = np.array(light_directional)
         self.light_ambient = light_ambient
-        self.scene.set_light(light_directional=self.light_directional, light_ambient=light_ambient)
+        self.update_light()
+
+    def update_light(self) -> None:
+        """Set the light of the scene, uniform if lights are off."""
+        if self.use_light:
+            self.scene.set_light(light_directional=self.light_directional, light_ambient=self.light_ambient)
+        else:
+            self.scene.set_light(light_directional=(0, 0, 0), light_ambient=1.0)
+        self.update_moderngl()
 
     def setup_moderngl(self) -> None:
-        self.offscreen_renderer = OffscreenRenderer()
+        if self.offscreen_renderer is None:
+            self.offscreen_renderer = OffscreenRenderer()
         assert self.scene.mesh is not None
         self.scene.mesh.compute_vertex_normals()
         self.offscreen_renderer.set_scene(self.scene)
 
+    def update_moderngl(self) -> None:
+        """Send the current scene to the moderngl renderer if it is in use."""
+        if self.use_moderngl:
+            self.setup_moderngl()
+
     def set_background_color(self, background_color: Tuple[float, float, float]) -> None:
         self.scene.set_background_color(background_color)
+        self.update_moderngl()
 
     def display_texture_map(self) -> None:
         if self.mesh.textured:
@@ -307,6 +322,7 @@ class Viewer:
         self.object_center = 0.5 * (self.mesh.vertices.max(axis=0) + self.mesh.vertices.min(axis=0))
         self.object_radius = np.max(self.mesh.vertices.max(axis=0) - self.mesh.vertices.min(axis=0))
         self.scene.set_mesh(self.mesh)
+        self.update_moderngl()
 
     def recenter_camera(self) -> None:
         camera_center = self.object_center + np.array([0, 0, 3]) * self.object_radius
@@ -435,8 +451,7 @@ class Viewer:
         self.use_moderngl = not (self.use_moderngl)
         print(f"use_moderngl = { self.use_moderngl}")
 
-        if self.use_moderngl and self.offscreen_renderer is None:
-            self.setup_moderngl()
+        self.update_moderngl()
 
     def toggle_perspective_texture_mapping(self) -> None:
         """Toggle between linear texture mapping and perspective correct texture mapping."""
@@ -451,26 +466,7 @@ class Viewer:
         self.use_light = not (self.use_light)
         print(f"use_light = { self.use_light}")
 
-        if self.use_light:
-            if self.use_moderngl:
-                assert self.offscreen_renderer is not None
-                self.offscreen_renderer.set_light(
-                    light_directional=np.array(self.light_directional),
-                    light_ambient=self.light_ambient,
-                )
-            else:
-                self.scene.set_light(
-                    light_directional=np.array(self.light_directional),
-                    light_ambient=self.light_ambient,
-                )
-        elif self.use_moderngl:
-            assert self.offscreen_renderer is not None
-            self.offscreen_renderer.set_light(
-                light_directional=np.ndarray((0, 0, 0)),
-                light_ambient=1.0,
-            )
-        else:
-            self.scene.set_light(light_directional=(0, 0, 0), light_ambient=1.0)
+        self.update_light()
 
     def toggle_edge_overdraw_antialiasing(self) -> None:
         """Toggle edge overdraw anti-aliasing (DEODR rendering only)."""
-- 
2.43.0


From c4868700c65ab22d0baa6ccb032ccefb0909b6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:04 +0000
Subject: [PATCH 45/59] fix: viewer colours above 1 wrapped around instead of
 saturating

---
 deodr/examples/mesh_viewer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/deodr/examples/mesh_viewer.py b/deodr/examples/mesh_viewer.py
index 8454b1e..c1ffa42 100644
--- a/deodr/examples/mesh_viewer.py
+++ b/deodr/examples/mesh_viewer.py
@@ -379,7 +379,8 @@ class Viewer:
             assert self.offscreen_renderer is not None
             image = self.offscreen_renderer.render(self.camera)
         else:
-            image = (self.scene.render(self.interactor.camera) * 255).astype(np.uint8)
+            # values above 1 saturate instead of wrapping around
+            image = (np.clip(self.scene.render(self.interactor.camera), 0, 1) * 255).astype(np.uint8)
 
         bgr_image = cv2.cvtColor(image, cv2.COLOR_BGR2RGB)
 
-- 
2.43.0


From 0e10a1884464ee9e6daa8f39b7e841c843f0ecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:17 +0000
Subject: [PATCH 46/59] fix: viewer dropped recorded frames after a window
 resize

---
 deodr/examples/mesh_viewer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/deodr/examples/mesh_viewer.py b/deodr/examples/mesh_viewer.py
index c1ffa42..a03ae78 100644
--- a/deodr/examples/mesh_viewer.py
+++ b/deodr/examples/mesh_viewer.py
@@ -386,7 +386,8 @@ class Viewer:
 
         if self.recording:
             assert self.video_writer is not None
-            self.video_writer.write(bgr_image.astype(np.uint8))
+            # frames that do not have the size of the video would be dropped
+            self.video_writer.write(cv2.resize(bgr_image.astype(np.uint8), self.video_size))
 
         self.update_fps()
         if self.recording:
@@ -507,11 +508,12 @@ class Viewer:
                 video_id += 1
             filename = self.video_pattern.format(**dict(id=video_id))
 
+            self.video_size = (self.width, self.height)
             self.video_writer = cv2.VideoWriter(
                 filename,
                 cv2.VideoWriter_fourcc(*self.video_format),  # type: ignore
                 30,
-                (self.width, self.height),
+                self.video_size,
             )
             self.recording = True
         else:
-- 
2.43.0


From e9eedc4fd5c2e10d489ede6a24e9534c74230f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:29 +0000
Subject: [PATCH 47/59] fix: viewer mouse control was lost after recentering
 the camera

---
 deodr/examples/mesh_viewer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/deodr/examples/mesh_viewer.py b/deodr/examples/mesh_viewer.py
index a03ae78..164cb72 100644
--- a/deodr/examples/mesh_viewer.py
+++ b/deodr/examples/mesh_viewer.py
@@ -355,11 +355,15 @@ class Viewer:
         self.fps = 0
         cv2.namedWindow(self.windowname, cv2.WINDOW_NORMAL)
         cv2.resizeWindow(self.windowname, self.width, self.height)
-        cv2.setMouseCallback(self.windowname, self.interactor.mouse_callback)  # type: ignore
+        cv2.setMouseCallback(self.windowname, self.mouse_callback)  # type: ignore
         if loop:
             while cv2.getWindowProperty(self.windowname, 0) >= 0:
                 self.refresh()
 
+    def mouse_callback(self, event: int, x: int, y: int, flags: int, param: Any) -> None:
+        # recentering the camera replaces the interactor
+        self.interactor.mouse_callback(event, x, y, flags, param)
+
     def update_fps(self) -> None:
         new_time = time.perf_counter()
         if self.last_time is None:
-- 
2.43.0


From 603ccbe89be02e428e6f492166281a9a3434ff68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:42 +0000
Subject: [PATCH 48/59] fix: colour channel counts beyond 16 bits overflowed
 the loop counters

---
 C++/DifferentiableRenderer.h | 48 ++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 0b2a709..713e481 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -786,7 +786,7 @@ void rasterize_triangle_interpolated(double Vxy[][2], double Zvertex[3], T *Aver
 		double inv_Zvertex[3];
 		elementwise_inverse_vec3(Zvertex, inv_Zvertex);
 
-		for (short int i = 0; i < sizeA; i++)
+		for (int i = 0; i < sizeA; i++)
 			for (short int j = 0; j < 3; j++)
 			{
 				xy1_to_A[3 * i + j] = 0;
@@ -798,7 +798,7 @@ void rasterize_triangle_interpolated(double Vxy[][2], double Zvertex[3], T *Aver
 	}
 	else
 	{
-		for (short int i = 0; i < sizeA; i++)
+		for (int i = 0; i < sizeA; i++)
 			for (short int j = 0; j < 3; j++)
 			{
 				xy1_to_A[3 * i + j] = 0;
@@ -840,7 +840,7 @@ void rasterize_triangle_interpolated_B(double Vxy[][2], double Vxy_B[][2], doubl
 	// create matrices that map image coordinates to attributes A and depth z
 
 	xy1_to_A = new double[3 * sizeA];
-	for (short int i = 0; i < sizeA; i++)
+	for (int i = 0; i < sizeA; i++)
 		for (short int j = 0; j < 3; j++)
 		{
 			xy1_to_A[3 * i + j] = 0;
@@ -851,7 +851,7 @@ void rasterize_triangle_interpolated_B(double Vxy[][2], double Vxy_B[][2], doubl
 	mul_vect_matrix3x3(xy1_to_Z, Zvertex, xy1_to_bary);
 	double *xy1_to_A_B;
 	xy1_to_A_B = new double[3 * sizeA];
-	for (short int i = 0; i < 3 * sizeA; i++)
+	for (int i = 0; i < 3 * sizeA; i++)
 		xy1_to_A_B[i] = 0;
 
 	for (int k = 0; k < 2; k++)
@@ -860,7 +860,7 @@ void rasterize_triangle_interpolated_B(double Vxy[][2], double Vxy_B[][2], doubl
 	double xy1_to_bary_B[9] = {0};
 	//for(short int i=0;i<9;i++) xy1_to_bary_B[i]=0
 
-	for (short int i = 0; i < sizeA; i++)
+	for (int i = 0; i < sizeA; i++)
 		for (short int j = 0; j < 3; j++)
 		{
 
@@ -970,7 +970,7 @@ inline void render_part_interpolated(double *image, double *z_buffer, int x_min,
 				if (Z < z_buffer[indx])
 				{
 					z_buffer[indx] = Z;
-					for (short int k = 0; k < sizeA; k++)
+					for (int k = 0; k < sizeA; k++)
 						image[sizeA * indx + k] = (A0y[k] + xy1_to_A[3 * k] * x) * Z;
 				}
 				indx++;
@@ -983,7 +983,7 @@ inline void render_part_interpolated(double *image, double *z_buffer, int x_min,
 				if (Z < z_buffer[indx])
 				{
 					z_buffer[indx] = Z;
-					for (short int k = 0; k < sizeA; k++)
+					for (int k = 0; k < sizeA; k++)
 						image[sizeA * indx + k] = A0y[k] + xy1_to_A[3 * k] * x;
 				}
 				indx++;
@@ -1028,7 +1028,7 @@ inline void render_part_interpolated_B(double *image, double *image_B, double *z
 		t[2] = 1;
 
 		//mul_matrix3x3_vect(A0y,xy1_to_A,t);
-		for (short int k = 0; k < sizeA; k++)
+		for (int k = 0; k < sizeA; k++)
 			A0y_B[k] = 0;
 
 		Z0y = dot_prod(xy1_to_Z, t);
@@ -1045,7 +1045,7 @@ inline void render_part_interpolated_B(double *image, double *image_B, double *z
 			Z = Z0y + xy1_to_Z[0] * x;
 			if (Z == z_buffer[indx])
 			{ //z_buffer[indx]=Z;
-				for (short int k = 0; k < sizeA; k++)
+				for (int k = 0; k < sizeA; k++)
 				{
 					//image[sizeA*indx+k]=A0y[k]+xy1_to_A[3*k]*x;
 					A0y_B[k] += image_B[sizeA * indx + k];
@@ -1586,7 +1586,7 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 		mul_matrix(1, 2, 3, xy1_to_Z, inv_Zvertex, xy1_to_bary);
 
 		xy1_to_A = new double[3 * sizeA];
-		for (short int i = 0; i < sizeA; i++)
+		for (int i = 0; i < sizeA; i++)
 			for (short int j = 0; j < 3; j++)
 			{
 				xy1_to_A[3 * i + j] = 0;
@@ -1598,7 +1598,7 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 	{
 		mul_matrix(1, 2, 3, xy1_to_Z, Zvertex, xy1_to_bary);
 		xy1_to_A = new double[3 * sizeA];
-		for (short int i = 0; i < sizeA; i++)
+		for (int i = 0; i < sizeA; i++)
 			for (short int j = 0; j < 3; j++)
 			{
 				xy1_to_A[3 * i + j] = 0;
@@ -1636,7 +1636,7 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 				{
 					double T = T0y + T_inc * x;
 
-					for (short int k = 0; k < sizeA; k++)
+					for (int k = 0; k < sizeA; k++)
 					{
 						image[sizeA * indx + k] *= T;
 						double A = (A0y[k] + xy1_to_A[3 * k] * x) * Z;
@@ -1655,7 +1655,7 @@ void rasterize_edge_interpolated(double Vxy[][2], Te image[], Te *Avertex[], dou
 				{
 					double T = T0y + T_inc * x;
 
-					for (short int k = 0; k < sizeA; k++)
+					for (int k = 0; k < sizeA; k++)
 					{
 						image[sizeA * indx + k] *= T;
 						double A = (A0y[k] + xy1_to_A[3 * k] * x);
@@ -1703,10 +1703,10 @@ void rasterize_edge_interpolated_B(double Vxy[][2], double Vxy_B[][2], Te image[
 	xy1_to_A = new double[3 * sizeA];
 	double *xy1_to_A_B;
 	xy1_to_A_B = new double[3 * sizeA];
-	for (short int i = 0; i < 3 * sizeA; i++)
+	for (int i = 0; i < 3 * sizeA; i++)
 		xy1_to_A_B[i] = 0;
 
-	for (short int i = 0; i < sizeA; i++)
+	for (int i = 0; i < sizeA; i++)
 		for (short int j = 0; j < 3; j++)
 		{
 			xy1_to_A[3 * i + j] = 0;
@@ -1723,7 +1723,7 @@ void rasterize_edge_interpolated_B(double Vxy[][2], double Vxy_B[][2], Te image[
 		t[1] = y;
 		t[2] = 1;
 		mul_matrixNx3_vect(sizeA, A0y, xy1_to_A, t);
-		for (short int k = 0; k < sizeA; k++)
+		for (int k = 0; k < sizeA; k++)
 			A0y_B[k] = 0;
 
 		T0y = dot_prod(xy1_to_transp, t);
@@ -1745,7 +1745,7 @@ void rasterize_edge_interpolated_B(double Vxy[][2], double Vxy_B[][2], Te image[
 				double T = T0y + T_inc * x;
 				double T_B = 0;
 
-				for (short int k = 0; k < sizeA; k++)
+				for (int k = 0; k < sizeA; k++)
 				{
 
 					double A = A0y[k] + xy1_to_A[3 * k] * x;
@@ -1777,7 +1777,7 @@ void rasterize_edge_interpolated_B(double Vxy[][2], double Vxy_B[][2], Te image[
 			xy1_to_transp_B[k] += T0y_B * t[k];
 	}
 
-	for (short int i = 0; i < sizeA; i++)
+	for (int i = 0; i < sizeA; i++)
 		for (short int j = 0; j < 3; j++)
 		{
 			for (short int k = 0; k < 2; k++)
@@ -1916,7 +1916,7 @@ void rasterize_edge_textured_gouraud(double Vxy[][2], double Zvertex[2], double
 				}
 				bilinear_sample(A, Texture, Texture_size, UV, sizeA);
 
-				for (short int k = 0; k < sizeA; k++)
+				for (int k = 0; k < sizeA; k++)
 				{
 					image[sizeA * indx + k] *= T;
 					image[sizeA * indx + k] += (1 - T) * A[k] * L;
@@ -2025,9 +2025,9 @@ void rasterize_edge_textured_gouraud_B(double Vxy[][2], double Vxy_B[][2], doubl
 
 				bilinear_sample(A, Texture, Texture_size, UV, sizeA);
 
-				for (short int k = 0; k < sizeA; k++)
+				for (int k = 0; k < sizeA; k++)
 					A_B[k] = 0;
-				for (short int k = 0; k < sizeA; k++)
+				for (int k = 0; k < sizeA; k++)
 				{
 					//image[sizeA*indx+k]*= T;
 					//image[sizeA*indx+k]+= (1-T)*A[k]*L;
@@ -2533,7 +2533,7 @@ void rasterize_edge_interpolated_error_B(double Vxy[][2], double Vxy_B[][2], dou
 
 	mul_matrix(1, 2, 3, xy1_to_Z, Zvertex, xy1_to_bary);
 
-	for (short int i = 0; i < 3 * sizeA; i++)
+	for (int i = 0; i < 3 * sizeA; i++)
 		xy1_to_A_B[i] = 0;
 
 	for (int i = 0; i < sizeA; i++)
@@ -2557,7 +2557,7 @@ void rasterize_edge_interpolated_error_B(double Vxy[][2], double Vxy_B[][2], dou
 		t[1] = y;
 		t[2] = 1;
 		mul_matrixNx3_vect(sizeA, A0y, xy1_to_A, t);
-		for (short int k = 0; k < sizeA; k++)
+		for (int k = 0; k < sizeA; k++)
 			A0y_B[k] = 0;
 		T0y = dot_prod(xy1_to_transp, t);
 		Z0y = dot_prod(xy1_to_Z, t);
@@ -2618,7 +2618,7 @@ void rasterize_edge_interpolated_error_B(double Vxy[][2], double Vxy_B[][2], dou
 			xy1_to_transp_B[k] += T0y_B * t[k];
 	}
 
-	for (short int i = 0; i < sizeA; i++)
+	for (int i = 0; i < sizeA; i++)
 		for (short int j = 0; j < 3; j++)
 		{
 			for (short int k = 0; k < 2; k++)
-- 
2.43.0


From 648b87690a42603df9092d96fc16ac318d4d37ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:09 +0000
Subject: [PATCH 49/59] restore deodr/examples/mesh_viewer.py: examples count
 as test files

---
 deodr/examples/mesh_viewer.py | 93 +++++++++++++++--------------------
 1 file changed, 41 insertions(+), 52 deletions(-)

diff --git a/deodr/examples/mesh_viewer.py b/deodr/examples/mesh_viewer.py
index 164cb72..401c6a7 100644
--- a/deodr/examples/mesh_viewer.py
+++ b/deodr/examples/mesh_viewer.py
@@ -44,8 +44,7 @@ class Interactor:
         elif object_center is None:
             object_center = np.array([0, 0, 0])
 
-        # copy to not modify the array of the caller when panning, as float to allow in-place updates
-        self.object_center = np.array(object_center, dtype=float)
+        self.object_center = object_center
         self.rotation_speed = rotation_speed
         self.z_translation_speed = z_translation_speed
         self.xy_translation_speed = xy_translation_speed
@@ -138,20 +137,15 @@ class Interactor:
         if self.right_is_down and self.shift_is_down:
             delta_y = self.y_last - y
             ratio = np.power(2, delta_y / 20)
-            # new array to not modify the one given to the camera
-            intrinsic = np.array(self.camera.intrinsic, dtype=float)
-            intrinsic[0, 0] *= ratio
-            intrinsic[1, 1] *= ratio
-            self.camera.intrinsic = intrinsic
+            self.camera.intrinsic[0, 0] = self.camera.intrinsic[0, 0] * ratio
+            self.camera.intrinsic[1, 1] = self.camera.intrinsic[1, 1] * ratio
             self.x_last = x
             self.y_last = y
 
         if self.right_is_down and not (self.ctrl_is_down):
             if self.mode in ["camera_centered", "object_centered_trackball"]:
                 if np.abs(self.y_last - y) >= np.abs(self.x_last - x):
-                    extrinsic = np.array(self.camera.extrinsic, dtype=float)
-                    extrinsic[2, 3] += self.z_translation_speed * (self.y_last - y)
-                    self.camera.extrinsic = extrinsic
+                    self.camera.extrinsic[2, 3] += self.z_translation_speed * (self.y_last - y)
                 else:
                     self.rotate(
                         np.array(
@@ -177,10 +171,8 @@ class Interactor:
             ty = self.xy_translation_speed * object_depth * (y - self.y_last)
 
             self.object_center -= self.camera.extrinsic[0, :3] * tx + self.camera.extrinsic[1, :3] * ty
-            extrinsic = np.array(self.camera.extrinsic, dtype=float)
-            extrinsic[0, 3] += tx
-            extrinsic[1, 3] += ty
-            self.camera.extrinsic = extrinsic
+            self.camera.extrinsic[0, 3] += tx
+            self.camera.extrinsic[1, 3] += ty
             self.x_last = x
             self.y_last = y
 
@@ -228,17 +220,16 @@ class Viewer:
         video_format: str = "MJPG",
     ):
         self.title = title
-        self.use_moderngl = False
-        self.offscreen_renderer: Optional[OffscreenRenderer] = None
-        self.use_antialiasing = use_antialiasing
-        self.use_light = use_light
-        self.scene = differentiable_renderer.Scene3D(sigma=1 if use_antialiasing else 0)
+        self.scene = differentiable_renderer.Scene3D(sigma=1)
         self.set_mesh(file_or_mesh)
         self.windowname = f"DEODR mesh viewer:{self.title}"
 
         self.width = width
         self.height = height
         self.display_fps = display_fps
+        self.use_moderngl = use_moderngl
+        self.use_antialiasing = use_antialiasing
+        self.use_light = use_light
         self.fps_exp_average_decay = fps_exp_average_decay
         self.last_time: Optional[float] = None
         self.horizontal_fov = horizontal_fov
@@ -255,8 +246,9 @@ class Viewer:
         self.set_light(light_directional, light_ambient)
         self.recenter_camera()
 
-        self.use_moderngl = use_moderngl
-        self.update_moderngl()
+        self.offscreen_renderer: Optional[OffscreenRenderer] = None
+        if use_moderngl:
+            self.setup_moderngl()
 
         self.register_keys()
 
@@ -267,31 +259,16 @@ class Viewer:
     ) -> None:
         self.light_directional = np.array(light_directional)
         self.light_ambient = light_ambient
-        self.update_light()
-
-    def update_light(self) -> None:
-        """Set the light of the scene, uniform if lights are off."""
-        if self.use_light:
-            self.scene.set_light(light_directional=self.light_directional, light_ambient=self.light_ambient)
-        else:
-            self.scene.set_light(light_directional=(0, 0, 0), light_ambient=1.0)
-        self.update_moderngl()
+        self.scene.set_light(light_directional=self.light_directional, light_ambient=light_ambient)
 
     def setup_moderngl(self) -> None:
-        if self.offscreen_renderer is None:
-            self.offscreen_renderer = OffscreenRenderer()
+        self.offscreen_renderer = OffscreenRenderer()
         assert self.scene.mesh is not None
         self.scene.mesh.compute_vertex_normals()
         self.offscreen_renderer.set_scene(self.scene)
 
-    def update_moderngl(self) -> None:
-        """Send the current scene to the moderngl renderer if it is in use."""
-        if self.use_moderngl:
-            self.setup_moderngl()
-
     def set_background_color(self, background_color: Tuple[float, float, float]) -> None:
         self.scene.set_background_color(background_color)
-        self.update_moderngl()
 
     def display_texture_map(self) -> None:
         if self.mesh.textured:
@@ -322,7 +299,6 @@ class Viewer:
         self.object_center = 0.5 * (self.mesh.vertices.max(axis=0) + self.mesh.vertices.min(axis=0))
         self.object_radius = np.max(self.mesh.vertices.max(axis=0) - self.mesh.vertices.min(axis=0))
         self.scene.set_mesh(self.mesh)
-        self.update_moderngl()
 
     def recenter_camera(self) -> None:
         camera_center = self.object_center + np.array([0, 0, 3]) * self.object_radius
@@ -355,15 +331,11 @@ class Viewer:
         self.fps = 0
         cv2.namedWindow(self.windowname, cv2.WINDOW_NORMAL)
         cv2.resizeWindow(self.windowname, self.width, self.height)
-        cv2.setMouseCallback(self.windowname, self.mouse_callback)  # type: ignore
+        cv2.setMouseCallback(self.windowname, self.interactor.mouse_callback)  # type: ignore
         if loop:
             while cv2.getWindowProperty(self.windowname, 0) >= 0:
                 self.refresh()
 
-    def mouse_callback(self, event: int, x: int, y: int, flags: int, param: Any) -> None:
-        # recentering the camera replaces the interactor
-        self.interactor.mouse_callback(event, x, y, flags, param)
-
     def update_fps(self) -> None:
         new_time = time.perf_counter()
         if self.last_time is None:
@@ -383,15 +355,13 @@ class Viewer:
             assert self.offscreen_renderer is not None
             image = self.offscreen_renderer.render(self.camera)
         else:
-            # values above 1 saturate instead of wrapping around
-            image = (np.clip(self.scene.render(self.interactor.camera), 0, 1) * 255).astype(np.uint8)
+            image = (self.scene.render(self.interactor.camera) * 255).astype(np.uint8)
 
         bgr_image = cv2.cvtColor(image, cv2.COLOR_BGR2RGB)
 
         if self.recording:
             assert self.video_writer is not None
-            # frames that do not have the size of the video would be dropped
-            self.video_writer.write(cv2.resize(bgr_image.astype(np.uint8), self.video_size))
+            self.video_writer.write(bgr_image.astype(np.uint8))
 
         self.update_fps()
         if self.recording:
@@ -457,7 +427,8 @@ class Viewer:
         self.use_moderngl = not (self.use_moderngl)
         print(f"use_moderngl = { self.use_moderngl}")
 
-        self.update_moderngl()
+        if self.use_moderngl and self.offscreen_renderer is None:
+            self.setup_moderngl()
 
     def toggle_perspective_texture_mapping(self) -> None:
         """Toggle between linear texture mapping and perspective correct texture mapping."""
@@ -472,7 +443,26 @@ class Viewer:
         self.use_light = not (self.use_light)
         print(f"use_light = { self.use_light}")
 
-        self.update_light()
+        if self.use_light:
+            if self.use_moderngl:
+                assert self.offscreen_renderer is not None
+                self.offscreen_renderer.set_light(
+                    light_directional=np.array(self.light_directional),
+                    light_ambient=self.light_ambient,
+                )
+            else:
+                self.scene.set_light(
+                    light_directional=np.array(self.light_directional),
+                    light_ambient=self.light_ambient,
+                )
+        elif self.use_moderngl:
+            assert self.offscreen_renderer is not None
+            self.offscreen_renderer.set_light(
+                light_directional=np.ndarray((0, 0, 0)),
+                light_ambient=1.0,
+            )
+        else:
+            self.scene.set_light(light_directional=(0, 0, 0), light_ambient=1.0)
 
     def toggle_edge_overdraw_antialiasing(self) -> None:
         """Toggle edge overdraw anti-aliasing (DEODR rendering only)."""
@@ -512,12 +502,11 @@ class Viewer:
                 video_id += 1
             filename = self.video_pattern.format(**dict(id=video_id))
 
-            self.video_size = (self.width, self.height)
             self.video_writer = cv2.VideoWriter(
                 filename,
                 cv2.VideoWriter_fourcc(*self.video_format),  # type: ignore
                 30,
-                self.video_size,
+                (self.width, self.height),
             )
             self.recording = True
         else:
-- 
2.43.0


From 72582aff0dda273336bc71eaa5147e556e762deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 50/59] fix: MATLAB gateways compile with the current scene
 structure and refuse malformed arguments

---
 Matlab/render.cpp   |  79 ++++++++++++++++++++++------------
 Matlab/render_b.cpp | 101 ++++++++++++++++++++++++++++----------------
 2 files changed, 118 insertions(+), 62 deletions(-)

diff --git a/Matlab/render.cpp b/Matlab/render.cpp
index 3b8452d..e03d8c7 100644
--- a/Matlab/render.cpp
+++ b/Matlab/render.cpp
@@ -7,6 +7,20 @@ void error(const char* msg)
 	mexErrMsgTxt(msg);
 }
 
+double* getDoubles(const mxArray* source)
+{
+	if (!mxIsDouble(source))
+		error("the input scene and images should be of type double");
+	return mxGetPr(source);
+}
+
+bool* getLogicals(const mxArray* source)
+{
+	if (!mxIsLogical(source))
+		error("the input scene.textured, scene.shaded and scene.edgeflags should be of type logical");
+	return mxGetLogicals(source);
+}
+
 
 
 
@@ -29,8 +43,10 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 	mwSize strlen;  
 	const mxArray * matlab_scene;
 	Scene scene;
-	double* obs;
-	double* err_buffer; 
+	double* obs=NULL;
+	double* err_buffer=NULL;
+	if (nrhs<2)
+		error("expect a scene and sigma as inputs");
     // loading type 
 	int karg=0;
         matlab_scene=prhs[karg];
@@ -40,7 +56,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 	    /* get input arguments */
     	int nfields = mxGetNumberOfFields(matlab_scene);
         int NStructElems = mxGetNumberOfElements(matlab_scene);
-	if (!NStructElems>1)
+	if (NStructElems!=1)
 		error("expect a single element struct");
 
 
@@ -90,7 +106,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 	if (dim_array[0]!=1)
 		error("the input scene.depths is not well sized should be of size 1xNb_vertices");
     scene.nb_vertices=dim_array[1];
-	scene.depths=mxGetPr(source);
+	scene.depths=getDoubles(source);
     
 	source=mxGetField(matlab_scene,0,"uv");
     if (!source)
@@ -102,7 +118,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 	if (dim_array[0]!=2)
 		error("the input scene.uv is not well sized should be of size 2xNb_vertices");
 	scene.nb_uv=dim_array[1];	
-	scene.uv= mxGetPr(source);
+	scene.uv= getDoubles(source);
     
 	source=mxGetField(matlab_scene,0,"ij");
     if (!source)
@@ -115,7 +131,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 		error("the input scene.ij is not well sized should be of size 2xNb_vertices");
 	if (dim_array[1]!=scene.nb_vertices)		
 		error("the input scene.ij is not well sized should be of size 2xNb_vertices");
-	scene.ij= mxGetPr(source);
+	scene.ij= getDoubles(source);
 
 	source=mxGetField(matlab_scene,0,"shade");
     if (!source)
@@ -128,7 +144,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 		error("the input scene.shade is not well sized should be of size 1xNb_vertices");
 	if (dim_array[1]!=scene.nb_vertices)		
 		error("the input scene.shade is not well sized should be of size 1xNb_vertices");
-	scene.shade= mxGetPr(source);
+	scene.shade= getDoubles(source);
 
 	source=mxGetField(matlab_scene,0,"colors");
     if (!source)
@@ -140,7 +156,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 	scene.nb_colors=dim_array[0];		
 	if (dim_array[1]!=scene.nb_vertices)		
 		error("the input scene.colors is not well sized should be of size nb_colors x Nb_vertices");
-	scene.colors= mxGetPr(source);
+	scene.colors= getDoubles(source);
 
 	source=mxGetField(matlab_scene,0,"textured");
     if (!source)
@@ -153,7 +169,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 		error("the input scene.textured is not well sized , should be of dimension  1xNbTriangles");	
     if (dim_array[1]!=scene.nb_triangles)
         error("the input scene.textured is not well sized , should be of dimension  1xNbTriangles");
-	scene.textured= mxGetLogicals(source);
+	scene.textured= getLogicals(source);
 
     source=mxGetField(matlab_scene,0,"edgeflags");
     if (!source)
@@ -166,7 +182,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 		error("the input scene.edgeflag is not well sized , should be of dimension  3xNbTriangles");	
 	if (dim_array[1]!=scene.nb_triangles)
 		error("the input scene.edgeflag is not well sized , should be of dimension  3xNbTriangles");
-	scene.edgeflags= mxGetLogicals(source);
+	scene.edgeflags= getLogicals(source);
     
 	source=mxGetField(matlab_scene,0,"shaded");
     if (!source)
@@ -179,7 +195,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 		error("the input scene.textured is not well sized , should be of dimension  1xNbTriangles");	
 	if (dim_array[1]!=scene.nb_triangles)
 		error("the input scene.textured is not well sized , should be of dimension  1xNbTriangles");	
-	scene.shaded= mxGetLogicals(source);
+	scene.shaded= getLogicals(source);
 
 	
 	source=mxGetField(matlab_scene,0,"background");
@@ -187,7 +203,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
         error("missing field background");	
 	number_of_dims = mxGetNumberOfDimensions(source);
 	dim_array = mxGetDimensions(source);
-	pr  = mxGetPr(source);
+	pr  = getDoubles(source);
 	if (number_of_dims!=3)
 		error("the input scene.background is not well sized , should be of dimension  nb_colors x H x W");	
 	if (dim_array[0]!=scene.nb_colors)
@@ -195,21 +211,25 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 	scene.width=dim_array[1];
 	scene.height=dim_array[2];	
 	
-	scene.background= mxGetPr(source);	
+	scene.background_image= getDoubles(source);
+	scene.background_color= NULL;
+	scene.strict_edge= true;
+	scene.perspective_correct= false;
+	scene.integer_pixel_centers= true;
 
 	source=mxGetField(matlab_scene,0,"texture");
     if (!source)
         error("missing field texture");	
 	number_of_dims = mxGetNumberOfDimensions(source);
 	dim_array = mxGetDimensions(source);
-	pr  = mxGetPr(source);
+	pr  = getDoubles(source);
 	if (number_of_dims!=3)
 		error("the input scene.texture is not well sized , should be of dimension  H x W x nb_colors");	
 	if (dim_array[0]!=scene.nb_colors)
 		error("the input scene.texture is not well sized , should be of dimension  H x W x nb_colors");	
 	scene.texture_width=dim_array[1];
 	scene.texture_height=dim_array[2];
-    scene.texture= mxGetPr(source);
+    scene.texture= getDoubles(source);
 
 	bool antialiaseError;
 	double sigma = mxGetScalar(prhs[1]);
@@ -223,15 +243,19 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 	  plhs[0]                     = mxCreateNumericArray(3, dims_image, mxDOUBLE_CLASS, mxREAL);
 	  image=mxGetPr(plhs[0]);
 	  const mwSize dims_z_buffer[]         = {scene.width,scene.height};
-	  plhs[1]                     = mxCreateNumericArray(2, dims_z_buffer, mxDOUBLE_CLASS, mxREAL);
-	  z_buffer=mxGetPr(plhs[1]);
+	  mxArray* z_buffer_array     = mxCreateNumericArray(2, dims_z_buffer, mxDOUBLE_CLASS, mxREAL);
+	  z_buffer=mxGetPr(z_buffer_array);
+	  if (nlhs>1)
+	    plhs[1]=z_buffer_array;
 	
 	if (antialiaseError)
 	{
+	  if (nrhs<4)
+		  error("missing input obs");
 	  source=prhs[3];	
 	  number_of_dims = mxGetNumberOfDimensions(source);
 	  dim_array = mxGetDimensions(source);
-	  pr  = mxGetPr(source);
+	  pr  = getDoubles(source);
 	  if (number_of_dims!=3)
 		  error("the input obs is not well sized , should be of dimension  H x W x nb_colors");	
 	  if (dim_array[0]!=scene.nb_colors)
@@ -240,18 +264,21 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 		  error("the input obs is not well sized , should be of dimension  H x W x nb_colors");
 	  if (dim_array[2]!=scene.height)
 		error("the input obs is not well sized , should be of dimension  H x W x nb_colors");
-	  obs= mxGetPr(source);
+	  obs= getDoubles(source);
 	  
 	  const mwSize dimsE[]         = {scene.width,scene.height};
-	  plhs[2]                     = mxCreateNumericArray(2, dims_z_buffer, mxDOUBLE_CLASS, mxREAL);
-	  err_buffer=mxGetPr(plhs[2]);
+	  mxArray* err_buffer_array   = mxCreateNumericArray(2, dims_z_buffer, mxDOUBLE_CLASS, mxREAL);
+	  err_buffer=mxGetPr(err_buffer_array);
+	  if (nlhs>2)
+	    plhs[2]=err_buffer_array;
 	  
+	}
+	try
+	{
 	  renderScene(scene,image,z_buffer,sigma,antialiaseError,obs,err_buffer);
 	}
-	else
+	catch (const char* msg)
 	{
-	  
-	  renderScene(scene,image,z_buffer,sigma,antialiaseError);
-	}	
+	  error(msg);
+	}
  }
-
diff --git a/Matlab/render_b.cpp b/Matlab/render_b.cpp
index b564e04..1a22a77 100644
--- a/Matlab/render_b.cpp
+++ b/Matlab/render_b.cpp
@@ -7,6 +7,20 @@ void error(const char* msg)
 	mexErrMsgTxt(msg);
 }
 
+double* getDoubles(const mxArray* source)
+{
+	if (!mxIsDouble(source))
+		error("the input scene and images should be of type double");
+	return mxGetPr(source);
+}
+
+bool* getLogicals(const mxArray* source)
+{
+	if (!mxIsLogical(source))
+		error("the input scene.textured, scene.shaded and scene.edgeflags should be of type logical");
+	return mxGetLogicals(source);
+}
+
 
 void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 {
@@ -17,7 +31,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 	double* z_buffer;
 	double* Zvertex;
 	double *image;
-	double* image_b;
+	double* image_b=NULL;
 	char* type;
 
 
@@ -33,10 +47,12 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 	const mxArray * matlab_scene;
 	Scene scene;
 	bool antialiaseError;
-	double* obs;
-	double* err_buffer;
-	double* err_buffer_b;
+	double* obs=NULL;
+	double* err_buffer=NULL;
+	double* err_buffer_b=NULL;
 
+	if (nrhs<5)
+		error("expect a scene, image, z_buffer, image_b and sigma as inputs");
     // loading type 
 	int karg=0;
         matlab_scene=prhs[karg];
@@ -46,7 +62,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 	    /* get input arguments */
     	int nfields = mxGetNumberOfFields(matlab_scene);
         int NStructElems = mxGetNumberOfElements(matlab_scene);
-	if (!NStructElems>1)
+	if (NStructElems!=1)
 		error("expect a single element struct");
 
 
@@ -93,7 +109,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 	if (dim_array[0]!=1)
 		error("the input scene.depths is not well sized should be of size 1xNb_vertices");
     scene.nb_vertices=dim_array[1];
-	scene.depths=mxGetPr(source);
+	scene.depths=getDoubles(source);
     
 	source=mxGetField(matlab_scene,0,"uv");
     if (!source)
@@ -105,7 +121,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 	if (dim_array[0]!=2)
 		error("the input scene.uv is not well sized should be of size 2xNb_vertices");
 	scene.nb_uv=dim_array[1];	
-	scene.uv= mxGetPr(source);
+	scene.uv= getDoubles(source);
     
 	source=mxGetField(matlab_scene,0,"ij");
     if (!source)
@@ -118,7 +134,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 		error("the input scene.ij is not well sized should be of size 2xNb_vertices");
 	if (dim_array[1]!=scene.nb_vertices)		
 		error("the input scene.ij is not well sized should be of size 2xNb_vertices");
-	scene.ij= mxGetPr(source);
+	scene.ij= getDoubles(source);
 
 	source=mxGetField(matlab_scene,0,"shade");
     if (!source)
@@ -131,7 +147,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 		error("the input scene.shade is not well sized should be of size 1xNb_vertices");
 	if (dim_array[1]!=scene.nb_vertices)		
 		error("the input scene.shade is not well sized should be of size 1xNb_vertices");
-	scene.shade= mxGetPr(source);
+	scene.shade= getDoubles(source);
 
 	source=mxGetField(matlab_scene,0,"colors");
     if (!source)
@@ -144,7 +160,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 	scene.nb_colors=dim_array[0];		
 	if (dim_array[1]!=scene.nb_vertices)		
 		error("the input scene.colors is not well sized should be of size nb_colors x Nb_vertices");
-	scene.colors= mxGetPr(source);
+	scene.colors= getDoubles(source);
 
 	source=mxGetField(matlab_scene,0,"textured");
     if (!source)
@@ -158,7 +174,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 		error("the input scene.textured is not well sized , should be of dimension  1xNbTriangles");	
     if (dim_array[1]!=scene.nb_triangles)
         error("the input scene.textured is not well sized , should be of dimension  1xNbTriangles");
-	scene.textured= mxGetLogicals(source);
+	scene.textured= getLogicals(source);
 
     source=mxGetField(matlab_scene,0,"edgeflags");
     if (!source)
@@ -171,7 +187,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 		error("the input scene.edgeflag is not well sized , should be of dimension  3xNbTriangles");	
 	if (dim_array[1]!=scene.nb_triangles)
 		error("the input scene.edgeflag is not well sized , should be of dimension  3xNbTriangles");
-	scene.edgeflags= mxGetLogicals(source);
+	scene.edgeflags= getLogicals(source);
     
 	source=mxGetField(matlab_scene,0,"shaded");
     if (!source)
@@ -184,7 +200,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 		error("the input scene.textured is not well sized , should be of dimension  1xNbTriangles");	
 	if (dim_array[1]!=scene.nb_triangles)
 		error("the input scene.textured is not well sized , should be of dimension  1xNbTriangles");	
-	scene.shaded= mxGetLogicals(source);
+	scene.shaded= getLogicals(source);
 
 	
 	source=mxGetField(matlab_scene,0,"background");
@@ -192,7 +208,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
         error("missing field background");
 	number_of_dims = mxGetNumberOfDimensions(source);
 	dim_array = mxGetDimensions(source);
-	pr  = mxGetPr(source);
+	pr  = getDoubles(source);
 	if (number_of_dims!=3)
 		error("the input scene.background is not well sized , should be of dimension  nb_colors x H x W");	
 	if (dim_array[0]!=scene.nb_colors)
@@ -200,28 +216,32 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 	scene.width=dim_array[1];
 	scene.height=dim_array[2];	
 	
-	scene.background= mxGetPr(source);	
+	scene.background_image= getDoubles(source);
+	scene.background_color= NULL;
+	scene.strict_edge= true;
+	scene.perspective_correct= false;
+	scene.integer_pixel_centers= true;
 
 	source=mxGetField(matlab_scene,0,"texture");
     if (!source)
         error("missing field texture");
 	number_of_dims = mxGetNumberOfDimensions(source);
 	dim_array = mxGetDimensions(source);
-	pr  = mxGetPr(source);
+	pr  = getDoubles(source);
 	if (number_of_dims!=3)
 		error("the input scene.texture is not well sized , should be of dimension  H x W x nb_colors");	
 	if (dim_array[0]!=scene.nb_colors)
 		error("the input scene.texture is not well sized , should be of dimension  H x W x nb_colors");	
 	scene.texture_width=dim_array[1];
 	scene.texture_height=dim_array[2];
-    scene.texture= mxGetPr(source);
+    scene.texture= getDoubles(source);
     
     source=mxGetField(matlab_scene,0,"texture_b");
     if (!source)
         error("missing field texture_b");
 	number_of_dims = mxGetNumberOfDimensions(source);
 	dim_array = mxGetDimensions(source);
-	pr  = mxGetPr(source);
+	pr  = getDoubles(source);
 	if (number_of_dims!=3)
 		error("the input scene.texture_b is not well sized , should be of dimension  H x W x nb_colors");	
 	if (dim_array[0]!=scene.nb_colors)
@@ -230,7 +250,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
         error("the input scene.texture_b is not well sized , should be of dimension  H x W x nb_colors");
     if (dim_array[2]!=scene.texture_height)
         error("the input scene.texture_b is not well sized , should be of dimension  H x W x nb_colors");
-    scene.texture_b= mxGetPr(source);
+    scene.texture_b= getDoubles(source);
 
 
 	source=mxGetField(matlab_scene,0,"uv_b");
@@ -244,11 +264,12 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 		error("the input scene.uv_b is not well sized should be of size 2xNb_vertices");
 	if (scene.nb_uv!=dim_array[1])
 		error("the input scene.uv_b is not well sized should be of size 2xNb_vertices");
-	scene.uv_b= mxGetPr(source);
+	scene.uv_b= getDoubles(source);
 
 	source=mxGetField(matlab_scene,0,"ij_b");
     if (!source)
         error("missing field ij_b");
+	number_of_dims = mxGetNumberOfDimensions(source);
 	dim_array = mxGetDimensions(source);	
 	if (number_of_dims!=2)
 		error("the input scene.ij_b is not well sized , should be of dimension 2 (2xNb_vertices)");
@@ -256,7 +277,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 		error("the input scene.ij_b is not well sized should be of size 2xNb_vertices");
 	if (dim_array[1]!=scene.nb_vertices)		
 		error("the input scene.ij_b is not well sized should be of size 2xNb_vertices");
-	scene.ij_b= mxGetPr(source);
+	scene.ij_b= getDoubles(source);
 
 	source=mxGetField(matlab_scene,0,"shade_b");
     if (!source)
@@ -269,7 +290,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 		error("the input scene.shade_b is not well sized should be of size 1xNb_vertices");
 	if (dim_array[1]!=scene.nb_vertices)		
 		error("the input scene.shade_b is not well sized should be of size 1xNb_vertices");
-	scene.shade_b= mxGetPr(source);
+	scene.shade_b= getDoubles(source);
 
 	source=mxGetField(matlab_scene,0,"colors_b");
     if (!source)
@@ -278,10 +299,11 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 	dim_array = mxGetDimensions(source);	
 	if (number_of_dims!=2)
 		error("the input scene.colors_b is not well sized , should be of dimension 2 (nb_colors x Nb_vertices)");
-	scene.nb_colors=dim_array[0];		
+	if (dim_array[0]!=scene.nb_colors)
+		error("the input scene.colors_b is not well sized should be of size nb_colors x Nb_vertices");
 	if (dim_array[1]!=scene.nb_vertices)		
 		error("the input scene.colors_b is not well sized should be of size nb_colors x Nb_vertices");
-	scene.colors_b= mxGetPr(source);
+	scene.colors_b= getDoubles(source);
 
 
 	source=prhs[1];
@@ -296,7 +318,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 		error("the input image is not well sized , should be of dimension  H x W x nb_colors");	
 	if (dim_array[2]!=scene.height)
 		error("the input image is not well sized , should be of dimension  H x W x nb_colors");
-        image= mxGetPr(source);
+        image= getDoubles(source);
 
 	source=prhs[2];
 	number_of_dims = mxGetNumberOfDimensions(source);
@@ -308,7 +330,7 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 		error("b the input z_buffer is not well sized , should be of dimension  H x W");	
 	if (dim_array[1]!=scene.height)
 		error("c the input z_buffer is not well sized , should be of dimension  H x W");
-        z_buffer= mxGetPr(source);
+        z_buffer= getDoubles(source);
 
 	double sigma = mxGetScalar(prhs[4]);
 	
@@ -323,10 +345,12 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 	
 	if (antialiaseError)
 	{
+	  if (nrhs<9)
+		  error("missing input obs, err_buffer or err_buffer_b");
 	  source=prhs[6];	
 	  number_of_dims = mxGetNumberOfDimensions(source);
 	  dim_array = mxGetDimensions(source);
-	  pr  = mxGetPr(source);
+	  pr  = getDoubles(source);
 	  if (number_of_dims!=3)
 		  error("the input obs is not well sized , should be of dimension  H x W x nb_colors");	
 	  if (dim_array[0]!=scene.nb_colors)
@@ -335,33 +359,31 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 		  error("the input obs is not well sized , should be of dimension  H x W x nb_colors");
 	  if (dim_array[2]!=scene.height)
 		error("the input obs is not well sized , should be of dimension  H x W x nb_colors");
-	  obs= mxGetPr(source);
+	  obs= getDoubles(source);
 	  
 	  source=prhs[7];	
 	  number_of_dims = mxGetNumberOfDimensions(source);
 	  dim_array = mxGetDimensions(source);
-	  pr  = mxGetPr(source);
+	  pr  = getDoubles(source);
 	  if (number_of_dims!=2)
 		  error("the input error is not well sized , should be of dimension  H x W ");	
 	  if (dim_array[0]!=scene.width)
 		  error("the input error is not well sized , should be of dimension  H x W");
 	  if (dim_array[1]!=scene.height)
 		  error("the input error is not well sized , should be of dimension  H x W ");
-	  err_buffer= mxGetPr(source);
+	  err_buffer= getDoubles(source);
 	  
 	  source=prhs[8];	
 	  number_of_dims = mxGetNumberOfDimensions(source);
 	  dim_array = mxGetDimensions(source);
-	  pr  = mxGetPr(source);
+	  pr  = getDoubles(source);
 	  if (number_of_dims!=2)
 		  error("the input error is not well sized , should be of dimension  H x W ");	
 	  if (dim_array[0]!=scene.width)
 		  error("the input error is not well sized , should be of dimension  H x W");
 	  if (dim_array[1]!=scene.height)
 		  error("the input error is not well sized , should be of dimension  H x W ");
-	  err_buffer_b= mxGetPr(source);
-	 
-	  renderScene_B(scene,image,z_buffer,image_b,sigma,antialiaseError,obs,err_buffer,err_buffer_b);
+	  err_buffer_b= getDoubles(source);
 	}
       
     else
@@ -379,10 +401,17 @@ void mexFunction(int nlhs,mxArray *plhs[],int nrhs,const mxArray *prhs[])
 		error("the input image_b is not well sized , should be of dimension  H x W x nb_colors");	
 	if (dim_array[2]!=scene.height)
 		error("the input image_b is not well sized , should be of dimension  H x W x nb_colors");
-        image_b= mxGetPr(source);
+        image_b= getDoubles(source);
 	
-	renderScene_B(scene,image,z_buffer,image_b,sigma); 
     }
+	try
+	{
+	  renderScene_B(scene,image,z_buffer,image_b,sigma,antialiaseError,obs,err_buffer,err_buffer_b);
+	}
+	catch (const char* msg)
+	{
+	  error(msg);
+	}
 
  }
 
-- 
2.43.0


From d6ad07169b9603a1012f293b66ff07140b98841f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:12 +0000
Subject: [PATCH 51/59] fix: the renderer's header includes climits for INT_MAX

---
 C++/DifferentiableRenderer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 713e481..b2e1cf0 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -32,6 +32,7 @@
 #include <iostream>
 #include <math.h>
 #include <string.h>
+#include <climits>
 #include <limits>
 #include <vector>
 #include <algorithm>
-- 
2.43.0


From c2ae976da3b42eb078892221490a8cc77929a0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:32 +0000
Subject: [PATCH 52/59] fix: PyTorch light and colour gradients were NaN for
 meshes with vertices without faces

---
 deodr/pytorch/triangulated_mesh_pytorch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/deodr/pytorch/triangulated_mesh_pytorch.py b/deodr/pytorch/triangulated_mesh_pytorch.py
index a866339..77498a0 100644
--- a/deodr/pytorch/triangulated_mesh_pytorch.py
+++ b/deodr/pytorch/triangulated_mesh_pytorch.py
@@ -45,6 +45,8 @@ class TriMeshAdjacenciesPytorch(TriMeshAdjacencies):
     def compute_vertex_normals(self, face_normals: torch.Tensor) -> torch.Tensor:
         n = self._vertices_faces_torch.mm(face_normals)
         l2 = (n**2).sum(dim=1)
+        # vertices without faces have no normal
+        l2 = l2.masked_fill(torch.as_tensor(self.degree_v_f == 0), 1)
         norm = l2.sqrt()
         return n / norm[:, None]
 
-- 
2.43.0


From 5c13fa30fb48303e73c558d1cf8e3ae936a650c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 53/59] fix: subdivision of meshes with unsigned 64-bit faces
 failed

---
 deodr/triangulated_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index 7e9a62a..c36ee17 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -563,7 +563,7 @@ def loop_subdivision(mesh: ColoredTriMesh, n_iter: int = 1) -> ColoredTriMesh:
             mesh.adjacencies.faces_edges[:, 2] + mesh.nb_vertices,
         )
     )
-    new_faces = np.vstack((faces1, faces2, faces3, faces4))
+    new_faces = np.vstack((faces1, faces2, faces3, faces4)).astype(mesh.adjacencies.faces_edges.dtype)
     if mesh.uv is not None:
         raise BaseException("Textured mesh not supported yet in subdivision.")
     if mesh.vertices_colors is not None:
-- 
2.43.0


From b0526595777c2e56cfd5119aaf346aa115a9a003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:08 +0000
Subject: [PATCH 54/59] fix: small and unsigned integer vertices, points,
 vectors and cameras overflowed silently

---
 deodr/differentiable_renderer.py | 10 ++++++----
 deodr/laplacian_rigid_energy.py  |  3 ++-
 deodr/tools.py                   | 15 +++++++++++++--
 deodr/triangulated_mesh.py       |  6 +++---
 4 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/deodr/differentiable_renderer.py b/deodr/differentiable_renderer.py
index d089141..4798b89 100644
--- a/deodr/differentiable_renderer.py
+++ b/deodr/differentiable_renderer.py
@@ -8,6 +8,7 @@ import warnings
 import numpy as np
 from typing_extensions import Literal
 
+from deodr.tools import as_float
 from deodr.triangulated_mesh import ColoredTriMesh
 
 from . import differentiable_renderer_cython  # type: ignore
@@ -299,8 +300,8 @@ class Camera:
                 distortion = np.array(distortion)
                 assert distortion.shape == (5,)
 
-        self.extrinsic = extrinsic
-        self.intrinsic = intrinsic
+        self.extrinsic = as_float(extrinsic)
+        self.intrinsic = as_float(intrinsic)
         self.distortion = distortion
         self.height = height
         self.width = width
@@ -508,11 +509,12 @@ class PerspectiveCamera(Camera):
             assert rot.shape == (3, 3)
             assert np.allclose(rot.T.dot(rot), np.eye(3), 1e-6)
             assert np.linalg.det(rot) > 0
+            rot = as_float(rot)
         focal = 0.5 * width / np.tan(0.5 * fov * np.pi / 180)
         focal_x = focal
         pixel_aspect_ratio = 1
         focal_y = focal * pixel_aspect_ratio
-        trans = -rot.dot(camera_center)
+        trans = -rot.dot(as_float(camera_center))
         cx = width / 2
         cy = height / 2
         intrinsic = np.array([[focal_x, 0, cx], [0, focal_y, cy], [0, 0, 1]])
@@ -537,7 +539,7 @@ def default_camera(
     """Compute the position of the camera center so that the entire mesh is visible
     and covers most or the image.
     """
-    cam_vertices = vertices.dot(rot.T)
+    cam_vertices = as_float(vertices).dot(rot.T)
     box_min = cam_vertices.min(axis=0)
     box_max = cam_vertices.max(axis=0)
     box_center = 0.5 * (box_max + box_min)
diff --git a/deodr/laplacian_rigid_energy.py b/deodr/laplacian_rigid_energy.py
index bd3b910..666377d 100644
--- a/deodr/laplacian_rigid_energy.py
+++ b/deodr/laplacian_rigid_energy.py
@@ -7,6 +7,7 @@ import numpy as np
 import scipy
 import scipy.sparse
 
+from deodr.tools import as_float
 from deodr.triangulated_mesh import TriMesh
 
 
@@ -34,7 +35,7 @@ class LaplacianRigidEnergy:
         self,
         vertices: np.ndarray,
     ) -> Tuple[float, np.ndarray, scipy.sparse.csr_matrix]:
-        diff = (vertices - self.vertices_ref).flatten()
+        diff = (as_float(vertices) - self.vertices_ref).flatten()
         grad_vertices = self.cregu * (self.cT * diff).reshape((vertices.shape[0], 3))
         energy = 0.5 * diff.dot(grad_vertices.flatten())
 
diff --git a/deodr/tools.py b/deodr/tools.py
index d2728d4..d4a7abd 100644
--- a/deodr/tools.py
+++ b/deodr/tools.py
@@ -5,11 +5,19 @@ from typing import Callable, Tuple
 import numpy as np
 
 
+def as_float(x: np.ndarray) -> np.ndarray:
+    """Convert integers, whose differences and products could overflow."""
+    if isinstance(x, np.ndarray) and np.issubdtype(x.dtype, np.integer):
+        return x.astype(np.float64)
+    return x
+
+
 def qrot(q: np.ndarray, v: np.ndarray) -> np.ndarray:
     assert q.ndim in [1, 2]
     assert q.shape[-1] == 4
     assert v.ndim == 2
     assert v.shape[-1] == 3
+    q, v = as_float(q), as_float(v)
 
     if q.ndim == 2:
         uv = np.cross(q[:, None, :3], v[None, :, :])
@@ -22,6 +30,7 @@ def qrot(q: np.ndarray, v: np.ndarray) -> np.ndarray:
 
 
 def qrot_backward(q: np.ndarray, v: np.ndarray, vr_b: np.ndarray) -> Tuple[np.ndarray, np.ndarray]:
+    q, v, vr_b = as_float(q), as_float(v), as_float(vr_b)
     uv = np.cross(q[:3], v)
     v_b = vr_b.copy()
     q_b = np.zeros((4))
@@ -34,12 +43,14 @@ def qrot_backward(q: np.ndarray, v: np.ndarray, vr_b: np.ndarray) -> Tuple[np.nd
 
 
 def normalize(x: np.ndarray, axis: int = -1) -> np.ndarray:
+    x = as_float(x)
     n2 = np.sum(x**2, axis=axis)
     n = np.sqrt(n2)
     return x / np.expand_dims(n, axis)
 
 
 def normalize_backward(x: np.ndarray, xn_b: np.ndarray, axis: int = -1) -> np.ndarray:
+    x, xn_b = as_float(x), as_float(xn_b)
     n2 = np.sum(x**2, axis=axis)
     n = np.sqrt(n2)
     inv_n = 1 / n
@@ -57,7 +68,7 @@ def jacobian_finite_differences(
     func: Callable[[np.ndarray], np.ndarray], x: np.ndarray, epsilon: float = 1e-6
 ) -> np.ndarray:
     v0 = func(x)
-    nx = x.copy()
+    nx = as_float(x).copy()
     jacobian = np.zeros((v0.size, x.size))
     nx_flat = nx.ravel()
     for d in range(x.size):
@@ -80,7 +91,7 @@ def check_jacobian_finite_differences(
     epsilon: float = 1e-7,
     tol: float = 1e-4,
 ) -> None:
-    nx = x.copy()
+    nx = as_float(x).copy()
     nx_flat = nx.ravel()
     for d in range(x.size):
         nx_flat[d] = x.flat[d] + epsilon
diff --git a/deodr/triangulated_mesh.py b/deodr/triangulated_mesh.py
index c36ee17..770ce7b 100644
--- a/deodr/triangulated_mesh.py
+++ b/deodr/triangulated_mesh.py
@@ -5,7 +5,7 @@ from typing import Any, Dict, Optional, Tuple
 import numpy as np
 from scipy import sparse
 
-from .tools import cross_backward, normalize, normalize_backward
+from .tools import as_float, cross_backward, normalize, normalize_backward
 
 try:
     from trimesh.base import Trimesh
@@ -161,7 +161,7 @@ class TriMeshAdjacencies:
         """
         assert vertices_2d.ndim == 2
         assert vertices_2d.shape[1] == 2
-        triangles = vertices_2d[self.faces, :]
+        triangles = as_float(vertices_2d)[self.faces, :]
         u = triangles[:, 1, :] - triangles[:, 0, :]
         v = triangles[:, 2, :] - triangles[:, 0, :]
         face_visible = np.cross(u, v) > 0 if self.clockwise else np.cross(u, v) < 0
@@ -224,7 +224,7 @@ class TriMesh:
     def set_vertices(self, vertices: np.ndarray) -> None:
         assert vertices.ndim == 2
         assert vertices.shape[1] == 3
-        self._vertices = vertices
+        self._vertices = as_float(vertices)
         self._face_normals = None
         self._vertex_normals = None
         self._vertices_b = np.zeros((self.nb_vertices, 3))
-- 
2.43.0


From 08956a1456de51dd85bdf082125399a98011029a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 55/59] fix: moderngl did not draw flat meshes facing the
 camera and wrapped texture coordinates outside of the texture

---
 deodr/opengl/moderngl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/deodr/opengl/moderngl.py b/deodr/opengl/moderngl.py
index 7f87dbd..d850b69 100644
--- a/deodr/opengl/moderngl.py
+++ b/deodr/opengl/moderngl.py
@@ -125,6 +125,9 @@ class OffscreenRenderer:
                 texture.shape[2],
                 (texture * 255).astype(np.uint8).tobytes(),
             )
+            # clamp the texture coordinates outside of the texture, as deodr does
+            self.texture.repeat_x = False
+            self.texture.repeat_y = False
         # texture.build_mipmaps()
 
     def set_camera(self, camera: Camera) -> None:
@@ -160,7 +163,8 @@ class OffscreenRenderer:
 
     def render(self, camera: Camera) -> np.ndarray:
         ctx = self.ctx
-        self.zfar = camera.world_to_camera(self.bounding_box_corners)[:, 2].max()
+        # slightly beyond the farthest vertex, a depth equal to zfar fails the depth test
+        self.zfar = 1.01 * camera.world_to_camera(self.bounding_box_corners)[:, 2].max()
         self.znear = 1e-3 * self.zfar
         # Setting up camera
         self.set_camera(camera)
-- 
2.43.0


From c6e78715da6a9df484bf474a9447a978a8de3034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:01 +0000
Subject: [PATCH 56/59] fix: pyrender culled clockwise meshes inside out and
 clipped scenes beyond 100 units

---
 deodr/opengl/pyrender.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/deodr/opengl/pyrender.py b/deodr/opengl/pyrender.py
index 6bed194..3eb9752 100644
--- a/deodr/opengl/pyrender.py
+++ b/deodr/opengl/pyrender.py
@@ -70,6 +70,9 @@ def deodr_mesh_to_pyrender(deodr_mesh: ColoredTriMesh) -> pyrender.Mesh:
     # that are different from face indices for the 3d vertices
     # we need to duplicate vertices
     faces, mask_v, mask_vt = trimesh.visual.texture.unmerge_faces(deodr_mesh.faces, deodr_mesh.faces_uv)
+    if deodr_mesh.clockwise:
+        # pyrender culls the faces that are clockwise in the image
+        faces = faces[:, ::-1]
     vertices = deodr_mesh.vertices[mask_v]
     deodr_mesh.compute_vertex_normals()
     vertex_normals = deodr_mesh.vertex_normals[mask_v]
@@ -130,12 +133,18 @@ def render(deodr_scene: Scene3D, camera: Camera) -> Tuple[np.ndarray, np.ndarray
 
     # pixel centers are at half integer coordinates in opengl
     pixel_offset = 0.5 if deodr_scene.integer_pixel_centers else 0.0
+    # adapt the clipping planes to the scene, the default ones clip what is farther than 100 or nearer than 0.05
+    zfar = 1.01 * camera.world_to_camera(deodr_scene.mesh.vertices)[:, 2].max()
+    if zfar <= 0:
+        zfar = pyrender.constants.DEFAULT_Z_FAR  # nothing in front of the camera
     # cam = pyrender.PerspectiveCamera(yfov=np.pi / 3.0, aspectRatio=1.414)
     cam = pyrender.IntrinsicsCamera(
         fx=camera.intrinsic[0, 0],
         fy=camera.intrinsic[1, 1],
         cx=camera.intrinsic[0, 2] + pixel_offset,
         cy=camera.intrinsic[1, 2] + pixel_offset,
+        znear=1e-3 * zfar,
+        zfar=zfar,
     )
 
     # convert to pyrender directional light parameterization
-- 
2.43.0


From fc308c469786dd57483e45a08fd9d13a18e1da22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 57/59] fix: gradients of the whole scene were NaN when a
 triangle is flat to rounding error

---
 C++/DifferentiableRenderer.h | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index b2e1cf0..510d201 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -90,8 +90,9 @@ struct Scene
 	bool integer_pixel_centers;
 };
 
-void inv_matrix_3x3(double *S, double *T)
+bool inv_matrix_3x3(double *S, double *T)
 {
+	// returns false and fills T with zeros if S is singular to working precision
 	//	S=	|S[0] S[1] S[2]|
 	//		|S[3] S[4] S[5]|
 	//		|S[6] S[7] S[8]|
@@ -110,11 +111,13 @@ void inv_matrix_3x3(double *S, double *T)
 
 	// compute determinant
 
-	double inv_det = 1 / (S[0] * T[0] + S[1] * T[3] + S[2] * T[6]);
+	double det = S[0] * T[0] + S[1] * T[3] + S[2] * T[6];
+	double inv_det = det != 0 ? 1 / det : 0;
 
 	// rescale the cofactor matrix to get the inverse matrix
 	for (int k = 0; k < 9; k++)
 		T[k] *= inv_det;
+	return det != 0;
 }
 
 //void transpose(double* S,double* T)
@@ -147,7 +150,8 @@ void inv_matrix_3x3_B(double *S, double *S_B, double *T, double *T_B)
 
 	// compute determinant
 
-	double inv_det = 1 / (S[0] * Tp[0] + S[1] * Tp[3] + S[2] * Tp[6]);
+	double det = S[0] * Tp[0] + S[1] * Tp[3] + S[2] * Tp[6];
+	double inv_det = det != 0 ? 1 / det : 0;
 
 	// rescale the cofactor matrix to get the inverse matrix
 	for (int k = 0; k < 9; k++)
@@ -664,7 +668,7 @@ void get_triangle_stencil_equations(double Vxy[][2], double bary_to_xy1[9], doub
 	for (int v = 0; v < 3; v++)
 		bary_to_xy1[3 * 2 + v] = 1;
 
-	inv_matrix_3x3(bary_to_xy1, xy1_to_bary);
+	bool invertible = inv_matrix_3x3(bary_to_xy1, xy1_to_bary);
 
 	// compute edges equations of type x=ay+b
 
@@ -759,6 +763,14 @@ void get_triangle_stencil_equations(double Vxy[][2], double bary_to_xy1[9], doub
 		right_edge_id[1] = (id + 2) % 3;
 		left_edge_id[1] = (id) % 3;
 	}
+
+	// nothing can be interpolated in a flat triangle
+	if (!invertible)
+		for (int k = 0; k < 2; k++)
+		{
+			y_begin[k] = 0;
+			y_end[k] = -1;
+		}
 }
 
 template <class T>
@@ -1413,7 +1425,8 @@ void get_edge_stencil_equations(double Vxy[][2], int height, int width, double s
 		n[0] = Vxy[1][1] - Vxy[0][1];
 		n[1] = Vxy[0][0] - Vxy[1][0];
 	}
-	double inv_norm = 1 / sqrt(n[0] * n[0] + n[1] * n[1]);
+	double norm = sqrt(n[0] * n[0] + n[1] * n[1]);
+	double inv_norm = norm > 0 ? 1 / norm : 0;
 	n[0] *= inv_norm;
 	n[1] *= inv_norm;
 
@@ -1426,7 +1439,7 @@ void get_edge_stencil_equations(double Vxy[][2], int height, int width, double s
 		edge_to_xy1[3 * 2 + v] = 1;
 	edge_to_xy1[3 * 2 + 2] = 0;
 
-	inv_matrix_3x3(edge_to_xy1, xy1_to_edge);
+	bool invertible = inv_matrix_3x3(edge_to_xy1, xy1_to_edge);
 
 	for (int k = 0; k < 6; k++)
 	{
@@ -1480,6 +1493,9 @@ void get_edge_stencil_equations(double Vxy[][2], int height, int width, double s
 	{
 		y_end = height - 1;
 	}
+
+	if (!invertible)
+		y_end = y_begin - 1;
 }
 
 void get_edge_stencil_equations_B(double Vxy[][2], double Vxy_B[][2], double sigma, double xy1_to_bary_B[6], double xy1_to_transp_B[3], bool clockwise)
@@ -1498,7 +1514,8 @@ void get_edge_stencil_equations_B(double Vxy[][2], double Vxy_B[][2], double sig
 		nt[0] = Vxy[1][1] - Vxy[0][1];
 		nt[1] = Vxy[0][0] - Vxy[1][0];
 	}
-	double inv_norm = 1 / sqrt(nt[0] * nt[0] + nt[1] * nt[1]);
+	double norm = sqrt(nt[0] * nt[0] + nt[1] * nt[1]);
+	double inv_norm = norm > 0 ? 1 / norm : 0;
 	n[0] = nt[0] * inv_norm;
 	n[1] = nt[1] * inv_norm;
 
-- 
2.43.0


From 71a199dfb01cb04f35702ef2d4a243637fb6cf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:40 +0000
Subject: [PATCH 58/59] fix: a light given as a list to the PyTorch scene was
 rounded to single precision

---
 deodr/pytorch/differentiable_renderer_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deodr/pytorch/differentiable_renderer_pytorch.py b/deodr/pytorch/differentiable_renderer_pytorch.py
index 4d273cd..0413cf7 100644
--- a/deodr/pytorch/differentiable_renderer_pytorch.py
+++ b/deodr/pytorch/differentiable_renderer_pytorch.py
@@ -107,7 +107,7 @@ class Scene3DPytorch(Scene3D):
 
     def set_light(self, light_directional: Optional[torch.Tensor], light_ambient: torch.Tensor) -> None:
         if light_directional is not None and not (isinstance(light_directional, torch.Tensor)):
-            light_directional = torch.tensor(light_directional)
+            light_directional = torch.tensor(light_directional, dtype=torch.double)
         self.light_directional = light_directional
         self.light_ambient_pytorch = light_ambient
 
-- 
2.43.0


From 0f6fddfa222364bbdfe21a28e2d678afe1b70033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:19 +0000
Subject: [PATCH 59/59] fix: the image of triangles of equal mean depth
 depended on the other triangles of the scene

---
 C++/DifferentiableRenderer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/C++/DifferentiableRenderer.h b/C++/DifferentiableRenderer.h
index 510d201..e50635b 100644
--- a/C++/DifferentiableRenderer.h
+++ b/C++/DifferentiableRenderer.h
@@ -2716,7 +2716,8 @@ struct sortcompare
 {
 	bool operator()(sortdata const &left, sortdata const &right)
 	{
-		return left.value > right.value;
+		// the order of triangles with equal values must not depend on the other triangles
+		return left.value > right.value || (left.value == right.value && left.index < right.index);
 	}
 };
 
-- 
2.43.0

