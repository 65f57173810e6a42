// Independent reference model of the 2.5D renderer (discontinuity edge overdraw).
// Written from the geometry, pixel by pixel: no scan lines, no matrix inversion, no incremental state.
// Templated on the scalar so that the same text gives exact derivatives with dual numbers.
#include <cmath>
#include <cstdint>
#include <cstring>
#include <limits>
#include <vector>
#include <algorithm>

static const int NP = 8;

struct Dual
{
	double v;
	double d[NP];
	Dual() : v(0) { for (int i = 0; i < NP; i++) d[i] = 0; }
	Dual(double x) : v(x) { for (int i = 0; i < NP; i++) d[i] = 0; }
};
static inline Dual operator+(const Dual &a, const Dual &b) { Dual r; r.v = a.v + b.v; for (int i = 0; i < NP; i++) r.d[i] = a.d[i] + b.d[i]; return r; }
static inline Dual operator-(const Dual &a, const Dual &b) { Dual r; r.v = a.v - b.v; for (int i = 0; i < NP; i++) r.d[i] = a.d[i] - b.d[i]; return r; }
static inline Dual operator*(const Dual &a, const Dual &b) { Dual r; r.v = a.v * b.v; for (int i = 0; i < NP; i++) r.d[i] = a.d[i] * b.v + a.v * b.d[i]; return r; }
static inline Dual operator/(const Dual &a, const Dual &b) { Dual r; r.v = a.v / b.v; for (int i = 0; i < NP; i++) r.d[i] = (a.d[i] - r.v * b.d[i]) / b.v; return r; }
static inline Dual operator-(const Dual &a) { return Dual(0) - a; }
static inline Dual sqrt(const Dual &a) { Dual r; r.v = std::sqrt(a.v); for (int i = 0; i < NP; i++) r.d[i] = a.d[i] / (2 * r.v); return r; }
static inline double val(double a) { return a; }
static inline double val(const Dual &a) { return a.v; }

extern "C" struct RefScene
{
	int32_t nb_triangles, nb_vertices, nb_uv, height, width, nb_colors, tex_h, tex_w;
	int32_t clockwise, backface_culling, strict_edge, perspective_correct, integer_pixel_centers, exact, defect;
	const uint32_t *faces, *faces_uv;
	const double *depths, *uv, *ij, *shade, *colors;
	const uint8_t *edgeflags, *textured, *shaded;
	const double *texture, *background_image, *background_color;
};

enum { AMB_EDGE = 1, AMB_DEPTH = 2, AMB_BAND = 4, AMB_ORDER = 8, AMB_UV = 16 }; // AMB_UV: value continuous, derivative not

template <class S>
struct Model
{
	const RefScene &s;
	std::vector<S> ij, uv, shade, colors, texture; // differentiable inputs (ij in pixel-centre coordinates)
	double sigma;
	std::vector<double> sum_depth;
	std::vector<char> facing; // 1: front facing (strictly) and in front, 2: drawn (may be back facing when no culling)
	std::vector<int> order;

	Model(const RefScene &sc, double sg) : s(sc), sigma(sg)
	{
		double off = s.integer_pixel_centers ? 0.0 : 0.5;
		for (int i = 0; i < 2 * s.nb_vertices; i++) ij.push_back(S(s.ij[i] - off));
		for (int i = 0; i < 2 * s.nb_uv; i++) uv.push_back(S(s.uv[i]));
		for (int i = 0; i < s.nb_vertices; i++) shade.push_back(S(s.shade[i]));
		for (int i = 0; i < s.nb_vertices * s.nb_colors; i++) colors.push_back(S(s.colors[i]));
		for (int i = 0; i < s.tex_h * s.tex_w * s.nb_colors; i++) texture.push_back(S(s.texture[i]));
		for (int k = 0; k < s.nb_triangles; k++)
		{
			const uint32_t *f = s.faces + 3 * k;
			double sum = 0;
			bool front = true;
			for (int i = 0; i < 3; i++)
			{
				sum += s.depths[f[i]];
				if (s.depths[f[i]] < 0) front = false;
			}
			sum_depth.push_back(sum);
			double a = area2(k);
			bool ff = s.clockwise ? a > 0 : a < 0;
			char c = 0;
			if (front && ff) c |= 1;
			if (front && (ff || (!s.backface_culling && a != 0))) c |= 2;
			facing.push_back(c);
			order.push_back(k);
		}
		std::stable_sort(order.begin(), order.end(), [this](int a, int b) { return sum_depth[a] > sum_depth[b]; });
	}

	double X(int v) const { return val(ij[2 * v]); }
	double Y(int v) const { return val(ij[2 * v + 1]); }
	double area2(int k) const
	{
		const uint32_t *f = s.faces + 3 * k;
		return (X(f[1]) - X(f[0])) * (Y(f[2]) - Y(f[0])) - (X(f[2]) - X(f[0])) * (Y(f[1]) - Y(f[0]));
	}

	// is the pixel centre covered by triangle k ; sets amb when it is too close to tell
	bool covers(int k, double x, double y, bool &amb) const
	{
		const uint32_t *f = s.faces + 3 * k;
		double sgn = area2(k) > 0 ? 1 : -1;
		bool in = true, near_edge = false, out_far = false;
		for (int e = 0; e < 3; e++)
		{
			int a = f[e], b = f[(e + 1) % 3];
			double dx = X(b) - X(a), dy = Y(b) - Y(a);
			double w = sgn * (dx * (y - Y(a)) - dy * (x - X(a))); // >0 inside
			double len = std::sqrt(dx * dx + dy * dy);
			double scale = 1 + std::fabs(x) + std::fabs(y) + std::fabs(X(a)) + std::fabs(Y(a));
			if (s.exact)
			{
				if (w < 0) in = false;
				else if (w == 0 && s.strict_edge)
				{
					// symbolic perturbation: move the point by (-eps, -eps^2)
					double w1 = sgn * dy, w2 = -sgn * dx;
					if (!(w1 > 0 || (w1 == 0 && w2 > 0))) in = false;
				}
			}
			else
			{
				if (w < 0) in = false;
				if (std::fabs(w) <= 1e-9 * len * scale) near_edge = true;
				else if (w < 0) out_far = true;
			}
		}
		if (near_edge && !out_far) amb = true;
		return in;
	}

	void barycentric(int k, double x, double y, S b[3]) const
	{
		const uint32_t *f = s.faces + 3 * k;
		S x0 = ij[2 * f[0]], y0 = ij[2 * f[0] + 1], x1 = ij[2 * f[1]], y1 = ij[2 * f[1] + 1], x2 = ij[2 * f[2]], y2 = ij[2 * f[2] + 1];
		S px(x), py(y);
		S A = (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0);
		b[0] = ((x1 - px) * (y2 - py) - (x2 - px) * (y1 - py)) / A;
		b[1] = ((x2 - px) * (y0 - py) - (x0 - px) * (y2 - py)) / A;
		b[2] = ((x0 - px) * (y1 - py) - (x1 - px) * (y0 - py)) / A;
	}

	void sample(S u, S v, std::vector<S> &out, bool &amb) const
	{
		S c[2] = {u, v};
		int n[2] = {s.tex_w, s.tex_h}, i0[2], i1[2];
		S fr[2];
		for (int k = 0; k < 2; k++)
		{
			double p = val(c[k]);
			double r = std::round(p);
			if (std::fabs(p - r) < 1e-9 * (1 + std::fabs(p)) && r >= 0 && r <= n[k] - 1) amb = true; // kink of the interpolation
			if (p <= 0) { i0[k] = i1[k] = 0; fr[k] = S(0); }
			else if (p >= n[k] - 1) { i0[k] = i1[k] = n[k] - 1; fr[k] = S(0); }
			else { i0[k] = (int)std::floor(p); i1[k] = i0[k] + 1; fr[k] = c[k] - S((double)i0[k]); }
		}
		for (int q = 0; q < s.nb_colors; q++)
		{
			auto T = [&](int uu, int vv) { return texture[(vv * s.tex_w + uu) * s.nb_colors + q]; };
			S top = T(i0[0], i0[1]) * (S(1) - fr[0]) + T(i1[0], i0[1]) * fr[0];
			S bot = T(i0[0], i1[1]) * (S(1) - fr[0]) + T(i1[0], i1[1]) * fr[0];
			out[q] = top * (S(1) - fr[1]) + bot * fr[1];
		}
	}

	// colour of face k with weights w on its n given corners
	void colour(int k, int n, const int *corner, S *w, std::vector<S> &out, bool &amb_uv) const
	{
		const uint32_t *f = s.faces + 3 * k;
		if (s.perspective_correct)
		{
			S iz(0);
			for (int i = 0; i < n; i++) iz = iz + w[i] / S(s.depths[f[corner[i]]]);
			for (int i = 0; i < n; i++) w[i] = w[i] / S(s.depths[f[corner[i]]]) / iz;
		}
		if (s.textured[k] && s.shaded[k])
		{
			const uint32_t *fu = s.faces_uv + 3 * k;
			S u(0), v(0), l(0);
			for (int i = 0; i < n; i++)
			{
				u = u + w[i] * uv[2 * fu[corner[i]]];
				v = v + w[i] * uv[2 * fu[corner[i]] + 1];
				l = l + w[i] * shade[f[corner[i]]];
			}
			sample(u, v, out, amb_uv);
			for (int q = 0; q < s.nb_colors; q++) out[q] = out[q] * l;
		}
		else
			for (int q = 0; q < s.nb_colors; q++)
			{
				out[q] = S(0);
				for (int i = 0; i < n; i++) out[q] = out[q] + w[i] * colors[f[corner[i]] * s.nb_colors + q];
			}
	}

	double depth(int k, int n, const int *corner, const S *w) const
	{
		const uint32_t *f = s.faces + 3 * k;
		double z = 0;
		for (int i = 0; i < n; i++)
			z += s.perspective_correct ? val(w[i]) / s.depths[f[corner[i]]] : val(w[i]) * s.depths[f[corner[i]]];
		return s.perspective_correct ? 1 / z : z;
	}

	// all depths zero: every formula gives exactly zero
	bool flat0(int k) const
	{
		for (int i = 0; i < 3; i++)
			if (s.depths[s.faces[3 * k + i]] != 0) return false;
		return !s.perspective_correct;
	}

	// one pixel. image: nb_colors values ; err used when obs!=NULL
	void pixel(int x, int y, const double *obs, std::vector<S> &image, double &zout, S &err, uint8_t &amb, int &winner, int &nb_blend) const
	{
		const int all[3] = {0, 1, 2};
		double best = std::numeric_limits<double>::infinity(), second = best;
		int win = -1;
		bool amb_e = false, amb_uv = false;
		std::vector<double> zs;
		for (int k = 0; k < s.nb_triangles; k++)
		{
			if (!(facing[k] & 2) || (s.textured[k] && !s.shaded[k])) continue;
			bool a = false;
			bool c = covers(k, x, y, a);
			if (!c && !a) continue;
			S b[3];
			barycentric(k, x, y, b);
			double z = depth(k, 3, all, b);
			if (a)
			{
				if (z < best + 1e-6 * (1 + std::fabs(z))) amb_e = true; // may matter
				// conservative: a later nearer triangle could hide it, but then the ambiguity flag only skips a pixel
			}
			if (!c) continue;
			if (z < best) { second = best; best = z; win = k; }
			else if (z < second) second = z;
		}
		amb = 0;
		if (amb_e) amb |= AMB_EDGE;
		if (win >= 0 && second - best <= 1e-9 * (1 + std::fabs(best))) amb |= AMB_DEPTH;
		winner = win;
		zout = best;
		std::vector<S> tmp(s.nb_colors);
		if (win >= 0)
		{
			S b[3];
			barycentric(win, x, y, b);
			colour(win, 3, all, b, image, amb_uv);
		}
		else
			for (int q = 0; q < s.nb_colors; q++)
				image[q] = S(s.background_image ? s.background_image[(y * s.width + x) * s.nb_colors + q] : s.background_color[q]);
		if (obs)
		{
			err = S(0);
			for (int q = 0; q < s.nb_colors; q++)
			{
				S d = image[q] - S(obs[(y * s.width + x) * s.nb_colors + q]);
				err = err + d * d;
			}
		}
		nb_blend = 0;
		if (sigma > 0)
		{
			double last_sum = std::numeric_limits<double>::infinity();
			int last_tri = -1;
			for (int it = 0; it < s.nb_triangles; it++)
			{
				int k = order[it];
				if (!(facing[k] & 1)) continue;
				const uint32_t *f = s.faces + 3 * k;
				for (int n = 0; n < 3; n++)
				{
					if (!s.edgeflags[3 * k + n]) continue;
					int corner[2] = {n, (n + 1) % 3};
					int va = f[corner[0]], vb = f[corner[1]];
					S dx = ij[2 * vb] - ij[2 * va], dy = ij[2 * vb + 1] - ij[2 * va + 1];
					S len = sqrt(dx * dx + dy * dy);
					S px = S((double)x) - ij[2 * va], py = S((double)y) - ij[2 * va + 1];
					S along = (px * dx + py * dy) / (len * len);
					// interior is on the left of a->b for positive area2
					S dist = (dx * py - dy * px) / len;
					S T = (s.clockwise ? S(0) - dist : dist) / S(sigma);
					double t = val(T), al = val(along);
					if (t < -1e-9 || t > 1 + 1e-9 || al < -1e-9 || al > 1 + 1e-9) continue;
					S w[2] = {S(1) - along, along};
					double z = depth(k, 2, corner, w);
					if (z > best + 1e-9 * (1 + std::fabs(best))) continue;
					if (!(t > 1e-9) || al < 1e-9 || al > 1 - 1e-9)
					{
						amb |= AMB_BAND;
						if (t < 0 || al < 0 || al > 1) continue;
					}
					if (t > 1 - 1e-9) amb_uv = true; // far limit of the band: the colour is continuous, its derivative is not
					if (win >= 0 && flat0(k) && flat0(win)) continue; // exact tie: the edge is not nearer
					if (std::isfinite(best) && std::fabs(z - best) <= 1e-9 * (1 + std::fabs(best))) { amb |= AMB_BAND; continue; }
					if (last_tri >= 0 && last_tri != k && std::fabs(last_sum - sum_depth[k]) <= 1e-9 * (1 + std::fabs(last_sum))) amb |= AMB_ORDER;
					last_tri = k;
					last_sum = sum_depth[k];
					if (t > 1) continue;
					nb_blend++;
					colour(k, 2, corner, w, tmp, amb_uv);
					if (obs && s.defect && !(s.textured[k] && s.shaded[k]))
					{
						// known finding C07: only the part of the edge colour proportional to x is differentiated
						S wx = dx / (len * len) * S((double)x);
						for (int q = 0; q < s.nb_colors; q++)
						{
							S partial = (colors[vb * s.nb_colors + q] - colors[va * s.nb_colors + q]) * wx;
							tmp[q] = partial + S(val(tmp[q]) - val(partial));
						}
					}
					if (obs)
					{
						S e(0);
						for (int q = 0; q < s.nb_colors; q++)
						{
							S d = tmp[q] - S(obs[(y * s.width + x) * s.nb_colors + q]);
							e = e + d * d;
						}
						err = err * T + (S(1) - T) * e;
					}
					else
						for (int q = 0; q < s.nb_colors; q++) image[q] = image[q] * T + (S(1) - T) * tmp[q];
				}
			}
		}
		if (amb_uv) amb |= AMB_UV;
	}
};

// stats: [0] pixels drawn by a triangle, [1] pixels blended, [2] ambiguous pixels (not counting uv kinks), [3] distinct winners
extern "C" int ref_render(const RefScene *sc, double sigma, const double *obs, double *image, double *z, double *err, uint8_t *amb, int32_t *owner, int64_t *stats)
{
	Model<double> m(*sc, sigma);
	std::vector<double> px(sc->nb_colors);
	for (int y = 0; y < sc->height; y++)
		for (int x = 0; x < sc->width; x++)
		{
			int i = y * sc->width + x, win, nb;
			double e = 0;
			m.pixel(x, y, obs, px, z[i], e, amb[i], win, nb);
			for (int q = 0; q < sc->nb_colors; q++) image[i * sc->nb_colors + q] = px[q];
			if (obs) err[i] = e;
			if (owner) owner[i] = win;
			if (stats)
			{
				if (win >= 0) stats[0]++;
				if (nb) stats[1]++;
				if (amb[i] & ~AMB_UV) stats[2]++;
			}
		}
	return 0;
}

// gradient of sum adj*image (obs NULL) or sum adj*err. All output arrays are overwritten.
extern "C" int ref_grad(const RefScene *sc, double sigma, const double *obs, const double *adj, double *ij_b, double *colors_b, double *uv_b, double *shade_b, double *texture_b)
{
	int n[5] = {2 * sc->nb_vertices, sc->nb_vertices * sc->nb_colors, 2 * sc->nb_uv, sc->nb_vertices, sc->tex_h * sc->tex_w * sc->nb_colors};
	double *out[5] = {ij_b, colors_b, uv_b, shade_b, texture_b};
	std::vector<std::pair<int, int>> vars;
	for (int g = 0; g < 5; g++)
		if (out[g])
			for (int i = 0; i < n[g]; i++)
			{
				vars.push_back({g, i});
				out[g][i] = 0;
			}
	Model<Dual> m(*sc, sigma);
	std::vector<Dual> *arr[5] = {&m.ij, &m.colors, &m.uv, &m.shade, &m.texture};
	std::vector<Dual> px(sc->nb_colors);
	for (size_t base = 0; base < vars.size(); base += NP)
	{
		for (size_t j = base; j < std::min(vars.size(), base + NP); j++) (*arr[vars[j].first])[vars[j].second].d[j - base] = 1;
		double acc[NP] = {0};
		for (int y = 0; y < sc->height; y++)
			for (int x = 0; x < sc->width; x++)
			{
				int i = y * sc->width + x, win, nb;
				bool any = false;
				if (obs) any = adj[i] != 0;
				else
					for (int q = 0; q < sc->nb_colors; q++) any = any || adj[i * sc->nb_colors + q] != 0;
				if (!any) continue;
				double z;
				uint8_t amb;
				Dual e;
				m.pixel(x, y, obs, px, z, e, amb, win, nb);
				for (int j = 0; j < NP; j++)
				{
					if (obs) acc[j] += adj[i] * e.d[j];
					else
						for (int q = 0; q < sc->nb_colors; q++) acc[j] += adj[i * sc->nb_colors + q] * px[q].d[j];
				}
			}
		for (size_t j = base; j < std::min(vars.size(), base + NP); j++)
		{
			(*arr[vars[j].first])[vars[j].second].d[j - base] = 0;
			out[vars[j].first][vars[j].second] = acc[j - base];
		}
	}
	return 0;
}
