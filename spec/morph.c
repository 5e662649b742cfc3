#include "spec.h"
#define FITS(i, j) ((i) - h / 2 >= 0 && (i) + h / 2 < r && (j) - w / 2 >= 0 && (j) + w / 2 < c)
#define MORPH_PRE \
	REQUIRE(a != NULL && d != NULL); \
	REQUIRE(a->channels == 1 && a->data_type == 1); \
	REQUIRE(d->channels == 1 && d->data_type == 1); \
	REQUIRE(a->rows == d->rows && a->cols == d->cols); \
	REQUIRE(s != NULL); \
	int r = a->rows, c = a->cols, w = s->width, h = s->height; \
	u8 *x = U8(a), *y = U8(d), *k = (u8 *)s->data; \
	if (c < w || r < h) return;

void spec_hypercv_corrosion(simple_mat a, simple_mat d, S_2D s)
{
	MORPH_PRE
	FOR(i, r) FOR(j, c)
	{
		int hit = 0;
		FOR(m, h) FOR(n, w)
			if (FITS(i, j) && k[m * w + n] == 1 && x[(i - h / 2 + m) * c + j - w / 2 + n] == 0) hit = 1;
		y[i * c + j] = x[i * c + j] != 0 && !hit ? x[i * c + j] : 0;
	}
}

void spec_hypercv_expend(simple_mat a, simple_mat d, S_2D s)
{
	MORPH_PRE
	FOR(i, r) FOR(j, c)
	{
		int hit = 0;
		FOR(m, h) FOR(n, w)
			if (FITS(i, j) && k[m * w + n] == 1 && x[(i - h / 2 + m) * c + j - w / 2 + n] != 0) hit = 1;
		y[i * c + j] = x[i * c + j] == 0 && hit ? 1 : x[i * c + j];
	}
}

#define TWICE(NAME, FIRST, SECOND) \
void spec_hypercv_##NAME(simple_mat src, simple_mat dst, S_2D kernel, int iterations) \
{ \
	REQUIRE(src != NULL); \
	REQUIRE(kernel != NULL); \
	REQUIRE(dst != NULL); \
	REQUIRE(dst->rows == src->rows && dst->cols == src->cols && dst->channels == src->channels && dst->data_type == src->data_type); \
	simple_mat a = simple_mat_copy(src), b = simple_mat_copy(src); \
	FOR(i, iterations) { FIRST(a, b, kernel); SECOND(b, a, kernel); } \
	memcpy(dst->data, a->data, (size_t)src->rows * src->cols * src->channels * a->elem_size); \
	delete_simple_mat(a); \
	delete_simple_mat(b); \
}
TWICE(open, hypercv_corrosion, hypercv_expend)
TWICE(close, hypercv_expend, hypercv_corrosion)

/* ---- thresholds ---- */
#define THRESHOLD(NAME, EXPR) \
void spec_hypercv_threshold_##NAME(simple_mat s, simple_mat d, int t, int mx) \
{ \
	REQUIRE(s != NULL && d != NULL); \
	REQUIRE(s->rows == d->rows && s->cols == d->cols && s->channels == d->channels); \
	REQUIRE(s->data_type == 1); \
	REQUIRE(d->data_type == 1); \
	REQUIRE(s->channels == 1); \
	FOR(i, s->rows * s->cols) { int v = U8(s)[i]; U8(d)[i] = (EXPR); } \
}
THRESHOLD(binary, v > t ? mx : 0)
THRESHOLD(binary_inv, v > t ? 0 : mx)
THRESHOLD(trunc, v > t ? t : v)
THRESHOLD(tozero, v > t ? v : 0)
THRESHOLD(tozero_inv, v > t ? 0 : v)

void spec_hypercv_threshold_otsu(simple_mat s, simple_mat d)
{
	REQUIRE(s != NULL && d != NULL);
	REQUIRE(s->rows == d->rows && s->cols == d->cols && s->channels == d->channels);
	REQUIRE(s->data_type == 1);
	REQUIRE(d->data_type == 1);
	REQUIRE(s->channels == 1);
	int t = otsuThreshold(s);
	FOR(i, s->rows * s->cols) U8(d)[i] = U8(s)[i] > t ? 255 : 0;
}

void spec_hypercv_threshold(simple_mat s, simple_mat d, int t, int mx, int type)
{
	REQUIRE(s != NULL);
	REQUIRE(d != NULL);
	REQUIRE(type == THRESH_BINARY || type == THRESH_BINARY_INV || type == THRESH_TRUNC || type == THRESH_TOZERO || type == THRESH_TOZERO_INV
		|| type == THRESH_MASK || type == THRESH_OTSU || type == THRESH_TRIANGLE);
	if (type == THRESH_BINARY) hypercv_threshold_binary(s, d, t, mx);
	if (type == THRESH_BINARY_INV) hypercv_threshold_binary_inv(s, d, t, mx);
	if (type == THRESH_TRUNC) hypercv_threshold_trunc(s, d, t, mx);
	if (type == THRESH_TOZERO) hypercv_threshold_tozero(s, d, t, mx);
	if (type == THRESH_TOZERO_INV) hypercv_threshold_tozero_inv(s, d, t, mx);
	if (type == THRESH_MASK) hypercv_threshold_mask(s, d, t, mx);
	if (type == THRESH_OTSU) hypercv_threshold_otsu(s, d);
	if (type == THRESH_TRIANGLE) hypercv_threshold_triangle(s, d, t, mx);
}

/* the threshold with the largest between-class variance (the first of equal ones) */
int spec_otsuThreshold(simple_mat s)
{
	REQUIRE(s != NULL && s->data_type == 1 && (s->channels == 1 || s->channels == 3));
	int best = 0, ch = s->channels, step = s->cols * ch;
	double hist[256] = {0}, g = -1, n = s->rows * s->cols, n0 = 0;
	FOR(i, s->rows) FOR(j, s->cols)
	{
		double v = ch == 1 ? U8(s)[i * step + j] : U8(s)[i * step + j * 3] * 0.114 + U8(s)[i * step + j * 3 + 1] * 0.587 + U8(s)[i * step + j * 3 + 2] * 0.299;
		v = v < 0 ? 0 : v;
		v = v > 255 ? 255 : v;
		hist[(int)v]++;
	}
	FOR(i, 256)
	{
		n0 += hist[i];
		if (n - n0 == 0) break;
		double s0 = 0, s1 = 0, w = n0 / n;
		for (int j = 0; j <= i; j++) s0 += j * hist[j];
		for (int j = i + 1; j < 256; j++) s1 += j * hist[j];
		double u0 = s0 / n0, u1 = s1 / (n - n0), q = w * (1 - w) * (u0 - u1) * (u0 - u1);
		if (g < q) { g = q; best = i; }
	}
	return best;
}
