#include "spec.h"
/* ---- constrained energy minimisation ---- */
simple_mat spec_hyper_mat_cem(hyper_mat m, float *sp)
{
	REQUIRE(m->data_type == 4);
	hyper_mat cp = NULL;
	if (cmpstr(m->interleave, "bsq") != 1)
	{
		cp = hyper_mat_copy(m);
		convert2bsq(cp);
		m = cp;
	}
	int n = m->samples * m->lines, b = m->bands;
	simple_mat x = reshape_hypermat_2_simplemat(m, b, n);
	simple_mat t = create_simple_mat(n, b, 4, 1);
	simple_mat_transport(t, x);
	simple_mat R = create_simple_mat(b, b, 4, 1);
	correlation_matrix_float(F32(R), F32(x), F32(t), b, n, b);
	simple_mat I = create_simple_mat(b, b, 4, 1);
	invert_matrix_float(F32(I), F32(R), b);
	float *u = (float *)malloc(b * sizeof(float)), *v = (float *)malloc(b * sizeof(float)), *w = (float *)malloc(sizeof(float));
	MulMatrix_float(F32(I), sp, u, b, b, 1);
	MulMatrix_float(sp, F32(I), v, 1, b, b);
	MulMatrix_float(v, sp, w, 1, b, 1);
	FOR(i, b) u[i] = u[i] / w[0];
	simple_mat d = create_simple_mat(m->lines, m->samples, 4, 1);
	MulMatrix_float(F32(t), u, F32(d), n, b, 1);
	delete_simple_mat(x);
	delete_simple_mat(t);
	delete_simple_mat(R);
	delete_simple_mat(I);
	delete_hyper_mat(cp);
	free(u); free(v); free(w);
	return d;
}

/* ---- normalisation ---- */
#define NORM_PRE \
	REQUIRE(s != NULL && d != NULL); \
	REQUIRE(d->rows == s->rows && d->cols == s->cols);
#define NORMALIZE(NAME, T, TYPE, ABS, OUT) \
void spec_hypercv_normalize_##NAME(simple_mat s, simple_mat d, float alpha, float beta, int type) \
{ \
	NORM_PRE \
	REQUIRE(d->data_type == s->data_type && d->channels == s->channels); \
	REQUIRE(s->data_type == TYPE); \
	REQUIRE(type == NORM_L1 || type == NORM_L2 || type == NORM_INF || type == NORM_MINMAX); \
	int n = s->rows * s->cols * s->channels; \
	T *x = (T *)s->data, *y = (T *)d->data; \
	if (type == NORM_L1) { float q = 0; FOR(i, n) q += x[i] >= 0 ? x[i] : -x[i]; FOR(i, n) y[i] = OUT(x[i] * alpha / q); } \
	if (type == NORM_L2) { float q = 0; FOR(i, n) q += x[i] * x[i]; FOR(i, n) y[i] = OUT(x[i] * alpha / sqrt(q)); } \
	if (type == NORM_INF) { float q = 0; FOR(i, n) q = ABS(x[i]) > q ? ABS(x[i]) : q; FOR(i, n) y[i] = OUT(x[i] * alpha / q); } \
	if (type == NORM_MINMAX) \
	{ \
		float hi = -1000000, lo = 1000000; \
		FOR(i, n) { hi = hi > x[i] ? hi : x[i]; lo = lo < x[i] ? lo : x[i]; } \
		float b = alpha > beta ? alpha : beta, a = alpha > beta ? beta : alpha; \
		FOR(i, n) y[i] = OUT((x[i] - lo) * (b - a) / (hi - lo) + a); \
	} \
}
#define SAME(v) (v)
NORMALIZE(uchar, u8, 1, SAME, saturate_cast_float2uchar)
NORMALIZE(float, float, 4, fabs, SAME)

void spec_hypercv_normalize(simple_mat s, simple_mat d, float alpha, float beta, int type)
{
	NORM_PRE
	REQUIRE(s->data_type == 1 || s->data_type == 4);
	if (s->data_type == 1) hypercv_normalize_uchar(s, d, alpha, beta, type);
	if (s->data_type == 4) hypercv_normalize_float(s, d, alpha, beta, type);
}

/* ---- histogram equalisation: rank * 255 / count ---- */
void spec_HisEqualization(simple_mat s, simple_mat d)
{
	REQUIRE(s != NULL && d != NULL);
	REQUIRE(s->rows == d->rows && s->cols == d->cols);
	REQUIRE(s->data_type == 1 && d->data_type == 1 && s->channels == 1 && d->channels == 1);
	int n = s->rows * s->cols, h[256] = {0};
	FOR(i, n) h[U8(s)[i]] += 1;
	for (int i = 1; i < 256; i++) h[i] += h[i - 1];
	FOR(i, 256) h[i] = (long)h[i] * 255 / n;
	FOR(i, n) U8(d)[i] = h[U8(s)[i]];
}

/* ---- linear stretch of every band; 0 stays 0 only for a sample that was 0 ---- */
void spec_hyper_mat_linear_tension(hyper_mat m, hyper_mat d)
{
	REQUIRE(m != NULL && d != NULL);
	REQUIRE(cmpstr(m->interleave, "bsq") == 1);
	REQUIRE(m->data_type == 4);
	int w = m->samples, l = m->lines, b = m->bands;
	REQUIRE(d->samples == w && d->lines == l && d->bands == b);
	REQUIRE(d->data_type == 1);
	float *x = F32(m);
	FOR(k, b)
	{
		float hi = x[k * w * l], lo = hi;
		FOR(i, l) FOR(j, w)
		{
			float v = x[k * w * l + i * w + j];
			if (hi < v) hi = v;
			if (lo > v) lo = v;
		}
		float g = 255 / (hi - lo), o = -lo * 255 / (hi - lo);
		FOR(i, l) FOR(j, w)
		{
			float v = x[k * w * l + i * w + j];
			int q = (int)(v * g + o);
			U8(d)[k * w * l + i * w + j] = q >= 255 ? 255 : q > 0 ? q : v == 0 ? 0 : 1;
		}
	}
}

float spec_cal_edge_signal_energy(simple_mat m)
{
	REQUIRE(m != NULL);
	REQUIRE(m->channels == 1);
	REQUIRE(m->data_type == 1);
	float a[9] = {-1, -1, 1, -1, 4, -1, 1, -1, -1}, b[9] = {1, -1, -1, -1, 4, -1, -1, -1, 1};
	FOR(i, 9) { a[i] = a[i] / 6; b[i] = b[i] / 6; }
	int r = m->rows, c = m->cols;
	simple_mat x = create_simple_mat(r, c, 4, 1), y = create_simple_mat(r, c, 4, 1);
	hypercv_filter2D(m, x, a, 3, 3, 0);
	hypercv_filter2D(m, y, b, 3, 3, 0);
	simple_mat_addition_float(x, y, x);
	float e = 0;
	FOR(i, r) FOR(j, c) e += pow(F32(x)[i * c + j], 2);
	delete_simple_mat(x);
	delete_simple_mat(y);
	return e / r / c;
}

/* ---- Hu moments ---- */
void spec_calc_hu_moment(double *hu, simple_mat m)
{
	REQUIRE(hu != NULL);
	REQUIRE(m != NULL);
	REQUIRE(m->data_type == 1 && m->channels == 1);
	int c = m->cols, r = m->rows, step = c * get_elemsize(m->data_type);
	u8 *p = U8(m);
	double a = 0, b = 0, s = 0, m11 = 0, m20 = 0, m02 = 0, m30 = 0, m03 = 0, m12 = 0, m21 = 0;
	FOR(y, r) FOR(x, c) { a += x * p[y * step + x]; b += y * p[y * step + x]; s += p[y * step + x]; }
	int cx = (int)(a / s + 0.5), cy = (int)(b / s + 0.5);
	FOR(y, r) FOR(x, c)
	{
		double u = x - cx, v = y - cy, w = p[y * step + x];
		m11 += u * v * w; m20 += u * u * w; m02 += v * v * w;
		m30 += u * u * u * w; m03 += v * v * v * w; m12 += u * v * v * w; m21 += u * u * v * w;
	}
	double n20 = m20 / pow(s, 2), n02 = m02 / pow(s, 2), n11 = m11 / pow(s, 2);
	double n30 = m30 / pow(s, 2.5), n03 = m03 / pow(s, 2.5), n12 = m12 / pow(s, 2.5), n21 = m21 / pow(s, 2.5);
	double t1 = n20 - n02, t2 = n30 - 3 * n12, t3 = 3 * n21 - n03, t4 = n30 + n12, t5 = n21 + n03;
	hu[0] = n20 + n02;
	hu[1] = t1 * t1 + 4 * n11 * n11;
	hu[2] = t2 * t2 + t3 * t3;
	hu[3] = t4 * t4 + t5 * t5;
	hu[4] = t2 * t4 * (t4 * t4 - 3 * t5 * t5) + t3 * t5 * (3 * t4 * t4 - t5 * t5);
	hu[5] = t1 * (t4 * t4 - t5 * t5) + 4 * n11 * t4 * t5;
	hu[6] = t3 * t4 * (t4 * t4 - 3 * t5 * t5) - t2 * t5 * (3 * t4 * t4 - t5 * t5);
}

double spec_hypercv_match_shapes(simple_mat a, simple_mat b)
{
	REQUIRE(a != NULL && b != NULL);
	double *x = (double *)malloc(7 * sizeof(double)), *y = (double *)malloc(7 * sizeof(double)), p = 0, q = 0;
	calc_hu_moment(x, a);
	calc_hu_moment(y, b);
	FOR(i, 7) { p += fabs(x[i] - y[i]); q += fabs(x[i] + y[i]); }
	double r = 1 - p / q;
	free(x);
	free(y);
	return r;
}

/* ---- discrete Fourier transform ---- */
#define SAME_PLANE(a, b) ((a)->rows == (b)->rows && (a)->cols == (b)->cols)
#define DFT_PRE \
	REQUIRE(s != NULL && re != NULL && im != NULL); \
	REQUIRE(SAME_PLANE(s, re) && SAME_PLANE(s, im)); \
	REQUIRE(re->data_type == 4 && im->data_type == 4); \
	REQUIRE(s->channels == 1 && re->channels == 1 && im->channels == 1);
#define DFT(NAME, T, TYPE) \
void spec_hypercv_dft_##NAME(simple_mat s, simple_mat re, simple_mat im) \
{ \
	DFT_PRE \
	REQUIRE(s->data_type == TYPE); \
	int r = s->rows, c = s->cols; \
	T *p = (T *)s->data; \
	FOR(i, r) FOR(j, c) \
	{ \
		float a = 0, b = 0; \
		FOR(x, r) FOR(y, c) \
		{ \
			float t = (float)i * x / (float)r + (float)j * y / (float)c; \
			a += p[x * c + y] * cos(-2 * PI * t); \
			b += p[x * c + y] * sin(-2 * PI * t); \
		} \
		F32(re)[i * c + j] = a; \
		F32(im)[i * c + j] = b; \
	} \
}
DFT(uchar, u8, 1)
DFT(ushort, u16, 12)

void spec_hypercv_dft(simple_mat s, simple_mat re, simple_mat im)
{
	DFT_PRE
	REQUIRE(s->data_type == 1 || s->data_type == 12);
	if (s->data_type == 1) hypercv_dft_uchar(s, re, im);
	if (s->data_type == 12) hypercv_dft_ushort(s, re, im);
}

void spec_hypercv_dft_frespectrum(simple_mat s, simple_mat d)
{
	REQUIRE(s != NULL);
	REQUIRE(d != NULL);
	REQUIRE(SAME_PLANE(s, d));
	REQUIRE(s->data_type == 1 && d->data_type == 1 && s->channels == 1 && d->channels == 1);
	int r = s->rows, c = s->cols;
	FOR(i, r) FOR(j, c)
	{
		float a = 0, b = 0;
		FOR(x, r) FOR(y, c)
		{
			float t = (float)i * x / (float)r + (float)j * y / (float)c;
			int sign = (x + y) % 2 == 0 ? 1 : -1;
			a += U8(s)[x * c + y] * cos(-2 * PI * t) * sign;
			b += U8(s)[x * c + y] * sin(-2 * PI * t) * sign;
		}
		U8(d)[i * c + j] = saturate_cast_float2uchar(sqrt(a * a + b * b) / sqrt(r * c));
	}
}

#define IDFT_PRE(T) \
	REQUIRE(SAME_PLANE(re, im) && SAME_PLANE(re, d)); \
	REQUIRE(re->data_type == 4 && im->data_type == 4); \
	REQUIRE(d->data_type == T); \
	REQUIRE(re->channels == 1 && im->channels == 1 && d->channels == 1);
#define IDFT_SUM \
	float v = 0; \
	FOR(x, r) FOR(y, c) \
	{ \
		float t = (float)i * x / (float)r + (float)j * y / (float)c; \
		v += F32(re)[x * c + y] * cos(2 * PI * t) - F32(im)[x * c + y] * sin(2 * PI * t); \
	} \
	v = v / (r * c);

void spec_hypercv_idft_uchar(simple_mat re, simple_mat im, simple_mat d)
{
	IDFT_PRE(1)
	int r = re->rows, c = re->cols;
	FOR(i, r) FOR(j, c)
	{
		IDFT_SUM
		U8(d)[i * c + j] = saturate_cast_float2uchar(v);
	}
}

void spec_hypercv_idft_ushort(simple_mat re, simple_mat im, simple_mat d)
{
	IDFT_PRE(12)
	int r = re->rows, c = re->cols;
	FOR(i, r) FOR(j, c)
	{
		IDFT_SUM
		((u16 *)d->data)[i * c + j] = v > 65535 ? 65535 : v < 0 ? 0 : HYPERCV_ROUND(v);
	}
}

void spec_hypercv_idft(simple_mat re, simple_mat im, simple_mat d)
{
	REQUIRE(d->data_type == 1 || d->data_type == 12);
	if (d->data_type == 1) hypercv_idft_uchar(re, im, d);
	if (d->data_type == 12) hypercv_idft_ushort(re, im, d);
}

void spec_hypercv_magnitude(simple_mat re, simple_mat im, simple_mat d)
{
	IDFT_PRE(4)
	FOR(i, re->rows) FOR(j, re->cols)
		F32(d)[i * re->cols + j] = sqrt(pow(F32(re)[i * re->cols + j], 2) + pow(F32(im)[i * re->cols + j], 2));
}

/* ---- principal components ---- */
void spec_hyper_mat_pca(hyper_mat m, hyper_mat d, int iterations)
{
	REQUIRE(m->data_type == 4);
	REQUIRE(d->data_type == 4 && d->samples == m->samples && d->lines == m->lines && d->bands == m->bands);
	int n = m->samples * m->lines, b = m->bands;
	simple_mat mean = create_simple_mat(m->lines, m->samples, 4, 1);
	hyper_mat_mean(m, mean);
	simple_mat x = reshape_hypermat_2_simplemat(m, n, b), cov = create_simple_mat(b, b, 4, 1);
	FOR(i, n) FOR(j, b) F32(x)[i * b + j] -= F32(mean)[i];
	simple_mat xt = create_simple_mat(b, n, 4, 1);
	simple_mat_transport(xt, x);
	MulMatrix_float(F32(xt), F32(x), F32(cov), b, n, b);
	delete_simple_mat(xt);
	simple_mat t = simple_mat_copy(cov), q = create_simple_mat(b, b, 4, 1), r = create_simple_mat(b, b, 4, 1);
	FOR(i, iterations)
	{
		matrix_QR_float(F32(t), F32(q), F32(r), b);
		MulMatrix_float(F32(r), F32(q), F32(t), b, b, b);
	}
	float *e = (float *)malloc(b * sizeof(float));
	FOR(k, b) e[k] = F32(t)[k * b + k];
	sort_array_down_float(e, b);
	simple_mat v = simple_mat_copy(q);
	cal_eigen_vector_float(F32(cov), F32(v), e, b, b);
	MulMatrix_float(F32(x), F32(v), F32(d), n, b, b);
	delete_simple_mat(mean);
	delete_simple_mat(cov);
	delete_simple_mat(x);
	delete_simple_mat(r);
	delete_simple_mat(q);
	delete_simple_mat(t);
	delete_simple_mat(v);
	free(e);
}

/* ---- drawing ---- */
#define DRAW_PRE \
	REQUIRE(s != NULL && d != NULL); \
	REQUIRE(s->data_type == 1); \
	REQUIRE(d->data_type == 1); \
	REQUIRE(s->channels == 1 || s->channels == 3); \
	REQUIRE(s->rows == d->rows && s->cols == d->cols && s->channels == d->channels); \
	int r = s->rows, c = s->cols, ch = s->channels; \
	memcpy(d->data, s->data, r * c * ch);
#define PUT(y, x) \
	if (ch == 3) { U8(d)[((y) * c + (x)) * 3] = color.r; U8(d)[((y) * c + (x)) * 3 + 1] = color.g; U8(d)[((y) * c + (x)) * 3 + 2] = color.b; } \
	if (ch == 1) U8(d)[(y) * c + (x)] = color.r;

void spec_draw_POINT(simple_mat s, simple_mat d, POINT *v, int n, RGB_data color, int size)
{
	DRAW_PRE
	int h = size / 2;
	FOR(k, n)
		for (int x = v[k].x - h; x <= v[k].x + h; x++)
			for (int y = v[k].y - h; y <= v[k].y + h; y++)
				if (x >= 0 && x < c && y >= 0 && y < r) { PUT(y, x) }
}

void spec_draw_line(simple_mat s, simple_mat d, POINT p, POINT q, RGB_data color, int thickness)
{
	DRAW_PRE
	int h = thickness / 2;
	float k = q.x != p.x ? (float)(q.y - p.y) / (q.x - p.x) : 0, b = (float)p.y - k * p.x;
	FOR(i, r) FOR(j, c)
		if (q.x != p.x ? i == (int)(j * k + b + 0.5) : j == p.x)
			for (int t = -h; t <= h; t++)
				if (j + t >= 0 && j + t < c) { PUT(i, j + t) }
}
