#include "spec.h"

/* ---- flips ---- */
#define SAME_SHAPE(a, b) \
	REQUIRE((a)->rows == (b)->rows && (a)->cols == (b)->cols && (a)->channels == (b)->channels); \
	REQUIRE((a)->data_type == (b)->data_type)

void spec_simple_mat_flip_horizontal(simple_mat s, simple_mat d)
{
	REQUIRE(s != NULL && d != NULL);
	SAME_SHAPE(s, d);
	int c = s->cols, p = s->channels * get_elemsize(s->data_type);
	FOR(i, s->rows) FOR(j, c) FOR(k, p)
		U8(d)[(i * c + j) * p + k] = U8(s)[(i * c + c - 1 - j) * p + k];
}

void spec_simple_mat_flip_vertical(simple_mat s, simple_mat d)
{
	REQUIRE(s != NULL && d != NULL);
	SAME_SHAPE(s, d);
	int r = s->rows, w = s->cols * s->channels * get_elemsize(s->data_type);
	FOR(i, r) FOR(j, w)
		U8(d)[i * w + j] = U8(s)[(r - 1 - i) * w + j];
}

void spec_simple_mat_flip(simple_mat s, simple_mat d, int code)
{
	REQUIRE(s != NULL && d != NULL);
	REQUIRE(s->rows == d->rows && s->cols == d->cols);
	if (code == 0)
		simple_mat_flip_vertical(s, d);
	else if (code == -1)
	{
		simple_mat t = simple_mat_copy(s);
		simple_mat_flip_horizontal(s, t);
		simple_mat_flip_vertical(t, d);
		delete_simple_mat(t);
	}
	else
		simple_mat_flip_horizontal(s, d);
}

/* ---- pyramids ---- */
void spec_hypercv_pyramid_down(simple_mat s, simple_mat d)
{
	REQUIRE(s != NULL);
	REQUIRE(s->rows >= 2 && s->cols >= 2);
	REQUIRE(d != NULL);
	REQUIRE(d->rows == (s->rows + 1) / 2 && d->cols == (s->cols + 1) / 2);
	REQUIRE(d->data_type == s->data_type);
	REQUIRE(s->data_type == 1 && d->channels == s->channels);
	simple_mat t = create_simple_mat(s->rows, s->cols, s->data_type, s->channels);
	hypercv_gaussian_blur(s, t, 5, 5, 0, 0, BORDER_REPLICATE);
	int ch = s->channels;
	FOR(i, d->rows) FOR(j, d->cols) FOR(k, ch)
		U8(d)[(i * d->cols + j) * ch + k] = U8(t)[(2 * i * s->cols + 2 * j) * ch + k];
	delete_simple_mat(t);
}

void spec_hypercv_pyramid_up(simple_mat s, simple_mat d)
{
	REQUIRE(s != NULL);
	REQUIRE(s->rows >= 2 && s->cols >= 2);
	REQUIRE(d != NULL);
	REQUIRE(d->rows == s->rows * 2 && d->cols == s->cols * 2);
	REQUIRE(d->data_type == s->data_type);
	REQUIRE(s->data_type == 1 && d->channels == s->channels);
	simple_mat t = simple_mat_copy(d);
	int ch = s->channels;
	FOR(i, d->rows) FOR(j, d->cols) FOR(k, ch)
		U8(t)[(i * d->cols + j) * ch + k] = i % 2 == 1 || j % 2 == 1 ? 0 : U8(s)[(i / 2 * s->cols + j / 2) * ch + k];
	simple_mat g = gaussian_kernel(5, 0, 4);
	FOR(i, 5) F32(g)[i] *= 2;
	hypercv_gaussian_blur_with_kernel(t, d, g, g, BORDER_REPLICATE);
	delete_simple_mat(t);
	delete_simple_mat(g);
}

/* ---- rotation: where every pixel goes (the size of the canvas is part of the result) ---- */
hyper_mat spec_hyper_mat_rotate(hyper_mat src, double angle)
{
	REQUIRE(src != NULL);
	hyper_mat m = hyper_mat_copy(src);
	convert2bip(m);
	double c = cos(angle * PI / 180), s = sin(angle * PI / 180);
	int h = (m->lines + 1) / 2, w = (m->samples + 1) / 2;
	float xa = -w * c - h * s, ya = -h * c + w * s, xb = w * c - h * s, yb = -h * c - w * s;
	float xc = w * c + h * s, yc = h * c - w * s, xd = -w * c + h * s, yd = h * c + w * s;
	float w1 = fabs(xc - xa), w2 = fabs(xd - xb), h1 = fabs(yc - ya), h2 = fabs(yd - yb);
	int W = w1 > w2 ? w1 : w2, H = h1 > h2 ? h1 : h2;
	hyper_mat d = create_hyper_mat_with_data(W, H, m->bands, m->data_type, m->interleave, NULL, m->wavelength);
	int di = xa + W / 2, dj = ya + H / 2, p = m->bands * get_elemsize(m->data_type);
	FOR(i, m->lines) FOR(j, m->samples)
	{
		int x = i * c + j * s + di, y = j * c - i * s + dj;
		if (0 <= x && x < H && 0 <= y && y < W)
			memcpy(U8(d) + (x * W + y) * p, U8(m) + (i * m->samples + j) * p, p);
	}
	delete_hyper_mat(m);
	return d;
}

/* ---- radiometric correction (bip) ---- */
hyper_mat spec_relative_radiometric_correction(hyper_mat m, float *k)
{
	int s = m->samples, l = m->lines, b = m->bands;
	REQUIRE(m->data_type == 12);
	REQUIRE(cmpstr(m->interleave, "bip") == 1);
	hyper_mat d = create_hyper_mat(s, l, b, 4, m->interleave);
	FOR(i, l) FOR(j, s) FOR(c, b)
		F32(d)[(i * s + j) * b + c] = ((u16 *)m->data)[(i * s + j) * b + c] * k[c * s + j];
	hyper_mat_copy_wavelength(m, d);
	return d;
}

hyper_mat spec_absolute_radiometric_correction(hyper_mat m, float *k)
{
	int s = m->samples, l = m->lines, b = m->bands;
	REQUIRE(m->data_type == 4);
	REQUIRE(cmpstr(m->interleave, "bip") == 1);
	hyper_mat d = create_hyper_mat(s, l, b, 4, m->interleave);
	FOR(i, l) FOR(j, s) FOR(c, b)
		F32(d)[(i * s + j) * b + c] = F32(m)[(i * s + j) * b + c] * k[c];
	hyper_mat_copy_wavelength(m, d);
	return d;
}

/* ---- colour ---- */
simple_mat spec_sm_binary2rgb(simple_mat m)
{
	REQUIRE(m->channels == 1);
	REQUIRE(m->data_type == 1);
	simple_mat d = create_simple_mat(m->rows, m->cols, 1, 3);
	FOR(i, m->rows * m->cols) FOR(k, 3) U8(d)[i * 3 + k] = U8(m)[i] * 255;
	return d;
}

simple_mat spec_sm_gray2rgb(simple_mat m)
{
	REQUIRE(m->channels == 1);
	REQUIRE(m->data_type == 1);
	simple_mat d = create_simple_mat(m->rows, m->cols, 1, 3);
	FOR(i, m->rows * m->cols) FOR(k, 3) U8(d)[i * 3 + k] = U8(m)[i];
	return d;
}

simple_mat spec_sm_rgb2gray(simple_mat m, int method)
{
	REQUIRE(m->channels == 3);
	REQUIRE(m->data_type == 1);
	simple_mat d = create_simple_mat(m->rows, m->cols, 1, 1);
	FOR(i, m->rows * m->cols)
	{
		int r = U8(m)[i * 3], g = U8(m)[i * 3 + 1], b = U8(m)[i * 3 + 2], v;
		if (method == 1)
		{
			float t = r > 0 ? r : 0;
			t = t > g ? t : g;
			t = t > b ? t : b;
			v = t;
		}
		else if (method == 2)
		{
			float t = r * 0.299 + g * 0.587 + b * 0.114;
			v = t;
		}
		else
		{
			float t = r + g + b;
			v = t / 3 + 0.5;
		}
		U8(d)[i] = v;
	}
	return d;
}

void spec_sm_bgr2rgb(simple_mat s, simple_mat d)
{
	REQUIRE(s != NULL && d != NULL);
	REQUIRE(s->data_type == 1);
	REQUIRE(d->data_type == 1);
	REQUIRE(s->rows == d->rows && s->cols == d->cols && s->channels == d->channels);
	REQUIRE(s->channels == 3);
	FOR(i, s->rows) FOR(j, s->cols)
	{
		u8 *o = U8(d) + (i * s->cols + j) * 3, *p = U8(s) + (i * s->cols + j) * 3;
		o[0] = p[2];
		o[1] = p[1];
		o[2] = p[0];
	}
}

/* ---- element type conversion ---- */
#define WIDEN(name, from, S, to, D) \
hyper_mat spec_hyper_mat_##name(hyper_mat m) \
{ \
	REQUIRE(m->data_type == from); \
	hyper_mat d = create_hyper_mat(m->samples, m->lines, m->bands, to, m->interleave); \
	FOR(i, m->samples * m->lines * m->bands) ((D *)d->data)[i] = ((S *)m->data)[i]; \
	if (m->wavelength != NULL) \
		FOR(k, m->bands) d->wavelength[k] = m->wavelength[k]; \
	return d; \
}
WIDEN(uchar2short, 1, u8, 2, short)
WIDEN(uchar2int, 1, u8, 3, int)
WIDEN(uchar2float, 1, u8, 4, float)
WIDEN(uchar2ushort, 1, u8, 12, u16)
WIDEN(ushort2float, 12, u16, 4, float)

static long sat(float v, long lo, long hi)
{
	long t = v > 4294967296.0f ? 4294967296 : v < -4294967296.0f ? -4294967296 : lrint(v);
	return t > hi ? hi : t < lo ? lo : t;
}
#define NARROW(name, to, D, lo, hi) \
hyper_mat spec_hyper_mat_##name(hyper_mat m) \
{ \
	REQUIRE(m->data_type == 4); \
	hyper_mat d = create_hyper_mat(m->samples, m->lines, m->bands, to, m->interleave); \
	FOR(i, m->samples * m->lines * m->bands) ((D *)d->data)[i] = sat(F32(m)[i], lo, hi); \
	if (m->wavelength != NULL) \
		FOR(k, m->bands) d->wavelength[k] = m->wavelength[k]; \
	return d; \
}
NARROW(float2char, 1, s8, -128, 127)
NARROW(float2uchar, 1, u8, 0, 255)
NARROW(float2short, 2, short, -32768, 32767)
NARROW(float2ushort, 12, u16, 0, 65535)
NARROW(float2int, 3, int, -2147483648L, 2147483647)
NARROW(float2uint, 13, u32, 0, 4294967295L)

simple_mat spec_simple_mat_float2uchar(simple_mat m)
{
	REQUIRE(m != NULL);
	REQUIRE(m->data_type == 4);
	simple_mat d = create_simple_mat(m->rows, m->cols, 1, m->channels);
	FOR(i, m->rows * m->cols * m->channels) U8(d)[i] = sat(F32(m)[i], 0, 255);
	return d;
}

/* ---- means and small mathematics ---- */
#define MEAN(name, T, R) \
R spec_mean_##name(T *t, int n) \
{ \
	R s = 0; \
	FOR(i, n) s += t[i]; \
	return s / n; \
}
MEAN(double, double, double)
MEAN(float, float, float)
MEAN(uchar, u8, float)
MEAN(char, s8, float)
MEAN(short, short, float)
MEAN(ushort, u16, float)
MEAN(int, int, float)
MEAN(uint, u32, float)

static long factab[11] = {1, 1, 2, 6, 24, 120, 720, 5040, 40320, 362880, 3628800};
long spec_hypercv_factorial(int n)
{
	if (n < 0)
		return -1;
	if (n <= 10)
		return factab[n];
	long p = 1;
	for (int i = 2; i <= n; i++)
		p *= i;
	return p;
}

/* ---- 3x3 gradients ---- */
static int at(int i, int n, int b) { return i < 0 || i >= n ? hypercv_border_Interpolate(i, n, b) : i; }

void spec_hypercv_laplacian(simple_mat s, simple_mat d, int k_size, int border)
{
	REQUIRE(s != NULL && d != NULL);
	REQUIRE(k_size > 0);
	REQUIRE(s->rows == d->rows && s->cols == d->cols);
	REQUIRE(s->channels == 1);
	REQUIRE(d->channels == 1 && s->data_type == 1 && d->data_type == 1);
	int r = s->rows, c = s->cols;
	float k[3][3] = {{0, 1, 0}, {1, -4, 1}, {0, 1, 0}};
	if (k_size == 2)
		FOR(i, 3) FOR(j, 3) k[i][j] *= 2;
	FOR(i, r) FOR(j, c)
	{
		float sum = 0;
		FOR(m, 3) FOR(n, 3)
		{
			int y = at(i + m - 1, r, border), x = at(j + n - 1, c, border);
			if (y >= 0 && x >= 0)
				sum += k[m][n] * U8(s)[y * c + x];
		}
		U8(d)[i * c + j] = saturate_cast_float2uchar(sum);
	}
}

void spec_hypercv_sobel(simple_mat s, simple_mat d, int threshold, int border)
{
	REQUIRE(s != NULL && d != NULL);
	REQUIRE(s->rows == d->rows && s->cols == d->cols);
	REQUIRE(border == BORDER_REFLECT || border == BORDER_REFLECT_101 || border == BORDER_REPLICATE || border == BORDER_WRAP || border == BORDER_CONSTANT);
	REQUIRE(s->channels == 1);
	REQUIRE(d->channels == 1 && s->data_type == 1 && d->data_type == 1);
	int r = s->rows, c = s->cols;
	int kx[3][3] = {{-1, 0, 1}, {-2, 0, 2}, {-1, 0, 1}}, ky[3][3] = {{1, 2, 1}, {0, 0, 0}, {-1, -2, -1}};
	FOR(i, r) FOR(j, c)
	{
		int gx = 0, gy = 0;
		FOR(m, 3) FOR(n, 3)
		{
			int y = at(i + m - 1, r, border), x = at(j + n - 1, c, border);
			if (y >= 0 && x >= 0)
			{
				gx += kx[m][n] * U8(s)[y * c + x];
				gy += ky[m][n] * U8(s)[y * c + x];
			}
		}
		gx = abs(gx);
		gy = abs(gy);
		U8(d)[i * c + j] = (gx > gy ? gx : gy) > threshold ? 255 : 0;
	}
}
