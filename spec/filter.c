#include "spec.h"
#define BORDER_OK(b) ((b) == BORDER_REFLECT || (b) == BORDER_REFLECT_101 || (b) == BORDER_REPLICATE || (b) == BORDER_WRAP || (b) == BORDER_CONSTANT)
#define AT(p, n, b) ((p) >= 0 && (p) < (n) ? (p) : hypercv_border_Interpolate(p, n, b))

/* correlation with a kernel anchored at its centre, zero contribution from a constant border */
void spec_hypercv_filter2D(simple_mat src, simple_mat dst, float *k, int kr, int kc, int b)
{
	REQUIRE(src != NULL && dst != NULL);
	REQUIRE(k != NULL);
	REQUIRE(src->data_type == 1);
	REQUIRE(src->channels == 1 || src->channels == 3);
	REQUIRE(dst->data_type == 4);
	REQUIRE(dst->rows == src->rows && dst->cols == src->cols && dst->channels == src->channels);
	int r = src->rows, c = src->cols, ch = src->channels;
	memset(dst->data, 0, sizeof(float) * r * c * ch);
	if (ch == 1)
		FOR(i, r) FOR(j, c)
		{
			float s = 0;
			FOR(m, kr)
			{
				int y = AT(i + m - kr / 2, r, b);
				FOR(n, kc)
				{
					int x = AT(j + n - kc / 2, c, b);
					if (x >= 0 && y >= 0) s += k[m * kc + n] * U8(src)[y * c + x];
				}
			}
			F32(dst)[i * c + j] = s;
		}
	if (ch == 3)
		FOR(i, r) FOR(j, c) FOR(q, 3)
		{
			float s = 0;
			FOR(m, kr)
			{
				int y = AT(i + m - kr / 2, r, b);
				FOR(n, kc)
				{
					int x = AT(j + n - kc / 2, c, b);
					if (x >= 0 && y >= 0) s += k[m * kc + n] * U8(src)[y * c * 3 + x * 3 + q];
				}
			}
			F32(dst)[i * c * 3 + j * 3 + q] = s;
		}
}

void spec_hypercv_medianblur(simple_mat src, simple_mat dst, int size)
{
	REQUIRE(src != NULL && dst != NULL);
	REQUIRE(size > 0 && size % 2 == 1);
	REQUIRE(src->data_type == 1 && dst->data_type == 1);
	REQUIRE(src->channels == 1 && dst->channels == 1);
	REQUIRE(src->rows == dst->rows && src->cols == dst->cols);
	int r = src->rows, c = src->cols, h = size / 2;
	FOR(i, r) FOR(j, c)
	{
		u8 v = U8(src)[i * c + j];
		if (i - h >= 0 && i + h < r && j - h >= 0 && j + h < c)
			FOR(a, size * size)
			{
				int x = U8(src)[(i - h + a / size) * c + j - h + a % size], below = 0, same = 0;
				FOR(b, size * size)
				{
					int y = U8(src)[(i - h + b / size) * c + j - h + b % size];
					if (y < x) below++;
					if (y == x) same++;
				}
				if (below <= size * size / 2 && below + same > size * size / 2)
					v = x;
			}
		U8(dst)[i * c + j] = v;
	}
}

void spec_hypercv_meanblur(simple_mat src, simple_mat dst, int size)
{
	REQUIRE(src != NULL && dst != NULL);
	REQUIRE(size > 0 && size % 2 == 1);
	REQUIRE(src->data_type == 1 && dst->data_type == 1);
	REQUIRE(src->channels == 1 && dst->channels == 1);
	REQUIRE(src->rows == dst->rows && src->cols == dst->cols);
	int r = src->rows, c = src->cols, h = size / 2;
	FOR(i, r) FOR(j, c)
	{
		int sum = 0, num = 0;
		for (int m = -h; m <= h; m++)
			for (int n = -h; n <= h; n++)
			{
				if (i + m < 0 || i + m >= r || j + n < 0 || j + n >= c) continue;
				sum += U8(src)[(i + m) * c + j + n];
				num++;
			}
		U8(dst)[i * c + j] = sum / num;
	}
}

simple_mat spec_gaussian_kernel(int n, double sigma, int type)
{
	REQUIRE(n > 0);
	REQUIRE(type == 4 || type == 5);
	static const float t1[] = {1.f}, t2[] = {0.25f, 0.5f, 0.25f}, t3[] = {0.0625f, 0.25f, 0.375f, 0.25f, 0.0625f};
	static const float t4[] = {0.03125f, 0.109375f, 0.21875f, 0.28125f, 0.21875f, 0.109375f, 0.03125f};
	int fixed = n % 2 == 1 && n <= 7 && sigma <= 0;
	const float *tab[4] = {t1, t2, t3, t4};
	simple_mat k = create_simple_mat(1, n, type, 1);
	float *f = (float *)k->data;
	double *d = (double *)k->data;
	double s = sigma > 0 ? sigma : ((n - 1) * 0.5 - 1) * 0.3 + 0.8;
	double sum = 0;
	FOR(i, n)
	{
		double x = i - (n - 1) * 0.5;
		double t = fixed ? tab[n / 2][i] : exp(-0.5 / (s * s) * x * x);
		if (type == 4) { f[i] = t; sum += f[i]; }
		else { d[i] = t; sum += d[i]; }
	}
	FOR(i, n)
	{
		if (type == 4) f[i] = f[i] * (1. / sum);
		else d[i] = d[i] * (1. / sum);
	}
	return k;
}

void spec_hypercv_gaussian_blur(simple_mat src, simple_mat dst, int kw, int kh, double s1, double s2, int b)
{
	REQUIRE(src != NULL);
	REQUIRE(kw > 0 && kw % 2 == 1 && kh > 0 && kh % 2 == 1);
	REQUIRE(BORDER_OK(b));
	double sx = s1 > 0 ? s1 : 0, sy = s2 > 0 ? s2 : sx;
	simple_mat x = gaussian_kernel(kw, sx, 4), y = gaussian_kernel(kh, sy, 4);
	hypercv_gaussian_blur_with_kernel(src, dst, x, y, b);
	delete_simple_mat(x);
	delete_simple_mat(y);
}

static float clamp255(float v)
{
	return v < 0 ? 0 : v > 255 ? 255 : v;
}

/* separable: rows first (clamped to 0..255, kept as float), then columns */
void spec_hypercv_gaussian_blur_with_kernel(simple_mat src, simple_mat dst, simple_mat kx, simple_mat ky, int b)
{
	REQUIRE(src != NULL && dst != NULL && kx != NULL && ky != NULL);
	REQUIRE(kx->data_type == 4 && ky->data_type == 4);
	REQUIRE(src->data_type == 1 && dst->data_type == 1);
	REQUIRE(src->rows == dst->rows && src->cols == dst->cols && src->channels == dst->channels);
	int w = kx->cols, h = ky->cols, r = src->rows, c = src->cols, ch = src->channels;
	REQUIRE(w >= 0);
	REQUIRE(h >= 0);
	REQUIRE(BORDER_OK(b));
	REQUIRE(ch == 1 || ch == 3);
	simple_mat t = create_simple_mat(r, c, 4, ch);
	FOR(i, r) FOR(j, c) FOR(q, ch)
	{
		float s = 0;
		FOR(k, w)
		{
			int x = AT(j + k - w / 2, c, b);
			if (x >= 0) s += F32(kx)[k] * U8(src)[(i * c + x) * ch + q];
		}
		F32(t)[(i * c + j) * ch + q] = clamp255(s);
	}
	FOR(i, r) FOR(j, c) FOR(q, ch)
	{
		float s = 0;
		FOR(k, h)
		{
			int y = AT(i + k - h / 2, r, b);
			if (y >= 0) s += F32(ky)[k] * F32(t)[(y * c + j) * ch + q];
		}
		U8(dst)[(i * c + j) * ch + q] = saturate_cast_float2uchar(clamp255(s));
	}
	delete_simple_mat(t);
}

/* inclusive prefix sums */
void spec_hypercv_integral(simple_mat src, simple_mat dst)
{
	REQUIRE(src != NULL);
	REQUIRE(src->data_type == 1);
	REQUIRE(src->channels == 1);
	REQUIRE(dst != NULL);
	REQUIRE(dst->rows == src->rows && dst->cols == src->cols);
	REQUIRE(dst->channels == 1 && dst->data_type == 3);
	int r = src->rows, c = src->cols, *d = (int *)dst->data;
	u8 *s = U8(src);
	FOR(i, r) FOR(j, c)
		d[i * c + j] = (i > 0 ? d[(i - 1) * c + j] : 0) + (j > 0 ? d[i * c + j - 1] : 0) - (i > 0 && j > 0 ? d[(i - 1) * c + j - 1] : 0) + s[i * c + j];
}

simple_mat spec_hypercv_copy_make_border(simple_mat src, int top, int bottom, int left, int right, int b, unsigned char value)
{
	REQUIRE(src != NULL);
	REQUIRE(left >= 0 && right >= 0 && top >= 0 && bottom >= 0);
	REQUIRE(BORDER_OK(b));
	if (top == 0 && bottom == 0 && left == 0 && right == 0)
		return simple_mat_copy(src);
	int R = src->rows + top + bottom, C = src->cols + left + right, ch = src->channels;
	simple_mat dst = create_simple_mat(R, C, src->data_type, ch);
	if (b == BORDER_CONSTANT)
	{
		REQUIRE(src->data_type == 1);
		FOR(i, R) FOR(j, C) FOR(q, ch)
		{
			int y = i - top, x = j - left;
			U8(dst)[(i * C + j) * ch + q] = y >= 0 && y < src->rows && x >= 0 && x < src->cols ? U8(src)[(y * src->cols + x) * ch + q] : value;
		}
		return dst;
	}
	int p = ch * get_elemsize(src->data_type);
	FOR(i, R) FOR(j, C)
	{
		int x = hypercv_border_Interpolate(j - left, src->cols, b);
		int y = hypercv_border_Interpolate(i - top, src->rows, b);
		FOR(q, p) U8(dst)[(i * C + j) * p + q] = U8(src)[(y * src->cols + x) * p + q];
	}
	return dst;
}

/* ---- sums and logarithms of images: over the common part ---- */
#define ADDITION(NAME, T, TYPE) \
void spec_simple_mat_addition_##NAME(simple_mat a, simple_mat b, simple_mat d) \
{ \
	REQUIRE(a != NULL && b != NULL && d != NULL); \
	REQUIRE(a->data_type == TYPE && b->data_type == TYPE && d->data_type == TYPE); \
	REQUIRE(a->channels == b->channels && a->channels == d->channels); \
	int r = a->rows < b->rows ? a->rows : b->rows, c = a->cols < b->cols ? a->cols : b->cols, ch = a->channels; \
	REQUIRE(d->rows >= r && d->cols >= c); \
	T *x = (T *)a->data, *y = (T *)b->data, *z = (T *)d->data; \
	FOR(i, r) FOR(j, c) FOR(k, ch) \
		z[(i * d->cols + j) * ch + k] = x[(i * a->cols + j) * ch + k] + y[(i * b->cols + j) * ch + k]; \
}
ADDITION(uchar, u8, 1)
ADDITION(float, float, 4)

void spec_simple_mat_log(simple_mat s, simple_mat d)
{
	REQUIRE(s->data_type == 4 && d->data_type == 4);
	REQUIRE(s->rows == d->rows && s->cols == d->cols && s->channels == d->channels);
	FOR(i, s->rows * s->cols * s->channels) F32(d)[i] = log(F32(s)[i]);
}
