#include "spec.h"
#define MUL(NAME, T) \
void spec_MulMatrix_##NAME(T *x, T *y, T *z, int m, int k, int n) \
{ \
	FOR(i, m) FOR(j, n) { z[i * n + j] = 0; FOR(t, k) z[i * n + j] += x[i * k + t] * y[t * n + j]; } \
}
#define TRANS(NAME, T) \
void spec_TransMatrix_##NAME(T *x, T *z, int m, int n) { FOR(i, m) FOR(j, n) z[j * m + i] = x[i * n + j]; }
#define CORR(NAME, T) \
void spec_correlation_matrix_##NAME(T *res, T *a, T *b, int l, int n, int m) \
{ \
	MulMatrix_##NAME(a, b, res, l, n, m); \
	FOR(i, l * m) res[i] = res[i] / n; \
}
#define EACH(M) M(char, char) M(uchar, u8) M(short, short) M(ushort, u16) M(int, int) M(uint, u32) M(float, float)
EACH(MUL) MUL(double, double)
EACH(TRANS) TRANS(double, double)
EACH(CORR)

float spec_matrix_norm_float(float *m, int n)
{
	float s = 0;
	FOR(i, n) s += m[i] * m[i];
	return sqrt(s);
}

void spec_set_identity_matrix_float(float *a, int m)
{
	FOR(i, m) FOR(j, m) a[i * m + j] = i == j ? 1 : 0;
}

void spec_swap_rows_float(float *d, int m, int n, int r1, int r2)
{
	REQUIRE(r1 >= 0 && r1 < m && r2 >= 0 && r2 < m);
	REQUIRE(r1 != r2);
	float *t = (float *)malloc(n * sizeof(float));
	memcpy(t, d + r1 * n, n * sizeof(float));
	memcpy(d + r1 * n, d + r2 * n, n * sizeof(float));
	memcpy(d + r2 * n, t, n * sizeof(float));
	free(t);
}

void spec_matrix_row_multi_scalar_float(float *a, int rows, int cols, int r, float s)
{
	REQUIRE(r >= 0 && r < rows);
	FOR(i, cols) a[r * cols + i] = a[r * cols + i] * s;
}

void spec_shear_row(float *a, int rows, int cols, int r1, int r2, float s)
{
	REQUIRE(r1 != r2 && r1 >= 0 && r1 < rows && r2 >= 0 && r2 < rows);
	FOR(i, cols) a[r1 * cols + i] = a[r1 * cols + i] + s * a[r2 * cols + i];
}

/* Gauss-Jordan with a row exchange where the pivot is zero; a singular matrix leaves early */
void spec_invert_matrix_float(float *res, float *a, int m)
{
	set_identity_matrix_float(res, m);
	FOR(i, m)
	{
		if (a[i * m + i] == 0)
		{
			int r = i + 1;
			while (r < m && a[r * m + i] == 0) r++;
			if (r == m) return;
			swap_rows_float(a, m, m, i, r);
			swap_rows_float(res, m, m, i, r);
		}
		float s = 1.0 / a[i * m + i];
		matrix_row_multi_scalar_float(a, m, m, i, s);
		matrix_row_multi_scalar_float(res, m, m, i, s);
		FOR(j, m) if (j != i)
		{
			float t = -a[j * m + i];
			shear_row(a, m, m, j, i, t);
			shear_row(res, m, m, j, i, t);
		}
	}
}

/* Gram-Schmidt */
void spec_matrix_QR_float(float *a, float *q, float *r, int m)
{
	float *v = (float *)malloc(m * sizeof(float)), *u = (float *)malloc(m * sizeof(float));
	FOR(j, m)
	{
		FOR(i, m) { v[i] = a[i * m + j]; u[i] = a[i * m + j]; }
		FOR(k, j)
		{
			r[k * m + j] = 0;
			FOR(i, m) r[k * m + j] += v[i] * q[i * m + k];
			FOR(i, m) u[i] -= r[k * m + j] * q[i * m + k];
		}
		float n = matrix_norm_float(u, m);
		r[j * m + j] = n;
		FOR(i, m) q[i * m + j] = u[i] / n;
	}
	free(v);
	free(u);
}

/* back substitution of (A - lambda I) x = 0 with the last component 1, then normalised */
void spec_cal_eigen_vector_float(float *a, float *vec, float *val, int m, int n)
{
	float *t = (float *)malloc(m * n * sizeof(float));
	FOR(c, n)
	{
		float e = val[c];
		memcpy(t, a, m * n * sizeof(float));
		FOR(i, m) t[i * n + i] -= e;
		FOR(i, m - 1)
		{
			float p = t[i * n + i];
			for (int j = i; j < n; j++) t[i * n + j] /= p;
			for (int k = i + 1; k < m; k++)
			{
				p = t[k * n + i];
				for (int j = i; j < n; j++) t[k * n + j] -= p * t[i * n + j];
			}
		}
		float s = 1;
		vec[(m - 1) * n + c] = 1;
		for (int i = m - 2; i >= 0; i--)
		{
			float x = 0;
			for (int j = i + 1; j < n; j++) x += t[i * n + j] * vec[j * n + c];
			x = -x / t[i * n + i];
			s += x * x;
			vec[i * n + c] = x;
		}
		s = sqrt(s);
		FOR(i, m) vec[i * n + c] /= s;
	}
	free(t);
}

/* stable only up to equal values: any order-producing exchange sort has the same result; bubble form */
void spec_sort_array_down_float(float *a, int n)
{
	FOR(i, n - 1)
		FOR(j, n - i - 1)
			if (a[j] < a[j + 1])
			{
				float t = a[j];
				a[j] = a[j + 1];
				a[j + 1] = t;
			}
}
