#include "spec.h"
#include "highgui/hypercv_gui.h"

/* border rules: the index an out-of-range position stands for, by the pattern itself */
int spec_hypercv_border_Interpolate(int p, int len, unsigned int rule)
{
	REQUIRE(len >= 0);
	REQUIRE(rule == BORDER_REFLECT || rule == BORDER_REFLECT_101 || rule == BORDER_REPLICATE || rule == BORDER_WRAP || rule == BORDER_CONSTANT);
	if (p >= 0 && p < len)
		return p;
	if (rule == BORDER_CONSTANT)
		return -1;
	if (rule == BORDER_REPLICATE)
		return p < 0 ? 0 : len - 1;
	if (rule == BORDER_WRAP)
	{
		int r = p % len;
		return r < 0 ? r + len : r;
	}
	/* the reflected sequence has period 2 len, or 2 len - 2 when the edge is not repeated */
	if (len == 1)
		return 0;
	int e = rule == BORDER_REFLECT_101 ? 2 : 0, period = 2 * len - e;
	int r = p % period;
	r = r < 0 ? r + period : r;
	return r < len ? r : period - (e ? 0 : 1) - r;
}

/* rounding to the nearest integer, halves to even */
int spec_HYPERCV_ROUND(double v)
{
	return (int)lrint(v);
}

/* the smallest number 2^a 3^b 5^c that is not below n; -1 from the largest one representable on */
int spec_get_optimal_DFT_size(int n)
{
	if (n < 0 || n >= 2125764000)
		return -1;
	long best = 2125764000;
	for (long a = 1; a <= 2125764000; a *= 5)
		for (long b = a; b <= 2125764000; b *= 3)
			for (long c = b; c <= 2125764000; c *= 2)
				if (c >= n && c < best)
					best = c;
	return (int)best;
}

/* equality of two texts over the length of the shorter one */
int spec_cmpstr(char a[], char b[])
{
	int i = 0;
	while (a[i] && b[i])
	{
		if (a[i] != b[i])
			return 0;
		i++;
	}
	return 1;
}

/* blanks, a sign, digits with at most one point, an exponent with a sign */
float spec_hypercv_atof(const char *s)
{
	int i = 0, neg = 0, k = 0, eneg = 0, x = 0;
	while (s[i] == ' ')
		i++;
	if (s[i] == '-' || s[i] == '+')
		neg = s[i++] == '-';
	double v = 0, scale = 1;
	for (; s[i] >= '0' && s[i] <= '9'; i++)
		v = v * 10 + (s[i] - '0');
	if (s[i] == '.')
		for (i++; s[i] >= '0' && s[i] <= '9'; i++)
		{
			scale = scale / 10;
			v = v + (s[i] - '0') * scale;
		}
	if (s[i] == 'e' || s[i] == 'E')
	{
		i++;
		if (s[i] == '-' || s[i] == '+')
			eneg = s[i++] == '-';
		for (; s[i] >= '0' && s[i] <= '9'; i++)
			x = x * 10 + (s[i] - '0');
		for (k = 0; k < x; k++)
			v = eneg ? v / 10 : v * 10;
	}
	return neg ? -v : v;
}

void spec_hyper_mat_showinfo(hyper_mat m)
{
	if (!m)
		return;
	printf("%d\n%d\n%d\n%d\n", m->samples, m->lines, m->bands, m->data_type);
	printf("%c%c%c\n", m->interleave[0], m->interleave[1], m->interleave[2]);
	if (m->wavelength)
		FOR(k, m->bands) printf("%f,", m->wavelength[k]);
}

/* every set pixel belongs to the nearest centre; a centre moves to the mean of its pixels until all centres rest */
void spec_hypercv_k_means(simple_mat src, POINT *v, int kind, int limit)
{
	REQUIRE(src != NULL);
	REQUIRE(src->data_type == 1);
	REQUIRE(kind >= 1);
	REQUIRE(vector_size(v) == kind);
	simple_mat g = src->channels == 1 ? src : sm_rgb2gray(src, 0);
	int rows = src->rows, cols = src->cols, moved = 1;
	int *sx = (int *)calloc(kind, sizeof(int)), *sy = (int *)calloc(kind, sizeof(int)), *n = (int *)calloc(kind, sizeof(int));
	FOR(k, kind)
	{
		v[k].x = rand() % cols;
		v[k].y = rand() % rows;
	}
	while (moved)
	{
		moved = 0;
		FOR(k, kind) sx[k] = sy[k] = n[k] = 0;
		FOR(i, rows) FOR(j, cols) if (U8(g)[i * cols + j])
		{
			int best = 0;
			FOR(k, kind)
			{
				int a = (v[k].x - j) * (v[k].x - j) + (v[k].y - i) * (v[k].y - i);
				int b = (v[best].x - j) * (v[best].x - j) + (v[best].y - i) * (v[best].y - i);
				if (a < b)
					best = k;
			}
			sx[best] += j;
			sy[best] += i;
			n[best]++;
		}
		FOR(k, kind)
		{
			int x = n[k] ? sx[k] / n[k] : 0, y = n[k] ? sy[k] / n[k] : 0;
			if (abs(x - v[k].x) > limit || abs(y - v[k].y) > limit)
				moved = 1;
			v[k].x = x;
			v[k].y = y;
		}
	}
	free(sx);
	free(sy);
	free(n);
	if (g != src)
		delete_simple_mat(g);
}

/* unfinished in the library: only what it rejects is stated */
void spec_simple_mat_resize(simple_mat src, simple_mat dst, int flag)
{
	REQUIRE(src != NULL && dst != NULL);
	REQUIRE(src->data_type == dst->data_type);
}
