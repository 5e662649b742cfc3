#include "spec.h"
float spec_sp_average(float *x, int n)
{
	float s = 0;
	FOR(i, n) s += x[i];
	return s / n;
}

float spec_sp_variance(float *x, int n)
{
	float m = sp_average(x, n), s = 0;
	FOR(i, n) s += pow(x[i] - m, 2);
	return s / n;
}

float spec_sp_standard_deviation(float *x, int n)
{
	return sqrt(sp_variance(x, n));
}

float spec_spectral_angle_mapper(float *x, float *y, int n)
{
	REQUIRE(x != NULL && y != NULL);
	float xy = 0, xx = 0, yy = 0;
	FOR(i, n) { xy += fabs(x[i] * y[i]); xx += x[i] * x[i]; yy += y[i] * y[i]; }
	return acos(xy / sqrt(xx * yy));
}

float spec_euclidean_distance(float *x, float *y, int n)
{
	float s = 0;
	FOR(i, n) s += (x[i] - y[i]) * (x[i] - y[i]);
	return sqrt(s);
}

simple_mat spec_spectrum_SAM_match(hyper_mat m, float *sp, float th)
{
	REQUIRE(m != NULL);
	REQUIRE(cmpstr(m->interleave, "bip") == 1);
	REQUIRE(sp != NULL);
	REQUIRE(m->data_type == 4);
	int s = m->samples, l = m->lines, b = m->bands;
	simple_mat d = create_simple_mat(l, s, 1, 1);
	float *t = (float *)malloc(sizeof(float) * b);
	FOR(i, l) FOR(j, s)
	{
		FOR(k, b) t[k] = F32(m)[(i * s + j) * b + k];
		U8(d)[i * s + j] = spectral_angle_mapper(t, sp, b) >= th ? 1 : 0;
	}
	free(t);
	return d;
}

float *spec_read_spectrum_file(const char *path, int n)
{
	FILE *f = fopen(path, "r");
	REQUIRE(f != NULL);
	float *r = (float *)calloc(n, sizeof(float)), v = 0;
	int k = 0;
	while (k < n && fscanf(f, "%f", &v) == 1) r[k++] = v;
	fclose(f);
	return r;
}

void spec_hyper_mat_mean(hyper_mat m, simple_mat d)
{
	REQUIRE(m != NULL && d != NULL);
	REQUIRE(cmpstr(m->interleave, "bip") == 1);
	int s = m->samples, l = m->lines, b = m->bands;
	REQUIRE(m->data_type == 4);
	REQUIRE(s == d->cols && l == d->rows);
	REQUIRE(d->data_type == 4);
	REQUIRE(d->channels == 1);
	FOR(i, l) FOR(j, s) F32(d)[i * s + j] = sp_average(F32(m) + (i * s + j) * b, b);
}

void spec_hyper_mat_transport(hyper_mat d, hyper_mat m)
{
	REQUIRE(m != NULL && d != NULL);
	REQUIRE(cmpstr(m->interleave, "bsq") == 1);
	REQUIRE(m->data_type == d->data_type);
	REQUIRE(m->samples == d->lines && m->lines == d->samples && m->bands == d->bands);
	int S = d->samples, L = d->lines, z = get_elemsize(m->data_type);
	FOR(k, m->bands) FOR(i, L) FOR(j, S) FOR(t, z)
		U8(d)[((k * L + i) * S + j) * z + t] = U8(m)[((k * S + j) * L + i) * z + t];
}
