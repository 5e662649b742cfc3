/* The C++ image class.  Each member and conversion has a reference definition of the same signature
   (spec_direct_*), compared with it directly, and a C wrapper (hymat_*) with its own reference
   (spec_hymat_*), through which separating instances are searched: there the image goes in and comes out as
   a hyper_mat.  Never run. */
#include <iostream>
#include <fstream>
#include <string>
#include <sstream>
extern "C" {
#include "c_include/hypercv_core.h"
#include "c_include/hypercv_process.h"
#include "algorithm/hypercv_algorithm.h"
#include "highgui/hypercv_gui.h"
}
#include "cxx_include/hypercv_core.hpp"
#define REQUIRE(c) do { if (!(c)) abort(); } while (0)
#define FOR(i, n) for (int i = 0; i < (n); i++)
#define ORDER(f) ((f) == HYPERCV_BIL ? "bil" : (f) == HYPERCV_BIP ? "bip" : "bsq")
#define FORMAT(f) ((f) == HYPERCV_BIL || (f) == HYPERCV_BIP || (f) == HYPERCV_BSQ)
#define TYPE(t) ((t) == 1 || (t) == 2 || (t) == 3 || (t) == 4 || (t) == 5 || (t) == 12 || (t) == 13 || (t) == 14 || (t) == 15)
/* element offset of (sample j, line i, band k) in an image of s samples, l lines, b bands */
#define BSQ(s, l, b, j, i, k) ((k) * (l) * (s) + (i) * (s) + (j))
#define BIL(s, l, b, j, i, k) ((i) * (b) * (s) + (k) * (s) + (j))
#define BIP(s, l, b, j, i, k) ((i) * (s) * (b) + (j) * (b) + (k))
#define AT(f, s, l, b, j, i, k) ((f) == HYPERCV_BIL ? BIL(s, l, b, j, i, k) : (f) == HYPERCV_BIP ? BIP(s, l, b, j, i, k) : BSQ(s, l, b, j, i, k))
using namespace hypercv;

static inline int code(hyper_mat m)
{
	return m->interleave[1] == 's' ? HYPERCV_BSQ : m->interleave[2] == 'p' ? HYPERCV_BIP : HYPERCV_BIL;
}

/* a C view of a HyMat: same fields, same blocks */
static inline hyper_mat view(HyMat &m)
{
	hyper_mat r = (hyper_mat)malloc(sizeof(*r));
	r->samples = m.samples;
	r->lines = m.lines;
	r->bands = m.bands;
	r->data_type = m.dataType;
	FOR(t, 3) r->interleave[t] = m.interleave[t];
	r->data = m.data;
	r->wavelength = m.wavelength;
	return r;
}

static inline HyMat image(hyper_mat src, int format)
{
	HyMat m(src->samples, src->lines, src->bands, src->data_type, format);
	m.CopyData(src->data);
	m.CopyWaveLength(src->wavelength);
	return m;
}

extern "C" {
/* ---- conversions */
#define CONVERT(name, FROM, from, TO, to, COPY) \
HyMat spec_direct_##name(HyMat &mat) \
{ \
	COPY; \
	REQUIRE(mat.format == from); \
	int s = mat.samples, l = mat.lines, b = mat.bands, e = mat.elemSize; \
	HyMat dst(s, l, b, mat.dataType, to); \
	FOR(k, b) FOR(i, l) FOR(j, s) FOR(t, e) \
		((char *)dst.data)[TO(s, l, b, j, i, k) * e + t] = ((char *)mat.data)[FROM(s, l, b, j, i, k) * e + t]; \
	dst.CopyWaveLength(mat.wavelength, b); \
	return dst; \
} \
hyper_mat hymat_##name(hyper_mat src) \
{ \
	HyMat m = image(src, from); \
	HyMat d = hypercv::name(m); \
	return view(d); \
} \
hyper_mat spec_hymat_##name(hyper_mat src) \
{ \
	int s = src->samples, l = src->lines, b = src->bands, e = get_elemsize(src->data_type); \
	hyper_mat dst = create_hyper_mat(s, l, b, src->data_type, ORDER(to)); \
	FOR(k, b) FOR(i, l) FOR(j, s) \
		memcpy((char *)dst->data + TO(s, l, b, j, i, k) * e, (char *)src->data + FROM(s, l, b, j, i, k) * e, e); \
	if (src->wavelength != NULL) \
		FOR(k, b) dst->wavelength[k] = src->wavelength[k]; \
	return dst; \
}
#define SAME(to) if (mat.format == to) return mat.copy()
CONVERT(bsq2bil, BSQ, HYPERCV_BSQ, BIL, HYPERCV_BIL, SAME(HYPERCV_BIL))
CONVERT(bsq2bip, BSQ, HYPERCV_BSQ, BIP, HYPERCV_BIP, SAME(HYPERCV_BIP))
CONVERT(bil2bsq, BIL, HYPERCV_BIL, BSQ, HYPERCV_BSQ, REQUIRE(mat.empty() == 0))
CONVERT(bil2bip, BIL, HYPERCV_BIL, BIP, HYPERCV_BIP, REQUIRE(mat.empty() == 0))
CONVERT(bip2bsq, BIP, HYPERCV_BIP, BSQ, HYPERCV_BSQ, SAME(HYPERCV_BSQ))
CONVERT(bip2bil, BIP, HYPERCV_BIP, BIL, HYPERCV_BIL, SAME(HYPERCV_BIL))

void spec_direct_convertTo(HyMat *m, int f)
{
	REQUIRE(FORMAT(f));
	if (f == m->format)
		return;
	int s = m->samples, l = m->lines, b = m->bands, e = m->elemSize;
	char *d = (char *)malloc(m->dataSize);
	FOR(i, l) FOR(j, s) FOR(k, b) FOR(t, e)
		d[AT(f, s, l, b, j, i, k) * e + t] = ((char *)m->data)[AT(m->format, s, l, b, j, i, k) * e + t];
	m->CopyData(d, m->dataSize);
	free(d);
	m->format = f;
	FOR(t, 3) m->interleave[t] = ORDER(f)[t];
}
hyper_mat hymat_convertTo(hyper_mat src, int f)
{
	HyMat m = image(src, code(src));
	m.convertTo(f);
	return view(m);
}
hyper_mat spec_hymat_convertTo(hyper_mat src, int f)
{
	REQUIRE(FORMAT(f));
	int s = src->samples, l = src->lines, b = src->bands, e = get_elemsize(src->data_type), g = code(src);
	hyper_mat dst = create_hyper_mat(s, l, b, src->data_type, ORDER(f));
	FOR(k, b) FOR(i, l) FOR(j, s)
		memcpy((char *)dst->data + AT(f, s, l, b, j, i, k) * e, (char *)src->data + AT(g, s, l, b, j, i, k) * e, e);
	if (src->wavelength != NULL)
		FOR(k, b) dst->wavelength[k] = src->wavelength[k];
	return dst;
}

/* ---- creation */
void spec_direct_create(HyMat *m, int s, int l, int b, int t, int f, void *data, float *wavelength)
{
	REQUIRE(s > 0 && l > 0 && b > 0);
	REQUIRE(TYPE(t));
	REQUIRE(FORMAT(f));
	if (m->data)
		m->release();
	m->samples = s;
	m->lines = l;
	m->bands = b;
	m->dataType = t;
	m->format = f;
	m->interleave[0] = 'b';
	m->interleave[1] = f == HYPERCV_BIL ? 'i' : f == HYPERCV_BIP ? 'i' : 's';
	m->interleave[2] = f == HYPERCV_BIL ? 'l' : f == HYPERCV_BIP ? 'p' : 'q';
	m->elemSize = get_elemsize(t);
	m->dataSize = s * l * b * m->elemSize;
	if (data)
		m->data = data;
	else
	{
		m->data = malloc(m->dataSize);
		memset(m->data, 0, m->dataSize);
	}
	if (wavelength)
		m->wavelength = wavelength;
	else
	{
		m->wavelength = (float *)malloc(b * sizeof(float));
		memset(m->wavelength, 0, b * sizeof(float));
	}
}
hyper_mat hymat_create(int s, int l, int b, int t, int f)
{
	HyMat m;
	m.create(s, l, b, t, f);
	return view(m);
}
hyper_mat spec_hymat_create(int s, int l, int b, int t, int f)
{
	REQUIRE(s > 0 && l > 0 && b > 0);
	REQUIRE(TYPE(t));
	REQUIRE(FORMAT(f));
	return create_hyper_mat(s, l, b, t, ORDER(f));
}
long hymat_size(int s, int l, int b, int t, int f)
{
	HyMat m(s, l, b, t, f);
	return m.dataSize * 16 + m.elemSize;
}
long spec_hymat_size(int s, int l, int b, int t, int f)
{
	REQUIRE(s > 0 && l > 0 && b > 0);
	REQUIRE(TYPE(t));
	REQUIRE(FORMAT(f));
	int e = get_elemsize(t);
	return s * l * b * e * 16 + e;
}
/* an image created on the caller's blocks uses these blocks */
hyper_mat hymat_create_with_data(hyper_mat src)
{
	HyMat m(src->samples, src->lines, src->bands, src->data_type, code(src), src->data, src->wavelength);
	return view(m);
}
hyper_mat spec_hymat_create_with_data(hyper_mat src)
{
	REQUIRE(TYPE(src->data_type));
	hyper_mat dst = (hyper_mat)malloc(sizeof(*dst));
	dst->samples = src->samples;
	dst->lines = src->lines;
	dst->bands = src->bands;
	dst->data_type = src->data_type;
	FOR(t, 3) dst->interleave[t] = src->interleave[t];
	dst->data = src->data;
	if (src->wavelength)
		dst->wavelength = src->wavelength;
	else
		dst->wavelength = (float *)calloc(src->bands, sizeof(float));
	return dst;
}
/* creating again replaces the image */
hyper_mat hymat_create_again(hyper_mat src, int s, int l, int b, int t, int f)
{
	HyMat m = image(src, code(src));
	m.create(s, l, b, t, f);
	return view(m);
}
hyper_mat spec_hymat_create_again(hyper_mat src, int s, int l, int b, int t, int f)
{
	return spec_hymat_create(s, l, b, t, f);
}

/* ---- copies and windows */
HyMat spec_direct_copy(HyMat *m)
{
	HyMat dst;
	if (m->empty() == 0)
	{
		dst.create(m->samples, m->lines, m->bands, m->dataType, m->format);
		dst.CopyData(m->data, m->dataSize);
		dst.CopyWaveLength(m->wavelength, m->bands);
	}
	return dst;
}
hyper_mat hymat_copy(hyper_mat src)
{
	HyMat m = image(src, code(src));
	HyMat d = m.copy();
	m.release();
	return view(d);
}
hyper_mat spec_hymat_copy(hyper_mat src)
{
	return hyper_mat_copy(src);
}
/* the copy of an empty image is empty */
int hymat_copy_empty(void)
{
	HyMat m;
	HyMat d = m.copy();
	return d.data == NULL && d.empty() == 1;
}
int spec_hymat_copy_empty(void)
{
	return 1;
}
int spec_direct_empty(HyMat *m)
{
	return m->data == NULL || m->dataSize == 0;
}
/* empty before create, filled after it, empty after release */
int hymat_empty(int s, int l, int b, int t, int f)
{
	HyMat m;
	int r = m.empty();
	m.create(s, l, b, t, f);
	r += 2 * m.empty();
	m.release();
	r += 4 * m.empty();
	return r + 8 * (m.data == NULL) + 16 * (m.wavelength == NULL) + 32 * (m.dataSize == 0);
}
int spec_hymat_empty(int s, int l, int b, int t, int f)
{
	REQUIRE(s > 0 && l > 0 && b > 0);
	REQUIRE(TYPE(t));
	REQUIRE(FORMAT(f));
	return 1 + 4 + 8 + 16 + 32;
}
void spec_direct_release(HyMat *m)
{
	if (m->data)
		free(m->data);
	if (m->wavelength)
		free(m->wavelength);
	m->data = NULL;
	m->wavelength = NULL;
	m->samples = 0;
	m->lines = 0;
	m->bands = 0;
	m->dataType = 0;
	m->dataSize = 0;
}
void spec_direct_CopyData(HyMat *m, void *p, long n)
{
	if (p != NULL)
		memcpy(m->data, p, n == 0 ? m->dataSize : n);
}
void spec_direct_CopyWaveLength(HyMat *m, float *p, long n)
{
	if (p != NULL)
		memcpy(m->wavelength, p, (n == 0 ? m->bands : n) * sizeof(float));
}

hyper_mat hymat_CopyData(hyper_mat src, long n)
{
	HyMat m(src->samples, src->lines, src->bands, src->data_type, code(src));
	m.CopyData(src->data, n);
	return view(m);
}
hyper_mat spec_hymat_CopyData(hyper_mat src, long n)
{
	hyper_mat dst = create_hyper_mat(src->samples, src->lines, src->bands, src->data_type, src->interleave);
	memcpy(dst->data, src->data, n != 0 ? n : src->samples * src->lines * src->bands * get_elemsize(src->data_type));
	return dst;
}
hyper_mat hymat_CopyWaveLength(hyper_mat src, long n)
{
	HyMat m(src->samples, src->lines, src->bands, src->data_type, code(src));
	m.CopyWaveLength(src->wavelength, n);
	return view(m);
}
hyper_mat spec_hymat_CopyWaveLength(hyper_mat src, long n)
{
	hyper_mat dst = create_hyper_mat(src->samples, src->lines, src->bands, src->data_type, src->interleave);
	if (src->wavelength != NULL)
		memcpy(dst->wavelength, src->wavelength, (n != 0 ? n : src->bands) * sizeof(float));
	return dst;
}

HyMat spec_direct_range(HyMat *m, int r0, int c0, int b0, int r1, int c1, int b1)
{
	REQUIRE(0 <= c0 && 0 <= r0 && 0 <= b0 && c1 <= m->samples && r1 <= m->lines && b1 <= m->bands);
	REQUIRE(c0 < c1 && r0 < r1 && b0 < b1);
	int s = m->samples, l = m->lines, b = m->bands, e = m->elemSize, ds = c1 - c0, dl = r1 - r0, db = b1 - b0;
	HyMat dst(ds, dl, db, m->dataType, m->format);
#define WINDOW(O) FOR(k, db) FOR(i, dl) FOR(j, ds) FOR(t, e) \
	((char *)dst.data)[O(ds, dl, db, j, i, k) * e + t] = ((char *)m->data)[O(s, l, b, c0 + j, r0 + i, b0 + k) * e + t]
	if (m->format == HYPERCV_BIL)
		WINDOW(BIL);
	else if (m->format == HYPERCV_BIP)
		WINDOW(BIP);
	else if (m->format == HYPERCV_BSQ)
		WINDOW(BSQ);
	dst.CopyWaveLength(m->wavelength + b0, db);
	return dst;
}
hyper_mat hymat_range(hyper_mat src, int r0, int c0, int b0, int r1, int c1, int b1)
{
	HyMat m = image(src, code(src));
	HyMat d = m.range(r0, c0, b0, r1, c1, b1);
	return view(d);
}
hyper_mat spec_hymat_range(hyper_mat src, int r0, int c0, int b0, int r1, int c1, int b1)
{
	REQUIRE(0 <= c0 && 0 <= r0 && 0 <= b0 && c1 <= src->samples && r1 <= src->lines && b1 <= src->bands);
	REQUIRE(c0 < c1 && r0 < r1 && b0 < b1);
	int s = src->samples, l = src->lines, b = src->bands, e = get_elemsize(src->data_type), f = code(src);
	int ds = c1 - c0, dl = r1 - r0, db = b1 - b0;
	hyper_mat dst = create_hyper_mat(ds, dl, db, src->data_type, ORDER(f));
	FOR(k, db) FOR(i, dl) FOR(j, ds)
		memcpy((char *)dst->data + AT(f, ds, dl, db, j, i, k) * e, (char *)src->data + AT(f, s, l, b, c0 + j, r0 + i, b0 + k) * e, e);
	if (src->wavelength != NULL)
		FOR(k, db) dst->wavelength[k] = src->wavelength[b0 + k];
	return dst;
}

/* ---- reading */
void spec_direct_open(HyMat *m, const char *path, int s, int l, int b, int t, int f)
{
	REQUIRE(s > 0 && l > 0 && b > 0);
	REQUIRE(TYPE(t));
	REQUIRE(FORMAT(f));
	if (m->empty() == 0)
		m->release();
	m->create(s, l, b, t, f);
	FILE *fp = fopen(path, "r");
	if (fp == NULL)
	{
		printf("can not open file\n");
		return;
	}
	fread(m->data, 1, m->dataSize, fp);
	fclose(fp);
}
hyper_mat hymat_open(const char *path, int s, int l, int b, int t, int f)
{
	HyMat m;
	m.open(path, s, l, b, t, f);
	return view(m);
}
hyper_mat spec_hymat_open(const char *path, int s, int l, int b, int t, int f)
{
	hyper_mat dst = spec_hymat_create(s, l, b, t, f);
	FILE *fp = fopen(path, "r");
	if (fp != NULL)
	{
		fread(dst->data, 1, s * l * b * get_elemsize(t), fp);
		fclose(fp);
	}
	return dst;
}
}
