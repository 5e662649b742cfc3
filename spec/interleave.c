#include "spec.h"
/* element offset of (sample j, line i, band k) in an image of s samples, l lines, b bands */
#define BSQ(s, l, b, j, i, k) ((k) * (l) * (s) + (i) * (s) + (j))
#define BIL(s, l, b, j, i, k) ((i) * (b) * (s) + (k) * (s) + (j))
#define BIP(s, l, b, j, i, k) ((i) * (s) * (b) + (j) * (b) + (k))

static void waves(hyper_mat src, hyper_mat dst, int first, int n)
{
	if (src->wavelength != NULL)
		FOR(k, n) dst->wavelength[k] = src->wavelength[first + k];
}

#define CONVERT(name, FROM, from, TO, to) \
hyper_mat spec_##name(hyper_mat src) \
{ \
	REQUIRE(src != NULL); \
	if (cmpstr(src->interleave, to) == 1) \
		return hyper_mat_copy(src); \
	REQUIRE(cmpstr(src->interleave, from) == 1); \
	int s = src->samples, l = src->lines, b = src->bands, e = get_elemsize(src->data_type); \
	hyper_mat dst = create_hyper_mat(s, l, b, src->data_type, to); \
	FOR(k, b) FOR(i, l) FOR(j, s) \
		memcpy((char *)dst->data + TO(s, l, b, j, i, k) * e, (char *)src->data + FROM(s, l, b, j, i, k) * e, e); \
	waves(src, dst, 0, b); \
	return dst; \
}
CONVERT(bsq2bil, BSQ, "bsq", BIL, "bil")
CONVERT(bsq2bip, BSQ, "bsq", BIP, "bip")
CONVERT(bil2bsq, BIL, "bil", BSQ, "bsq")
CONVERT(bil2bip, BIL, "bil", BIP, "bip")
CONVERT(bip2bsq, BIP, "bip", BSQ, "bsq")
CONVERT(bip2bil, BIP, "bip", BIL, "bil")

#define INPLACE(name, to, o1, f1, o2, f2) \
void spec_##name(hyper_mat mat) \
{ \
	REQUIRE(mat != NULL); \
	if (cmpstr(mat->interleave, to) == 1) \
		return; \
	if (cmpstr(mat->interleave, o1) == 1) \
	{ \
		hyper_mat res = f1(mat); \
		hyper_mat_copy_to(res, mat); \
		delete_hyper_mat(res); \
	} \
	else if (cmpstr(mat->interleave, o2) == 1) \
	{ \
		hyper_mat res = f2(mat); \
		hyper_mat_copy_to(res, mat); \
		delete_hyper_mat(res); \
	} \
}
INPLACE(convert2bsq, "bsq", "bil", bil2bsq, "bip", bip2bsq)
INPLACE(convert2bil, "bil", "bsq", bsq2bil, "bip", bip2bil)
INPLACE(convert2bip, "bip", "bil", bil2bip, "bsq", bsq2bip)

hyper_mat spec_hyper_mat_get_range(hyper_mat src, int r0, int c0, int b0, int r1, int c1, int b1)
{
	REQUIRE(0 <= c0 && 0 <= r0 && 0 <= b0 && c1 <= src->samples && r1 <= src->lines && b1 <= src->bands);
	REQUIRE(c0 < c1 && r0 < r1 && b0 < b1);
	int s = src->samples, l = src->lines, b = src->bands, e = get_elemsize(src->data_type);
	int ds = c1 - c0, dl = r1 - r0, db = b1 - b0;
	hyper_mat dst = create_hyper_mat(ds, dl, db, src->data_type, src->interleave);
#define COPY(ORDER) FOR(k, db) FOR(i, dl) FOR(j, ds) \
	memcpy((char *)dst->data + ORDER(ds, dl, db, j, i, k) * e, (char *)src->data + ORDER(s, l, b, c0 + j, r0 + i, b0 + k) * e, e)
	if (cmpstr(src->interleave, "bil"))
		COPY(BIL);
	else if (cmpstr(src->interleave, "bip"))
		COPY(BIP);
	else if (cmpstr(src->interleave, "bsq"))
		COPY(BSQ);
	waves(src, dst, b0, db);
	return dst;
}

void spec_hyper_mat_2_simple_mat(hyper_mat src, simple_mat dst, int band)
{
	REQUIRE(cmpstr(src->interleave, "bsq") == 1);
	REQUIRE(0 < band && band <= src->bands);
	int s = src->samples, l = src->lines, e = get_elemsize(src->data_type);
	REQUIRE((size_t)dst->rows * dst->cols * dst->channels * get_elemsize(dst->data_type) >= (size_t)s * l * e);
	FOR(i, l) FOR(j, s)
		memcpy((char *)dst->data + (i * s + j) * e, (char *)src->data + ((band - 1) * l * s + i * s + j) * e, e);
	dst->rows = l;
	dst->cols = s;
	dst->data_type = src->data_type;
	dst->channels = 1;
	dst->elem_size = e;
}

void spec_simple_mat_2_hyper_mat(hyper_mat dst, simple_mat src, int band)
{
	REQUIRE(src->channels == 1);
	REQUIRE(src->rows == dst->lines && src->cols == dst->samples);
	REQUIRE(0 < band && band <= dst->bands);
	REQUIRE(cmpstr(dst->interleave, "bsq") == 1);
	REQUIRE(src->data_type == dst->data_type);
	int s = dst->samples, l = dst->lines, e = get_elemsize(dst->data_type);
	FOR(i, l) FOR(j, s)
		memcpy((char *)dst->data + ((band - 1) * l * s + i * s + j) * e, (char *)src->data + (i * s + j) * e, e);
}

simple_mat spec_reshape_hypermat_2_simplemat(hyper_mat src, int rows, int cols)
{
	REQUIRE(src->samples * src->lines * src->bands == rows * cols);
	simple_mat dst = create_simple_mat(rows, cols, src->data_type, 1);
	int e = get_elemsize(src->data_type);
	FOR(i, rows) FOR(j, cols)
		memcpy((char *)dst->data + (i * cols + j) * e, (char *)src->data + (i * cols + j) * e, e);
	return dst;
}

void spec_hyper_mat_splicing(hyper_mat mat, hyper_mat part, int start)
{
	REQUIRE(mat->data_type == part->data_type);
	REQUIRE(start >= 0 && start + (size_t)part->samples * part->lines * part->bands <= (size_t)mat->samples * mat->lines * mat->bands);
	int e = get_elemsize(mat->data_type), n = part->samples * part->lines * part->bands;
	FOR(i, n)
		memcpy((char *)mat->data + (start + i) * e, (char *)part->data + i * e, e);
}

void spec_simple_mat_transport(simple_mat dst, simple_mat src)
{
	REQUIRE(dst->rows == src->cols && dst->cols == src->rows && dst->data_type == src->data_type);
	REQUIRE(dst->channels == src->channels);
	int r = dst->rows, c = dst->cols, p = get_elemsize(src->data_type) * src->channels;
	FOR(i, r) FOR(j, c)
		memcpy((char *)dst->data + (i * c + j) * p, (char *)src->data + (j * r + i) * p, p);
}
