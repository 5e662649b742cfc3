#include "spec.h"

int spec_get_elemsize(int t)
{
	if (t == 1) return 1;
	if (t == 2 || t == 12) return 2;
	if (t == 3 || t == 4 || t == 13) return 4;
	if (t == 5 || t == 14 || t == 15) return 8;
	return -1;
}

u8 spec_saturate_cast_float2uchar(float v)
{
	return v > 255 ? 255 : v < 0 ? 0 : (u8)HYPERCV_ROUND(v);
}

/* ---- copies ---- */
hyper_mat spec_create_hyper_mat(int s, int l, int b, int t, const char *il)
{
	return create_hyper_mat_with_data(s, l, b, t, il, NULL, NULL);
}

simple_mat spec_create_simple_mat(int r, int c, int t, int ch)
{
	return create_simple_mat_with_data(r, c, t, ch, NULL);
}

hyper_mat spec_hyper_mat_copy(hyper_mat m)
{
	if (m == NULL)
		return NULL;
	return create_hyper_mat_with_data(m->samples, m->lines, m->bands, m->data_type, m->interleave, m->data, m->wavelength);
}

void spec_hyper_mat_copy_to(hyper_mat src, hyper_mat dst)
{
	REQUIRE(src != NULL && dst != NULL);
	REQUIRE(src->samples == dst->samples && src->lines == dst->lines && src->bands == dst->bands && src->data_type == dst->data_type);
	int n = src->samples * src->lines * src->bands * get_elemsize(src->data_type);
	FOR(i, n) ((char *)dst->data)[i] = ((char *)src->data)[i];
	hyper_mat_copy_wavelength(src, dst);
	FOR(i, 3) dst->interleave[i] = src->interleave[i];
}

void spec_hyper_mat_copy_wavelength(hyper_mat src, hyper_mat dst)
{
	REQUIRE(src != NULL && dst != NULL);
	REQUIRE(src->bands == dst->bands);
	if (src->wavelength)
		FOR(k, src->bands) dst->wavelength[k] = src->wavelength[k];
}

int spec_hyper_mat_empty(hyper_mat m) { return m == NULL; }

simple_mat spec_simple_mat_copy(simple_mat m)
{
	simple_mat d = create_simple_mat(m->rows, m->cols, m->data_type, m->channels);
	int n = m->rows * m->cols * m->channels * get_elemsize(m->data_type);
	FOR(i, n) ((char *)d->data)[i] = ((char *)m->data)[i];
	return d;
}

/* ---- raw images ---- */
hyper_mat spec_hmread_with_size(const char *path, int s, int l, int b, int t, const char *il)
{
	REQUIRE(path != NULL);
	REQUIRE(s > 0 && l > 0 && b > 0);
	FILE *f = fopen(path, "r");
	if (f == NULL)
		return NULL;
	REQUIRE(get_elemsize(t) > 0);
	hyper_mat m = create_hyper_mat(s, l, b, t, il);
	fread(m->data, get_elemsize(t), (size_t)(s * l * b), f);
	fclose(f);
	return m;
}

simple_mat spec_smread(const char *path, int r, int c, int t, int ch)
{
	REQUIRE(path != NULL);
	FILE *f = fopen(path, "r");
	REQUIRE(f != NULL);
	simple_mat m = create_simple_mat(r, c, t, ch);
	fread(m->data, get_elemsize(t), r * c * ch, f);
	fclose(f);
	return m;
}

void spec_hmsave(const char *path, hyper_mat m)
{
	REQUIRE(path != NULL && m != NULL);
	FILE *f = fopen(path, "wb");
	REQUIRE(f != NULL);
	fwrite(m->data, get_elemsize(m->data_type), m->samples * m->lines * m->bands, f);
	writehdr(path, m->samples, m->lines, m->bands, m->data_type, m->interleave, m->wavelength);
	fclose(f);
}

void spec_writehdr(const char *path, int s, int l, int b, int t, const char *il, float *w)
{
	int n = strlen(path);
	char *name = malloc(n + 5);
	memcpy(name, path, n);
	memcpy(name + n, ".hdr", 5);
	FILE *f = fopen(name, "w");
	free(name);
	REQUIRE(f != NULL);
	fprintf(f, "ENVI\nsamples = %d\nlines = %d\nbands = %d\ndata type = %d\ninterleave = %c%c%c\n", s, l, b, t, il[0], il[1], il[2]);
	if (w == NULL)
		fputs("wavelength = unknown \n", f);
	else
	{
		fputs("wavelength = { \n", f);
		FOR(i, b)
			fprintf(f, i + 1 < b ? "%f," : "%f}", w[i]);
	}
	fclose(f);
}

hyper_mat spec_hmread_with_hdr(const char *img, const char *hdr)
{
	REQUIRE(img != NULL);
	REQUIRE(hdr != NULL);
	FILE *fi = fopen(img, "r");
	FILE *fh = fopen(hdr, "r");
	if (fi == NULL || fh == NULL)
	{
		if (fi)
			fclose(fi);
		if (fh)
			fclose(fh);
		return NULL;
	}
	char line[10000], num[10000], il[4] = "bsq";
	int s = 0, l = 0, b = 0, t = 0;
	float *w = NULL;
	while (fgets(line, 10000, fh))
	{
		if (cmpstr(line, "samples"))
			sscanf(line, "%*[^=]=%d", &s);
		if (cmpstr(line, "lines"))
			sscanf(line, "%*[^=]=%d", &l);
		if (cmpstr(line, "bands"))
			sscanf(line, "%*[^=]=%d", &b);
		if (cmpstr(line, "data type"))
			sscanf(line, "%*[^=]=%d", &t);
		if (cmpstr(line, "interleave"))
			sscanf(line, "%*[^=]= %3c", il);
		if (cmpstr(line, "wavelength = {") && b > 0)
		{
			free(w);
			w = calloc(b, sizeof(float));
			int at = 14, n = 0, k = 0, end = 0;
			while (!end)
			{
				char c = line[at];
				if (c == 0 || c == '\n')
				{
					at = 0;
					if (!fgets(line, 10000, fh))
						end = 1;
				}
				else
				{
					at = at + 1;
					if (c == ',' || c == '}')
					{
						num[k] = 0;
						if (n < b)
							w[n] = atof(num);
						n = n + 1;
						k = 0;
						if (c == '}')
							end = 1;
					}
					else
					{
						num[k] = c;
						k = k + 1;
					}
				}
			}
		}
	}
	REQUIRE(get_elemsize(t) > 0);
	hyper_mat m = create_hyper_mat_with_data(s, l, b, t, il, NULL, w);
	fread(m->data, get_elemsize(t), (size_t)(s * l * b), fi);
	fclose(fi);
	fclose(fh);
	free(w);
	return m;
}

/* ---- bmp ---- */
#pragma pack(push, 1)
struct bmp_file { u16 type; u32 size; u16 r1, r2; u32 off; };
struct bmp_info { u32 size; int w, h; u16 planes, bits; u32 compression, image; int xppm, yppm; u32 used, important; };
#pragma pack(pop)
struct quad { u8 b, g, r, x; };

simple_mat spec_smread_bmp(const char *path)
{
	REQUIRE(path != NULL);
	FILE *f = fopen(path, "rb");
	REQUIRE(f != NULL);
	struct bmp_info h;
	struct quad pal[256];
	fseek(f, 14, SEEK_SET);
	REQUIRE(fread(&h, 40, 1, f) == 1);
	REQUIRE(h.w > 0 && h.h > 0);
	REQUIRE(h.bits == 8 || h.bits == 24);
	int pitch = (h.w * h.bits / 8 + 3) / 4 * 4;
	memset(pal, 0, sizeof pal);
	if (h.bits == 8)
		fread(pal, 4, 256, f);
	u8 *buf = calloc(h.h * pitch, 1);
	fread(buf, 1, h.h * pitch, f);
	fclose(f);
	simple_mat m = create_simple_mat(h.h, h.w, 1, 3);
	FOR(i, h.h) FOR(j, h.w)
	{
		u8 *o = U8(m) + (i * h.w + j) * 3;
		if (h.bits == 8)
		{
			struct quad q = pal[buf[(h.h - 1 - i) * pitch + j]];
			o[0] = q.r;
			o[1] = q.g;
			o[2] = q.b;
		}
		else
			FOR(c, 3) o[c] = buf[(h.h - 1 - i) * pitch + j * 3 + 2 - c];
	}
	free(buf);
	return m;
}

void spec_smwrite_bmp(const char *path, simple_mat src)
{
	REQUIRE(path != NULL);
	REQUIRE(src != NULL);
	REQUIRE(src->data_type == 1);
	REQUIRE(src->channels == 1 || src->channels == 3);
	FILE *f = fopen(path, "wb");
	REQUIRE(f != NULL);
	simple_mat m = src->channels == 1 ? sm_gray2rgb(src) : src;
	int w = m->cols, h = m->rows, pitch = (w * 3 + 3) / 4 * 4;
	struct bmp_file fh = {0x4D42, 54 + pitch * h, 0, 0, 54};
	struct bmp_info ih = {40, w, h, 1, 24, 0, pitch * h, 100, 100, 0, 0};
	fwrite(&fh, 14, 1, f);
	fwrite(&ih, 40, 1, f);
	u8 *buf = calloc(h, pitch);
	FOR(i, h) FOR(j, w) FOR(c, 3)
		buf[(h - 1 - i) * pitch + j * 3 + c] = U8(m)[(i * w + j) * 3 + 2 - c];
	fwrite(buf, h * pitch, 1, f);
	free(buf);
	if (m != src)
		delete_simple_mat(m);
	fclose(f);
}

/* ---- statistics ---- */
#define SUM(acc, m, n, E) \
	switch ((m)->data_type) \
	{ \
	case 1: { u8 *p = (m)->data; FOR(i, n) acc += E; break; } \
	case 2: { short *p = (m)->data; FOR(i, n) acc += E; break; } \
	case 3: { int *p = (m)->data; FOR(i, n) acc += E; break; } \
	case 4: { float *p = (m)->data; FOR(i, n) acc += E; break; } \
	case 12: { u16 *p = (m)->data; FOR(i, n) acc += E; break; } \
	case 13: { u32 *p = (m)->data; FOR(i, n) acc += E; break; } \
	default: abort(); \
	}

float spec_simple_mat_mean(simple_mat m)
{
	REQUIRE(m != NULL);
	REQUIRE(m->channels == 1);
	int n = m->rows * m->cols;
	float sum = 0;
	SUM(sum, m, n, p[i]);
	return sum / m->rows / m->cols;
}

float spec_simple_mat_variance(simple_mat m)
{
	REQUIRE(m != NULL);
	REQUIRE(m->channels == 1);
	int n = m->rows * m->cols;
	float mean = simple_mat_mean(m), sum = 0;
	SUM(sum, m, n, pow(mean - p[i], 2));
	return sum / m->rows / m->cols;
}

void spec_simple_mat_grayscale_statistics(simple_mat m, int *hist)
{
	REQUIRE(m != NULL);
	REQUIRE(m->data_type == 1);
	REQUIRE(hist != NULL);
	simple_mat g = m->channels == 1 ? m : sm_rgb2gray(m, 0);
	FOR(v, 256) hist[v] = 0;
	FOR(i, m->rows * m->cols) hist[U8(g)[i]] += 1;
	if (g != m)
		delete_simple_mat(g);
}

float spec_simple_mat_contrast_ratio(simple_mat m)
{
	REQUIRE(m != NULL);
	REQUIRE(m->data_type == 1);
	simple_mat g = m->channels == 1 ? m : sm_rgb2gray(m, 0);
	int r = m->rows, c = m->cols;
	u8 *p = U8(g);
	float sum = 0;
	FOR(i, r) FOR(j, c)
	{
		int v = p[i * c + j];
		if (j > 0) sum += pow(v - p[i * c + j - 1], 2);
		if (j < c - 1) sum += pow(v - p[i * c + j + 1], 2);
		if (i > 0) sum += pow(v - p[(i - 1) * c + j], 2);
		if (i < r - 1) sum += pow(v - p[(i + 1) * c + j], 2);
	}
	if (g != m)
		delete_simple_mat(g);
	return sum / (4 * (r - 2) * (c - 2) + 6 * (r - 2) + 6 * (c - 2) + 8);
}

float spec_simple_mat_entropy(simple_mat m)
{
	REQUIRE(m != NULL);
	REQUIRE(m->data_type == 1);
	int hist[256] = {0};
	simple_mat_grayscale_statistics(m, hist);
	float e = 0;
	FOR(v, 256)
		if (hist[v])
		{
			float p = (float)hist[v] / m->rows / m->cols;
			e -= p * (log(p) / log(2.0));
		}
	return e;
}

/* ---- structuring elements ---- */
S_2D spec_create_2D_struct(int w, int h)
{
	REQUIRE(w >= 1 && h >= 1);
	S_2D s = malloc(sizeof(STRUCT_2D) + w * h);
	u8 *p = (u8 *)(s + 1);
	FOR(i, w * h) p[i] = 1;
	s->data = p;
	s->width = w;
	s->height = h;
	return s;
}

S_2D spec_create_2D_struct_with_data(int w, int h, void *data)
{
	REQUIRE(w >= 1 && h >= 1);
	S_2D s = malloc(sizeof(STRUCT_2D));
	s->data = data;
	s->width = w;
	s->height = h;
	return s;
}

void spec_delete_S_2D(S_2D s)
{
	if (s)
		free(s);
}

void spec_delete_hyper_mat(hyper_mat m)
{
	if (m)
		free(m);
}
void spec_delete_simple_mat(simple_mat mat)
{
	if (mat == NULL)
		return;
	uintptr_t address = (uintptr_t)mat + sizeof(SIMPLE_MAT);
	BYTE_ALIGNMENT(address, ALLOC_BYTE_ALIGNMENT);
	if (address == (uintptr_t)mat->data)
		free(mat);
	else
	{
		free(mat->data);
		mat->data = NULL;
		free(mat);
	}
}
void spec_wavelet_base_free(wavelet_base *wb)
{
	if (wb == NULL)
		return;
	if (wb->LO_D != NULL)
		free(wb->LO_D);
	if (wb->HI_D != NULL)
		free(wb->HI_D);
	if (wb->LO_R != NULL)
		free(wb->LO_R);
	if (wb->HI_R != NULL)
		free(wb->HI_R);
	free(wb);
}
void spec_wt_info_free(wt_info *w)
{
	if (w == NULL)
		return;
	if (w->c != NULL)
		free(w->c);
	if (w->s != NULL)
		free(w->s);
	free(w);
}
void spec_wt_coefset_free(wt_coefset *w)
{
	if (w == NULL)
		return;
	if (w->A_LL != NULL)
		free(w->A_LL);
	if (w->H_LH != NULL)
		free(w->H_LH);
	if (w->V_HL != NULL)
		free(w->V_HL);
	if (w->D_HH != NULL)
		free(w->D_HH);
	free(w);
}


/* one block: header, then the data and the wavelengths, each at the next multiple of ALLOC_BYTE_ALIGNMENT, zero unless given */
hyper_mat spec_create_hyper_mat_with_data(int samples, int lines, int bands, int type, const char *il, void *data, float *wave)
{
	REQUIRE(samples > 0 && lines > 0 && bands > 0);
	long n = (long)samples * lines * bands * get_elemsize(type), w = (long)bands * 4;
	hyper_mat m = (hyper_mat)malloc(sizeof(HyperMat) + n + ALLOC_BYTE_ALIGNMENT + w + ALLOC_BYTE_ALIGNMENT);
	REQUIRE(m != NULL);
	uintptr_t a = (uintptr_t)m + sizeof(HyperMat);
	BYTE_ALIGNMENT(a, ALLOC_BYTE_ALIGNMENT);
	uintptr_t b = a + n;
	BYTE_ALIGNMENT(b, ALLOC_BYTE_ALIGNMENT);
	memset((void *)a, 0, n);
	memset((void *)b, 0, w);
	if (data != NULL)
		memcpy((void *)a, data, n);
	if (wave != NULL)
		memcpy((void *)b, wave, w);
	m->data = (void *)a;
	m->wavelength = (float *)b;
	m->samples = samples;
	m->lines = lines;
	m->bands = bands;
	m->data_type = type;
	for (int k = 0; k < 3; k++)
		m->interleave[k] = il[k];
	return m;
}

/* header and zeroed storage in one block, or a header that wraps the caller's storage */
simple_mat spec_create_simple_mat_with_data(int rows, int cols, int type, int channels, void *data)
{
	REQUIRE(rows > 0 && cols > 0);
	int es = get_elemsize(type);
	long n = (long)rows * cols * channels * es;
	simple_mat m = (simple_mat)malloc(sizeof(SIMPLE_MAT) + ALLOC_BYTE_ALIGNMENT + (data == NULL ? n : 0));
	REQUIRE(m != NULL);
	if (data == NULL) {
		uintptr_t a = (uintptr_t)m + sizeof(SIMPLE_MAT);
		BYTE_ALIGNMENT(a, ALLOC_BYTE_ALIGNMENT);
		memset((void *)a, 0, n);
		m->data = (void *)a;
	} else
		m->data = data;
	m->rows = rows;
	m->cols = cols;
	m->data_type = type;
	m->channels = channels;
	m->elem_size = es;
	return m;
}
