#include "spec.h"
/* the analysis/synthesis filters are handed out in reverse order */
static const double L3[6] = {0.0352, -0.0854, -0.1350, 0.4599, 0.8069, 0.3327}, H3[6] = {-0.3327, 0.8069, -0.4599, -0.1350, 0.0854, 0.0352};
static const double l3[6] = {0.3327, 0.8069, 0.4599, -0.1350, -0.0854, 0.0352}, h3[6] = {0.0352, 0.0854, -0.1350, -0.4599, 0.8069, -0.3327};
static const double L7[16] = {0.0030, -0.0091, -0.0168, 0.0747, 0.0313, -0.3012, -0.0265, 0.9516, 0.9516, -0.0265, -0.3012, 0.0313, 0.0747, -0.0168, -0.0091, 0.0030};
static const double H7[16] = {0, 0, 0, 0, 0, 0, -0.1768, 0.5303, -0.5303, 0.1768};
static const double l7[16] = {0, 0, 0, 0, 0, 0, 0.1768, 0.5303, 0.5303, 0.1768};
static const double h7[16] = {0.0030, 0.0091, -0.0168, -0.0747, 0.0313, 0.3012, -0.0265, -0.9516, 0.9516, 0.0265, -0.3012, -0.0313, 0.0747, 0.0168, -0.0091, -0.0030};

static double *rev(const double *s, int n)
{
	double *r = (double *)calloc(n, sizeof(double));
	FOR(i, n) r[i] = s[n - 1 - i];
	return r;
}

wavelet_base *spec_set_wavelet_base(int type)
{
	REQUIRE(type == HYPERCV_WAVE_DB3 || type == HYPERCV_WAVE_BIOR3_7);
	wavelet_base *w = (wavelet_base *)calloc(1, sizeof(wavelet_base));
	if (type == HYPERCV_WAVE_DB3)
	{
		w->len = 6;
		w->LO_D = rev(L3, 6); w->HI_D = rev(H3, 6); w->LO_R = rev(l3, 6); w->HI_R = rev(h3, 6);
	}
	else
	{
		w->len = 16;
		w->LO_D = rev(L7, 16); w->HI_D = rev(H7, 16); w->LO_R = rev(l7, 16); w->HI_R = rev(h7, 16);
	}
	return w;
}
