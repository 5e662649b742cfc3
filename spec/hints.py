"""Sampling hints for the separating-valuation search: which argument values are typical.  They steer the search only;
they never make a difference go away.  Keys are argument positions."""
import struct

ODD = [1, 3, 3, 5, 7, 9]
BORDERS = [0, 1, 2, 3, 4]
T1 = {"data_type": [1]}
T4 = {"data_type": [4]}
HINTS = {}


def hint(names, **k):
    for n in names.split():
        HINTS.setdefault(n, {}).update({int(a[1:]) if a[0] == "a" and a[1:].isdigit() else "@" + a if a in ("fix", "file", "null", "heap", "direct", "stdout", "n") else a: v for a, v in k.items()})


def matrix(i, j=None):
    """a buffer of (argument i) * (argument j) elements"""
    j = i if j is None else j
    return lambda g: max(0, g("%d" % i)) * max(0, g("%d" % j))


SIZES = [1, 1, 2, 2, 3, 3, 4, 5]
for t in "char uchar short ushort int uint float double".split():
    hint("MulMatrix_" + t, a0=matrix(3, 4), a1=matrix(4, 5), a2=matrix(3, 5), a3=SIZES, a4=SIZES, a5=SIZES)
    hint("TransMatrix_" + t, a0=matrix(2, 3), a1=matrix(2, 3), a2=SIZES, a3=SIZES)
    hint("correlation_matrix_" + t, a0=lambda g: g("3") * g("4"), a1=lambda g: g("3") * g("5"), a2=lambda g: g("4") * g("5"), a3=SIZES, a4=SIZES, a5=SIZES)
    hint("mean_" + t, a0=lambda g: g("1"), a1=[1, 2, 3, 4, 5, 8, 13])
hint("sp_average sp_variance sp_standard_deviation", a0=lambda g: g("1"), a1=[1, 2, 3, 4, 5, 8])
hint("spectral_angle_mapper euclidean_distance", a0=lambda g: g("2"), a1=lambda g: g("2"), a2=[1, 2, 3, 4, 6])
hint("sort_array_down_float", a0=lambda g: g("1"), a1=[0, 1, 2, 3, 4, 5, 6])
hint("matrix_norm_float", a0=lambda g: g("1"), a1=[1, 2, 3, 4])
hint("matrix_QR_float invert_matrix_float", a2=[1, 2, 3, 4])
hint("matrix_QR_float", a0=matrix(3), a1=matrix(3), a2=matrix(3), a3=[1, 2, 2, 3, 3, 4, 5, 6])
hint("invert_matrix_float", a0=matrix(2), a1=matrix(2), a2=[1, 2, 2, 3, 3, 4])
hint("set_identity_matrix_float", a0=matrix(1), a1=[1, 2, 3, 4])
hint("cal_eigen_vector_float", a0=matrix(3), a1=matrix(3), a2=lambda g: g("3"), a3=[1, 2, 2, 3, 4], a4=[0, 1, 2, 3, 4])


def rows(*ks):
    def fix(g):
        for k in ks:
            n = g.get("1")
            g.set(str(k), g.rng.randrange(n) if n > 0 else 0)
    return fix


hint("swap_rows_float", a0=matrix(1, 2), a1=[1, 2, 3, 4], a2=[1, 2, 3, 4], fix=rows(3, 4))
hint("matrix_row_multi_scalar_float", a0=matrix(1, 2), a1=[1, 2, 3, 4], a2=[1, 2, 3, 4], fix=rows(3))
hint("shear_row", a0=matrix(1, 2), a1=[1, 2, 3, 4], a2=[1, 2, 3, 4], fix=rows(3, 4))

def inhabited(g):
    if g.get("1") == 0:
        g.set("1", 1)       # an axis without positions has no border


hint("hypercv_border_Interpolate", fix=inhabited, a0=list(range(-30, 31)), a1=[1, 1, 2, 2, 3, 3, 4, 5, 6, 7, -1], a2=BORDERS + BORDERS + [5, 16], n=20)
SMOOTH = sorted(2 ** a * 3 ** b * 5 ** c for a in range(31) for b in range(20) for c in range(14) if 2 ** a * 3 ** b * 5 ** c < 1 << 31)
hint("get_optimal_DFT_size", a0=list(range(-2, 70)) + [x + d for x in SMOOTH[60:] for d in (0, 1)] + [x + d for x in (
    100, 125, 128, 243, 250, 256, 512, 625, 729, 1000, 1024, 1080, 1250, 2048, 2187, 3125, 4096, 6000, 8192, 10000, 16384, 19683, 65536, 78125, 100000, 1048576,
    1594323, 9765625, 10077696, 100000000, 1000000000, 2097152000, 2109375000, 2123366400, 2125764000) for d in (-1, 0, 1)] + [2147483647], n=2)
TEXTS = ["wavelength", "wavelength units", "wavelength_units_nm", "wavelength_units_um", "wavelength_units_un", "a wavelength of eighty characters", "a wavelength of eighty character", "", "a", "b", "ab", "abc", "abd", "bsq", "bil", "bip", "bs", "bsqx", "samples", "sample", "lines", "Lines"]
hint("cmpstr", a0=TEXTS, a1=TEXTS, n=8)
NUMBERS = [b + g + w + f + x + t for k, (b, g, w, f, x, t) in enumerate(
    (b, g, w, f, x, t) for b in ("", "  ") for g in ("", "-", "+") for w in ("7", "0", "12", "305", "") for f in ("", ".5", ".25", ".", ".0625") for x in ("", "e3", "E12", "e-2", "e+10", "E-11", "e", "e0")
    for t in ("", "abc", ",4", " 1", "e1", ".5", "-2")) if (k * 7919) % 19 == 0]
hint("hypercv_atof", a0=NUMBERS, n=4)
hint("hyper_mat_showinfo", stdout=True)
hint("hypercv_k_means", a0={"rows": [1, 1, 2, 3, 4], "cols": [1, 2, 3, 4, 9], "channels": [1, 1, 1, 1, 3], "data_type": [1]}, a1=lambda g: g("2"), a2=[1, 1, 2, 2, 3, 0], a3=[0, 1, 1, 2, 100], heap="vector")
hint("simple_mat_flip", a2=[-1, 0, 1, 1, 2])
hint("hypercv_gaussian_blur", a2=ODD, a3=ODD, a4=[0.5, 1, 2, 0, -1], a5=[0.5, 1, 2, 0, -1], a6=BORDERS)
hint("gaussian_kernel", a0=[1, 3, 5, 7, 9, 11], a1=[0.5, 1, 2, 0, -1], a2=[4, 5, 4, 5, 1])
hint("hypercv_gaussian_blur_with_kernel", a4=BORDERS)
hint("hypercv_laplacian", a2=[1, 1, 3, 3, 3, 5], a3=BORDERS)
hint("hypercv_sobel", a3=BORDERS)
hint("hypercv_filter2D", a2=lambda g: max(0, g("3")) * max(0, g("4")), a3=[1, 3, 3, 5, 2, 7, 9], a4=[1, 3, 3, 5, 2, 7, 9], a5=BORDERS)
hint("hypercv_copy_make_border", a1=[0, 1, 2, 3], a2=[0, 1, 2, 3], a3=[0, 1, 2, 3], a4=[0, 1, 2, 3], a5=BORDERS)
hint("hypercv_meanblur hypercv_medianblur", a2=[1, 3, 3, 5, 7, 9], a0={"rows": [1, 3, 4, 5, 6, 2, 7, 8], "cols": [1, 3, 4, 5, 6, 2, 7, 9], "channels": [1, 1, 1, 1, 3], "data_type": [1]})


def down(g):
    g.set("0.data_type", 1), g.set("1.data_type", 1)
    g.set("1.rows", (g.get("0.rows") + g.rng.choice((0, 0, 1))) // 2)
    g.set("1.cols", (g.get("0.cols") + g.rng.choice((0, 0, 1))) // 2)
    g.set("1.channels", g.get("0.channels"))


hint("hypercv_pyramid_down", a0={"rows": [2, 3, 4, 5, 6, 7, 8], "cols": [2, 3, 4, 5, 6, 7, 8], "data_type": [1]}, fix=down)
hint("hypercv_threshold", a2=[0, 1, 100, 127, 128, 254, 255, -1, 256], a3=[255, 255, 1, 128], a4=[0, 1, 2, 3, 4, 5, 6, 7, 8])
hint("hypercv_threshold_binary hypercv_threshold_binary_inv hypercv_threshold_trunc hypercv_threshold_tozero hypercv_threshold_tozero_inv", a2=[0, 1, 100, 127, 128, 254, 255, -1, 256], a3=[255, 255, 1, 128])
hint("hypercv_open hypercv_close", a3=[1, 1, 2, 3, 0])
hint("hypercv_normalize hypercv_normalize_uchar hypercv_normalize_float", a4=[32, 32, 1, 2, 4, 0, 8])
hint("hypercv_normalize_float simple_mat_addition_float", a0=T4, a1=T4)
hint("hypercv_normalize_uchar", a0=T1, a1=T1)
hint("simple_mat_addition_float", a2=T4)
hint("hypercv_dft_ushort", a0={"data_type": [12]}, a1=T4, a2=T4)
hint("otsuThreshold simple_mat_entropy simple_mat_grayscale_statistics", a0=T1)
hint("smwrite_bmp", a1={"data_type": [1], "channels": [1, 3, 3], "rows": [1, 2, 3, 4], "cols": [1, 2, 3, 4, 5, 6, 7]})
hint("create_hyper_mat", a0=[1, 2, 3, 4], a1=[1, 2, 3, 4], a2=[1, 2, 3, 4], a3=[1, 2, 3, 4, 5, 12, 13, 6, 0])
hint("create_simple_mat", a0=[1, 2, 3], a1=[1, 2, 3])
hint("smread", a1=[1, 2, 3], a2=[1, 2, 3], a3=[1, 2, 3, 4, 12, 13], a4=[1, 2, 3, 3])
hint("create_simple_mat", a2=[1, 2, 3, 4, 5, 12, 13, 0, 7], a3=[1, 2, 3, 4])
hint("create_simple_mat_with_data", a0=[1, 2, 3, 40], a1=[1, 2, 3, 4, 30], a2=[1, 2, 3, 4, 5, 12, 13, 14, 15], a3=[1, 2, 3, 4, 5, 9], a4=lambda g: 8 * max(0, g("0") * g("1") * g("3")), null=[4])
hint("create_hyper_mat_with_data", a0=[1, 2, 3, 4, 40], a1=[1, 2, 3, 4, 30], a2=[1, 2, 3, 4, 9, 70, 260], a3=[1, 2, 3, 4, 5, 12, 13, 14, 15], a5=lambda g: 8 * max(0, g("0") * g("1") * g("2")), a6=lambda g: max(0, g("2")), null=[5, 6])
hint("hmread_with_size", a1=[1, 2, 3], a2=[1, 2, 3], a3=[1, 2, 3], a4=[1, 2, 3, 4, 5, 12, 13])
hint("get_elemsize", a0=list(range(-1, 20)))
hint("create_2D_struct create_2D_struct_with_data", a0=[1, 2, 3, 4], a1=[1, 2, 3, 4])
hint("set_wavelet_base", a0=list(range(-1, 40)))
hint("delete_S_2D delete_hyper_mat", heap=True)
hint("delete_simple_mat", heap="image")
hint("wavelet_base_free wt_info_free wt_coefset_free", heap="fields")


def reshape(g):
    n = g.get("0.samples") * g.get("0.lines") * g.get("0.bands")
    d = [x for x in range(1, n + 1) if n % x == 0] if n > 0 else [1]
    r = g.rng.choice(d)
    g.set("1", r), g.set("2", n // r)


hint("reshape_hypermat_2_simplemat", fix=reshape)


def window(g):
    for lo, hi, f in (("1", "4", "lines"), ("2", "5", "samples"), ("3", "6", "bands")):
        n = max(1, g.get("0." + f))
        a = g.rng.randrange(n)
        g.set(lo, a), g.set(hi, g.rng.randrange(a, n + 1))


hint("hyper_mat_get_range", fix=window)


def splice(g):
    a, b = max(1, g.get("0.bands")), max(1, g.get("1.bands"))
    g.set("1.bands", min(a, b))
    g.set("2", g.rng.randrange(0, a - min(a, b) + 1))


hint("hyper_mat_splicing", fix=splice)
hint("hyper_mat_copy_to convert2bsq convert2bil convert2bip hyper_mat_copy_wavelength", fix=lambda g: g.set("1.wl", g.get("0.wl")))


def band(g, i=0):
    n = max(1, g.get("%d.bands" % i))
    if ("arg", 2) in g.pinned and n < g.get("2") < 1000:
        g.set("%d.bands" % i, g.get("2") + g.rng.choice((0, 0, 1)))
    elif not 0 < g.get("2") <= n:
        g.set("2", g.rng.randrange(n))


hint("hyper_mat_2_simple_mat simple_mat_2_hyper_mat", fix=band)




hint("calc_hu_moment hypercv_match_shapes", a0=T1, a1=T1, style="pos")
hint("hyper_mat_cem", a0={"samples": [2, 3, 4], "lines": [2, 3], "bands": [1, 2, 3]}, style="pos", a1=lambda g: g("0.bands"))
hint("hyper_mat_pca", a2=[1, 2, 3], style="pos", a0={"samples": [2, 3, 4], "lines": [2, 3, 4], "bands": [1, 2, 3, 5, 6]})
hint("relative_radiometric_correction absolute_radiometric_correction", a1=lambda g: 2 * max(0, g("0.bands")))
hint("spectrum_SAM_match", a1=lambda g: g("0.bands"), a2=[0.25, 0.5, 1, 2], style="pos")


def bmp(rng, seen=()):
    w, h = rng.choice((1, 2, 3, 4, 5, 6)), rng.choice((1, 2, 3))
    if rng.random() < 0.15:
        w = rng.choice([17, 33, 65, 130, 257, 300] + [x for x in seen if 0 < x < 1200])
        if rng.random() < 0.2:
            w, h = h, w
    bits = rng.choice((8, 24, 24))
    if rng.random() < 0.12:
        bits, h = rng.choice(((1, h), (32, h), (16, h), (24, 0), (24, -2)))
    pitch = (w * bits // 8 + 3) // 4 * 4
    body = b"BM" + struct.pack("<IHHI", 54, 0, 0, 54) + struct.pack("<IiiHHIIiiII", 40, w, h, 1, bits, 0, pitch * abs(h), 0, 0, rng.choice((0, 0, 0, 0, 2, 256)), 0)
    body += bytes(rng.randrange(256) for _ in range((1024 if bits == 8 else 0) + pitch * abs(h)))
    if rng.random() < 0.1:
        # what the pixels of a file that ends early are is left open, but they must not come from storage that was not assigned
        body = body[:rng.randrange(len(body) if -1 in seen else 54)]
    return body


hint("smread_bmp", file=bmp)


def envi(rng, seen=()):
    """an ENVI header"""
    s, l, b = rng.sample([1, 2, 3, 4, 5, 6, 9], 3)
    if rng.random() < 0.1:
        b = rng.choice([12, 20, 33, 101] + [x for x in seen if 0 < x < 300])
    if rng.random() < 0.05:
        s, l = rng.choice(((s, 12), (12, l), (117, 1), (1, 117)))
    t = rng.choice([1, 2, 3, 4, 12, 13] + [6] * (rng.random() < 0.1))
    eq = lambda: rng.choice([" = ", " = ", "=", "   = ", " =  "])
    keys = ["samples" + eq() + str(s), "lines" + eq() + str(l), "bands" + eq() + str(b), "data type" + eq() + str(t)]
    if rng.random() < 0.9:
        keys.append("interleave" + rng.choice([" = ", "=", " =   "]) + rng.choice(["bsq", "bil", "bip"]))
    keys += rng.sample(["header offset = 0", "file type = ENVI Standard", "byte order = 0", "description = {\n  a scene}", "band names = {\n one, two,\n three}", "wavelength units = Nanometers", "sensor type = unknown"], rng.randrange(4))
    if rng.random() < 0.7:
        rng.shuffle(keys)
    if rng.random() < 0.8:
        n = max(1, b + rng.choice([0, 0, 0, 0, -1, 1, 4 * b]))
        ws = [rng.choice(["%.2f", "%.3f", "%.0f"]) % (rng.randrange(4000, 25000) / 10) for _ in range(n)]
        if b > 2 and rng.random() < 0.4:
            k = rng.randrange(n)
            z = "0" * rng.randrange(8, 22)
            ws[k] = z[:max(0, 18 - len(ws[k]))] + ws[k] if rng.random() < 0.5 else ws[k] + ("" if "." in ws[k] else ".") + z
        out = "wavelength = {" + rng.choice(["", "\n", " \n", " "])
        for k, w in enumerate(ws):
            out += w + ("}" if k == n - 1 else rng.choice([",", ", ", ",\n", ",\n "]))
        keys.insert(len(keys) if rng.random() < 0.7 else rng.randrange(len(keys) + 1), out)
    elif rng.random() < 0.5:
        keys.append("wavelength = unknown ")
    return ("ENVI\n" + "\n".join(keys) + rng.choice(["\n", "\n", "", "\n\n"])).encode()


hint("hmread_with_hdr", a0=["scene", "img"], a1=["scene.hdr", "h"], file={1: envi})
hint("read_spectrum_file", a1=[1, 2, 3, 4, 5], file=lambda rng, seen=(): " ".join("%.3f" % (rng.randrange(-4000, 4000) / 8) for _ in range(rng.randrange(0, 7))).encode() + b"\n")


hint("draw_POINT", a2=lambda g: 2 * max(0, g("3")), a3=[0, 1, 2, 3], a5=[0, 1, 2, 3, 4])
hint("draw_line", a5=[0, 1, 2, 3, 4])

VEC = [0, 1, 2, 3, 4, 5, 8]
for _t in ("char", "int", "double"):
    hint(" ".join("vector_%s__%s" % (m, _t) for m in ("push_back", "grow", "size", "capacity", "empty", "begin", "end", "pop_back", "erase", "free", "init")), heap="vector")
    hint("vector_erase__" + _t, a1=VEC)
    hint("vector_init__" + _t, a2=[0, 1, 2, 3, 5, 9])
    hint("vector_grow__" + _t, a1=[8, 9, 16])

hint("writehdr", a5=lambda g: 3, a6=lambda g: max(0, g("3")), a3=[1, 2, 3, 4], a4=[1, 2, 4, 12], null=[6])

FMT = [0, 1, 2, 0, 1, 2, 0, 1, 2, -1, 3]
TYP = [1, 2, 3, 4, 5, 12, 13, 14, 15, 1, 2, 4, 6, 0, 11]


def window(g):
    for lo, hi, d in (("r0", "r1", "lines"), ("c0", "c1", "samples"), ("b0", "b1", "bands")):
        n = max(1, g.get("src." + d))
        a = g.rng.randrange(n)
        g.set(lo, a)
        g.set(hi, g.rng.randrange(a + 1, n + 1))


for _c in "bsq2bil bsq2bip bil2bsq bil2bip bip2bsq bip2bil".split():
    hint("hymat_" + _c, direct=("hypercv::%s(hypercv::HyMat&)" % _c, "spec_direct_" + _c))
hint("hymat_convertTo", direct=("hypercv::HyMat::convertTo(int)", "spec_direct_convertTo"), a1=FMT)
hint("hymat_create", direct=("hypercv::HyMat::create(int, int, int, int, int, void*, float*)", "spec_direct_create"))
for _n in "size create_with_data create_again".split():
    hint("hymat_" + _n, direct=("hypercv::HyMat::create(int, int, int, int, int, void*, float*)", None))
hint("hymat_create hymat_size hymat_empty", a0=[1, 2, 3, 4, 0, -1, 40], a1=[1, 2, 3, 5, 0], a2=[1, 2, 3, 7, 0], a3=TYP, a4=FMT)


def least(g):
    if g.rng.random() < 0.1:
        for k, x in enumerate((1, 1, 1, g.rng.choice((1, 1, 2)))):
            g.set("%d" % (k + g.f["args"][0]["ty"].startswith("ptr")), x)


hint("hymat_create hymat_size hymat_empty hymat_create_again hymat_open", fix=least)
hint("hymat_create_again hymat_open", a1=[1, 2, 3, 4, 0, -1, 40], a2=[1, 2, 3, 5, 0], a3=[1, 2, 3, 7, 0], a4=TYP, a5=FMT)
hint("hymat_copy", direct=("hypercv::HyMat::copy()", "spec_direct_copy"))
hint("hymat_empty", direct=("hypercv::HyMat::empty()", "spec_direct_empty"))
hint("hymat_copy_empty", direct=("hypercv::HyMat::release()", "spec_direct_release"))
hint("hymat_CopyData", direct=("hypercv::HyMat::CopyData(void*, long)", "spec_direct_CopyData"), a1=[0, 1])
hint("hymat_CopyWaveLength", direct=("hypercv::HyMat::CopyWaveLength(float*, long)", "spec_direct_CopyWaveLength"), a1=[0, 1])
hint("hymat_range", direct=("hypercv::HyMat::range(int, int, int, int, int, int)", "spec_direct_range"), fix=window)
hint("hymat_open", direct=("hypercv::HyMat::open(char const*, int, int, int, int, int)", "spec_direct_open"))
