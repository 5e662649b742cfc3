"""The objects each public C routine is documented to fill: {routine: {argument index: levels}}; level 0 is the object itself
(for images, cubes and masks: its shape and type fields), level 1 the storage it points to.  Everything else is an input."""
OUTPUTS = {
    "HisEqualization": {1: (1,)},  # src_mat, *dst_mat
    "MulMatrix_char": {2: (0,)},  # x, y, *z, m, k, n
    "MulMatrix_double": {2: (0,)},  # x, y, *z, m, k, n
    "MulMatrix_float": {2: (0,)},  # x, y, *z, m, k, n
    "MulMatrix_int": {2: (0,)},  # x, y, *z, m, k, n
    "MulMatrix_short": {2: (0,)},  # x, y, *z, m, k, n
    "MulMatrix_uchar": {2: (0,)},  # x, y, *z, m, k, n
    "MulMatrix_uint": {2: (0,)},  # x, y, *z, m, k, n
    "MulMatrix_ushort": {2: (0,)},  # x, y, *z, m, k, n
    "TransMatrix_char": {1: (0,)},  # x, *z, m, n
    "TransMatrix_double": {1: (0,)},  # x, *z, m, n
    "TransMatrix_float": {1: (0,)},  # x, *z, m, n
    "TransMatrix_int": {1: (0,)},  # x, *z, m, n
    "TransMatrix_short": {1: (0,)},  # x, *z, m, n
    "TransMatrix_uchar": {1: (0,)},  # x, *z, m, n
    "TransMatrix_uint": {1: (0,)},  # x, *z, m, n
    "TransMatrix_ushort": {1: (0,)},  # x, *z, m, n
    "absolute_radiometric_correction": {},  # bip_mat, coefficient
    "bil2bip": {},  # bil_mat
    "bil2bsq": {},  # bil_mat
    "bip2bil": {},  # bip_mat
    "bip2bsq": {},  # bip_mat
    "bsq2bil": {},  # bsq_mat
    "bsq2bip": {},  # bsq_mat
    "cal_edge_signal_energy": {},  # mat
    "cal_eigen_vector_float": {1: (0,)},  # a, *eigenvector, eigenvalue, m, n
    "calc_hu_moment": {0: (0,)},  # *hu, mat
    "cmpstr": {},  # temp1, temp2
    "convert2bil": {0: (0, 1)},  # *mat
    "convert2bip": {0: (0, 1)},  # *mat
    "convert2bsq": {0: (0, 1)},  # *mat
    "correlation_matrix_char": {0: (0,)},  # *res, mat1, mat2, l, n, m
    "correlation_matrix_float": {0: (0,)},  # *res, mat1, mat2, l, n, m
    "correlation_matrix_int": {0: (0,)},  # *res, mat1, mat2, l, n, m
    "correlation_matrix_short": {0: (0,)},  # *res, mat1, mat2, l, n, m
    "correlation_matrix_uchar": {0: (0,)},  # *res, mat1, mat2, l, n, m
    "correlation_matrix_uint": {0: (0,)},  # *res, mat1, mat2, l, n, m
    "correlation_matrix_ushort": {0: (0,)},  # *res, mat1, mat2, l, n, m
    "create_2D_struct_with_data": {},  # width, height, data
    "create_hyper_mat": {},  # samples, lines, bands, data_type, interleave
    "create_hyper_mat_with_data": {},  # samples, lines, bands, data_type, interleave, data, wavelength
    "create_simple_mat_with_data": {},  # rows, cols, data_type, channels, data
    "draw_POINT": {1: (1,)},  # src_mat, *dst_mat, v, point_num, color, size
    "draw_line": {1: (1,)},  # src_mat, *dst_mat, pt1, pt2, color, thickness
    "euclidean_distance": {},  # x, y, length
    "hmread_with_hdr": {},  # image_path, hdr_path
    "hmread_with_size": {},  # image_path, samples, lines, bands, data_type, interleave
    "hmsave": {},  # image_path, mat
    "hyper_mat_2_simple_mat": {1: (0, 1)},  # src_mat, *dst_mat, band
    "hyper_mat_cem": {},  # bsq_mat, spectral
    "hyper_mat_copy": {},  # mat
    "hyper_mat_copy_to": {1: (0, 1)},  # src_mat, *dst_mat
    "hyper_mat_copy_wavelength": {1: (1,)},  # src, *dst
    "hyper_mat_empty": {},  # mat
    "hyper_mat_float2char": {},  # f_mat
    "hyper_mat_float2int": {},  # f_mat
    "hyper_mat_float2short": {},  # f_mat
    "hyper_mat_float2uchar": {},  # f_mat
    "hyper_mat_float2uint": {},  # f_mat
    "hyper_mat_float2ushort": {},  # f_mat
    "hyper_mat_get_range": {},  # src_mat, start_row, start_col, start_band, end_row, end_col, end_band
    "hyper_mat_linear_tension": {1: (1,)},  # bsq_mat, *dst_mat
    "hyper_mat_mean": {1: (1,)},  # bip_mat, *dst_mat
    "hyper_mat_pca": {1: (1,)},  # bip_mat, *res_bip_mat, iteration
    "hyper_mat_rotate": {},  # mat, angle
    "hyper_mat_showinfo": {},  # mat
    "hyper_mat_splicing": {0: (1,)},  # *mat, part, start_index
    "hyper_mat_transport": {0: (1,)},  # *dst_mat, src_mat
    "hyper_mat_uchar2float": {},  # uc_mat
    "hyper_mat_uchar2int": {},  # uc_mat
    "hyper_mat_uchar2short": {},  # uc_mat
    "hyper_mat_uchar2ushort": {},  # uc_mat
    "hyper_mat_ushort2float": {},  # us_mat
    "hypercv_atof": {},  # str
    "hypercv_close": {1: (1,)},  # src, *dst, kernel, iterations
    "hypercv_colortransform": {},  # src_mat, method
    "hypercv_copy_make_border": {},  # src, top, bottom, left, right, border_type, value
    "hypercv_corrosion": {1: (1,)},  # mat, *dst_mat, s
    "hypercv_dft": {1: (1,), 2: (1,)},  # src, *re_mat, *im_mat
    "hypercv_dft_frespectrum": {1: (1,)},  # src, *dst
    "hypercv_dft_uchar": {1: (1,), 2: (1,)},  # src, *re_mat, *im_mat
    "hypercv_dft_ushort": {1: (1,), 2: (1,)},  # src, *re_mat, *im_mat
    "hypercv_dwt1D_float": {},  # signal, res, length
    "hypercv_expend": {1: (1,)},  # mat, *dst_mat, s
    "hypercv_filter2D": {1: (1,)},  # src, *dst, kernel, k_rows, k_cols, border_type
    "hypercv_gaussian_blur": {1: (1,)},  # src_mat, *dst_mat, ksize_width, ksize_height, sigma1, sigma2, border_type
    "hypercv_gaussian_blur_with_kernel": {1: (1,)},  # src_mat, *dst_mat, kernel_mat_x, kernel_mat_y, border_type
    "hypercv_hough_trans": {},  # points, point_num, RMax, lineR, lineTheta
    "hypercv_idft": {2: (1,)},  # re_mat, im_mat, *dst_mat
    "hypercv_idft_uchar": {2: (1,)},  # re_mat, im_mat, *dst_mat
    "hypercv_idft_ushort": {2: (1,)},  # re_mat, im_mat, *dst_mat
    "hypercv_integral": {1: (1,)},  # src, *dst
    "hypercv_k_means": {1: (0,)},  # src, *v1, kind, iter_threshold
    "hypercv_laplacian": {1: (1,)},  # src, *dst, k_size, border_type
    "hypercv_magnitude": {2: (1,)},  # re_mat, im_mat, *dst_mat
    "hypercv_match_shapes": {},  # mat1, mat2
    "hypercv_meanblur": {1: (1,)},  # src_mat, *dst_mat, size
    "hypercv_medianblur": {1: (1,)},  # src_mat, *dst_mat, size
    "hypercv_normalize": {1: (1,)},  # src, *dst, alpha, beta, norm_type
    "hypercv_normalize_float": {1: (1,)},  # src, *dst, alpha, beta, norm_type
    "hypercv_normalize_uchar": {1: (1,)},  # src, *dst, alpha, beta, norm_type
    "hypercv_open": {1: (1,)},  # src, *dst, kernel, iterations
    "hypercv_pyramid_down": {1: (1,)},  # src, *dst
    "hypercv_pyramid_up": {1: (1,)},  # src, *dst
    "hypercv_sobel": {1: (1,)},  # src, *dst, threshold, border_type
    "hypercv_threshold": {1: (1,)},  # src_mat, *dst_mat, thresh, max_value, type
    "hypercv_threshold_binary": {1: (1,)},  # src_mat, *dst_mat, thresh, max_value
    "hypercv_threshold_binary_inv": {1: (1,)},  # src_mat, *dst_mat, thresh, max_value
    "hypercv_threshold_mask": {},  # src_mat, dst_mat, thresh, max_value
    "hypercv_threshold_otsu": {1: (1,)},  # src_mat, *dst_mat
    "hypercv_threshold_tozero": {1: (1,)},  # src_mat, *dst_mat, thresh, max_value
    "hypercv_threshold_tozero_inv": {1: (1,)},  # src_mat, *dst_mat, thresh, max_value
    "hypercv_threshold_triangle": {},  # src_mat, dst_mat, thresh, max_value
    "hypercv_threshold_trunc": {1: (1,)},  # src_mat, *dst_mat, thresh, max_value
    "hypercv_wavedec": {},  # src, wt_level, wave_type, border_type
    "invert_matrix_float": {0: (0,), 1: (0,)},  # *res, *mat, m
    "matrix_QR_float": {1: (0,), 2: (0,)},  # a, *q, *r, m
    "matrix_norm_float": {},  # m, size
    "mean_char": {},  # t, len
    "mean_double": {},  # t, len
    "mean_float": {},  # t, len
    "mean_int": {},  # t, len
    "mean_short": {},  # t, len
    "mean_uchar": {},  # t, len
    "mean_uint": {},  # t, len
    "mean_ushort": {},  # t, len
    "otsuThreshold": {},  # img
    "read_spectrum_file": {},  # sp_path, length
    "relative_radiometric_correction": {},  # bip_mat, coefficient
    "reshape_hypermat_2_simplemat": {},  # src_mat, dst_rows, dst_cols
    "set_identity_matrix_float": {0: (0,)},  # *mat, m
    "simple_mat_2_hyper_mat": {0: (1,)},  # *dst_mat, src_mat, band
    "simple_mat_addition_float": {2: (1,)},  # mat1, mat2, *dst_mat
    "simple_mat_addition_uchar": {2: (1,)},  # mat1, mat2, *dst_mat
    "simple_mat_contrast_ratio": {},  # mat
    "simple_mat_copy": {},  # mat
    "simple_mat_entropy": {},  # mat
    "simple_mat_flip": {1: (1,)},  # src_mat, *dst_mat, FLIPCODE
    "simple_mat_flip_horizontal": {1: (1,)},  # src_mat, *dst_mat
    "simple_mat_flip_vertical": {1: (1,)},  # src_mat, *dst_mat
    "simple_mat_float2uchar": {},  # src
    "simple_mat_grayscale_statistics": {1: (0,)},  # mat, *gray_statist
    "simple_mat_log": {1: (1,)},  # src_mat, *dst_mat
    "simple_mat_mean": {},  # mat
    "simple_mat_resize": {},  # src_mat, dst_mat, flag
    "simple_mat_transport": {0: (1,)},  # *res, src
    "simple_mat_variance": {},  # mat
    "sm_bgr2rgb": {1: (1,)},  # src_mat, *dst_mat
    "sm_binary2rgb": {},  # binary_image
    "sm_gray2rgb": {},  # gray_image
    "sm_rgb2gray": {},  # rgb_image, method
    "smread": {},  # image_path, rows, cols, data_type, channels
    "smread_bmp": {},  # bmpName
    "smshow": {},  # display_name, mat
    "smwrite_bmp": {},  # bmpName, src_mat
    "sort_array_down_float": {0: (0,)},  # *a, n
    "sp_average": {},  # x, length
    "sp_standard_deviation": {},  # x, length
    "sp_variance": {},  # x, length
    "spectral_angle_mapper": {},  # x, y, length
    "spectrum_SAM_match": {},  # bip_mat, spectrum, threshold
    "sub_wavedec": {},  # src, wb, border_type
    "swap_rows_float": {0: (0,)},  # *data, m, n, r1, r2
    "writehdr": {},  # img_path, samples, lines, bands, data_type, interleave, wavelength
}

# routines that keep the caller's block as the new object's storage by design
WRAPS = {("create_simple_mat_with_data", 4), ("create_2D_struct_with_data", 2)}
# the clustering picks its initial centres at random by design; the viewer talks to the display
NONDET_BY_DESIGN = {"hypercv_k_means": {"rand", "srand", "time"}}
NONDET = {"rand", "srand", "random", "srandom", "drand48", "lrand48", "rand_r", "time", "clock", "gettimeofday", "clock_gettime", "getpid", "getenv", "localtime", "gmtime",
          "strtok", "setlocale", "getrandom", "arc4random", "mrand48", "times", "getrusage", "tmpnam", "mktemp"}
