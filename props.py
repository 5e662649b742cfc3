"""The properties: statements, anchors and the analysis that decides each (gen.py writes properties.jsonl and MANIFEST.json)."""
C = "modules/core/src/c_src/"
P = "modules/process/src/c_src/"
A = "modules/algorithm/src/"
G = "modules/highgui/src/"
TY = "modules/core/include/c_include/type.h"

INP = ["inputs"]
EQ_TECH = "relational summary extraction + normal-form equality against a reference definition (static, all shapes)"
EQ_NOTE = ("For every listed function the memory relation (stores, calls, returns, preconditions over symbolic shapes) is extracted from /repo's current "
           "source and its normal form compared with that of a reference definition compiled by the same front end: equality holds for every shape and content. "
           "Where normal forms differ, the check alarms only if a valuation separates the two extracted terms; otherwise the function is reported UNDECIDED in the evidence and not claimed. "
           "Assumes real arithmetic for floats, no signed overflow, distinct arguments not overlapping, allocation succeeding; trusts clang's front end and the extractor.")

PROPS = []


def prop(id, title, statement, text, why, files, mech, **k):
    d = dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, over=k.pop("over", INP))
    d.update(k)
    PROPS.append(d)


ES = ("char", "uchar", "short", "ushort", "int", "uint", "float", "double")

CX, HPP = "modules/core/src/cxx_src/hypermat.cpp", "modules/core/include/cxx_include/hypermat.hpp"
HYNOTE = "Member functions are compared with reference definitions of the same signature; separating instances are searched through C wrappers that pass the image in and out as a hyper_mat. Reading a header and saving through GDAL use the C++ stream library and are not covered."
prop("C01", "Interleave conversions are exact permutations",
     "Converting a cube between the band-sequential, line-interleaved and pixel-interleaved layouts moves every element, unchanged and byte for byte, to the position the target layout gives its (band, line, sample) coordinate. Nothing else of the cube's data changes, for every cube shape and element type.",
     "every cube extent (samples, lines, bands) and every supported element type, all six conversion directions",
     "The tests convert no cube at all; the permutation must hold for every shape, and an index mistake shows only for particular non-square shapes.",
     [C + "hypermat.c", P + "imageprocess.c"], [("six conversion routines", "modules/core/src/c_src/hypermat.c / modules/process imageprocess")],
     fns=["bil2bsq", "bil2bip", "bip2bil", "bip2bsq", "bsq2bil", "bsq2bip"])

prop("C02", "In-place re-interleaving reaches the requested layout from any layout",
     "Asking a cube to become band-sequential, line-interleaved or pixel-interleaved applies the conversion matching its current layout tag, stores the converted elements in the cube and leaves a tag that names the new layout. A cube already in that layout keeps its content.",
     "every cube shape, element type and starting layout", "No test calls the dispatchers; which of nine (from, to) pairs is right depends on the tag at run time.",
     [P + "imageprocess.c"], [("layout dispatch", P + "imageprocess.c: convert2bsq/convert2bil/convert2bip")],
     fns=["convert2bsq", "convert2bil", "convert2bip"])

prop("C03", "Cube construction and copies carry every field and element",
     "A new cube has the extents, element type and layout asked for and room for exactly samples*lines*bands elements; a copied cube equals its source in extents, type, layout, wavelengths and every data byte and shares no storage with it. Emptiness is reported exactly when there is no cube or no data.",
     "every extent, element type, layout, with and without wavelengths", "The copy tests cover single small objects; the claim is for every shape and for cubes without wavelengths.",
     [C + "hypermat.c"], [("allocation and deep copy", C + "hypermat.c: create_hyper_mat, hyper_mat_copy, hyper_mat_copy_to, hyper_mat_copy_wavelength")],
     fns=["create_hyper_mat", "create_hyper_mat_with_data", "hyper_mat_copy", "hyper_mat_copy_to", "hyper_mat_copy_wavelength", "hyper_mat_empty"])

prop("C04", "Cube windows, band planes and cube/image import and export are exact",
     "Cutting a window out of a cube, extracting a band as an image, wrapping an image as a band, flattening a cube to a matrix and splicing cubes copy each element to the position its coordinates give in the result, for every layout. No element outside the requested window contributes, and a window outside the cube is rejected.",
     "every cube shape, window, band number, element type and layout", "Tests exercise none of these with more than one layout; off-by-one and stride errors appear only for particular windows and shapes.",
     [P + "imageprocess.c", C + "hypermat.c"], [("window and plane extraction", P + "imageprocess.c")],
     fns=["hyper_mat_get_range", "hyper_mat_2_simple_mat", "simple_mat_2_hyper_mat", "reshape_hypermat_2_simplemat", "hyper_mat_splicing"])

prop("C05", "Image and mask objects are created and copied faithfully",
     "A new image or structuring mask has the extents, channel count, type and element size asked for and storage for exactly that many elements, zeroed or filled with the caller's content as documented. A copied image equals its source in every field and byte and owns its own storage.",
     "every extent, channel count and element type", "Tests build a few fixed sizes; the claim is for all of them.",
     [C + "simplemat.c", C + "struct_2D.c", TY], [("creators and copies", C + "simplemat.c, struct_2D.c"), ("element sizes", TY + ": get_elemsize")],
     fns=["create_simple_mat", "create_simple_mat_with_data", "simple_mat_copy", "create_2D_struct", "create_2D_struct_with_data", "get_elemsize"])

prop("C06", "Flips, transpositions and rotations move pixels exactly",
     "Flipping an image along either axis or both, transposing an image or a cube and rotating or shearing a cube place each source element at the coordinate the geometric map gives, for every size, channel count and element type. No element is lost, duplicated or altered.",
     "every size, channel count, element type and direction", "Tests check no geometry on non-square or multi-channel data.",
     [P + "GeometricTransformation.c", P + "imageprocess.c", P + "matrixprocess.c"], [("index maps", P + "GeometricTransformation.c")],
     fns=["simple_mat_flip_horizontal", "simple_mat_flip_vertical", "simple_mat_flip", "simple_mat_transport", "hyper_mat_transport", "hyper_mat_rotate", "shear_row"])

prop("C07", "Pyramid sampling and border padding follow their definitions",
     "Halving an image takes every other pixel of its blurred version, doubling it interleaves zeros before blurring, and padding an image copies the interior unchanged and fills each border pixel from the position the border rule names. This holds for every size, channel count, padding width and border rule.",
     "every image size, channel count, padding and border rule", "Tests use one size and rule, if any.",
     [P + "GeometricTransformation.c", P + "filter.c"], [("sampling and padding", P + "GeometricTransformation.c, filter.c: hypercv_copy_make_border")],
     fns=["hypercv_pyramid_down", "hypercv_pyramid_up", "hypercv_copy_make_border"])

prop("C08", "Element type conversions convert every element and retag the result",
     "Converting a cube or image to another element type yields an object of the same shape with the new type tag, the same wavelengths, and each element equal to the source element converted (saturated or truncated as documented for that pair). No element is skipped.",
     "every shape and every supported (source, target) type pair", "Tests run a handful of pairs on one shape and check printed output.",
     [P + "datatypechange.c", TY], [("conversion loops", P + "datatypechange.c"), ("saturation", P + "datatypechange.c: saturate_cast_float2uchar")],
     fns=["hyper_mat_uchar2short", "hyper_mat_uchar2int", "hyper_mat_uchar2float", "hyper_mat_uchar2ushort", "hyper_mat_ushort2float", "hyper_mat_float2char",
          "hyper_mat_float2uchar", "hyper_mat_float2short", "hyper_mat_float2ushort", "hyper_mat_float2int", "hyper_mat_float2uint", "simple_mat_float2uchar", "saturate_cast_float2uchar"])

prop("C09", "Thresholding maps every pixel by the selected rule",
     "Each threshold mode maps every pixel by its documented comparison with the threshold and maximum value, mode selection applies exactly the named rule, and the automatic mode uses the threshold that maximises the between-class variance of the image's histogram. The destination is written for every pixel and nothing else.",
     "every image, threshold, maximum value and mode", "Tests binarise one image; equality at the threshold and the other modes are untested.",
     [P + "threshold.c"], [("threshold rules", P + "threshold.c")],
     fns=["hypercv_threshold_binary", "hypercv_threshold_binary_inv", "hypercv_threshold_trunc", "hypercv_threshold_tozero", "hypercv_threshold_tozero_inv",
          "hypercv_threshold_otsu", "hypercv_threshold", "otsuThreshold"])

prop("C10", "Colour layout conversions are exact per pixel",
     "Swapping channel order, widening grey or binary images to three channels and reducing colour to grey compute each output pixel from the corresponding input pixel alone by the documented rule. Every pixel of the output is defined.",
     "every image size and pixel value", "The tests convert no image with distinct channel values.",
     [P + "colortransform.c"], [("per-pixel rules", P + "colortransform.c")],
     fns=["sm_rgb2gray", "sm_bgr2rgb", "sm_binary2rgb", "sm_gray2rgb"])

prop("C11", "Neighbourhood filters compute their defining sums at every pixel",
     "Correlation, box, Gaussian, gradient and Laplacian filtering and the integral image give at every pixel, borders included, the sum over the neighbourhood that the kernel and border rule define. Median filtering gives the middle value of each window that lies inside the image. Kernel coefficients follow their defining formula and sum to one where they are weights.",
     "every image size, channel count, kernel size and border rule", "Tests run a filter at most once and compare nothing; border pixels and non-square images are where errors hide.",
     [P + "filter.c", P + "gradient.c"], [("filter loops", P + "filter.c"), ("kernels", P + "filter.c: gaussian_kernel")],
     fns=["hypercv_filter2D", "hypercv_medianblur", "hypercv_meanblur", "gaussian_kernel", "hypercv_gaussian_blur", "hypercv_gaussian_blur_with_kernel", "hypercv_sobel", "hypercv_laplacian", "hypercv_integral"])

prop("C12", "Morphology follows the erosion and dilation definitions",
     "Erosion and dilation set each pixel from exactly the neighbours the structuring element selects, and opening and closing are the two compositions of them in the documented order. Every pixel is processed from the unmodified input.",
     "every image and structuring element of any size", "Tests apply one mask to one image and check nothing.",
     [P + "morphology.c"], [("erosion, dilation and compositions", P + "morphology.c")],
     fns=["hypercv_corrosion", "hypercv_expend", "hypercv_open", "hypercv_close"])

prop("C13", "Dense matrix kernels compute their algebraic definitions",
     "Product, transpose, identity, norm, row exchange and row scaling compute, for every size and supported element type, exactly the algebraic definition element by element; inversion, orthogonal factorisation and eigenvector extraction perform the elimination or projection steps that define them. Sizes are never confused between operands.",
     "every matrix size and supported element type", "Tests multiply one small matrix; the transposed-size mistakes only show on non-square operands.",
     [P + "matrixprocess.c"], [("matrix kernels", P + "matrixprocess.c")],
     fns=["MulMatrix_" + t for t in ES] + ["TransMatrix_" + t for t in ES] +
         ["set_identity_matrix_float", "matrix_norm_float", "swap_rows_float", "matrix_row_multi_scalar_float", "matrix_QR_float", "invert_matrix_float", "cal_eigen_vector_float"])

prop("C14", "Mean and correlation accumulators use every sample once",
     "The mean of a vector is the sum of all its elements divided by their number and the correlation matrix of a set of samples is the average of the products of every pair of components, for each supported element type. The type-specific versions agree with one definition.",
     "every length, dimension and supported element type", "One test averages one vector of one type.",
     [P + "mathprocess.c", P + "matrixprocess.c"], [("accumulators", P + "mathprocess.c: mean_*, " + P + "matrixprocess.c: correlation_matrix_*")],
     fns=["mean_" + t for t in ES] + ["correlation_matrix_" + t for t in ES if t != "double"] + ["hyper_mat_mean", "sort_array_down_float"])

prop("C15", "Image statistics and pointwise arithmetic match their formulas",
     "Mean, variance, entropy, histogram and contrast of an image, the sum of two images and the logarithm of an image equal their defining formulas over all pixels of the image. The result depends on no pixel outside it.",
     "every image size, channel count and content", "Tests print such values for one image.",
     [C + "simplemat.c", P + "imageprocess.c"], [("statistics", C + "simplemat.c"), ("pointwise arithmetic", P + "imageprocess.c")],
     fns=["simple_mat_mean", "simple_mat_variance", "simple_mat_grayscale_statistics", "simple_mat_contrast_ratio", "simple_mat_entropy",
          "simple_mat_addition_uchar", "simple_mat_addition_float", "simple_mat_log", "hypercv_factorial"])

prop("C16", "Spectral measures and matching follow their definitions",
     "Average, variance and deviation of a spectrum, the spectral angle and the Euclidean distance between two spectra equal their formulas over all bands, a spectrum file yields its values in order, and matching compares every pixel's spectrum with the reference and marks it by its angle. The spectrum of a pixel is read with the cube's own layout.",
     "every spectrum length, cube shape and threshold", "Tests never compute an angle on a real cube.",
     [P + "spectralprocess.c"], [("measures", P + "spectralprocess.c")],
     fns=["sp_average", "sp_variance", "sp_standard_deviation", "spectral_angle_mapper", "euclidean_distance", "spectrum_SAM_match", "read_spectrum_file"])

prop("C17", "The Fourier transform pair evaluates the defining sums",
     "The forward transform of an image gives at every frequency the defining double sum over all pixels, the inverse gives at every pixel the defining double sum over all frequencies with its normalisation, and the magnitude is the modulus of the two parts. Centring shifts each coefficient by half the extent.",
     "every image size and supported element type", "Tests transform no image whose spectrum is checked.",
     [A + "dft.c"], [("transform sums", A + "dft.c")],
     fns=["hypercv_dft", "hypercv_dft_uchar", "hypercv_dft_ushort", "hypercv_dft_frespectrum", "hypercv_idft", "hypercv_idft_uchar", "hypercv_idft_ushort", "hypercv_magnitude"])

prop("C18", "Normalisation, equalisation and calibration apply their formulas to all data",
     "Normalising, stretching or equalising rescales every element by the formula built from the statistics of the whole input, and radiometric calibration applies its gain, offset or reference panels to every element of every band. Each statistic is taken over all elements.",
     "every image or cube shape and content", "Tests stretch one image without checking a value.",
     [A + "normalize.c", A + "HisEqualization.c", P + "imageprocess.c", P + "RadiometricCalibration.c"], [("formulas", A + "normalize.c; HisEqualization.c; RadiometricCalibration.c")],
     fns=["hypercv_normalize_uchar", "hypercv_normalize_float", "hypercv_normalize", "HisEqualization", "hyper_mat_linear_tension", "relative_radiometric_correction", "absolute_radiometric_correction"])

prop("C19", "Raw cube and image files hold exactly the object's bytes",
     "Saving a cube writes all of its data bytes in order and nothing else and reading a raw file of a stated shape yields an object of that shape holding the file's leading bytes. A file that cannot be opened is rejected rather than used.",
     "every shape, element type and layout", "Round trips of one cube cannot show that every byte is transferred for every shape.",
     [C + "hypermat.c", C + "simplemat.c"], [("raw readers and writers", C + "hypermat.c: hmread_with_size, hmsave; " + C + "simplemat.c: smread")],
     fns=["hmread_with_size", "hmsave", "smread"])

prop("C20", "BMP files are written and read with the format's layout",
     "An image written as BMP has headers whose sizes and offsets describe the file and rows stored bottom-up, padded to four bytes, in blue-green-red order; reading such a file restores each pixel to its row, column and channel. Row padding never enters the image.",
     "every width, height and channel count", "Widths that need padding and bottom-up order are not exercised by tests.",
     [C + "simplemat.c"], [("BMP writer and reader", C + "simplemat.c: smwrite_bmp, smread_bmp")],
     fns=["smwrite_bmp", "smread_bmp"])

prop("C21", "Detection pipelines combine their stages on the right data",
     "The matched-filter detector, the principal-component transform, the edge-energy measure and the shape-moment descriptors compose their statistics, factorisation and projection stages on operands of the right shape, in the defining order, over every pixel. Outputs are written for every pixel or component.",
     "every cube or image shape", "The detector test runs one fixed cube and checks nothing but completion.",
     [A + "cem.c", A + "pca.c", A + "EdgeSignalEnergy.c", A + "shapematch.c"], [("pipelines", A + "cem.c: hyper_mat_cem; pca.c; EdgeSignalEnergy.c; shapematch.c")],
     fns=["hyper_mat_cem", "hyper_mat_pca", "cal_edge_signal_energy", "calc_hu_moment", "hypercv_match_shapes"])

prop("C22", "Drawing touches exactly the pixels of the requested shape",
     "Drawing a point or a line colours the pixels of that shape that lie in the image with the given colour and leaves every other pixel as it was. A shape that reaches outside the image never writes outside its storage.",
     "every image size, position, thickness and colour", "No test looks at the pixels around the shape or at shapes crossing the border.",
     [G + "draw.c"], [("rasterisation", G + "draw.c")],
     fns=["draw_POINT", "draw_line"])

prop("C23", "Wavelet filter banks contain the published coefficients in order",
     "Selecting a wavelet yields its four filters with the table's length, the stored coefficients in the order the decomposition needs, and owned copies of them. An unknown wavelet is rejected.",
     "every supported wavelet", "No test reads a filter back.",
     [P + "dwt.c"], [("filter tables", P + "dwt.c: set_wavelet_base")],
     fns=["set_wavelet_base"])


OWN_TECH = "path-sensitive ownership typestate over the SSA form with inferred callee outcomes"
OWN_NOTE = ("Every path of every C function is explored over an abstract state (status of each block or handle by acquisition site, tracked pointers, tested conditions); callees are replaced by "
            "their inferred outcomes, library release routines by the contract their definition is proved to meet. Loops are explored to a fixed point of the abstract state. Assumes distinct arguments "
            "not overlapping and well-formed objects; three unfinished wavelet stubs are excluded and named in the evidence.")
ALLSRC = [C + "simplemat.c", C + "hypermat.c", C + "struct_2D.c", P + "filter.c", P + "morphology.c", P + "dwt.c", P + "spectralprocess.c", A + "cem.c", A + "pca.c", A + "shapematch.c"]

prop("C24", "Every block a routine obtains is released once or handed to its caller",
     "On every path through every library routine, each block it allocates and each temporary image, cube, mask or moment it creates is either released exactly once, by the release routine for its kind, or returned to the caller; nothing is used after its release and no caller-owned object is released. Releasing an object gives back the object and everything it owns, and nothing else.",
     "every path through every function, including early returns", "Tests have no leak or double-free oracle and take few error paths; a missing release changes no result.",
     ALLSRC, [("acquisitions and releases", "all functions under modules/*/src"), ("release routines", C + "simplemat.c: delete_simple_mat; hypermat.c: delete_hyper_mat; struct_2D.c: delete_S_2D; " + P + "dwt.c: *_free")],
     fns=["delete_simple_mat", "delete_hyper_mat", "delete_S_2D", "wavelet_base_free", "wt_info_free", "wt_coefset_free"] + ["vector_free__" + t for t in ("char", "int", "double")], rule="rules.ownership",
     technique=OWN_TECH + "; release routines by relational equality with a reference definition", note=OWN_NOTE, over=["inputs", "histories"])

prop("C25", "Every file opened is checked before use and closed on every path",
     "On every path through every routine that opens a file, the handle is tested before anything is read from or written to it, it is closed exactly once before the routine returns, and it is not used after it was closed.",
     "every path through every function that opens a file, including the failure paths", "A leaked or unchecked handle changes no test result until a file is missing or handles run out.",
     [C + "hypermat.c", C + "simplemat.c", P + "spectralprocess.c"], [("file use", C + "hypermat.c: hmread_with_hdr, hmsave, writehdr; simplemat.c: smread_bmp, smwrite_bmp; " + P + "spectralprocess.c: read_spectrum_file")],
     rule="rules.handles", technique="path-sensitive file-handle typestate over the SSA form", note=OWN_NOTE, over=["inputs", "fault_sequences"])

VM = ("grow", "push_back", "pop_back", "erase", "size", "capacity", "empty", "begin", "end", "free")
prop("C26", "Growable arrays keep their elements, length and capacity",
     "Appending to a growable array keeps the earlier elements in order and puts the new one last, growing the storage when it is full; erasing closes the gap and keeps the order; removing the last element, asking for length, capacity, emptiness, begin or end and freeing the array follow the array's recorded length and capacity. Every operation works from an array that does not exist yet.",
     "every length, capacity, index and element type", "No test uses the array macros; growth happens only at particular lengths.",
     ["modules/core/include/c_include/vector.h"], [("array macros", "modules/core/include/c_include/vector.h")],
     fns=["vector_%s__%s" % (m, t) for m in VM for t in ("char", "int", "double")], probe="vector.c")

prop("C27", "Routines leave their inputs untouched and results own their storage",
     "A routine never changes the elements, shape or type of the images, cubes, masks, kernels, spectra and matrices it only reads; it writes the destinations it documents (and, for matrix inversion, its work matrix) and nothing else of its caller's. A result it creates shares no storage with an input, except where it is documented to wrap the caller's block.",
     "every input and every path of every public routine", "The tests compare outputs; none looks at an input after a call, and an input is often changed only on one branch.",
     ALLSRC, [("destinations", "parameters named dst/res/out in modules/*/include"), ("in-place work", P + "matrixprocess.c: invert_matrix_float")],
     rule="rules.inputs_unmodified", technique="interprocedural write-effect (frame) analysis over extracted memory relations with path guards",
     note="Roots of every written address are resolved through the extracted relation (path guards kept) and closed over calls; compared with a table of documented destinations. Writes whose object cannot be resolved are listed in the evidence and not judged.")

HELPERS = ["hypercv_border_Interpolate", "HYPERCV_ROUND", "get_optimal_DFT_size", "cmpstr", "hypercv_atof", "hyper_mat_showinfo"]
ALLFN = list(dict.fromkeys(n for q in PROPS if not q.get("probe") for n in q.get("fns", []))) + HELPERS + ["hypercv_k_means", "simple_mat_resize", "writehdr", "hmread_with_hdr"]

prop("C28", "Inputs a routine cannot process are rejected before anything is done",
     "A routine given an element type or channel count it does not support, operands whose shapes do not fit together, a window, band or index outside the object or a parameter outside its documented range stops with its diagnostic instead of computing, before it has changed anything. No such input is silently accepted. A routine that tests for a missing object does so before it reads the object.",
     "every combination of argument types, shapes and parameter values", "Tests only pass valid arguments, so a weakened or missing check is never noticed.",
     ALLSRC + [P + "threshold.c", P + "imageprocess.c", P + "GeometricTransformation.c", P + "datatypechange.c", P + "colortransform.c", A + "dft.c"], [("argument checks", "hypercv_assert at the head of every routine")],
     fns=ALLFN, rule="rules.checks_first", kinds=("accepts",), frule="the code's precondition implies the reference's",
     fcover="for every listed function: the conjunction of its checks implies every precondition of the reference definition, for all arguments",
     technique="precondition extraction and implication between decision diagrams (static, all arguments); program order of checks, reads and effects", over=["inputs"])

prop("C29", "Results depend on the arguments and nothing else",
     "Calling a routine with the same arguments gives the same result whatever was called before: no routine keeps state between calls, consults the clock, the environment or a random source, or computes from a variable that was never assigned. The one exception is clustering, which documents a random start.",
     "every call history and every input", "A test calls each routine once from a fresh process; leftover state and unassigned variables show only in longer histories.",
     ALLSRC + [A + "cluster.c", P + "mathprocess.c"], [("random start", A + "cluster.c: hypercv_k_means")],
     fns=ALLFN, kinds=("undef",), frule="what the reference defines never comes from storage that was not assigned",
     fcover="for every listed function: its memory relation equals the reference definition's (which assigns everything it reads), or no admitted valuation of the extracted relation has a result that depends on unassigned storage",
     rule="rules.no_hidden_state", technique="static-storage effect analysis and definite-assignment over extracted memory relations",
     note="Every store's object is resolved through the extracted relation and closed over calls; loads of unassigned locals and undefined SSA values are tracked into effects and results. Unfinished upstream stubs are excluded and named.", over=["histories", "inputs"])

prop("C30", "Routines stay inside the storage of the objects they are given",
     "For every input that passes its checks, a routine reads and writes only elements of the images, cubes, matrices, masks and arrays it was given or created itself, within their extents. Borders, windows, odd sizes and single-row or single-column objects are included.",
     "every shape, window and parameter value the checks admit", "Tests use a few comfortable sizes, at which a stray access goes unnoticed.",
     ALLSRC + [P + "threshold.c", P + "imageprocess.c", P + "GeometricTransformation.c", P + "matrixprocess.c", P + "gradient.c", A + "dft.c", G + "draw.c"], [("index arithmetic", "all loops over ->data in modules/*/src")],
     fns=ALLFN + ["vector_%s__%s" % (m, t) for m in VM for t in ("char", "int", "double")], kinds=("fault",), frule="every access of the extracted relation lies inside its object",
     fcover="for every listed function: its memory relation equals the reference definition's (whose accesses are in bounds), or no admitted valuation of the extracted relation accesses outside an object")

prop("C31", "The ENVI header says what the cube is, and reading it back gives the same cube",
     "The header written beside a saved cube names its samples, lines, bands, data type, interleave and wavelengths, each under its own key with its own value. Reading a header gives each of those fields of the new cube the value found after that field's key, reads the pixel block whole from the image file, and reads nothing of it from the header.",
     "every cube extent, element type, layout and wavelength list, and every order of keys in a header", "The tests save and read cubes whose extents coincide or are never compared, so two exchanged header fields go unnoticed.",
     [C + "hypermat.c"], [("header writer", C + "hypermat.c: writehdr, hmsave"), ("header reader", C + "hypermat.c: readhdr, hmread_with_hdr")],
     fns=["writehdr", "hmread_with_hdr"], rule="header.reader",
     technique="byte-stream equality of the extracted writer with a reference definition; SSA def-use and dominance from each header key to the constructor argument its value reaches",
     note="The writer's stream of characters per file is compared with the reference definition's on separating valuations; the reader's values are followed by def-use over SSA with helpers inlined. A value that passes through a table, an escaped local or another routine is reported as unknown and not judged.", over=["inputs"])


prop("C32", "Images of the C++ class convert between layouts exactly",
     "Converting an image of the C++ class between the band-sequential, line-interleaved and pixel-interleaved layouts, into a new image or in place, moves every element byte for byte to the position the target layout gives its (band, line, sample) coordinate. The image's size, element type and wavelengths stay, its layout code and tag name the new layout, and a source of another layout than the routine's is rejected.",
     "every image extent, element type and pair of layouts", "The tests convert one image there and back, which an error common to both directions or particular to non-square shapes survives.",
     [CX, HPP], [("six conversion routines", CX + ": bil2bsq … bip2bil"), ("conversion in place", HPP + ": HyMat::convertTo")],
     fns=["hymat_" + n for n in ("bil2bsq", "bil2bip", "bip2bil", "bip2bsq", "bsq2bil", "bsq2bip", "convertTo")], note=HYNOTE)

prop("C33", "Images of the C++ class hold, copy, window and read what they were asked for",
     "An image of the C++ class has the extents, element type, layout code and tag it was created with, a cleared block of exactly samples*lines*bands elements or the caller's own, and replaces what it held before. A copy equals its source and shares nothing with it, a window holds the elements and wavelengths its coordinates give, opening a raw file reads the whole block, and an image is empty exactly before it is created and after it is released. Sizes, types, layouts and windows that cannot be are rejected.",
     "every extent, element type, layout, window and file content", "The tests build a handful of fixed images of one type; the claim is for every extent, type and layout.",
     [HPP], [("creation, copy, window, release", HPP + ": HyMat::create, copy, range, release, empty, CopyData, CopyWaveLength"), ("reading", HPP + ": HyMat::open")],
     fns=["hymat_" + n for n in ("create", "size", "create_with_data", "create_again", "copy", "copy_empty", "empty", "CopyData", "CopyWaveLength", "range", "open")], note=HYNOTE)

prop("C34", "Index, size, rounding and text helpers follow their definitions",
     "The border rule maps every position outside an axis to the position inside it that the rule's pattern names, rounding goes to the nearest integer with halves to even, the transform size is the smallest product of powers of 2, 3 and 5 that is not below the request, texts compare equal when they agree over the shorter one, and text to number conversion gives the value of the number at the start of the text: blanks, sign, digits, point and exponent. Printing an object's description gives each of its fields in order.",
     "every position, axis length and border rule; every size; every text", "Filters and readers of every module go through these helpers; the tests call none of them directly.",
     [TY, A + "dft.c", C + "hypermat.c", P + "datatypechange.c"], [("border index and rounding", TY + ": hypercv_border_Interpolate, HYPERCV_ROUND"), ("transform size", A + "dft.c: get_optimal_DFT_size"),
      ("texts", C + "hypermat.c: cmpstr, hyper_mat_showinfo; " + P + "datatypechange.c: hypercv_atof")],
     fns=HELPERS, note=EQ_NOTE + " Printing is no part of the normal form: the values printed are compared on separating valuations only, their wording is free.")

prop("C35", "Clustering assigns pixels to the nearest centre and moves centres to means",
     "Clustering repeats one step until no centre moves further than the limit: every nonzero pixel belongs to the nearest centre, the first of equally near ones, and each centre moves to the mean position of its pixels. The centres end where that step leaves them, the image is not changed, and a missing image or a number of centres that does not fit the output is rejected.",
     "every image, number of centres and limit, and every start position", "The one test draws random starting points, so its result cannot be compared with anything.",
     [A + "cluster.c"], [("clustering step", A + "cluster.c: hypercv_k_means")],
     fns=["hypercv_k_means"], note=EQ_NOTE + " Random numbers are one unknown value per run, the same for every draw, so the order of drawing does not matter.")
