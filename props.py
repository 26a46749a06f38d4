"""The properties, the scenarios that exercise them and the monitors that decide them."""

CORE = 'modules/core/src/c_src/'
PROC = 'modules/process/src/c_src/'
ALG = 'modules/algorithm/src/'
GUI = 'modules/highgui/src/'
HM = CORE + 'hypermat.c'
SM = CORE + 'simplemat.c'
IMP = PROC + 'imageprocess.c'
MAT = PROC + 'matrixprocess.c'
GEO = PROC + 'GeometricTransformation.c'
FIL = PROC + 'filter.c'
HPP = 'modules/core/include/cxx_include/hypermat.hpp'

FUNCTIONAL = ('value', 'reject', 'memory', 'exit', 'hang', 'modified')
ASAN = 'AddressSanitizer and UBSan on the library and the harness, fences around every image buffer, a reference computed independently of the library'

PROPS = {}

# how many times the cases of the scenarios the quick tier runs: some ten seconds for a property
QUICK = dict(C08=2, C09=2, C11=4, C12=4, C41=1, C45=3, C46=5, C47=3, C48=4, C49=2, C50=4, C51=3, C52=1, C53=2, C54=60, C56=1, C57=1, C58=1, C59=1, C60=1)


def prop(pid, title, statement, quantifier, why, files, mechanism, passes, *, over=('inputs',), kinds=FUNCTIONAL, monitor=ASAN,
         rule=None, assumptions=(), observe=(), thorough=20, note=None, technique=None):
    assert len(title) <= 80, title
    quick = QUICK.get(pid, 8)
    PROPS[pid] = dict(
        quick=quick,
        id=pid, title=title, statement=statement, over=list(over), quantifier=quantifier, why=why, files=list(files),
        mechanism=[dict(name=n, where=w) for n, w in mechanism], passes=passes, kinds=kinds, monitor=monitor,
        rule=rule or 'Cases are drawn at random from the seed (' + quantifier + '); a case is non-trivial when the oracle compared at least one '
                     'result of it, distinct when its parameters hash differently.',
        assumptions=list(assumptions), observe=list(observe), thorough=thorough,
        note=note or 'Every execution of the run satisfied the monitor; inputs that were not generated are not covered. Trusts the reference '
                     'in the harness, the compiler and the sanitizers.',
        technique=technique or 'runtime monitoring: seeded random calls of the real code under ASan/UBSan, results checked against an independent reference')


def asan(scen, mult=1.0, **kw):
    return dict(variant='asan', mode='normal', scen=scen.split(), mult=mult, **kw)


def vast(*passes):
    return [dict(variant='fast', mode='normal', scen=' '.join(l).split(), lanes=[x.split() for x in l], mult=1.0, cpu=800) for l in passes]


ALLC = ('il_convert il_inplace il_roundtrip hm_range hm_create hm_copy hm_history hm_trivia sm_create sm_copy sm_history s2d_lifecycle '
        'wavelet_base_ok wavelet_history band_out band_in reshape splice addition log_mat sm_transpose hm_transpose '
        'border_index make_border filter2d median mean_blur integral gauss_kernel gauss_blur kernel_blur laplacian sobel edge_energy flip '
        'pyr_down pyr_up rotate morphology threshold otsu to_rgb rgb_gray bgr_rgb img_mean_var img_stats '
        'convert_type float2char sm_float2uchar atof_text mat_mul mat_trans mat_corr mat_rows mat_invert mat_qr mat_eigen means sort_down factorial '
        'sp_stats sam_angle sam_match hm_mean radiometric '
        'sat_position sat_history his_equal stretch normalize hu_moments match_shapes dft idft dft_spectrum dft_size cem pca draw_points draw_lines vector')
FILEC = 'showinfo hm_save_read hm_writehdr hm_hdr_forms hm_read_size sm_read read_spectrum bmp_read_forms bmp_write_format bmp_roundtrip'
HOSTILE = 'bad_hdr bad_bmp bad_spectrum'
CXX = 'cx_convert cx_chain cx_range cx_create cx_history cx_save_open cx_hdr_forms cx_trivia'

# those that take shapes of any length
LONGC = ('il_convert il_inplace il_roundtrip hm_range hm_create hm_copy sm_create sm_copy band_out band_in reshape splice log_mat sm_transpose hm_transpose '
         'make_border filter2d median mean_blur integral gauss_blur kernel_blur laplacian sobel edge_energy flip '
         'pyr_down rotate morphology threshold otsu to_rgb rgb_gray bgr_rgb img_mean_var img_stats '
         'convert_type float2char sm_float2uchar mat_trans sam_match hm_mean radiometric his_equal stretch normalize hu_moments match_shapes draw_points draw_lines '
         'showinfo hm_save_read hm_read_size sm_read bmp_read_forms bmp_write_format bmp_roundtrip')

T_FEW = 'The tests that exist sample one or two fixed inputs (or only print results); '

# ------------------------------------------------------------------ cubes ----
prop('C01', 'Layout conversions keep every pixel of a cube',
     'Converting a hyperspectral image between the band-sequential, band-by-line and band-by-pixel layouts yields an image of the same '
     'number of lines, samples and bands and the same data type and wavelengths, marked with the target layout, in which every '
     '(line, sample, band) holds the bytes it held before. This holds for each of the six conversions into a new image (also from a source '
     'already in the target layout) and for the three conversions in place, and any chain of conversions that returns to the first layout '
     'returns the original bytes.',
     'every cube shape and all eleven data types with a data size below 2^31 bytes, every source layout, every chain of conversions',
     T_FEW + 'the index arithmetic of each of the nine functions must be right for every shape, element size and chain.',
     [IMP], [('six conversions and three in-place conversions', IMP)],
     [asan('il_convert il_inplace il_roundtrip', 36)], over=('inputs', 'histories'))
prop('C02', 'C++ layout conversions keep every pixel of a cube',
     'Every layout conversion of the C++ image class, into another image or in place, yields the same lines, samples, bands, data type and '
     'wavelengths, is marked with the target layout, and keeps the bytes of every (line, sample, band); converting to the layout the image '
     'already has changes nothing. Chains of conversions compose, and the target of a conversion may be an image that already holds something.',
     'every cube shape and the nine real data types with a data size below 2^31 bytes, every source layout, every chain, empty and used targets',
     T_FEW + 'the templates are instantiated for nine element types and six directions.',
     [HPP, 'modules/core/src/cxx_src/hypermat.cpp'], [('conversion templates', HPP), ('convertTo', HPP)],
     [asan('cx_convert cx_chain', 36)], over=('inputs', 'histories'))
prop('C03', 'A cut-out of a cube holds exactly the pixels of its range',
     'Cutting the half-open range of lines, samples and bands out of an image yields an image of exactly that size, with the layout and '
     'data type of the source, whose element at every position is the element of the source at the shifted position. Its wavelengths are '
     'those of the chosen bands.',
     'every shape, layout, data type and every valid range, including full, single and trailing ranges',
     T_FEW + 'the three layouts have separate copy loops whose offsets only show at particular ranges.',
     [IMP], [('hyper_mat_get_range', IMP)], [asan('hm_range', 72)])
prop('C04', 'A C++ cut-out of a cube holds exactly the pixels of its range',
     'The range operation of the C++ image class yields an image of exactly the requested lines, samples and bands with the layout and data '
     'type of the source, whose elements and wavelengths are those of the source at the shifted position; the target may already hold another image.',
     'every shape, layout, real data type and every valid range, including full, single and trailing ranges',
     T_FEW + 'the three layouts have separate copy loops whose offsets only show at particular ranges.',
     [HPP], [('range', HPP)], [asan('cx_range', 72)])
prop('C05', 'Cubes are created, copied and deleted as independent values',
     'A created image has the requested shape, data type and layout, holds the data and wavelengths it was given or zeros, and shares no memory '
     'with its caller; a copy equals its source in shape, data and wavelengths and is independent of it. Through any history of creating, copying, '
     'converting, cutting, splicing, writing and deleting several images, every live image holds exactly what the history wrote into it. '
     'No image counts as empty image, and deleting or copying no image does nothing.',
     'every shape, layout and data type below 2^31 bytes; random histories over up to five live images',
     T_FEW + 'aliasing and lifetime errors need particular sequences of operations.',
     [HM], [('create_hyper_mat, create_hyper_mat_with_data, hyper_mat_copy, hyper_mat_copy_to, delete_hyper_mat', HM)],
     [asan('hm_create hm_copy hm_history hm_trivia', 36)], over=('inputs', 'histories'))
prop('C06', 'C++ images are created, copied and released as independent values',
     'An image of the C++ class, created in any of its forms, has the requested shape, type and layout and exposes the data and wavelengths '
     'it was given or zeros; copying its data or wavelengths gives the contents of the source without sharing memory. Through any history '
     'of creating, recreating, copying, converting, cutting and releasing, every image holds exactly what the history put into it, and '
     'released images are empty and may be released or created again.',
     'every shape, layout and real data type below 2^31 bytes; random histories over several images',
     T_FEW + 'double release and stale pointers need particular sequences of operations.',
     [HPP], [('HyMat constructors, create, CopyData, CopyWaveLength, release', HPP)],
     [asan('cx_create cx_history cx_trivia', 36)], over=('inputs', 'histories'))
prop('C07', 'Matrices and 2D structures are created, copied and deleted as values',
     'A created matrix has the requested rows, columns, type, channels and element size and holds zeros or is attached to the data it was '
     'given; a copy is equal and independent. Through any history of creating, attaching, copying, writing and deleting, every live matrix '
     'holds what was written into it, and attached data is freed with its matrix exactly once. Created 2D structures hold ones or their '
     "caller's data, which stays with the caller.",
     'every shape, data type and channel count; random histories over up to six live matrices',
     T_FEW + 'ownership of attached data depends on where the allocator places blocks and on the order of operations.',
     [SM, CORE + 'struct_2D.c'], [('create_simple_mat, create_simple_mat_with_data, simple_mat_copy, delete_simple_mat', SM), ('create_2D_struct, create_2D_struct_with_data, delete_S_2D', CORE + 'struct_2D.c')],
     [asan('sm_create sm_copy sm_history s2d_lifecycle', 36)], over=('inputs', 'histories'))
# ------------------------------------------------------------------ files ----
prop('C08', 'Saved cubes read back unchanged; ENVI headers are read as documented',
     'An image saved with its header reads back with the same shape, type, layout, data and wavelengths (to six decimals), over older files '
     'too, and reading by explicit size or as a matrix returns the bytes of the file. Valid ENVI headers are understood in any order, case, '
     'spacing, line ending and wavelength arrangement, with missing wavelengths read as zeros. The numbers of a spectrum text file are read in order, up to '
     'the requested count.',
     'every shape, layout and data type; header files in all supported spellings; saves over existing files',
     T_FEW + 'the file formats have many spellings and the writers many types.',
     [HM, SM, PROC + 'spectralprocess.c'], [('hmsave, hmread_with_hdr, hmread_with_size, writehdr, readhdr, read_wavelength', HM), ('smread', SM), ('read_spectrum_file', PROC + 'spectralprocess.c')],
     [asan(' '.join(x for x in FILEC.split() if not x.startswith('bmp')), 3)], over=('inputs', 'histories'))
prop('C09', 'C++ images saved to disk read back unchanged, by C and C++ readers',
     'An image saved by the C++ class reads back, with the class or with the C reader, with the same shape, type, layout, data and '
     'wavelengths (to six decimals), and so does a C file opened by the class, by header or by explicit size, into an empty or a used image. '
     'Valid ENVI headers are understood in any order, case, spacing, line ending and wavelength arrangement.',
     'every shape, layout and real data type; header files in all supported spellings; saves over existing files; used and empty targets',
     T_FEW + 'no test writes a file with the class and compares what comes back.',
     [HPP, 'modules/core/src/cxx_src/hypermat.cpp'], [('save, open, hmread', HPP)],
     [asan('cx_save_open cx_hdr_forms', 8)], over=('inputs', 'histories'))
prop('C10', 'BMP images are written and read pixel for pixel',
     'Saving a gray or colour byte image as BMP produces a well-formed file (sizes, offsets, padding, palette, bottom-up rows), and reading '
     'it returns the same pixels. Valid BMP files of one or three bytes for a pixel are read correctly for both row orders, any header size, any row padding '
     'and any pixel offset.',
     'every image size including widths that need padding, both channel counts, all supported header forms',
     T_FEW + 'padding and offsets depend on the width and on the header form.',
     [SM], [('smread_bmp, smwrite_bmp', SM)],
     [asan('bmp_roundtrip bmp_write_format bmp_read_forms', 20)])
prop('C11', 'Malformed files are refused or read safely, never trusted',
     'Opening a truncated, inconsistent or corrupted header, image, BMP or spectrum file either ends the program with an error message and '
     'exit status 1 (or reports failure by its result) or yields an image whose data is really as large as its shape says. It never reads or writes outside of a buffer, crashes, '
     'hangs or allocates what the file cannot fill.',
     'files made by mutating valid ones: truncation, oversized and negative fields, wrong keywords, missing items, random bytes, very long lines',
     'The tests only open files that are not there or are valid; hostile contents reach code no test runs.',
     [HM, SM, PROC + 'spectralprocess.c', HPP], [('readhdr and hmread: checks of header fields and file sizes', HM), ('smread_bmp: checks of the header', SM)],
     [asan(HOSTILE + ' cx_bad_hdr', 5)], kinds=FUNCTIONAL)
prop('C12', 'Failed reads and writes are reported, never ignored',
     'When a file cannot be opened, is shorter than its header promises, or cannot be written completely (missing directory, directory in '
     'its place, full device, size limit), the operation ends the program with an error message and exit status 1 instead of returning as if it had succeeded.',
     'every reader and writer under injected faults: missing files, directories, short files, full device, file size limit at every fraction of the output',
     'No test injects a fault; ignoring a short write is invisible on a healthy disk.',
     [HM, SM, PROC + 'spectralprocess.c', HPP], [('checks of fopen, fread, fwrite, fclose results', HM)],
     [asan('io_faults cx_io_faults', 5)], over=('inputs', 'fault_sequences'),
     technique='runtime monitoring with fault injection (full device, file size limit, short and missing files) on the real readers and writers')
# -------------------------------------------------------------- conversions ----
prop('C13', 'Type conversions round half to even and saturate',
     'Converting the element type of an image keeps shape, layout and wavelengths and every value the target type can hold; floating point '
     'values are rounded to the nearest integer, halves to even, and values beyond the range of the target (infinities included) become its '
     'nearest bound.',
     'every shape and layout, all ten conversions of cubes and the float to byte conversion of matrices, values at and beyond every bound; no NaN',
     T_FEW + 'rounding and saturation only show at special values.',
     [PROC + 'datatypechange.c'], [('hyper_mat_float2*, hyper_mat_uchar2*, hyper_mat_ushort2float, simple_mat_float2uchar', PROC + 'datatypechange.c')], [asan('convert_type float2char sm_float2uchar', 48)])
prop('C14', 'Decimal texts are read as the number they denote',
     'Reading a number from text skips leading blanks, understands sign, integer part, fraction and exponent of either sign, stops at the first character that '
     'does not belong to the number, and returns the value to within 1e-5 of it (zero when there is no number).',
     'texts with up to 30 digits for each part and exponents up to 300 in magnitude, with and without trailing text',
     T_FEW + 'the parser is a loop over characters whose branches tests do not combine.',
     [PROC + 'datatypechange.c'], [('hypercv_atof', PROC + 'datatypechange.c')], [asan('atof_text', 90)])
prop('C43', 'Single bands move in and out of a cube without touching the others',
     'Taking band b out of a band-sequential image gives a matrix of its lines and samples with exactly the pixels of that band, whatever equally large matrix '
     'receives it; putting a matrix in replaces exactly that band and no other byte. Flattening an image into a matrix of given rows and '
     'columns keeps all elements in order.',
     'every shape and data type, first, inner and last bands',
     T_FEW + 'an off-by-one band is invisible in images with one band.',
     [IMP], [('hyper_mat_2_simple_mat, simple_mat_2_hyper_mat, reshape_hypermat_2_simplemat', IMP)], [asan('band_out band_in reshape', 60)])
prop('C44', 'Splicing, adding and logarithms act element by element',
     'Splicing one image into another at an element offset replaces exactly the elements it covers; adding two matrices sums the common '
     'rows and columns (bytes modulo 256) and leaves the rest of the result alone; the logarithm of a float matrix is the natural logarithm of each element.',
     'every shape, type and offset that fits; equal and different sizes of the terms; positive finite values for logarithms',
     T_FEW + 'strides only matter when the sizes differ.',
     [IMP], [('hyper_mat_splicing, simple_mat_addition_*, simple_mat_log', IMP)], [asan('splice addition log_mat', 60)])
# ------------------------------------------------------------------ filters ----
prop('C15', 'Borders extrapolate by their rule at any distance',
     'The source index for a position outside of an image follows the chosen rule (constant, replicate, reflect, wrap, reflect without the edge) for any distance and any '
     'length, one pixel included. Adding borders of any widths yields an image of the enlarged size whose inside is the source and whose '
     'border pixels follow the rule in every channel.',
     'every image size and channel count, every combination of border widths including zero and wider than the image, the five rules',
     T_FEW + 'borders wider than the image fold back more than once.',
     [FIL, 'modules/core/include/c_include/type.h'], [('hypercv_border_Interpolate', 'modules/core/include/c_include/type.h'), ('hypercv_copy_make_border', FIL)], [asan('border_index make_border', 48)])
prop('C16', 'Filtering correlates the image with the kernel, border included',
     'Filtering a byte image with a kernel gives at every pixel and channel the sum of kernel coefficients times the pixels they cover, '
     'centred at half the kernel size, where positions outside of the image follow the chosen border rule (zero for the constant one); results are correct '
     'to float precision.',
     'every image size, one and three channels, kernels of every size up to 35x35 including even and larger than the image, the five rules',
     T_FEW + 'edges, even kernels and channels combine in ways a test does not sample.',
     [PROC + 'filter.c'], [('hypercv_filter2D', FIL)], [asan('filter2d', 48)])
prop('C17', 'Gaussian kernels and blurs are symmetric, normalised and exact to rounding',
     'A generated kernel is symmetric, sums up to one and follows the Gaussian of its width (the fixed binomial-like coefficients for odd '
     'lengths up to seven without a width). Blurring filters the rows and then the columns with the given widths or kernels and border rule, saturating to 0..255 after each pass, '
     'and every result is a rounding of the exact value.',
     'every image size, one and three channels, kernel lengths up to 81 (kernels alone up to 600), own kernels of any length up to 70 with negative coefficients too, the five border rules',
     T_FEW + 'horizontal and vertical passes have separate border code.',
     [FIL], [('gaussian_kernel, hypercv_gaussian_blur, hypercv_gaussian_blur_with_kernel', FIL)],
     [asan('gauss_kernel gauss_blur kernel_blur', 36)])
prop('C18', 'Mean, median and integral images are exact',
     'The mean filter of a gray image gives the truncated average of the window part inside of the image, the median filter the middle value of the full '
     'window and the unchanged pixel where the window leaves the image, and the integral image the sum of all pixels above and to the left, inclusive.',
     'every image size, median windows up to 33 and mean windows up to 40 wide, integral images with sums up to the largest int',
     T_FEW + 'window bounds at the edges and long sums are not sampled.',
     [FIL], [('hypercv_meanblur, hypercv_medianblur, hypercv_integral', FIL)], [asan('mean_blur median integral', 48), asan('large_integral', 0.25)])
prop('C19', 'Laplacian, Sobel and edge energy are exact, border included',
     'On gray images, the Laplacian gives four times negative centre plus the four neighbours (twice that for size two), clipped to 0..255; Sobel marks 255 '
     'exactly the pixels where the larger magnitude of the two gradients exceeds the threshold; the edge energy is the mean squared response of its '
     'operator with zeros outside.',
     'every image size up to some megapixels, the five border rules, thresholds of every size',
     T_FEW + 'clipping, borders and thresholds combine.',
     [PROC + 'gradient.c', ALG + 'EdgeSignalEnergy.c'], [('hypercv_laplacian, hypercv_sobel', PROC + 'gradient.c'), ('cal_edge_signal_energy', ALG + 'EdgeSignalEnergy.c')],
     [asan('laplacian sobel edge_energy', 48), asan('large_energy', 0.25)])
prop('C20', 'Flips and transposes move every pixel to its mirror place',
     'Flipping horizontally, vertically or both ways and transposing move every pixel, with all of its channels, to the mirrored place for '
     'every element type, and doing it twice gives the original; transposing an image cube transposes each band.',
     'every shape, all data types, one to four channels',
     T_FEW + 'odd and even sizes, element sizes and channels combine.',
     [GEO, IMP, PROC + 'spectralprocess.c'], [('simple_mat_flip*', GEO), ('simple_mat_transport', IMP), ('hyper_mat_transport', PROC + 'spectralprocess.c')], [asan('flip sm_transpose hm_transpose', 48)])
prop('C21', 'A rotated cube holds only pixels that the rotation brings there',
     'Rotating an image by any angle gives a band-by-pixel image as large as the bounding box, of the same bands, type and wavelengths, in '
     'which each cell that source pixels land on holds the spectrum of one of them and all other cells are zero. The source keeps its contents.',
     'images up to 800 lines or samples, every layout and type, angles from -720 to 720 degrees',
     T_FEW + 'angles near multiples of 90 degrees hit the edges of the canvas.',
     [GEO], [('hyper_mat_rotate', GEO)], [asan('rotate', 48)])
prop('C22', 'Image pyramids filter and resample exactly',
     'The lower level is the image blurred with the 5x5 kernel of coefficients 1 4 6 4 1 (replicated border), of which every second row and '
     'column is kept; the upper level is the image spread over twice the size with zeros between and blurred with the doubled kernel; every value is '
     'a rounding of the exact one.',
     'every image size of at least 2x2, odd and even, one and three channels',
     T_FEW + 'odd sizes and edges are not sampled.',
     [GEO], [('hypercv_pyramid_down, hypercv_pyramid_up', GEO)], [asan('pyr_down pyr_up', 32)])
prop('C23', 'Erosion, dilation, opening and closing follow the structure element',
     'In a gray image, erosion clears a set pixel when a one of the structure covers a zero pixel, dilation sets a clear pixel to one when a one of the '
     'structure covers a set one; only pixels around which the structure fits into the image are changed, and a structure larger than the image changes '
     'nothing. Opening and closing are the given number of erosions and dilations, dilations and erosions, in turn.',
     'every image size and density, structures up to 12x12 of any shape with zeros and ones, up to three iterations',
     T_FEW + 'non-square and even structures are not sampled.',
     [PROC + 'morphology.c'], [('hypercv_corrosion, hypercv_expend, hypercv_open, hypercv_close', PROC + 'morphology.c')], [asan('morphology', 60)])
prop('C24', 'Thresholds act on exactly the pixels above them; Otsu is optimal',
     'Each threshold mode maps pixels above the threshold and the others (equal ones included) as its definition says. The Otsu threshold '
     'maximises the variance between the two classes, and its mode sets the pixels above it to 255 and the others to 0.',
     'every image size up to some megapixels and content, every threshold and maximum, ties with the threshold, constant and two-mode images, colour images for the Otsu threshold',
     T_FEW + 'ties and degenerate histograms are not sampled.',
     [PROC + 'threshold.c'], [('hypercv_threshold*, otsuThreshold', PROC + 'threshold.c')], [asan('threshold otsu', 48), asan('large_otsu', 0.25)])
prop('C25', 'Colour conversions are exact for every pixel value',
     'Gray and binary images become colour images with three equal channels (binary ones at 255); colour becomes gray by rounded average, '
     'maximum or the weights 0.299, 0.587, 0.114 (truncated) of the channels in order; swapping the channel order reverses each pixel.',
     'every image size and pixel value',
     T_FEW + 'weights and rounding must hold for every triple.',
     [PROC + 'colortransform.c'], [('sm_gray2rgb, sm_binary2rgb, sm_rgb2gray, sm_bgr2rgb', PROC + 'colortransform.c')], [asan('to_rgb rgb_gray bgr_rgb', 60)])
# -------------------------------------------------------------------- maths ----
prop('C26', 'Matrix products, transposes and row operations are correct',
     'Products, transposes and correlation matrices (product divided by the inner length) of every element type and row operations, '
     'identity and norm give the algebraic result: exactly (modulo the type) for integers, to accumulated rounding for floating point.',
     'matrices of every shape up to 140 and all element types, values up to where the products leave the type',
     T_FEW + 'eight copies of each routine exist for the types; rectangular shapes are not sampled.',
     [MAT], [('MulMatrix_*, TransMatrix_*, correlation_matrix_*, row operations', MAT)], [asan('mat_mul mat_trans mat_corr mat_rows', 48)])
prop('C27', 'Inverse, QR and eigenvectors satisfy their equations',
     'The inverse of a well-conditioned matrix is its inverse to an error bounded by its condition, whatever the zeros on its diagonal; the '
     'QR factors multiply to the matrix, Q is orthonormal and R upper triangular with a non-negative diagonal; the vectors returned for given eigenvalues have '
     'length one and satisfy the eigenvector equation.',
     'matrices up to 80x80 with condition below 1e4 (inverse), 1e3 (QR), symmetric with separated eigenvalues (eigenvectors)',
     T_FEW + 'pivoting is only exercised by particular matrices.',
     [MAT], [('invert_matrix_float, matrix_QR_float, cal_eigen_vector_float', MAT)], [asan('mat_invert mat_qr mat_eigen', 48)],
     assumptions=['ill-conditioned matrices are dropped: single precision elimination says nothing about them'])
prop('C28', 'Means, sorting, factorial and spectral statistics are correct',
     'Means of all element types equal the exact mean to float precision for any length, sorting yields the same values in descending order, the factorial is '
     'exact up to 20 (minus one for negative numbers), and average, variance, standard deviation and distance of spectra are '
     'correct to accumulated rounding.',
     'arrays of length 1 to some millions with extreme values of each type; sorting with ties, infinities and presorted data',
     T_FEW + 'sums that overflow the element type only show for long or extreme arrays.',
     [PROC + 'mathprocess.c', PROC + 'spectralprocess.c'], [('mean_*, sort_array_down_float, hypercv_factorial', PROC + 'mathprocess.c'), ('sp_average, sp_variance, sp_standard_deviation, euclidean_distance', PROC + 'spectralprocess.c')], [asan('means sort_down factorial sp_stats', 48), asan('large_means', 0.25)])
prop('C29', 'Spectral angles, SAM matching and band means are correct',
     'The spectral angle of two spectra is the arc cosine of the sum of the absolute products over the product of the lengths, between 0 '
     'and pi/2; matching marks with one exactly the pixels whose angle to the spectrum is below the threshold; the band mean gives the mean over the bands of each pixel.',
     'spectra of 1 to 600 bands, equal, scaled and orthogonal ones included; every image shape and threshold; no zero spectra',
     T_FEW + 'rounding beyond one for equal spectra only shows for particular values.',
     [PROC + 'spectralprocess.c'], [('spectral_angle_mapper, spectrum_SAM_match, hyper_mat_mean', PROC + 'spectralprocess.c')], [asan('sam_angle sam_match hm_mean', 48)])
prop('C30', 'Radiometric corrections scale every pixel by its own coefficient',
     'The relative correction multiplies each pixel by the coefficient of its band and sample, the absolute correction by the coefficient of its band, '
     'and both give a float image of the same shape.',
     'every image shape, any coefficients',
     T_FEW + 'confusing the axes is invisible when two of them are equal.',
     [PROC + 'RadiometricCalibration.c'], [('relative_radiometric_correction, absolute_radiometric_correction', PROC + 'RadiometricCalibration.c')], [asan('radiometric', 72)])
prop('C31', 'Wavelet filter banks reconstruct perfectly and are independent values',
     'Each filter bank that is requested has filters of one common length whose analysis followed by synthesis returns the signal: no aliasing, '
     'unit total gain at a delay of one less than the length, low-pass gain of the square root of two and zero-sum high-pass filters, to the four decimals '
     'of its coefficients. Each request gives a bank of its own, whatever was done to banks requested before.',
     'both wavelet families, random histories of requesting, overwriting and freeing several banks',
     'No test looks at a coefficient, and sharing of banks only shows when one of several is changed.',
     [PROC + 'dwt.c'], [('set_wavelet_base, wavelet_base_free', PROC + 'dwt.c')], [asan('wavelet_base_ok wavelet_history', 36)], over=('histories',))
# --------------------------------------------------------------- algorithms ----
prop('C32', 'Constrained energy minimisation gives the optimal detector',
     'The detector output of each pixel is w.x with w = R^-1 d / (d^T R^-1 d) for the correlation matrix R of the image and the target '
     'spectrum d, to the precision its conditioning allows, as a matrix of the lines and samples of the image. The source keeps its contents (its '
     'layout becomes band-sequential).',
     'images of every layout, up to 60x60 pixels and 16 bands, some up to 300x240 pixels or 40 bands, with well-conditioned correlation; target spectra with negative values',
     T_FEW + 'layout and shape mix-ups are hidden by the fixed data of the tests.',
     [ALG + 'cem.c'], [('hyper_mat_cem', ALG + 'cem.c')], [asan('cem', 60)],
     assumptions=['images whose correlation matrix is ill conditioned are dropped'])
prop('C33', 'Principal components are the projections on the sorted eigenvectors',
     'The principal component transform gives, for each pixel of the centred image, the projections on the eigenvectors of the covariance, '
     'strongest component first, up to the sign of each component.',
     'band-by-pixel float images up to 7 bands with separated eigenvalues, at least 120 iterations, any rotation of the directions',
     T_FEW + 'the existing test prints its result.',
     [ALG + 'pca.c'], [('hyper_mat_pca', ALG + 'pca.c')], [asan('pca', 60)],
     assumptions=['images whose eigenvalues are closer than a factor 1.6 are dropped: the QR iteration does not separate them'])
prop('C34', 'Fourier transforms agree with their definition and invert each other',
     'The discrete Fourier transform of byte and 16-bit images equals its definition to float precision, the inverse divides by the number of '
     'pixels, rounds and clips to the type, and transforming there and back returns the image; the magnitude is the length of each complex value and the spectrum image the '
     'centred, scaled, rounded and clipped magnitude.',
     'image sizes from 1x1 to 22x22 and up to 2x150, both types, arbitrary spectra for the inverse',
     T_FEW + 'the transforms of the tests are only printed.',
     [ALG + 'dft.c'], [('hypercv_dft*, hypercv_idft*, hypercv_magnitude, hypercv_dft_frespectrum', ALG + 'dft.c')], [asan('dft idft dft_spectrum', 24)])
prop('C35', 'The optimal transform size is the next product of 2, 3 and 5',
     'For every size the answer is the smallest number not below it (and not below one) of the form 2^a 3^b 5^c with b at most 14, and -1 '
     'for negative sizes and for sizes of 2125764000 and more.',
     'all sizes up to 60000, the neighbours of random products of 2, 3 and 5, random and extreme sizes of the whole int range',
     'No test calls it for more than one size; an error in one of 1651 table entries or in the search bounds is invisible elsewhere.',
     [ALG + 'dft.c'], [('get_optimal_DFT_size', ALG + 'dft.c')], [asan('dft_size', 72)])
prop('C36', 'Equalisation and linear stretching map gray values exactly',
     'Equalisation of a gray image maps each value to the truncated share of pixels at or below it, times 255. Stretching maps each band of a '
     'band-sequential image from its own minimum and maximum to 0..255, truncated; values that come out at zero or below become 1, except that '
     'zero pixels become 0, and in constant bands every pixel becomes 0 where it is zero and 1 elsewhere.',
     'every image size up to 20 megapixels and content, constant, two-valued, negative and very large bands',
     T_FEW + 'constant bands and negative values are not sampled.',
     [ALG + 'HisEqualization.c'], [('HisEqualization, hyper_mat_linear_tension', ALG + 'HisEqualization.c')], [asan('his_equal stretch', 48), asan('large_equal', 0.25)])
prop('C37', 'Normalisation scales to the requested norm or range',
     'Normalising a single-channel byte or float matrix scales it so that its maximum, absolute sum or Euclidean norm is alpha, or maps its '
     'range to the one between alpha and beta in either order; byte results are rounded and saturated. A zero norm gives zeros and a constant matrix the lower bound.',
     'every size up to 20 megapixels, content, norm, alpha and beta, including zero matrices and constants',
     T_FEW + 'degenerate matrices and saturation are not sampled.',
     [ALG + 'normalize.c'], [('hypercv_normalize*', ALG + 'normalize.c')], [asan('normalize', 60), asan('large_normalize', 0.125)])
prop('C38', 'Mean, variance, histogram, entropy and contrast are correct',
     'Mean and variance of a matrix of any real type are correct to float precision for any number of elements; the histogram of a gray or colour image counts every pixel '
     'once, its entropy is the Shannon entropy in bits, and its contrast the mean squared difference of horizontally and vertically adjacent pixels.',
     'every image size from one row or column to 20 megapixels, all nine real types, extreme values',
     T_FEW + 'overflowing sums and missing neighbours only show for particular images.',
     [SM], [('simple_mat_mean, simple_mat_variance, simple_mat_grayscale_statistics, simple_mat_entropy, simple_mat_contrast_ratio', SM)],
     [asan('img_mean_var img_stats', 48), asan('large_stats', 0.125)])
prop('C39', 'Hu moments and shape matching are correct and position independent',
     'The seven Hu moments of an image equal their definition from normalised central moments about the rounded centroid (zeros for an empty '
     'image), wherever the shape lies. Matching is symmetric, one for a shape with itself, and one minus the ratio of the summed '
     'absolute differences and sums of the moments otherwise.',
     'every image size up to some megapixels, arbitrary and blob images, shapes moved in larger images, empty images',
     T_FEW + 'the tests match two fixed files.',
     [ALG + 'shapematch.c'], [('calc_hu_moment, hypercv_match_shapes', ALG + 'shapematch.c')], [asan('hu_moments match_shapes', 48), asan('large_hu', 0.25)])
prop('C40', 'The growable vector behaves like a sequence',
     'Through any sequence of pushing, popping, erasing, initialising, assigning and freeing, the vector holds the same elements in the same order as a plain '
     'sequence, its capacity is never below its size, and erasing beyond its end changes nothing.',
     'random histories of up to 600 operations over five element types',
     'One test pushes a few integers; erase, growth and reuse interact.',
     ['modules/core/include/c_include/vector.h'], [('vector_* macros', 'modules/core/include/c_include/vector.h')], [asan('vector', 60), asan('large_vector', 0.25)], over=('histories',))
prop('C41', 'K-means terminates at centres that are the means of their points',
     'Clustering the non-zero pixels of an image terminates from every start with as many centres as asked for, all inside of the image; with threshold '
     'zero each centre is the truncated mean of the points nearest to it (ties to the first centre), and (0,0) for a centre without points. Where the '
     'truncation makes the centres circle, they are one of the sets that the repeated taking of means passes through again and again.',
     'images with no, few and many points up to megapixels, 1 to 300 clusters, gray and colour, random starts',
     'No stable test runs it; termination and empty clusters depend on the start.',
     [ALG + 'cluster.c'], [('hypercv_k_means', ALG + 'cluster.c')], [asan('k_means', 48), asan('large_kmeans', 2)],
     assumptions=['the start depends on the clock, which the harness sets'])
prop('C42', 'Drawing changes exactly the pixels of points and lines',
     'Drawing points sets the square around each point, and drawing a line the pixels nearest to it widened horizontally by the thickness, '
     'to the given colour, as far as they lie inside of the image; every other pixel equals the source.',
     'points and ends inside and far outside of the image, all slopes, every thickness, gray and colour images',
     T_FEW + 'clipping at each edge and each octant of slopes is not sampled.',
     [GUI + 'draw.c'], [('draw_POINT, draw_line', GUI + 'draw.c')], [asan('draw_points draw_lines', 60)])
prop('C54', 'Satellite positions follow from the broadcast orbit elements',
     'An orbit made from broadcast elements gives the Earth-fixed position that Kepler motion with the secular and second-harmonic '
     'corrections and the rotation of the Earth gives at its time, to the precision of double arithmetic and of ten steps of the Kepler equation. Orbits are '
     'independent values: creating, asking and freeing others changes nothing.',
     'semi-major axes of 6600 to 43000 km, eccentricities up to 0.1, all angles, times within half a week of the reference time, any corrections of broadcast size',
     'No test touches orbits.',
     ['modules/satellite/src/satellite_orbit.c'], [('hypercv_create_orbit, get_satellite_position_ecef', 'modules/satellite/src/satellite_orbit.c')],
     [asan('sat_position sat_history', 20)], over=('inputs', 'histories'))
prop('C55', 'The printed description of a cube tells what the cube is',
     'Showing the information of a cube prints its samples, lines, bands, data type, interleave and every wavelength with six decimals; '
     'a cube without wavelengths or no cube at all is shown without failing, and the cube stays as it was.',
     'every shape, layout, data type and wavelength vector',
     'Nothing in the tests reads what is printed.',
     [HM], [('hyper_mat_showinfo', HM)],
     [asan('showinfo', 60)])
# ------------------------------------------------------------- cross-cutting ----
prop('C45', 'No operation touches memory outside of its buffers',
     'No library operation, on any valid input or hostile file, reads or writes outside of the images and arrays it was given, uses freed memory or frees twice, '
     'or runs into undefined arithmetic (signed overflow, invalid shifts, conversions out of range, misaligned access).',
     'every operation of both interfaces over random shapes, types, layouts and contents, operation histories, malformed files and rejected calls',
     'The tests run without sanitizers on a few sizes; an overrun by a few bytes leaves no trace.',
     ['modules/core', 'modules/process', 'modules/algorithm', 'modules/highgui', 'modules/satellite'], [('loop bounds and size computations of every operation', 'modules')],
     [asan(ALLC + ' k_means ' + FILEC, 3), asan(HOSTILE + ' cx_bad_hdr', 2), asan(CXX, 3)], kinds=('memory',), over=('inputs', 'histories'),
     monitor='AddressSanitizer and UBSan; the data of every image lies in a heap block of its own of exactly its size, and the unused bytes of every '
             'other block are poisoned',
     rule='All scenarios with random cases from the seed; a case is non-trivial when an oracle compared a result of it, so the operation ran to its end; distinct by the hash of its parameters.',
     technique='runtime monitoring: AddressSanitizer and UndefinedBehaviorSanitizer under the random workloads of all operations, with fenced buffers', thorough=20)
prop('C46', 'Results never depend on memory that was not written',
     'Every byte of a result that an operation defines is computed from its inputs: no result, decision or file written depends on the '
     'prior contents of the destination or of freshly allocated memory.',
     'every operation of both interfaces over random shapes, types, layouts and contents, with destinations that count as never written',
     'Fresh memory is mostly zero in a short test, so a missing initialisation goes unnoticed.',
     ['modules/core', 'modules/process', 'modules/algorithm', 'modules/highgui', 'modules/satellite'], [('initialisation of results and work memory', 'modules')],
     # the C++ library is not instrumented for MemorySanitizer: what uses its strings runs under memcheck
     [dict(variant='msan', mode='normal', scen=[x for x in ALLC.split() if x != 'atof_text'], mult=4),
      dict(variant='plain', mode='normal', scen=('atof_text ' + FILEC).split(), mult=0.1, valgrind=True, cpu=300),
      dict(variant='plain', mode='normal', scen='cx_convert cx_chain cx_range cx_create cx_history cx_hdr_forms'.split(), mult=0.12, valgrind=True, cpu=300)],
     kinds=('uninit',), monitor='MemorySanitizer (C interface) and memcheck (files, C++ interface); destinations are marked as never written, results are tested for it',
     rule='All scenarios with random cases from the seed; a case is non-trivial when a result of it was checked; distinct by the hash of its parameters.',
     technique='runtime monitoring: MemorySanitizer and valgrind memcheck under random workloads, shadow of results checked', thorough=10)
prop('C47', 'Completed operations leak neither memory nor file descriptors',
     'After an operation completes and the caller has deleted what it owns, the library holds no more memory blocks and no more open files '
     'than before, for every operation, file access and history.',
     'every operation of both interfaces and every file format over random inputs, repeated',
     'Tests end before a leak matters and count nothing.',
     ['modules/core', 'modules/process', 'modules/algorithm', 'modules/highgui', 'modules/satellite'], [('release of work memory and streams on every path', 'modules')],
     [dict(variant='asan', mode='leak', scen=(ALLC + ' k_means ' + FILEC).split(), mult=3),
      dict(variant='asan', mode='leak', scen=CXX.split(), mult=2.5)],
     kinds=('leak',), over=('inputs', 'histories'),
     monitor='a registry of every block the library allocates and frees and the table of open descriptors, balanced after each case',
     rule='All scenarios with random cases from the seed; a case is non-trivial when an oracle compared a result of it and the balance was taken; distinct by the hash of its parameters.',
     technique='runtime monitoring: interposed allocator with a balance of live blocks and open descriptors after every case', thorough=20)
prop('C48', 'Operations leave their inputs unchanged',
     'Every operation with a separate result leaves its source images, their shapes and wavelengths, kernels, spectra, coefficients and point lists '
     'byte for byte as they were; operations that work in place change only what they document.',
     'every operation of both interfaces over random shapes, types, layouts and contents',
     'Tests discard their inputs after the call and never compare them.',
     ['modules/core', 'modules/process', 'modules/algorithm', 'modules/highgui', 'modules/satellite'], [('operations read their sources only', 'modules')],
     [asan(ALLC + ' k_means', 6), asan('cx_convert cx_chain cx_range cx_create cx_history', 6)],
     kinds=('modified',), monitor='snapshots of every input (headers, data, wavelengths, arrays) compared after each call',
     rule='All scenarios with random cases from the seed; a case is non-trivial when an oracle compared a result of it and its inputs were compared with their snapshot; distinct by the hash of its parameters.',
     technique='runtime monitoring: snapshots of all inputs compared after every call under random workloads', thorough=20)
prop('C49', 'Calls with broken preconditions end with an error message',
     'A call with a missing image, a size that is not positive or overflows, an unknown type, layout, mode or band, a range outside of the '
     'image, or images whose types, sizes or channels do not fit together ends the program with a message that starts with ERROR: and exit status 1, before it reads or writes any image data.',
     'about 130 kinds of broken calls over both interfaces, each with random shapes and several ways to break it',
     'No test calls anything with a broken precondition (the process would end).',
     ['modules/core', 'modules/process', 'modules/algorithm', 'modules/highgui', 'modules/satellite'], [('hypercv_assert at the entry of every operation', 'modules/core/include/c_include/err.h')],
     [asan('reject cx_reject', 4)], kinds=FUNCTIONAL,
     technique='runtime monitoring: broken calls of the real code in child processes under ASan, exit status and message checked')
prop('C50', 'Operations on separate images may run in several threads',
     'Calls on images that no other thread uses do not interfere: concurrent calls touch no common unsynchronised memory and give the same results as the '
     'same calls alone.',
     'eight threads running every operation at shifted times over random inputs (clustering excepted, which draws its start from the global generator)',
     'No test uses more than one thread.',
     ['modules/core', 'modules/process', 'modules/algorithm', 'modules/highgui', 'modules/satellite'], [('no mutable static state in any operation', 'modules')],
     [dict(variant='tsan', mode='threads', scen=ALLC.split(), mult=2, rounds=8, threads=8)],
     kinds=('race',), over=('schedules',), monitor='ThreadSanitizer and a comparison of every result with that of the same call alone',
     rule='Each round runs every operation with random inputs in eight threads at shifted positions; distinct cases are the distinct calls of a round.',
     technique='runtime monitoring: ThreadSanitizer on concurrent random calls, results compared with sequential ones', thorough=10)
prop('C51', 'Equal calls give equal results whatever ran before',
     'The result of an operation depends only on its inputs: repeating the calls of a run in another order, in another process, with other contents of fresh memory '
     'gives bit-identical results.',
     'every operation of both interfaces over random inputs, forwards and backwards',
     'Tests run each call once.',
     ['modules/core', 'modules/process', 'modules/algorithm', 'modules/highgui', 'modules/satellite'], [('no state is carried between calls', 'modules')],
     [dict(variant='asan', mode='digest', scen=ALLC.split(), mult=4),
      dict(variant='asan', mode='reverse', scen=ALLC.split(), mult=4, env=dict(ASAN_OPTIONS='malloc_fill_byte=17')),
      dict(variant='asan', mode='digest', scen='cx_convert cx_chain cx_range cx_create cx_history'.split(), mult=4),
      dict(variant='asan', mode='reverse', scen='cx_convert cx_chain cx_range cx_create cx_history'.split(), mult=4, env=dict(ASAN_OPTIONS='malloc_fill_byte=17'))],
     kinds=('digest',), over=('histories',), monitor='digests of all results of two runs of the same calls, which differ in order, process and heap contents',
     rule='All scenarios with random cases from the seed, each run twice; a case is non-trivial when an oracle compared a result of it; distinct by the hash of its parameters.',
     technique='runtime monitoring: offline comparison of recorded result digests of two differently ordered runs', thorough=20)
prop('C52', 'Images beyond 2^31 bytes and elements are handled without truncation',
     'Images whose data exceeds 2^31 bytes, also those of more than 2^31 elements or 2^32 bytes, are handled as smaller ones are: creating, copying and '
     'copying into, the layout conversions of both interfaces into a new image and in place, cutting out a range (near the end or itself beyond '
     '2^31 bytes), taking out and putting back a band, splicing in a part at any offset, transposing bands and matrices, reshaping, reading '
     'from and saving to files. Every element is addressable, holds what it should, and inputs stay as they were.',
     'cubes and matrices of 2.1 to 4.4 GB of several types and of flat, narrow and cubic shapes, probed at the ends, around the powers of two of bytes and elements, and at random',
     'No test can afford the size; a 32-bit size computation is invisible below it.',
     [HM, SM, IMP, PROC + 'spectralprocess.c', PROC + 'datatypechange.c', HPP, 'modules/core/src/cxx_src/hypermat.cpp'],
     [('size computations in size_t', HM), ('index computations of conversions, ranges, bands, parts and transposes', IMP), ('convertTo, range, open', HPP)],
     [dict(variant='fast', mode='normal', scen='big_cube big_image big_bsq2bil big_bsq2bip big_bil2bsq big_bil2bip big_bip2bsq big_bip2bil big_inplace big_range '
           'big_bands big_transpose big_reshape big_types big_read big_save'.split(), mult=1.0, shards=3, cpu=400),
      dict(variant='fast', mode='normal', scen='big_hymat big_cx_convert big_cx_range big_cx_open'.split(), mult=1.0, shards=3, cpu=400)],
     monitor='probes of the elements around every power of two of the byte and element counts, and the allocator registry', thorough=2,
     technique='runtime monitoring: oversized images in the real code, probed at the boundaries')
prop('C56', 'Filters and blurs are not truncated on images beyond 2^31 elements',
     '2D filters, median and mean blurs, integral images, Gaussian blurs, Laplacian and Sobel derivatives '
     'of images of more than 2^31 elements are not truncated, do not fail and write nowhere else: every element '
     'of the result is what the operation defines, as for small images, and the input stays as it was.',
     'images of a little more than 2^31 elements, near square, tall and wide, with one and three channels, random contents and parameters; results probed at both ends, around '
     'the powers of two of elements and bytes, and at random',
     'No test can afford the size; a 32-bit index or size is invisible below it.',
     [FIL, PROC + 'gradient.c'], [('index computations of filters', FIL), ('index computations of derivatives', PROC + 'gradient.c')],
     vast(['vast_laplacian', 'vast_sobel vast_mean_blur', 'vast_median'],
          ['vast_gauss vast_gauss_3', 'vast_filter2d vast_filter2d_3 vast_integral']),
     monitor='probes of result elements around every power of two of the element and byte counts against an independent computation, and the allocator registry', thorough=4,
     technique='runtime monitoring: oversized images in the real code, probed at the boundaries')
prop('C60', 'Geometry and morphology are not truncated on images beyond 2^31 elements',
     'Flips, added borders, both pyramids, rotation, erosion and dilation '
     'of images of more than 2^31 elements are not truncated, do not fail and write nowhere else: every element '
     'of the result is what the operation defines, as for small images, and the input stays as it was.',
     'images of a little more than 2^31 and 2^32 elements, near square, tall and wide, with one and three channels, random contents and parameters; results probed at both ends, around '
     'the powers of two of elements and bytes, and at random',
     'No test can afford the size; a 32-bit index or size is invisible below it.',
     [GEO, FIL, PROC + 'morphology.c', IMP], [('index computations of geometric operations', GEO), ('index computations of morphology', PROC + 'morphology.c')],
     vast(['vast_pyr_up vast_erosion', 'vast_pyr_down vast_dilation vast_flip_h vast_flip_v vast_flip_both vast_flip_h_3 vast_flip_v_3 vast_flip_both_3 vast_rotate vast_border vast_border_const']),
     monitor='probes of result elements around every power of two of the element and byte counts against an independent computation, and the allocator registry', thorough=4,
     technique='runtime monitoring: oversized images in the real code, probed at the boundaries')
prop('C57', 'Point-wise operations are not truncated on images beyond 2^31 elements',
     'Colour and gray conversions, the six thresholds, image addition, the logarithm, conversions from float and between all data types, '
     'radiometric calibration and drawing on images of more than 2^31 elements are not truncated, do not fail and write nowhere else: every '
     'element of the result is what the operation defines, as for small images, and the input stays as it was.',
     'images and cubes of a little more than 2^31 and in part 2^32 elements, near square, tall and wide, random contents and parameters; results probed at both ends, around '
     'the powers of two of elements and bytes, and at random',
     'No test can afford the size; a 32-bit index or size is invisible below it.',
     [PROC + 'colortransform.c', PROC + 'threshold.c', IMP, PROC + 'datatypechange.c', PROC + 'RadiometricCalibration.c', GUI + 'draw.c'],
     [('loop counters and index computations of point-wise operations', PROC + 'threshold.c')],
     vast(['vast_add_float vast_add_uchar'],
          ['vast_log vast_radiometric vast_float2uchar vast_uchar2float vast_uchar2int vast_ushort2float vast_float2uc vast_float2ushort vast_float2int',
           'vast_binary vast_binary_inv vast_trunc vast_tozero vast_tozero_inv vast_otsu vast_bgr_rgb vast_gray2rgb vast_binary2rgb vast_gray_average vast_gray_max '
           'vast_gray_weighted vast_points vast_points_3 vast_line vast_line_3']),
     monitor='probes of result elements around every power of two of the element and byte counts against an independent computation, and the allocator registry', thorough=4,
     technique='runtime monitoring: oversized images in the real code, probed at the boundaries')
prop('C58', 'Statistics of images beyond 2^31 elements take in every element once',
     'Mean, variance, histogram, contrast, entropy, edge energy, Hu moments, the band means of a cube, min-max stretch, histogram equalization, the '
     'four normalizations, spectral angles and k-means clusters of images of more than 2^31 elements take every element into account, once, and '
     'give the values that the operation defines, as for small images; the input stays as it was. (Counts of one gray level that exceed 2^31 - 1 do not fit their type and are left out.)',
     'byte and float images of a little more than 2^31 and in part 2^32 elements, near square, tall and wide, random contents',
     'No test can afford the size; a 32-bit count, sum or index is invisible below it.',
     [SM, PROC + 'spectralprocess.c', ALG + 'normalize.c', ALG + 'HisEqualization.c', ALG + 'EdgeSignalEnergy.c', ALG + 'shapematch.c', ALG + 'cluster.c', PROC + 'mathprocess.c'],
     [('counts, sums and index computations of statistics', SM), ('sums and index computations', ALG + 'normalize.c')],
     vast(['vast_edge_energy', 'vast_norm_inf vast_norm_l1 vast_norm_l2 vast_norm_minmax vast_mean vast_variance vast_entropy vast_contrast'],
          ['vast_fnorm_inf vast_fnorm_l1 vast_fnorm_l2 vast_fnorm_minmax vast_variance_4 vast_variance_5 vast_variance_12 vast_variance_3 vast_variance_2 vast_variance_13 vast_variance_14 vast_variance_15', 'vast_sam vast_hm_mean vast_histogram vast_equal vast_kmeans vast_hu vast_histogram_3'],
          ['vast_stretch']),
     monitor='results against independent computations over all elements, probes around every power of two of the element and byte counts, and the allocator registry', thorough=3,
     technique='runtime monitoring: oversized images in the real code, probed at the boundaries')
prop('C59', 'Images with an axis of millions of samples are handled like others',
     'Images, matrices and cubes with an axis of 8 to 18 million rows, columns, samples, lines or (in memory) bands, longer than a float can count and than a byte times '
     'a position fits into an int, are handled as others are: layout and type conversions, ranges, bands, transposes, filters, blurs, derivatives, '
     'pyramids, rotation, morphology, thresholds, colours, statistics, equalization, normalization, moments, '
     'drawing, and reading and writing files give what the operation defines, and touch no memory outside of their images.',
     'images of one to three long rows or columns, cubes with one long axis, random types, layouts, contents and parameters',
     'No test uses an axis of more than some hundred samples; coordinates kept in float or multiplied in int fail only here.',
     ['modules/core', 'modules/process', 'modules/algorithm', 'modules/highgui'], [('coordinate arithmetic of every operation', 'modules/process/src/c_src')],
     [dict(variant='asan', mode='normal', scen=LONGC.split(), mult=1.0, cap=4, shards=4, args=['--long'], cpu=250),
      dict(variant='asan', mode='normal', scen=['pyr_up'], mult=1.0, cap=6, shards=2, args=['--long'], cpu=250),
      dict(variant='asan', mode='normal', scen='cx_convert cx_chain cx_range cx_create cx_save_open cx_hdr_forms'.split(), mult=1.0, cap=6, shards=6, args=['--long'], cpu=250)],
     monitor=ASAN)
prop('C53', 'A failed allocation ends the call with an error, never with a crash',
     'When any allocation inside of an operation fails, alone or together with all later ones, the call ends the program with a message that starts with ERROR: and '
     'exit status 1 (or reports failure by its result) or completes with the right result; it never crashes, corrupts memory or '
     'returns a wrong result.',
     'every operation of both interfaces and the file operations, failing each allocation it makes in turn at random',
     'No test lets an allocation fail.',
     ['modules/core', 'modules/process', 'modules/algorithm', 'modules/highgui', 'modules/satellite'], [('checks after every allocation', 'modules')],
     [dict(variant='asan', mode='oom', scen=(ALLC + ' ' + FILEC).split(), mult=0.06),
      dict(variant='asan', mode='oom', scen=CXX.split(), mult=0.2)],
     kinds=('oom',), over=('inputs', 'fault_sequences'), monitor='interposed allocator that lets one chosen request fail; exit status, message and sanitizer reports of the child process',
     rule='Random cases of every scenario; for each, one or two of its allocations fail in a child process. Non-trivial when the child was judged; distinct by the parameters and the failing request.',
     technique='runtime monitoring with fault injection: interposed allocator under ASan, every allocation of random calls may fail', thorough=10)
