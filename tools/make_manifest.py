#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE = "petrofit/petrosian/core.py"
CORR = "petrofit/petrosian/correction.py"
MOD = "petrofit/modeling/models.py"
FIT = "petrofit/modeling/fitting.py"
PHOT = "petrofit/photometry.py"
SEG = "petrofit/segmentation.py"
UT = "petrofit/utils.py"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, title
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier={"over": over, "text": text},
            why_tests_cant=why,
            anchors={
                "files": files,
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": [w for _, w in mech],
                "hook_needed": None,
            },
            _technique=technique,
            _note=note,
        )
    )


IN, HI, CF = "inputs", "histories", "configurations"

prop(
    "C01",
    "Petrosian profile is annulus brightness over mean interior brightness",
    "For any non-decreasing list of aperture areas and its fluxes, the Petrosian value of each aperture is the mean surface brightness of the annulus between it and the previous smaller aperture divided by the mean surface brightness inside it; the first value is undefined (NaN) and apertures with repeated areas share the value of the first of them. "
    "When flux or area errors are given, the error profile is the Gaussian propagation of them through that ratio (a missing one counts as zero), and the profile itself is the same with and without errors. "
    "The numeric type or container of the inputs does not matter, the inputs are not modified, and decreasing, mismatched or fewer-than-three-point inputs are rejected.",
    [IN],
    "all area and flux lists (repeats, negative annuli, any length >= 3), optional error lists, containers and dtypes",
    "The tests compare one image's profile with stored numbers, at distinct float areas without errors.",
    [CORE],
    [("calculate_petrosian", CORE), ("Petrosian._update_petrosian", CORE)],
    "property-based testing against a reference model",
    "Random area/flux/error lists compared element by element with an independent scalar implementation; rejection cases by construction.",
)
prop(
    "C02",
    "Petrosian radius is where the profile first falls to eta",
    "The Petrosian radius is the radius where the interpolated Petrosian profile (taken as 1 at radius zero) first falls to eta, located to within the interpolation sampling, for every supported kind of interpolation and every sampling number; with interpolation disabled it is one of the given radii. "
    "It is NaN if and only if the profile never falls to eta, and it does not depend on the unknown first profile value. "
    "Its error is half the difference between the radii of the profile raised and lowered by its errors, NaN without errors, and giving errors never changes the radius.",
    [IN, CF],
    "all profiles (monotonic, oscillating, never crossing), eta, interpolation kinds and sampling numbers, error profiles",
    "The tests use one smooth profile with the default interpolation and three values of eta.",
    [CORE, UT],
    [
        ("calculate_petrosian_r", CORE),
        ("get_interpolated_values", UT),
        ("closest_value_index", UT),
    ],
    "property-based testing against a reference model and analytic crossing oracle",
    "Random profiles and interpolation settings; oracle is an independent first-crossing search plus analytic crossings for linear interpolation.",
)
prop(
    "C03",
    "Flux-fraction radii and fluxes invert the curve of growth",
    "The radius of a flux fraction is the first radius where the interpolated curve of growth reaches that fraction of (flux within r_petrosian times epsilon, divided by epsilon_fraction), to within the interpolation sampling; half-light, total-flux, r_20/r_80 and concentration results all agree with it, and the total and half flux are the curve of growth at those radii. "
    "Results are NaN, never an exception or an extrapolation, when r_petrosian times epsilon lies outside the measured radii or the fraction is never reached, and the concentration index is 5 log10 of the ratio of its two radii. "
    "Errors are half the difference of the upper and lower bounds of the radius, and supplying flux errors never changes any central value.",
    [IN, CF],
    "all curves of growth, Petrosian radii, epsilon, epsilon_fraction, fractions, interpolation kinds, error arrays",
    "The tests check one galaxy's stored radii at the default settings, never an out-of-range radius or errors.",
    [CORE],
    [
        ("fraction_to_r", CORE),
        ("calculate_concentration_index", CORE),
        ("Petrosian.total_flux/half_flux/r_half_light/c2080", CORE),
    ],
    "property-based testing against a reference model",
    "Random curves of growth and settings compared with an independent inversion; boundary radii included.",
)
prop(
    "C04",
    "Petrosian results depend on current settings only, not on history",
    "At any time every result of a Petrosian object equals that of a new object built from the same data and the current settings (eta, epsilon, epsilon_fraction, total_flux_fraction), whatever was set, read, plotted, copied or corrected before. "
    "Changing a copy never changes the original, and no operation modifies the data arrays given to the object.",
    [HI],
    "all sequences of setting changes, reads, plots, copies and corrections on one or several related objects",
    "The tests set one attribute once and look at one result.",
    [CORE, CORR],
    [("Petrosian properties and setters", CORE), ("PetrosianCorrection.correct", CORR)],
    "stateful (model-based) property-based testing",
    "Random operation sequences on several live objects; after each step all results are compared with freshly built objects.",
)
prop(
    "C05",
    "Measurements are equivariant under flux and length unit changes",
    "Multiplying image or curve-of-growth fluxes (and flux errors) by a positive constant multiplies every flux and its photometric errors by it and leaves Petrosian profiles, all radii, radius errors and concentration indices unchanged. "
    "Multiplying radii by a constant and areas by its square multiplies every radius and radius error by the constant and leaves fluxes, profile and concentration unchanged. "
    "This holds over many orders of magnitude of the constants.",
    [IN],
    "all curves of growth and images, scale constants from 1e-20 to 1e20, interpolation kinds",
    "The tests never rescale anything.",
    [CORE, PHOT],
    [("Petrosian", CORE), ("radial_photometry", PHOT)],
    "metamorphic property-based testing",
    "Each random measurement is repeated in other units and compared.",
)
prop(
    "C06",
    "Ideal Sersic profiles are recovered by Petrosian measurements",
    "For the exact curve of growth of any Sersic profile sampled finely enough, the measured Petrosian radius satisfies the analytic Petrosian equation, and with epsilon set to r_99/r_petrosian the half-light radius, total-flux radius, total flux, flux fractions and concentration index equal the analytic ones within the sampling error. "
    "The same holds for any elliptical axis ratio when areas and fluxes scale together.",
    [IN],
    "all amplitudes, effective radii, Sersic indices (0.5 to 6), axis ratios, samplings and eta",
    "The tests use a single n and effective radius.",
    [CORE, MOD],
    [("Petrosian", CORE), ("sersic_enclosed", MOD), ("petrosian_profile", MOD)],
    "property-based testing against an analytic oracle",
    "Random Sersic parameters; oracle is the incomplete gamma function written independently.",
)
prop(
    "C07",
    "Analytic Sersic relations are mutually consistent",
    "The Sersic flux enclosed in a radius equals the integral of the Sersic intensity over that (elliptical) aperture, encloses half of the total at the effective radius, tends to the total flux at infinity, and its inverse returns the radius that encloses a given flux. "
    "The ideal Petrosian profile equals local intensity over mean interior intensity, and conversions between central and effective intensity agree with the profile and invert each other. "
    "The astropy-model versions of these give the same values as the functions.",
    [IN],
    "all amplitudes, radii, Sersic indices 0.2 to 10 and ellipticities, scalar and array inputs",
    "The tests use these functions only as helpers at a handful of parameters.",
    [MOD],
    [
        ("sersic_enclosed, sersic_enclosed_inv", MOD),
        ("petrosian_profile", MOD),
        ("Ie_to_I0, I0_to_Ie", MOD),
    ],
    "property-based testing: numeric quadrature, round trip",
    "Random parameters against numerical quadrature of the Sersic law and round trips.",
)
prop(
    "C08",
    "Generalised Sersic, core-Sersic and Nuker models follow their laws",
    "The generalised Sersic model equals the standard Sersic model when its boxiness is zero, has the Sersic intensity on each generalised-ellipse isophote |x'/a|^(c+2)+|y'/b|^(c+2) rotated counter-clockwise by theta, with the surface brightness `amplitude` on the isophote of semi-major axis r_eff. "
    "The Nuker model depends only on the distance to its centre, has value `amplitude` at the break radius, and follows the Nuker law elsewhere (undefined at the exact centre); the core-Sersic model follows the law of Graham et al. (2003) on ellipses, with value `amplitude` at the break radius. "
    "Default parameter bounds contain their documented ranges, honour overrides, and are never changed by a caller modifying or overriding an earlier result.",
    [IN, HI],
    "all parameter values (boxiness, ellipticity, rotation, centre, slopes), positions and override sequences",
    "The tests never evaluate these models.",
    [MOD],
    [
        ("GenSersic2D", MOD),
        ("Nuker2D, CoreSersic2D", MOD),
        ("get_default_sersic_bounds, get_default_gen_sersic_bounds", MOD),
    ],
    "property-based testing against closed-form reference models",
    "Random parameters and positions against independently written profile laws.",
)
prop(
    "C09",
    "Model images sample the model at the documented pixel coordinates",
    "A model image has shape (y_size, x_size), and its pixel in row j and column i is the model at x = x_origin + i and y = y_origin + j, where the origin is zero or, for a given centre, the centre minus half of the size rounded down; equivalently the same sky region is produced whatever window is asked for. "
    "A sampling grid of given size, origin and factor holds factor x factor evenly spaced sub-pixel centres for each pixel, whose average position is the pixel centre. "
    "Sizes which are not whole numbers or pairs of them, centres which are not pairs and fractional sampling factors are rejected, and the model is not modified.",
    [IN, CF],
    "all sizes (square, non-square), centres, factors, origins and models",
    "The tests use a square image with the default centre.",
    [MOD, FIT],
    [("make_grid", MOD), ("model_to_image, model_center_to_image_origin", FIT)],
    "property-based testing against direct evaluation",
    "Random sizes, centres and models compared pixel by pixel with direct model evaluation.",
)
prop(
    "C10",
    "Oversampled model images are sub-pixel averages of the model",
    "Without a PSF, a model image oversampled by an integer factor has in each pixel the average of the model over that pixel's factor x factor sub-pixel centres, and without oversampling the model at the pixel centre. "
    "With an oversampling window (centre, size, factor) exactly the pixels of the window centred there, given by numbers or by the names of model parameters at their current values, are averaged that way and all others are sampled at the pixel centre. "
    "This holds for any position of the window, including partly or fully outside the image, and any image origin, and non-square images.",
    [IN, CF],
    "all models, image sizes and origins, factors, window positions (inside, crossing an edge, outside), parameter values",
    "The tests use one whole-image factor and windows at the image centre.",
    [MOD],
    [("PSFConvolvedModel2D.evaluate, oversample", MOD)],
    "property-based testing against a reference model",
    "Random models and windows compared pixel by pixel with naive sub-pixel averages.",
)
prop(
    "C11",
    "PSF convolution equals direct convolution with the rotated PSF",
    "With a PSF, the model image is the (oversampled, if asked) model image convolved with that PSF, rotated by the current psf_pa angle, at data or psf_oversample resolution and then averaged to data resolution. "
    "It therefore is linear in the PSF and in the model amplitude, equals the unconvolved image for a delta PSF, preserves the total flux of a source well inside the image for a normalised PSF, and shifts sources towards where an off-centre PSF puts its light. "
    "PSF and model arrays are not modified.",
    [IN, CF],
    "all PSF arrays (asymmetric, odd sizes), angles, psf_oversample and oversample combinations, models",
    "The tests check one symmetric PSF at a fixed angle against a stored image.",
    [MOD],
    [("PSFConvolvedModel2D.evaluate, psf, psf_oversample, psf_pa", MOD)],
    "property-based testing against a direct-sum reference convolution",
    "Random PSFs and settings compared with an explicit-loop convolution of an independently sampled image.",
)
prop(
    "C12",
    "PSF-convolved models depend on current state only and mirror their model",
    "Evaluating a wrapped model always gives the same image as a newly wrapped model with the same parameters, PSF, oversampling and coordinates, whatever grids, images, parameters, oversampling or caching options were used before, for it or its copies. "
    "The wrapper has the parameters, fixed flags and bounds of its model plus psf_pa, returns a sub-model carrying the wrapper's current parameter values, flags and bounds, and never changes the model it was given. "
    "Invalid oversampling or PSF-oversampling values and combinations are rejected and leave the state usable and unchanged.",
    [HI, CF],
    "all sequences of evaluations on different grids, setting changes, cache switching, copies and rejected settings",
    "The tests evaluate each wrapper once or twice on one grid.",
    [MOD],
    [
        ("PSFConvolvedModel2D sampling-grid cache", MOD),
        ("PSFConvolvedModel2D.model, oversample, psf_oversample, cache_grid", MOD),
    ],
    "stateful (model-based) property-based testing",
    "Random histories on live wrappers; every evaluation is compared with a fresh wrapper, every setter with a rule model.",
)
prop(
    "C13",
    "Fitting recovers models and ignores invalid pixels",
    "Fitting a noiseless image of a model from a nearby start recovers the image and its parameters, with pixel coordinates x = column and y = row. "
    "NaN and masked pixels never influence the result, whatever values hide under a mask, and weights act as inverse errors: pixels of zero weight do not influence it and a common factor does not matter. "
    "Fixed parameters and bounds are honoured, and neither image, weights nor the initial model are modified. Options (fitter, iterations, uncertainties and so on) reach the fitter.",
    [IN, CF],
    "all models (linear and non-linear), parameter values, non-square images, NaN/mask patterns, weights and fitters",
    "The tests fit one galaxy image without masks, NaNs or weights.",
    [FIT],
    [("fit_model", FIT), ("fit_gaussian2d", FIT)],
    "property-based testing: recovery, differential and metamorphic relations",
    "Random model images with garbage in invalid pixels; exact least squares as the oracle for linear models.",
)
prop(
    "C14",
    "Background fits recover the background and clip outliers",
    "The background fit of an image that is a plane (or another given background model) returns that background at every pixel, including when a minority of pixels hold sources far above it or NaN values, for every supported fitter. "
    "With clipping disabled the fit is the plain least-squares fit of all valid pixels, and with clipping it is the fit of the pixels which survive sigma clipping. "
    "The image is not modified.",
    [IN, CF],
    "all planes, image shapes, noise levels, outlier patterns, NaN patterns, sigmas, fitters",
    "The tests subtract one background and look at one image.",
    [FIT],
    [("fit_background", FIT), ("fit_model", FIT)],
    "property-based testing against exact linear least squares",
    "Random planes with outliers against numpy least squares on the clipped pixels.",
)
prop(
    "C15",
    "Aperture photometry sums exactly the unmasked flux in each aperture",
    "For each radius the flux is the sum over unmasked pixels of pixel value times overlap with the ellipse of that semi-major axis, elongation and orientation, the area is the same sum of overlaps, and the error is the square root of the sum of squared pixel errors times overlap; mask value True means the pixel is used. "
    "What lies under masked pixels or outside the image never matters, results for one radius do not depend on the other radii or their order, and flux is linear in the image. "
    "A NaN among the used pixels of an aperture is refused. Inputs are not modified, and without an error map the errors are NaN.",
    [IN, CF],
    "all images, positions (fractional, near or off edges), radii lists, elongations, angles, masks, errors, overlap methods",
    "The tests measure one circular source without mask or error map.",
    [PHOT],
    [("radial_photometry, radial_elliptical_aperture", PHOT)],
    "property-based testing against a naive reference and metamorphic relations",
    "Random images and apertures against a naive pixel sum (centre method), a fine sub-pixel sum (exact) and metamorphic relations.",
)
prop(
    "C16",
    "Segment masks keep exactly the selected sources",
    "The mask of one or several sources (labels, numpy integers, catalogue entries or lists mixing them) is True exactly on their segments and, unless background masking is requested, on the unsegmented background. "
    "The masked image equals the image where the mask is True and the fill value (NaN by default) elsewhere, has the same type, and shares no data with the input. "
    "Image, segmentation and the list of sources are never modified, so repeating a call gives the same result, and other argument types are rejected.",
    [IN, HI],
    "all segmentation maps, label selections, image kinds (array, CCDData), fill values, repeated calls",
    "The tests mask one source of one image.",
    [SEG],
    [("segm_mask, masked_segm_image", SEG)],
    "property-based testing against a set-based reference",
    "Random segmentation maps and selections compared with numpy set membership.",
)
prop(
    "C17",
    "Source photometry measures only the chosen source's own pixels",
    "Photometry of a catalogue source equals elliptical-aperture photometry at its brightest pixel with its elongation and orientation on the image with all other sources (and the background, if masked) removed; pixel values of other sources, pixels outside the image and NaN pixels never influence it, and the inputs are not modified. "
    "With background subtraction the result is unchanged by adding a constant to the image (or any plane, where clipping removes no background pixel), does not depend on the source itself, and equals photometry of the image minus the plane fitted to clipped non-source pixels of the cutout. "
    "The cutout size (if it contains the apertures) does not matter without background subtraction, and unknown clipping types are rejected.",
    [IN, CF],
    "all multi-source scenes, source positions (near edges), radii, cutout sizes, background planes, errors, methods",
    "The tests measure one isolated source.",
    [SEG, PHOT, FIT],
    [("source_photometry", SEG), ("masked_segm_image", SEG), ("fit_background", FIT)],
    "property-based testing: differential and metamorphic",
    "Random scenes with hand-made segmentation; differential against full-frame photometry, metamorphic under planes and neighbour changes.",
)
prop(
    "C18",
    "Catalogues, segmentation and ordering describe the image's sources",
    "Segments are exactly the connected groups of at least npixels pixels above the threshold, deblending only splits them, and the catalogue has one row per final segment with its area, brightest pixel, elongation, ellipticity and orientation (in radians) as the accessors return them, for catalogues and table rows alike. "
    "Ordering returns a permutation of the catalogue sorted by the chosen column, largest first by default. "
    "Plotting options, array-like image wrappers, and repeating a call do not change the result.",
    [IN, CF],
    "all images (several sources, touching, at edges), thresholds, npixels, keys, orders, wrappers",
    "The tests build one catalogue of one image.",
    [SEG],
    [
        ("make_segments, deblend_segments, make_catalog", SEG),
        ("order_cat, get_source_*", SEG),
    ],
    "property-based testing against an independent labelling reference",
    "Random scenes against a flood-fill labelling and direct pixel statistics.",
)
prop(
    "C19",
    "Correction grids hold each simulated galaxy's own measurements",
    "A generated correction grid has exactly one row for each pair of the requested Sersic indices and effective radii, with the documented columns, whose analytic columns equal the Sersic formulas and whose measured columns equal the measurement of that one galaxy with the given PSF and oversampling. "
    "A row does not depend on which other rows are requested, their order, the number of processes or whether a file is written, and the file reads back as the returned table. "
    "The corrected epsilon of a row turns that galaxy's Petrosian radius into its true 99%-flux radius.",
    [IN, CF],
    "all lists of Sersic indices and effective radii (any order, repeats), PSF, oversampling, process counts",
    "The tests generate one small grid and compare stored values.",
    [CORR, MOD],
    [
        ("generate_petrosian_sersic_correction", CORR),
        ("PetrosianCorrection.read, write", CORR),
    ],
    "property-based testing: differential and analytic oracle",
    "Random small grids against an independent re-measurement and single-row grids.",
)
prop(
    "C20",
    "Corrections use the nearest grid row and the stated epsilon",
    "The corrected Petrosian object differs from the given one only in epsilon, which is the ratio of the row's corrected radius for the object's epsilon_fraction (0.5, 0.8 or 0.99) to its Petrosian radius for the object's eta (0.2 to 0.5), in the grid row nearest to the measured (r_petrosian at eta 0.2, r_50, C2080) in standard-deviation units; the Sersic index estimate comes from that row too. "
    "Measurements outside the grid raise when range enforcement is on (the default) and use the nearest row when off, and other eta or epsilon_fraction values are rejected. "
    "Grid listing, filtering, reading and writing return exactly the grid's contents, and neither object nor grid is modified.",
    [IN, CF],
    "all grids, Petrosian objects (inside and outside the grid), settings, and file round trips",
    "The tests correct one profile with one stored grid at default settings.",
    [CORR],
    [("PetrosianCorrection", CORR)],
    "property-based testing against a brute-force reference",
    "Random synthetic grids and Petrosian objects against brute-force nearest-row search.",
)
prop(
    "C21",
    "Elliptical apertures and annuli have the requested geometry",
    "An elliptical aperture of semi-major axis r and elongation e has semi-axes r and r/e, area pi r^2/e, the given centre and orientation (radians, counter-clockwise), and an annulus has those inner axes and outer axes r+dr and (r+dr)/e. "
    "Hence an aperture's exact flux plus that of the annulus around it equals the flux of the larger aperture.",
    [IN],
    "all positions, radii, thicknesses, elongations and angles",
    "The tests check one aperture and one annulus.",
    [PHOT],
    [("radial_elliptical_aperture, radial_elliptical_annulus", PHOT)],
    "property-based testing",
    "Random geometry; attributes, areas and additivity of exact photometry.",
)
prop(
    "C22",
    "Unit and geometry conversions are exact and invert each other",
    "Ellipticity/elongation, area/radius and angle/pixel conversions satisfy their defining formulas for scalars and arrays and undo each other, using the pixel scale of the WCS whatever its units, rotation or orientation; the angular radii of a Petrosian object are its pixel radii in arcseconds. "
    "AB magnitudes follow the HST calibration keywords, fall by 2.5 for each factor of ten in flux, and are NaN for fluxes that are not positive, for scalars, lists and arrays of any number type. "
    "Inputs are not modified, and a WCS with clearly non-square pixels is rejected.",
    [IN],
    "all values, WCS scales/rotations/units, header values, scalar and array types",
    "The tests check a few numbers each.",
    [UT, CORE],
    [
        ("ellip_to_elong, elong_to_ellip, elliptical_area_to_r, circle_area_to_r", UT),
        ("angular_to_pixel, pixel_to_angular, hst_flux_to_abmag", UT),
    ],
    "property-based testing: closed forms and round trips",
    "Random values and synthetic WCS objects against closed formulas.",
)
prop(
    "C23",
    "Array utilities agree with their brute-force definitions",
    "The closest-value search returns the index of the value closest to the target among those up to the first crossing (downwards, or upwards for growing data), first on ties and never a NaN, and None if there is no crossing; interpolation samples the requested number of evenly spaced points (at least as many as given) over the data range and reproduces the data; radius lists have n values ending at the maximum, evenly spaced or from 1 in even logarithmic steps. "
    "Natural sort orders embedded digit groups by numeric value, is case-insensitive and stable; cutout subtraction returns a copy with the cutout subtracted where it overlaps; catalogue matching returns the nearest neighbour on the sky. "
    "None of them modifies its inputs.",
    [IN],
    "all arrays, targets, strings, cutout positions (odd, even, crossing edges), catalogues",
    "The tests check one or two examples each.",
    [UT],
    [
        ("closest_value_index, get_interpolated_values, make_radius_list", UT),
        ("natural_sort, cutout_subtract, match_catalogs", UT),
    ],
    "property-based testing against brute-force references",
    "Random inputs against brute-force definitions.",
)
prop(
    "C24",
    "Isophote amplitudes and FWHM match the underlying model",
    "For a well-sampled image of an elliptical profile, the amplitude at an isophotal radius is the model's value on the ellipse with that semi-major axis, centre, ellipticity and orientation (where that ellipse lies in the image), NaN with a warning (never an exception) for an image without measurable isophotes, and the same for arrays and image wrappers. "
    "The FWHM of an image of a Gaussian aligned with the axes is 2.3548 times its standard deviations in x and y, whatever its amplitude, position near the centre and image shape, NaN or masked pixels do not matter, and printing or plotting options do not change it.",
    [IN, CF],
    "all profiles, geometries, radii, image wrappers and options",
    "The tests cover neither beyond one source.",
    [SEG, FIT],
    [("get_amplitude_at_r", SEG), ("measure_fwhm, fit_gaussian2d", FIT)],
    "property-based testing against the analytic model",
    "Random profiles against their analytic value.",
)
prop(
    "C25",
    "Plotting only observes: it never changes data or results",
    "Every plotting function and plot option works for any data its measuring counterpart accepts, including profiles with undefined (NaN) radii and with or without errors. "
    "It leaves all objects and arrays it is given unchanged, and results computed with plotting enabled are identical to those computed without; model-fit plots return the model image and data minus model. "
    "What is drawn shows the data: profile and curve-of-growth lines, error bars and bands hold the object's radii, values and errors, and marks and labels are at and name the measured radii.",
    [IN, CF],
    "all Petrosian objects, images, segmentations, models and options",
    "The tests call a few plots once and look at nothing.",
    [CORE, CORR, SEG, FIT, PHOT, UT],
    [
        ("Petrosian.plot, plot_cog, imshow", CORE),
        ("plot_fit", FIT),
        ("plot_segments, plot_segment_residual", SEG),
        ("plot_target, plot_apertures", UT),
    ],
    "property-based testing: differential with and without plotting",
    "Random inputs with plotting on and off (Agg backend), drawn line data read back.",
)
prop(
    "C26",
    "Sersic/Petrosian approximations stay close to the exact relations",
    "Over the Sersic indices 0.5 to 5.5 the approximation helpers (C2080 correction, C2080 to Sersic index, Sersic index to epsilon, P0502 to epsilon) reproduce the exact relations of ideal Sersic profiles (0.5 percent, but 4 percent for the Sersic index and 3 percent for epsilon from P0502) and rise steadily with their argument. "
    "They give the same results for scalars and arrays.",
    [IN],
    "all Sersic indices in the calibrated range, scalars and arrays",
    "The tests do not evaluate these helpers.",
    [MOD],
    [("PetroApprox", MOD)],
    "property-based testing against an analytic oracle",
    "Random Sersic indices against quantities solved numerically from the exact profile.",
)
prop(
    "C27",
    "End-to-end measurements of simulated galaxies recover their truth",
    "Simulating a galaxy from a Sersic model, detecting it, measuring it by source or radial photometry, and correcting epsilon recovers its position, half-light radius, total flux and concentration within pixel-sampling accuracy, wherever it lies in the image and for any flux scale. "
    "Rotating by 90 degrees, mirroring, transposing or shifting the image by whole pixels changes the measured curve of growth and Petrosian radii not at all.",
    [IN],
    "all galaxy parameters, positions, orientations, image sizes, flux scales",
    "The tests run one galaxy at one place.",
    [CORE, PHOT, SEG, FIT, MOD],
    [
        ("make_catalog, source_photometry", SEG),
        ("radial_photometry", PHOT),
        ("Petrosian", CORE),
    ],
    "metamorphic and model-recovery property-based testing",
    "Random simulated galaxies through the whole pipeline, compared with truth and with symmetry-transformed images.",
)


def main():
    have = {
        f[:-3].upper()
        for f in os.listdir(os.path.join(HERE, "checks"))
        if f.startswith("c") and f.endswith(".py")
    }
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            row = {k: v for k, v in p.items() if not k.startswith("_")}
            fh.write(json.dumps(row) + "\n")
    checks, missing = [], []
    for p in P:
        if p["id"] in have:
            checks.append(
                {
                    "property": p["id"],
                    "quick_cmd": "python3 run.py check %s quick" % p["id"],
                    "thorough_cmd": "python3 run.py check %s thorough" % p["id"],
                    "evidence_file": "evidence/%s.json" % p["id"],
                    "technique": p["_technique"] + " (Hypothesis)",
                    "level": "exploration",
                    "level_note": p["_note"]
                    + " Assurance is that of the cases generated: no proof of absence.",
                }
            )
        else:
            missing.append(
                {"property": p["id"], "reason": "check under construction"}
            )
    manifest = {
        "version": 1,
        "setup_cmd": "python3 run.py selftest",
        "checks": checks,
        "not_applicable": missing,
        "notes": "All checks import petrofit from /repo's working tree and compile it fresh; no hooks are needed.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")
    print(len(P), "properties;", len(checks), "checks")


main()
