PROPS = []
NOT_APPLICABLE = {}


def P(id, title, statement, over, text, why, mech, oracle, **k):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, mech=mech, oracle=oracle, **k))


R = 'hexrd/core/rotations.py'
P('C01', 'Rotation representations convert consistently and compose correctly',
  'Quaternions, exponential maps, rotation matrices, angle/axis pairs and Euler angles convert into one another so that every form describes '
  'the same rotation, with unit quaternions of nonnegative scalar part, for all rotations including identity and exact half turns. Quaternion '
  'product, inverse and product matrices agree with matrix multiplication and inversion in the documented order. A mutable Euler-angle object '
  'describes the same rotation through all its views after any history of assignments to angles, units, order, convention, matrix or exponential map.',
  ['inputs', 'histories'], 'all rotations in every representation, singly or in batches; all sequences of assignments to an Euler-angle object',
  'Existing tests use a few fixed rotations; half turns, gimbal lock, degree units and assignment sequences are unsampled.',
  [f'{R}::quatOfExpMap', f'{R}::quatOfRotMat', f'{R}::quatOfAngleAxis', f'{R}::expMapOfQuat', f'{R}::rotMatOfQuat', f'{R}::rotMatOfExpMap',
   f'{R}::angleAxisOfRotMat', f'{R}::quatProduct', f'{R}::quatProductMatrix', f'{R}::invertQuat', f'{R}::fixQuat',
   f'{R}::make_rmat_euler', f'{R}::RotMatEuler'],
  'independent Rodrigues/Hamilton formulas, round trips and a model of the Euler object')
P('C02', 'Symmetry-reduced orientation algebra is correct for every Laue group',
  'Each Laue group is the exact closed set of proper rotations of its order; misorientation returns for each orientation the smallest equivalent '
  'angle and a quaternion realising it, is invariant under symmetric equivalents and is a metric. Reduction to the fundamental region returns an '
  'equivalent of minimal rotation angle and is idempotent; vector orbits, distances to fibers, sampled fibers and averages of orientations equal '
  'their brute-force definitions under the group.',
  ['inputs'], 'all orientations, vectors and all 14 Laue group tags, batches and 3-d arrays',
  'Tests sample a few orientations and one or two groups; ties, half turns and most groups are unvisited.',
  [f'{R}::quatOfLaueGroup', f'{R}::misorientation', f'{R}::toFundamentalRegion', f'{R}::applySym', f'{R}::distanceToFiber', f'{R}::discreteFiber',
   f'{R}::quatAverageCluster', f'{R}::quatAverage', 'hexrd/core/material/symmetry.py'],
  'brute-force enumeration over independently generated symmetry groups')
P('C03', 'Angle mapping, differences and range tests respect periodicity',
  'Mapping an angle into a period moves it by a whole number of periods into the requested range and leaves angles already inside unchanged; '
  'angular difference is the acute, symmetric distance on the circle for any inputs. Tests of whether angles lie in a set of ranges agree with '
  'walking counter-clockwise from each start to each stop.',
  ['inputs'], 'all angles, several periods away, both units, all ranges incl. wrapping and full-circle ones',
  'Tests use angles within one period and a handful of ranges.',
  [f'{R}::mapAngle', f'{R}::angularDifference', 'hexrd/core/transforms/xfcapi.py::validate_angle_ranges', 'hexrd/hedm/xrdutil/utils.py'],
  'modular-arithmetic reference')
X = 'hexrd/core/transforms'
P('C04', 'Diffraction-frame transforms equal their vector definitions, singly or batched',
  'Converting two-theta, azimuth and omega to diffracted-beam or reciprocal-lattice vectors, for any beam direction, azimuth reference, sample tilt and '
  'crystal orientation, gives the unit vectors defined by Bragg geometry in the stated frame, row by row whatever the batch size. Beam-frame, sample '
  'oscillation, detector tilt, half-turn and exponential-map rotation matrices are the proper rotations they are documented to be; rotating vectors about axes and normalising rows '
  'equal the textbook formulas, including zero vectors. The symmetry-reduced distance between two orientation quaternions is the smallest rotation angle over all equivalents.',
  ['inputs'], 'all angles, beam and azimuth vectors, chi, orientations, batch sizes and array layouts',
  'Tests use one or two fixed geometries, mostly the default beam and batches of one size.',
  [f'{X}/xfcapi.py', 'hexrd/core/extensions', 'hexrd/core/rotations.py'], 'independent numpy formulas')
P('C05', 'Oscillation solutions are exactly the omegas where Bragg condition holds',
  'For each reflection, crystal orientation, wavelength, sample inclination, beam, azimuth reference and stretch, the two returned angle triples are the two rotations about the oscillation axis '
  'that bring the reflection onto the Bragg condition, each with the right two-theta and azimuth. Reflections that cannot diffract give NaN for both, and reflections that '
  'can are never dropped.',
  ['inputs'], 'all reflections, orientations, chi, wavelengths, beams, stretches',
  'Tests compare against stored outputs for one geometry.',
  [f'{X}/xfcapi.py', 'hexrd/core/extensions'], 'forward substitution of the answer into Bragg equation plus a solvability criterion')
P('C06', 'Detector projection and back-projection of reflections are exact inverses',
  'The detector position predicted for a diffracting reciprocal vector is the point of the detector plane hit by the ray from the crystal along its diffracted '
  'beam, in detector coordinates, and NaN when the ray misses the plane; one sample rotation or one per reflection give the same result. Mapping detector positions back gives '
  'two-theta, azimuth and the reciprocal vector of exactly that ray for any beam, azimuth reference, sample and crystal position.',
  ['inputs'], 'all detector tilts and positions, sample rotations and offsets, crystal positions, beams, batch sizes',
  'Tests use a few fixed geometries with stored values.',
  [f'{X}/xfcapi.py', 'hexrd/core/extensions'], 'independent ray-plane intersection and round trip')
D = 'hexrd/core/distortion'
P('C07', 'Detector distortion functions and their inverses undo one another',
  'Every detector distortion model maps points to corrected points by its published formula, and its inverse recovers the original points over the whole panel, '
  'including the centre and points where radii grow. Points are handled independently of the batch, dtype and the caller\'s arrays are not modified.',
  ['inputs'], 'all parameters of either sign in the invertible range and all points on the panel',
  'Tests check one parameter set and a few points.',
  [f'{D}/ge_41rt.py', f'{D}/dexela_2923.py', f'{D}/dexela_2923_quad.py'], 'round trip and independent formulas')
G = 'hexrd/core/gridutil.py'
P('C08', 'Grid binning, connectivity, areas and polygon clipping are exact',
  'Every point is assigned to the half-open grid interval that contains it (points outside are flagged), for ascending or descending grids. Cell connectivity tiles the grid with each '
  'cell\'s own corners; element areas, centroids and convex polygon intersections equal the true geometric ones; tolerance grids cover the requested window.',
  ['inputs'], 'all grids, points (on edges too), affine images of grids, convex polygon pairs',
  'Tests cover one small grid and a single polygon pair.',
  [f'{G}::cellIndices', f'{G}::cellConnectivity', f'{G}::cellCentroids', f'{G}::computeArea', f'{G}::computeIntersection', f'{G}::sutherlandHodgman', f'{G}::make_tolerance_grid'],
  'brute-force bin search, shoelace areas, independent clipping')
M = 'hexrd/core/matrixutil.py'
P('C09', 'Tensor and vector utilities round-trip and match their definitions',
  'Conversions between 3x3 symmetric tensors and 6- or 9-vectors (with or without shear scaling), between skew matrices and vectors, and deviatoric/skew/symmetric parts '
  'are mutually inverse, correct for stacks, and leave their inputs unchanged. Finding unique vectors within tolerance, block matrices, row norms, null '
  'spaces, rotations between vector sets and image thresholding into sparse form return what their definitions say for every input.',
  ['inputs'], 'all tensors, stacks, vector sets with duplicates, images of every supported dtype',
  'Most of these functions have no direct test, or a single example.',
  [f'{M}', 'hexrd/core/extensions'], 'definitional reference and round trips')
I = 'hexrd/core/instrument'
P('C10', 'Planar detector angles, pixel maps and transmissions match its geometry',
  'For a planar detector with any tilt, position, pixel sizes, beam, azimuth reference and distortion, converting detector points to two-theta, azimuth and reciprocal vectors (sample rotated or translated) gives the true ray '
  'angles, and converting angles back returns the points. Cached per-pixel maps of angles, their gradients, angular pixel sizes and polarization/Lorentz factors always describe the current geometry, whatever sequence of '
  'geometry edits and queries came before. Projecting panel points onto another plane follows the straight line through the origin.',
  ['inputs', 'histories'], 'all planar panels and all histories of geometry edits interleaved with queries',
  'Tests use one panel in default orientation and never edit geometry between queries.',
  [f'{I}/planar_detector.py', f'{I}/detector.py', 'hexrd/core/utils/decorators.py'], 'independent ray geometry and a fresh detector as the model')
P('C11', 'Cylindrical detector angles, pixel maps and calibration match its geometry',
  'For a cylindrical detector of any radius, axis tilt and position, converting panel points to angles (sample rotated or translated) gives the true ray angles, and converting angles back returns the points, or NaN '
  'where the ray misses the panel. Cached per-pixel maps and the panel\'s axis, normal, angular extent and beam position always describe the current geometry after any sequence of edits.',
  ['inputs', 'histories'], 'all cylindrical panels and all histories of geometry edits interleaved with queries',
  'Tests use one panel with default axis and one sample position.',
  [f'{I}/cylindrical_detector.py', f'{I}/detector.py', 'hexrd/hed/xrdutil/utils.py', 'hexrd/hedm/xrdutil/utils.py'], 'independent ray-cylinder geometry and a fresh detector as the model')
P('C12', 'Pixel coordinates, panel clipping, interpolation and powder rings are right',
  'Cartesian and pixel coordinates are exact inverses for any panel size, pixel sizes and distortion; clipping keeps exactly the points on the panel '
  'outside its border or mask buffer. Nearest and bilinear interpolation return the image value of the pixel hit, or the bilinear blend of neighbours, for every on-panel point and '
  'dtype, with NaN (or zero) off panel. Powder rings contain exactly the requested azimuths whose patches lie on the panel, at the right two-theta.',
  ['inputs'], 'all panels, buffers, points, image dtypes, rings, azimuth lists and periods',
  'Tests use one panel without buffers or distortion and spot-check a few points.',
  [f'{I}/detector.py'], 'brute-force pixel arithmetic and ray geometry')
XT = 'hexrd/core/material'
P('C14', 'Lattice vectors and reduced lattice parameters describe the same cell',
  'For any lattice, the direct and reciprocal basis vectors, their duals, volumes and unit factors derived from reduced or full lattice parameters, from basis vectors or from a '
  'metric agree with one another and with the defining relations of a crystal lattice, in every frame convention, for degrees or radians. Rhombohedral and hexagonal descriptions '
  'of a lattice convert into each other without loss.',
  ['inputs'], 'all seven lattice systems with general parameters, both angle units, all frame conventions',
  'Tests use a few cubic or hexagonal cells.', [f'{XT}/crystallography.py'], 'metric-tensor reference and round trips')
P('C15', 'Plane data stays consistent through any history of edits',
  'After any sequence of edits to lattice parameters, wavelength or energy, Laue group, exclusions (given as masks, indices, ranges, two-theta, intensity or d limits), two-theta limit '
  'and width, sorting or hkl list, the plane data lists exactly the reflections that should be enabled, with d-spacings, two-thetas, widths, multiplicities, symmetric '
  'equivalents, hkl ids and merged two-theta ranges equal to those recomputed from the current state.',
  ['inputs', 'histories'], 'all histories of edits and queries on plane data of all Laue groups', 'Tests check single edits of one cubic material.',
  [f'{XT}/crystallography.py'], 'model object recomputing every query from the lattice metric and the Laue group')
P('C16', 'Space group operations and systematic absences match the Hall symbols',
  'For every space group and origin setting, the generated symmetry operations form exactly the group named by its Hall symbol, and point group, Laue group, centrosymmetry, '
  'lattice type and independent lattice parameters follow from it. A reflection is listed as allowed exactly when the operations do not extinguish it.',
  ['inputs'], 'all 230 space groups, both origin choices, all reflections', 'Tests cover a few common groups.',
  [f'{XT}/spacegroup.py', f'{XT}/symmetry.py', f'{XT}/symbols.py', 'hexrd/core/constants.py'],
  'independent Hall-symbol parser and exact rational arithmetic')
P('C17', 'Unit cells give right metrics, hkl families, atoms and structure factors',
  'For any lattice and space group, vector conversions, lengths, angles, cross products and Bragg angles between direct, reciprocal and Cartesian space follow the metric tensor, and '
  'symmetric stars are complete. The hkl list holds one representative, by decreasing spacing, of each allowed family above the limit. Equivalent atoms, density and structure factors (iso- or '
  'anisotropic displacement) equal a direct sum over the cell, and stiffness matrices have the symmetry of the crystal. All of it follows edits to lattice, energy, space group, limit and atoms.',
  ['inputs', 'histories'], 'all space groups, lattices, atom positions and edit histories', 'Tests use a handful of common materials.',
  [f'{XT}/unitcell.py', 'hexrd/powder/wppf/xtal.py'], 'direct sums in exact arithmetic and freshly built cells')
P('C18', 'Materials stay consistent through edits, files, pressure and composition',
  'After any history of lattice, space group, energy (any unit), d-limit, atom and exclusion edits, a material equals one freshly made with those values, and reflections keep their exclusion state. '
  'Saving to HDF5 or CIF and loading (or reading any CIF naming its space group by number, Hermann-Mauguin or Hall symbol, with uncertainties and charges, or a JCPDS card) restores it. Volume and pressure solve the '
  'Birch-Murnaghan equation at any temperature. Symmetry-duplicate atoms are removed. Composition utilities and unit conversions follow their definitions.',
  ['inputs', 'histories'], 'all histories of edits, material files, equations of state and compositions', 'Tests load a few stock files and make single edits.',
  [f'{XT}/material.py', f'{XT}/jcpds.py', f'{XT}/utils.py', 'hexrd/core/valunits.py'], 'freshly loaded materials, independent file writers, closed-form equations')
IS = 'hexrd/core/imageseries'
P('C19', 'Image series read back exactly what every file format holds',
  'Frames, shape, dtype, length, omegas and metadata of an image series written as HDF5 (any compression), frame cache (npz, fch5, open groups; pixels at or below the threshold become zero), or stored as raw images, '
  'image files (single- or multi-frame, empty frames, frame limits) or Eiger streams are read back exactly: by index, iteration, region, pixel selection, in threads and after pickling, whatever was '
  'read, changed or overwritten before. Writing leaves the source series unchanged.',
  ['inputs', 'histories', 'schedules'], 'all frame contents, dtypes, formats, options and histories of writing and reading', 'Tests save one small series per format with default options.',
  [f'{IS}/save.py', f'{IS}/load', 'hexrd/core/utils/hdf5.py'], 'the numpy frames and independently written files')
P('C20', 'Image processing, omegas and statistics follow their definitions',
  'A processed image series applies its operations (flips, dark subtraction that stops at zero, rectangle, offset, filter, inserted rows and columns) in order to the selected frames of any source, nested '
  'or not, without changing the source. Omega series split into the maximal contiguous wedges and map any omega to its frame modulo 360 degrees. Aggregates (max, min, sum, average, median, percentile) equal '
  'their definitions over the requested frames, whether computed at once or in chunks with any buffer, and each partial result stays valid.',
  ['inputs', 'histories'], 'all operation sequences, frame subsets, wedge layouts and chunkings', 'Tests apply single operations to one small series.',
  [f'{IS}/process.py', f'{IS}/omega.py', f'{IS}/stats.py'], 'direct numpy computation on the full stack of frames')
IN = 'hexrd/core/instrument'
P('C21', 'Instrument configurations, settings and panels stay consistent',
  'An instrument has the beams, stage and panels its configuration names; written to a dictionary, YAML or HDF5 and loaded again it answers every question alike. After any history of beam (vector, energy, '
  'distance, active beam, temporary switches, added beams), eta-reference, stage and panel edits, including rejected ones, it equals an instrument freshly made with those values, panel angles included. '
  'Tiles cut from a composite panel see each pixel where the whole panel does. Panels get their own part of shared images. Wedge lookups, beam angles and resolutions follow their definitions.',
  ['inputs', 'histories'], 'all configurations of planar and cylindrical panels and beams, and histories of edits', 'Tests load a few instrument files and change single values.',
  [f'{IN}/hedm_instrument.py', f'{IN}/detector.py', 'hexrd/core/utils/hdf5.py', 'hexrd/core/utils/yaml.py'], 'freshly built instruments, independent geometry, numpy slices')
P('C22', 'Simulated reflections are the Bragg conditions; extracted ones match the images',
  'A simulated rotation series returns exactly the reflections of a (strained, offset) grain that meet the Bragg condition inside the eta and omega ranges and land on a panel, with their ids, angles and positions. '
  'Angular patches around a reflection have the right vertices, areas and pixels for any pixel shape. Pulled spots report the signal, sums, centroids and positions of what the images hold there, and files '
  '(text, HDF5, grain tables) repeat them. Eta-omega maps are the ring intensities summed per eta bin; line-outs are the area-weighted intensities of each sector.',
  ['inputs'], 'all grains, panels, beams, ranges, image contents and extraction options', 'Tests compare one stored example per function.',
  [f'{IN}/hedm_instrument.py', f'{IN}/detector.py', 'hexrd/hedm/xrdutil/utils.py', 'hexrd/core/gridutil.py'], 'closed-form Bragg solutions, ray tracing and direct sums over the images')
FT = 'hexrd/core/fitting'
P('C23', 'Peak shapes, peak fits and fit constraints follow their definitions',
  'Peak functions in one to three dimensions (Gaussian, Lorentzian, pseudo-Voigt, split, rotated, pink-beam) have the stated height or area, position, widths, mixing and background, agree between the plain, spectrum and '
  'lmfit forms, add up for several peaks, and have the right derivatives and special functions. Fits of noiseless spectra recover the peaks for any window, order and background; fitted ring positions are rejected exactly by '
  'the intensity and position limits. Bounds, ties and minimum separations set on parameters hold.',
  ['inputs'], 'all peak parameters, windows, backgrounds, peak orders and constraints', 'Tests mostly run the functions without checking values.',
  [f'{FT}/peakfunctions.py', f'{FT}/fitpeak.py', f'{FT}/spectrum.py', f'{FT}/utils.py', f'{FT}/special.py'], 'closed forms built on scipy special functions and noiseless synthetic data')
P('C24', 'Convolution with missing data, SNIP backgrounds and spot search are exact',
  'Convolving a one- to three-dimensional array with an odd kernel gives the direct sum for each boundary treatment, with missing or masked pixels filled or bridged by the remaining kernel weights, '
  'normalisation and kept gaps as asked, for any number type or memory layout. SNIP backgrounds equal repeated clipping in the log-log-root scale, never exceed the data, treat rows '
  'independently and put the threshold in masked pixels. Spot search in maps returns every connected region above the threshold with its centre of mass. Inputs are unchanged.',
  ['inputs'], 'all arrays, kernels, masks, boundaries, window sizes and spot layouts', 'Tests check a few small arrays and shapes of results.',
  ['hexrd/core/convolution', 'hexrd/core/imageutil.py'], 'brute-force sums, loops and flood fill')
P('C25', 'Orientation search scores, maps, trial fibres and clusters are exact',
  'The completeness of a trial orientation is the fraction of its Bragg reflections (both solutions, any chi), inside the eta and omega ranges and covered by the eta-omega maps, that have intensity above the threshold '
  'of their map within the tolerance, missing data being left out; it does not depend on the order of ranges, the period, the number of processes, or excluded and reordered reflections; overlapping ranges are refused. '
  'Maps of one or several panels and omega wedges hold the summed polar intensity in the right rows and survive saving. Every trial orientation of a fibre explains its spot and the fibres pass through the true grains; '
  'every clustering algorithm returns one centroid per bundle; a whole search finds the grains planted in images.',
  ['inputs', 'histories'], 'all crystals, orientations, maps, ranges, periods, tolerances, thresholds, wedges, panels and clusterings generated', 'Tests run the search on one data set that is not shipped, or compare shapes.',
  ['hexrd/hedm/indexer.py', 'hexrd/hedm/findorientations.py', 'hexrd/hedm/instrument/generate_eta_omega_maps.py', 'hexrd/hedm/xrdutil/utils.py'], 'trigonometric Bragg solutions counted one by one on the maps, direct assembly of maps, planted grains')
P('C26', 'Grain fitting measures, minimises and recovers the grain',
  'The objective of a grain fit is, for every measured spot of every panel, the difference between the measured and the predicted undistorted position and rotation angle (closest solution, any omega period, chi, translations, '
  'position-dependent energy); infeasible grains are refused whichever panel they concern and every return option agrees with the residual. Fitting exact spots of a displaced, rotated and strained grain recovers position, '
  'orientation and strain, noisy spots never fit worse than the start, fixed parameters stay and angles stay equivalent. Selected grains start from their own row, reflections that are excluded, overlapping, saturated or refused are '
  'left out, and fitting rendered images finds the grain that made them.',
  ['inputs', 'histories'], 'all crystals, grains, strains, panels, distortions, beams, selections, tolerances and refinement flags generated', 'Tests call the objective with mocked projections and single reflections.',
  ['hexrd/hedm/fitgrains.py', 'hexrd/hedm/fitting/grains.py', 'hexrd/hedm/xrdutil/utils.py', 'hexrd/core/distortion', 'hexrd/core/instrument/hedm_instrument.py'], 'independent ray tracing of Bragg solutions, planted grains, rendered images')
P('C27', 'Calibration parameters, constraints and residuals describe the instrument',
  'Lists of refinable parameters name every beam, sample, panel, distortion, grain and lattice parameter once, under every Euler convention; reading them back is the identity and setting them sets exactly those parts of the '
  'instrument, grains and materials. System and group constraints move panels as one rigid body about the chosen centre, whatever the history. Powder, structureless, grain and Laue residuals and models are those of the geometry, '
  'distortion and translations of the current instrument; simulated Laue patterns hold exactly the reflections in the energy bands that reach the panel. A calibration never ends worse than it began, keeps fixed parameters and '
  'bounds, and recovers displaced panels from exact picks.',
  ['inputs', 'histories'], 'all instruments, conventions, groups, histories of steps, picks, grains, bands and refinement flags generated', 'Tests mock the instrument and check single names and calls.',
  ['hexrd/core/fitting/calibration', 'hexrd/hedm/fitting/calibration/grain.py', 'hexrd/laue/simulation.py', 'hexrd/laue/fitting/calibration/laue.py'], 'rigid-body algebra, independent ray tracing, planted displacements')
P('C28', 'Powder pattern models follow their definition and recover exact patterns',
  'A simulated powder spectrum is the sum over phases, wavelengths and reflections of scale x phase fraction x multiplicity x Lorentz-polarization x |F|^2 x a peak profile of the documented widths (Caglioti, size, strain, '
  'Stephens anisotropy, stacking faults) and position (zero, displacement, transparency), plus background and amorphous parts; every profile shape is its convolution with unit area. Equivalent reflections broaden alike. It depends '
  'on the parameter values only, not on the edits that led to them, leaves the given materials unchanged, moves refined atoms with their equivalents, and masked ranges take no part in it or in the residuals. Le Bail intensities '
  'share out the measurement; refinements recover the parameters of exact patterns.',
  ['inputs', 'histories'], 'all crystals, wavelengths, shapes, parameters, masks and edit histories generated', 'Tests compare a few values on fixed phases or only check that calls finish.',
  ['hexrd/powder/wppf'], 'direct sums over an independent crystal model, quadrature of convolutions, fresh models, planted parameters')
P('C29', 'Absorption and pinhole corrections follow geometry and tabulated coefficients',
  'Attenuation and energy-absorption lengths of a formula are the mass-weighted log-log interpolation of the table, whichever way the composition is given. Transmission of filter and coating is Beer-Lambert along the path of each '
  'pixel; transmission of sample and window is the mean over the thickness for elastic and inelastic photons; both follow the beam, the azimuth reference, panel shape and tilt. The open area of a pinhole is the overlap of its ends. '
  'Shifts of the scattering angle by a layer, by the pinhole edge and by the pinhole wall equal the geometric difference to scattering from the origin, agree between map, distortion object and polar map, and leave panel and '
  'instrument as they were. Layers and packages keep the attributes they are given when saved and read back.',
  ['inputs'], 'all compositions, energies, thicknesses, panels, beams and pinholes generated', 'Tests compare one NIF configuration with stored arrays.',
  ['hexrd/core/instrument/detector.py', 'hexrd/core/instrument/planar_detector.py', 'hexrd/core/instrument/cylindrical_detector.py', 'hexrd/core/instrument/detector_coatings.py', 'hexrd/core/instrument/physics_package.py', 'hexrd/core/material/utils.py', 'hexrd/hed/xrdutil/phutil.py'],
  'closed forms on an independent panel model, table interpolation, explicit sum over wall elements')
P('C30', 'Polar and spherical views show each pixel where its direction points',
  'A pixel of a polar view carries the sum over panels of the image value (bilinear or nearest) at the point where its direction - seen from the sample, in the frame of beam and azimuth reference - hits the panel, for planar and cylindrical, '
  'distorted, tilted and buffered panels; it is masked exactly where no panel has valid neighbours, and caching, padding and repeated use change nothing. Binned views average the rows around each multiple of the interval. '
  'Spherical views and projections put each direction (diffracted beam or scattering vector, rotated) at its stereographic or equal-area point; polar images and eta-omega maps drawn that way show the value that belongs there.',
  ['inputs'], 'all panels, beams, angular grids, buffers, image types, rotations and mappings generated', 'Tests compare one ceria image with a stored array; spherical views have none.',
  ['hexrd/core/projections', 'hexrd/hedm/xrdutil/utils.py', 'hexrd/hed/xrdutil/utils.py', 'hexrd/core/instrument/detector.py'], 'ray-panel intersection and bilinear reference, closed-form projections')
P('C31', 'Configurations and saved values mean what was written; caches lose nothing',
  'Sections of a configuration file inherit from the ones before; values, defaults, derived file names, tolerances and limits follow from what is given; values that are set can be read, saved and opened again and do not leak into other '
  'sections; materials take the energy of the instrument, also after it changed, and the reflections inside all limits. Arrays, texts, numbers and nested structures survive JSON, YAML with arrays beside it, and HDF5 with value, type and '
  'shape. A memoized function returns the result of its own arguments, evicts the least recently used, and hands out arrays nobody can change. Tasks are split into even, complete, ordered ranges. Panel buffers mean the same pixels in every form.',
  ['inputs', 'histories'], 'all sections, settings, nested values, array types, call histories and sizes generated', 'Tests read a few fixed documents.',
  ['hexrd/core/config', 'hexrd/hedm/config', 'hexrd/core/utils'], 'recursive merge model, round trips, LRU model, closed forms for cubic reflections')
P('C32', 'Texture models are symmetric, normalised densities that follow their crystal',
  'Orientation kernels and distributions built from them average one over all orientations, fall to half at their half width, are equal at equivalent crystal and sample orientations, whatever the batch; texture index and norm equal '
  'their integrals. Transformation variants between two crystals are all the distinct ones. Symmetrized harmonics span exactly the invariant functions of their degree; pole figures of the harmonic model are equal for equivalent planes, '
  'average one, have the sample symmetry, and their power gives the texture index; intensities along rings are the pole figure at those directions, for the current lattice, degree and sample; refinement reproduces pole figures made by the '
  'model. March-Dollase factors are the mean over equivalent planes. Grids of directions are complete.',
  ['inputs', 'histories'], 'all Laue and sample symmetries, orientations, cells, coefficients, directions and edits generated', 'Tests read a few symmetries and fixed orientations.',
  ['hexrd/phase_transition', 'hexrd/powder/wppf/texture.py'], 'group averages by brute force, exact sphere quadrature, character counts, brute-force coset enumeration')
P('C33', 'Equivalent orientations get one IPF colour; sampling covers the zone once',
  "Inverse pole figure colours (with Laue symmetry, the default) lie in [0, 1], do not depend on the length of the direction or on the batch, are identical for crystal directions and orientations related by the Laue group of the crystal in the crystal frame (all 230 space groups, including monoclinic, -1, -3 and both settings of -3m) and differ for directions which are not related; a sample direction is coloured as the crystal direction R^T d; the corners of the key are red ([001], unique axis), green and blue. HSL and RGB conversions are inverse to each other and agree with the standard definition. Sampled orientations are unit quaternions inside the fundamental zone of the point group (no equivalent has a smaller rotation angle), distinct, as many as the volume of the zone requires, and every orientation has an equivalent sample within about the requested spacing (twice that in the thin corners of the zones); the cubochoric map preserves volume and antipodes and its quaternion has the axis and the angle of the homochoric vector.",
  ['inputs'], 'all space and point groups, cells, directions, orientations and spacings generated', 'Tests colour one cubic crystal and sample nothing.',
  ['hexrd/core/material/unitcell.py', 'hexrd/hedm/ipfcolor', 'hexrd/hedm/sampleOrientations'],
  "Laue operations from the Hall symbols in an independent crystal frame; colorsys; symmetry-equivalent quaternions, brute-force nearest samples; finite-difference volume elements.")
P('C34', 'Near-field confidence, forward images, tomography and grain maps are exact',
  "Testing orientations on near-field images gives, for every grain and voxel, the fraction of the predicted reflections on the panel (outside the beam stop, within the omega range and the search window) whose pixel in the image of their omega frame is bright; it does not depend on the chunk size, the number of processes or a limit on the voxels, and leaves images and voxels unchanged. The simulated images have exactly the pixels of the predicted reflections (strained, offset grains, any detector shape and omega period), dilation grows them by the stated rows and columns, and a simulated grain is recovered with confidence 1. A scan of a detector parameter or omega offset gives the map of each value. The grain map holds the (far-field) number of the best grain, or -1; volumes are stitched in order and saved to npz, hdf5 and vtk without change; trial orientations are labelled with their grain; darks, cleaned stacks, absorption radiographs, the cleaned and cropped tomography layer and the reconstructed layer match their definitions.",
  ['inputs', 'schedules'], 'all geometries, orientations, images, chunkings and volumes generated', 'No test touches the near-field package.',
  ['hexrd/hedm/grainmap/nfutil.py', 'hexrd/hedm/grainmap/tomoutil.py', 'hexrd/hedm/grainmap/vtkutil.py'],
  "Independent Bragg solutions and ray tracing to pixels; python models of maps, stitching, morphology by neighbour shifts and flood fill; analytic projections of a disc; files parsed back.")
