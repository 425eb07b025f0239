prop('C01', 'Vectors, points, normals, frames and spherical coordinates obey their algebra',
     '''Arithmetic, dot and cross products, lengths, distances and normalisation of vectors, points and normals are the
     mathematical ones, respect the affine typing rules and do not alter operands unless done in place. The frame built on a
     unit direction is orthonormal; a normal turned towards a direction keeps its magnitude and ends in that hemisphere.
     Spherical coordinates map to unit directions (in the standard or a given frame) and back.''',
     '''all component values, all unit directions, all angles''',
     '''the tests compare single fixed or sampled vectors; the identities are over all real components and the branch on the larger
     component of the frame construction has a boundary no sample hits''',
     'geometry/__init__.py geometry/utility.py',
     ['vector algebra @ geometry/__init__.py', 'coordinate system, facing, spherical coordinates @ geometry/utility.py'],
     'components in [-10, 10]; exact real arithmetic; every path of the code')
prop('C02', 'Axis-aligned boxes are the smallest enclosing boxes and answer queries exactly',
     '''A box made of corners, boxes or points is the smallest box holding them, the empty box is neutral in unions, and unions
     do not change their operands unless done in place. Membership is the closed box; two boxes overlap exactly when they share a point;
     surface area, volume, longest axis, expansion and interpolated or relative coordinates are the geometric ones.
     The bounding sphere holds the box, and two boxes differ exactly when a corner differs.''',
     'all boxes, points and boxes to unite',
     'the tests sample boxes; ordering of corners per axis gives 8+ cases per operation and boundary coincidences',
     'geometry/__init__.py', ['bounding box @ geometry/__init__.py'],
     'corners and points in [-10, 10]; exact real arithmetic')
prop('C03', 'Ray and box intersection is exact, including axis-parallel rays',
     '''A ray hits a box exactly when some point of the ray within its parametric range lies in the box. The two returned
     parameters are the first and last such points. The query changes neither the ray nor the box.''',
     'all boxes, origins, directions (also with zero components of either sign), and parametric ranges, bounded or not',
     'slab tests fail only for particular zero components, signs and ranges, which sampled rays do not meet',
     'geometry/__init__.py', ['slab test @ geometry/__init__.py'],
     'coordinates in [-10, 10], direction in [-4, 4]; a negative-zero direction component together with an origin on that face plane is excluded')
prop('C04', 'Transforms are built right and always carry the true inverse',
     '''Translation, scale, rotation about a coordinate or arbitrary axis, look-at, orthographic and perspective transforms act
     on points as their definition says, and the inverse each carries is the inverse of its matrix. Composition applies the right
     operand first and its carried inverse is right; inverting twice is the identity.''',
     'all offsets, factors, angles, axes, camera positions, clip planes and composed matrices',
     'the tests use a few angles and scales; a sign or transposition error can be invisible for symmetric sample inputs',
     'transform/__init__.py', ['constructors and product @ transform/__init__.py'],
     'offsets in [-10, 10], factors 0.05..10 of both signs, matrices with entries in [-5, 5]')
prop('C05', 'Transforms apply correctly to points, vectors, normals, rays and boxes',
     '''Points are transformed homogeneously, vectors by the linear part, and normals by the inverse transpose so that they stay
     orthogonal to transformed tangents. Rays (and the offset rays of ray differentials) move with all their points and keep extent, depth and
     time. A box moved by a translation or a non-negative scale holds the image of each of its points.''',
     'all matrices, points, vectors, normals, rays, and boxes',
     'the tests compare against the same matrix formula on samples',
     'transform/__init__.py', ['application of a transform @ transform/__init__.py'],
     'entries in [-5, 5], coordinates in [-10, 10]; boxes under rotations and mirrors are a known finding (see DESIGN.md)')
prop('C06', 'Rotations as quaternions and animated transforms interpolate correctly',
     '''A unit quaternion gives the rotation it stands for, and the quaternion of a rotation matrix gives that matrix back;
     interpolation between quaternions follows the great arc at constant speed. An animated transform equals its first key before it, its last key
     after it, and interpolates translation linearly in between; applying it at a time is applying the interpolated transform.
     Motion bounds hold the moving box at each time between the keys.''',
     'all unit quaternions, rotation matrices, times, and keyframe translations',
     'the trace and largest-diagonal branches of the quaternion conversion and the time clamping need particular inputs; no test covers animation',
     'transform/quat.py transform/__init__.py', ['quaternion conversions and slerp @ transform/quat.py', 'animated transform @ transform/__init__.py'],
     'keyframes with one of three fixed linear parts (identity, quarter turn, scale) and arbitrary translations; first slerp key is a quaternion unit')
prop('C07', 'Rays, spawned rays, ray differentials and differential geometry are coherent',
     '''A ray yields the point at a parameter; a spawned ray starts at the given point one level deeper at its parent's time, and copies are
     independent. Scaling the differentials of a ray pulls its offset rays towards it by that factor. Differential geometry has a unit normal
     orthogonal to both tangents, flipped when the shape reverses orientation or its transform swaps handedness (once, not both). The
     derivatives of position and texture coordinates over the screen are those of the offset rays on the tangent plane.''',
     'all rays, parameters, spacings, tangents, offset rays and orientations',
     'the branch on the largest normal component and the handedness parity need specific geometry; no test covers differentials',
     'geometry/__init__.py geometry/diffgeom.py', ['rays @ geometry/__init__.py', 'differential geometry @ geometry/diffgeom.py'],
     'components in [-10, 10]; tangents of area above 0.05; offset rays not parallel to the tangent plane')
prop('C08', 'Triangle meshes are hit exactly where rays cross them, with right geometry',
     '''A ray hits a triangle exactly when it crosses it at a parameter within its range; the hit reports that parameter, the point, texture
     coordinates interpolated from the vertices, tangents that are the derivatives of position, and the plane's unit normal. A zero alpha texture at the
     hit point makes it a miss. Shading geometry interpolates vertex normals. Area, bounds, refinement and uniform area sampling
     are those of the triangle, with vertices looked up through the mesh's index table.''',
     'all triangles, rays, ranges, per-vertex data, alpha values and sample positions',
     'exactness over all barycentric regions and degenerate texture coordinates is beyond samples, and no test covers shapes',
     'shape/triangle.py shape/__init__.py', ['triangle mesh @ shape/triangle.py'],
     'meshes of two triangles, coordinates in [-10, 10]; not nearly degenerate')
prop('C09', 'Spheres are hit, measured and sampled exactly on their kept part',
     '''A ray hits a (partial) sphere at the first point within its range that lies between the clipping planes and within the sweep; predicate
     and intersection agree. Coordinates are the swept angle and polar fraction in [0, 1], tangents are derivatives of position, the normal is outward unit.
     Area samples are uniform on the sphere with unit normals; from an outside point, samples are visible and uniform in solid angle, with the
     density reported. Area, bounds and clamped clipping planes are those of the kept part.''',
     'all radii, planes, rays, ranges, placements and sample positions',
     'which root counts depends on ranges and clipping together; no test covers shapes',
     'shape/sphere.py shape/__init__.py montecarlo/__init__.py', ['sphere @ shape/sphere.py'],
     'sweeps of 90, 180, 270, 360 degrees; non-grazing rays')
prop('C10', 'Disks and annuli are hit, measured and sampled exactly',
     '''A ray hits a disk exactly where it crosses its plane within range, between inner and outer radius and within the sweep; predicate and
     intersection agree. Coordinates, tangents and normal are those of the parametrised annulus; area samples are uniform over it with the disk's unit
     normal; area and bounds are geometric.''',
     'all radii, heights, rays, ranges and sample positions', 'no test covers shapes', 'shape/disk.py', ['disk @ shape/disk.py'],
     'sweeps of 90, 180, 270, 360 degrees; rays not within 1e-3 of parallel to the plane')
prop('C11', 'Cylinders are hit, measured and sampled exactly on their kept part',
     '''A ray hits a (partial) cylinder at the first point within its range that lies between the end planes and within the sweep; predicate and
     intersection agree. Coordinates, tangents and outward unit normal are those of the parametrised surface; area samples are uniform over it;
     area and bounds are geometric.''',
     'all end planes, rays of four directions, ranges and sample positions', 'which root counts depends on range, ends and sweep together; no test covers shapes',
     'shape/cylinder.py', ['cylinder @ shape/cylinder.py'],
     'radius 0.5, 1, 2 or 4 and four ray directions for intersection; radius in [0.5, 4] elsewhere')
prop('C12', 'Every shape has a true world bound and a density over directions',
     '''The world bound of a shape holds the image of every point of its object bound under its placement. The default density over
     directions is squared distance over cosine times area where the direction meets the shape, zero elsewhere. Shapes are numbered apart;
     those that can be intersected are not refined.''',
     'all sizes, placements, reference points and directions', 'rotated or sheared placements need all eight corners; no test covers shapes',
     'shape/__init__.py', ['shape base @ shape/__init__.py'], 'four kinds of placement, sizes in [0.5, 4]')
prop('C13', 'The bounding volume hierarchy answers like asking every primitive',
     '''A ray through the hierarchy hits exactly when some primitive is hit within its range, and reports the nearest hit with that
     primitive's record; on a miss the ray's range and the record stay untouched; the shadow query agrees. Construction keeps each primitive exactly
     once, every node's bound encloses what is below it, and children are laid out as the traversal expects, for every split method and leaf size.
     Primitives that cannot be intersected are refined first.''',
     'all ray origins and ranges, hit parameters, and box positions within fixed layouts',
     'boundary centroids, flat boxes and axis-parallel or negative directions select code no test reaches (there is no aggregate test)',
     'aggregate/accelerator/bvh.py', ['build and traversal @ aggregate/accelerator/bvh.py'],
     'up to 8 primitives, nine directions; up to 4 boxes anywhere along an axis for construction')
prop('C14', 'List and grid aggregates answer like asking every primitive',
     '''A ray through a list or a uniform grid hits exactly when some primitive is hit within its range and reports the nearest
     hit with that primitive's record; the shadow query agrees; on a miss nothing changes. Grid cells hold exactly what their place says: a point is in
     the cell found for it, and each primitive is in every cell its bound meets. Primitives that cannot be intersected are refined first, eagerly or when met.''',
     'all ray origins and ranges and hit parameters over fixed layouts', 'cell stepping depends on the order of crossings; no test covers aggregates',
     'aggregate/aggregate.py', ['list and grid @ aggregate/aggregate.py'], 'up to 4 primitives, six directions')
prop('C15', 'Primitives, placed primitives and hit records forward answers faithfully',
     '''A geometric primitive reports the hit of its shape under its own number with its material, light and shape transforms, and shortens the ray to it; on a miss nothing
     changes. A placed (animated) primitive asks with the ray moved into its frame at the ray's time and moves the answer back; its world bound holds it at each
     time. Full refinement reaches each part that can be intersected exactly once. A hit record computes differentials before asking for the reflection function and
     gives the light's emission, or none.''',
     'all rays, hits, placements, times and refinement trees', 'no test covers primitives; placement at a time and shape transforms multiply cases',
     'aggregate/primitive.py aggregate/intersection.py', ['primitives @ aggregate/primitive.py', 'hit record @ aggregate/intersection.py'],
     'four still placements and moving translations; refinement depth up to 3; shapes, materials and lights are recording stand-ins')
prop('C16', 'The film reconstructs the image its samples and filter define',
     '''A sample adds its colour weighted by the filter at its distance to exactly the pixels within the filter's extent, and its weight to theirs. The image is the weighted mean of the samples plus
     the scaled splats, never negative. The crop window selects the pixel extent per axis so that films of adjacent windows tile the image; the sample extent widens it by the filter.''',
     'all sample positions, colours, filter widths and crop windows', 'pixel rounding at extent boundaries and crop offsets; no test covers the film',
     'film/film.py', ['image film @ film/film.py'],
     'films up to 8 by 6 pixels, six crop windows, half-widths 0.5 to 2; filters are linear stand-ins; no threads')
prop('C17', 'Reconstruction filters are the functions their names say',
     '''Box, triangle, Gaussian, Mitchell and windowed-sinc filters are separable, symmetric, scaled by their half-widths, right at each point and zero from their edges on; shifted Mitchell
     copies add up to one; array arguments are filtered entry by entry.''',
     'all half-widths, parameters and positions', 'piecewise definitions differ at piece boundaries and parameters that no test selects',
     'filter/filter.py', ['filters @ filter/filter.py'],
     'half-widths in [0.5, 4], positions in [-6, 6]; exponential and sine are axiomatised')
prop('C18', 'Cameras generate the ray that images each film position',
     '''Perspective and orthographic cameras send the ray through the place of the film position on the screen, from the lens sample through the plane in focus when there is a lens, with clip
     range and shutter time of the sample, placed in the world at that time. The environment camera maps rows to polar and columns to azimuth angles; the pinhole looks through its hole.
     Ray differentials are the rays of the next pixels.''',
     'all film positions, lens positions, times, fields of view, lens radii and focal distances', 'no test covers cameras; a differential offset or time slip is invisible in one image',
     'camera/camera.py camera/projective.py camera/environment.py', ['cameras @ camera/projective.py', 'differentials @ camera/camera.py', 'environment @ camera/environment.py'],
     'two film sizes, three screen windows, field of view 20 to 140 degrees; three placements')
prop('C19', 'Samplers visit each pixel once with stratified samples over every dimension',
     '''A stratified sampler visits each pixel of its window once, row by row, and then has no more. Its samples fill each cell of the pixel, of the lens and each part of the shutter interval
     exactly once, anywhere in the cell when jittered and at its centre otherwise. Latin hypercube patterns put one value in each row and column whatever the shuffle. Subwindows of tiles cover
     each pixel exactly once. Requested patterns keep their order and copies of a sample have storage of their own.''',
     'all random draws, permutations, shutter intervals, windows and tile counts', 'permutations and window sizes multiply; no test covers samplers',
     'sampler/sampler/stratified.py sampler/sampler/__init__.py sampler/utility.py sampler/sample.py',
     ['stratified sampler @ sampler/sampler/stratified.py', 'stratification @ sampler/utility.py', 'tiles @ sampler/sampler/__init__.py', 'requests @ sampler/sample.py'],
     'up to 6 strata, 3 under shuffling; windows up to 7 by 7, up to 8 tiles')
prop('C20', 'Sampling routines have exactly the density they report',
     '''Hemisphere, sphere, disk, concentric, cosine, triangle and cone sampling stay in their domain and the reported density times the area element of the map is one;
     the concentric map sends squares to circles continuously. Henyey-Greenstein directions follow the phase function given as their density. Rejection returns the first point in the disk. Heuristic weights of two
     techniques add up to one in the ratio of their (squared) densities.''',
     'all random numbers, cone angles, asymmetries, counts and densities', 'densities are derivatives, which sampling can only estimate; no test covers them',
     'montecarlo/utility.py', ['sampling routines @ montecarlo/utility.py'],
     'derivatives by forward differentiation of the executed code; asymmetry in [-0.9, 0.9]')
prop('C21', 'Tabulated distributions invert their cumulative function and report its density',
     '''A one-dimensional table maps u to the place where its cumulative function reaches u, or to the step that holds it, with the density or probability there; zero steps are
     never chosen. A two-dimensional table draws rows by their sums and columns within the row; the density returned and the density looked up are that of the cell.
     The table given is not changed.''',
     'all tables and u', 'zero entries, row sums and step borders combine; no test covers them',
     'montecarlo/distribution.py', ['distributions @ montecarlo/distribution.py'], 'up to 4 entries, 3 by 2 cells; entries zero or in [0.1, 5]')
prop('C22', 'Spectra add, scale, convert and average as colours do',
     '''Spectra combine component by component, giving spectra and leaving their operands; RGB and XYZ convert into each other and luminance is Y. Measured samples are averaged over each
     wavelength interval by the area below them, held constant beyond their ends, whatever their order. RGB colours become spectra as the white, cyan, magenta, yellow, red, green and blue parts they hold.''',
     'all component values, wavelengths, intervals and colours', 'six orders of colour components and all placements of intervals against samples; tests sample a few',
     'spectral/spectrum.py', ['spectra @ spectral/spectrum.py'], 'up to 4 measured wavelengths; components in [-10, 10]')
prop('C23', 'Fresnel reflectance follows Snell and Fresnel from either side',
     '''The reflectance of a dielectric is the mean of both polarisations by Fresnel's equations at Snell's refraction angle, within zero and one, one beyond the critical angle, the same for light
     travelling back, and perpendicular, grazing and Brewster values are as known. Conductors reflect by the approximation stated, in range and for each colour component; a perfect mirror reflects everything.''',
     'all angles and indices', 'total reflection and exchange of the media are seldom sampled; no test covers them',
     'reflection/fresnel.py reflection/utility.py', ['Fresnel terms @ reflection/fresnel.py', 'formulas @ reflection/utility.py'], 'ratios of indices 0.003 to 300 for refraction')
prop('C24', 'A BSDF sums, samples and frames its components',
     '''World and shading frame convert into each other without changing lengths. The value of a BSDF is the sum over the components that match the flags on the side told by the geometric normal, its density the mean over
     the matching components; sampling picks one of them with equal chances and reports value and density of the whole, or of the one when specular. Reflectances are sums for local directions.
     By default directions are sampled by cosine on the side of the viewer.''',
     'all directions, random numbers, component types, values, densities and flags', 'combinations of types, flags and sides; no test covers them',
     'reflection/bsdf.py reflection/bdf/bdf.py', ['BSDF @ reflection/bsdf.py', 'flags and defaults @ reflection/bdf/bdf.py'], 'three components; frames with perpendicular tangent')
prop('C25', 'Reflection models have their value, are reciprocal and sample what they report',
     '''Lambertian, Oren-Nayar, microfacet (Blinn, anisotropic) and Fresnel-blend reflection have the value of their model, equal with both directions exchanged and not negative; sampled directions are reflected
     about half directions drawn from the distribution with the density looked up. Adapters mirror the incident direction or scale the value and nothing else. Measured data are looked up
     at the cell, or averaged near the place, of the pair of directions.''',
     'all directions, reflectances, random numbers and densities', 'values depend on two directions and on orderings of their angles; no test covers them',
     'reflection/bdf/bdf.py reflection/bdf/orennayar.py reflection/bdf/torrance.py reflection/bdf/fresnelblend.py reflection/bdf/measured.py reflection/utility.py',
     ['Lambertian, adapters @ reflection/bdf/bdf.py', 'Oren-Nayar @ reflection/bdf/orennayar.py', 'microfacets @ reflection/bdf/torrance.py', 'blend @ reflection/bdf/fresnelblend.py', 'measured @ reflection/bdf/measured.py', 'remapping @ reflection/utility.py'],
     'selected exponents, roughness, half directions and azimuths')
prop('C26', 'Specular surfaces mirror and refract exactly, sharing all of the light',
     '''Mirrors send light to the reflected direction with what the Fresnel term leaves. Transmission goes to the direction by Snell's law on the other side, with the light not reflected times the squared ratio
     of indices, from either side, and back along the same path; beyond the critical angle nothing passes. Reflected and transmitted light add up to all of it.
     Both have no value or density for any direction given.''',
     'all directions and indices, from both sides', 'inside and outside, and angles near the critical one; no test covers them',
     'reflection/bdf/bdf.py reflection/fresnel.py', ['specular components @ reflection/bdf/bdf.py'], 'cosines of at least 0.02; three azimuths for refraction')
prop('C27', 'Lights give, send and account for the light they are described to',
     '''Point, spot, projection, goniophotometric, distant, area and infinite lights light a point with the intensity of their model, from the right direction, with the density of that direction and a shadow ray
     from the point to the light; rays sampled to leave a light carry what arrives along them, with their density, at the time asked for. Power is the integral over what is emitted.
     Area lights emit on the side of their normals and points on them are chosen by area; environments are chosen and looked up by their luminance.''',
     'all intensities, points, directions and random numbers', 'geometry, texture direction and densities combine; no test covers lights',
     'light/light.py light/utility.py', ['lights @ light/light.py', 'shape sets @ light/utility.py'], 'three placements of a light; up to two shapes; maps up to 2 by 4')
prop('C28', 'Two points see each other exactly when no surface lies between them',
     '''A shadow ray spans the segment, or direction, up to its offsets, and is unoccluded exactly when no surface of the scene lies within; what the medium leaves is asked for along that ray. A scene answers with its
     nearest surface and is bounded by surfaces and volume, whose own bounds stay. Samples requested are those received, each value used once.''',
     'all points, offsets, distances and blockers', 'placement of blockers against the ends of segments; no test covers it',
     'light/utility.py scene/scene.py sampler/sample.py reflection/bsdf.py', ['visibility, light samples @ light/utility.py', 'scene @ scene/scene.py', 'requests @ sampler/sample.py', 'BSDF samples @ reflection/bsdf.py'],
     'up to two disks')
prop('C30', 'Integrators weigh every contribution by its reflectance, cosine and density',
     '''Direct light combines samples of light and BSDF by squared densities (once each for specular directions and point lights), blocked and attenuated along the ray used; all lights add up, or one stands for all.
     Specular rays carry f L cos / pdf, with the differentials of the neighbouring rays. Direct, Whitted and path integrators add emission, direct light and further bounces, down to the depth allowed,
     unbiased by roulette, without sharing random numbers.''',
     'all radiances, reflectances, densities, transmittances and differentials', 'which of the terms are present and how each is weighted cannot be seen in single values; no test covers integrators',
     'integrator/utility.py integrator/surface/direct.py integrator/surface/whitted.py integrator/surface/path.py',
     ['estimates @ integrator/utility.py', 'direct lighting @ integrator/surface/direct.py', 'Whitted @ integrator/surface/whitted.py', 'paths @ integrator/surface/path.py'],
     'up to three lights, paths of six vertices')
prop('C31', 'Every sample drawn adds its light to the film exactly once',
     '''Light along a ray is that of the surface met or else of all lights around, attenuated by and added to that of the medium. The rendering loop traces each sample once, scales differentials to the spacing of samples,
     adds its weighted light at its place, black where it is not a number, infinite or negative, and nothing where the sampler refuses; integrators prepare first and the image is written once.''',
     'all radiances, weights and sample positions, any sample being bad or missing the scene', 'order and number of samples, and which of them fails; no test covers rendering',
     'renderer/renderer.py', ['renderer @ renderer/renderer.py'], 'up to three batches of three samples')
prop('C29', 'Media have their coefficients, extent, phase and thickness wherever placed',
     '''Homogeneous, exponential and gridded media have within their box, placed by any transform, their coefficients times the density there, and nothing outside; gridded densities are linear between cell centres.
     The part of a ray within a medium is that within its box, optical thickness is the integral (or its steps) over it, world bounds hold the box, and regions add up. Phase functions have their formula;
     measured data are absorption and reduced scattering.''',
     'all boxes, coefficients, densities, points, rays and placements', 'placement, order of axes and ranges interact; no test covers media',
     'volume/volume.py volume/utility.py volume/bssrdf.py transform/__init__.py', ['media @ volume/volume.py', 'phase functions, data @ volume/utility.py', 'BSSRDF @ volume/bssrdf.py'],
     'grids of up to 3 by 2 by 2; thickness of up to four steps')
prop('C32', 'Texture mappings, procedural textures and noise follow their definitions',
     '''Mappings give the coordinates of a point and their rates of change over the image, each from its own coordinate: scaled (u, v), projections, spherical and cylindrical angles, texture space. Constant, product,
     mix, bilinear and checkerboard textures (sampled, or box filtered by area, also for filters of no width) and polka dots ask the right texture. Noise blends the gradients of eight lattice points, zero upon the
     lattice; fractal sums add its octaves down to the footprint; marble follows its spline.''',
     'all coordinates, differentials, texture values and noise values', 'cells, parities and filter overlaps are cases without number; no test covers textures',
     'texture/texturemap/__init__.py texture/texture/__init__.py texture/utility.py data/noise.py',
     ['mappings @ texture/texturemap/__init__.py', 'textures @ texture/texture/__init__.py', 'noise @ texture/utility.py'], 'coordinates within a few cells; five cells of the noise (nine when thorough)')
prop('C33', 'MIP maps filter the image they were built from, at the width asked for',
     '''Rows are t and columns s. Images of other sizes are resampled to powers of two; each texel of a coarser level is the mean of those it covers, whatever the type, bit depth and shape of the image. Coordinates beyond
     the image repeat, clamp or are black. Look-ups are bilinear at the level of their width and linear between levels; elliptical ones are gaussian means over the footprint, widened when too flat.
     Image textures scale and correct texels and share equal maps only.''',
     'all texel values, coordinates and wrappings', 'shape, wrapping and level interact, and no test covers MIP maps',
     'texture/utility.py texture/texture/image.py', ['MIP map @ texture/utility.py', 'image textures @ texture/texture/image.py'],
     'images up to 8 by 4; selected widths and footprints')
prop('C34', 'Loop subdivision refines meshes by Loop\'s rules and ends on the limit surface',
     '''Each level splits every triangle into four and places old and new vertices by Loop's rules, for interior and boundary vertices of any valence; after the last level vertices lie on the limit surface
     and normals are perpendicular to both limit tangents, on the side given by the order of vertices, the transformation and reversal. The result is where the transformation puts it, within the bounds
     of the shape; more levels refine the same surface and do not alter the control mesh.''',
     'all vertex positions of the meshes', 'the masks are linear in all vertices at once; wrong weights move vertices slightly and no test covers subdivision',
     'shape/loopsubdiv.py', ['Loop subdivision @ shape/loopsubdiv.py'],
     'five connectivities, up to two levels (three when thorough)')
prop('C35', 'Materials scatter as their parameters say, on the bump-mapped frame',
     '''Each material evaluates its textures where the ray hits and returns a BSDF holding exactly the components its parameters call for, with their reflectances, opacities, roughness and index of
     refraction; black components are left out. Mixtures are weighted sums of both materials. A bump map displaces the surface along its normal and the shading frame follows the slope, on the side
     it was on. Measured and subsurface data reach the components as given.''',
     'all reflectances, opacities, displacements and differentials', 'which components there are depends on values of several textures, and no test covers materials',
     'material/material.py', ['materials and bump mapping @ material/material.py'],
     'reflectances in [0.01, 2], zero or negative; selected directions and roughness')
prop('C36', 'Images are stored and read in place; scalar helpers round and compare right',
     '''An image is stored under its name, in its size, each channel scaled in proportion to its brightest pixel, which is full; part of an image replaces that part of the stored one and nothing else, and what
     cannot be stored is refused. Images read are rows of three channels, of the next power-of-two size, whatever their mode. Helpers round down, up and to nearest, interpolate, clip, and tell zero, one and
     black within tolerance.''',
     'all pixel values and numbers', 'places, sizes and levels interact; tests never store or read images',
     'utility/imageio.py utility/utility.py', ['image files @ utility/imageio.py', 'scalar helpers @ utility/utility.py'],
     'images up to 5 by 4; file formats are stand-ins')
