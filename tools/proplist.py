P, NA = [], {}


def prop(id, title, statement, over, forall, why, files, mech, tech, note=None):
    d = dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech, tech=tech)
    if note:
        d['note'] = note
    P.append(d)


SRC = 'src/'
prop('C01', 'Every tile is rendered and merged exactly once, for any number of workers',
     'All workers draw image tiles from one shared enumeration of the sample area, so that no tile is handed out twice and none is left over when rendering ends. '
     'A worker renders every tile it takes, with that very region, until there are none left. Rendering a tile creates one buffer for its region, adds the samples to it, and merges it into the image exactly once, after the last sample.',
     ['schedules', 'inputs', 'configurations'], 'every number of workers >= 1, every interleaving, every image size',
     'The tests render nothing and start no threads; a handful of runs would show only some interleavings.',
     ['src/integrator.rs', 'src/film.rs'], [('shared tile iterator behind a mutex', 'Integrator::render'), ('worker loop', 'closure spawned by Integrator::render'), ('tile buffer', 'IntegratorLocal::render')],
     'value-graph evaluation of MIR plus sharing rule')
prop('C02', 'The image is written once, after every worker has ended successfully',
     'Rendering starts the requested number of workers and waits for every one of them before the image file is opened; the file is opened once. '
     'If a worker fails, rendering fails and no image file is created or overwritten. Workers themselves never touch the file system.',
     ['schedules', 'fault_sequences', 'configurations'], 'every number of workers, every order of completion, failure of any worker',
     'No test renders or injects a failing worker.', ['src/integrator.rs'], [('join of all handles', 'Integrator::render'), ('opening of the output file', 'Integrator::render')],
     'call-sequence analysis on evaluated MIR')
prop('C03', 'Locks are never nested nor held while rays are traced',
     'While any thread holds one of the shared locks it takes no other lock, starts or waits for no thread, generates no samples or camera rays, and traces no rays. Hence workers cannot deadlock on the shared locks and proceed in parallel.',
     ['schedules'], 'every interleaving of any number of workers', 'No test runs two threads.', ['src/integrator.rs', 'src/film.rs'],
     [('tile iterator lock', 'closure spawned by Integrator::render'), ('pixel lock', 'Film::merge_film_tile, Film::write_image_ppm')], 'may-hold lock dataflow over MIR with call-graph reachability')
prop('C04', 'The output file holds exactly the new image, or rendering fails',
     'The output file is created if missing, an older longer file is cut off, and everything written goes to it. '
     'Every error while opening, writing or flushing is reported by failing: no error is ignored, buffered text is flushed explicitly before rendering returns, and short writes cannot lose text.',
     ['fault_sequences', 'configurations'], 'any I/O fault at any call, any previous content of the output file', 'No test writes an image, and I/O faults are not injected.',
     ['src/integrator.rs', 'src/film.rs'], [('open options', 'Integrator::render'), ('writes and flush', 'Film::write_image_ppm')], 'call-sequence and unused-result analysis on MIR')
prop('C05', 'The image file is valid plain PPM with the sRGB-encoded average of each pixel',
     'The file is the plain PPM header (magic, width, height, 255) followed by exactly width x height triples in row order, separated by white space. '
     'Each number is the accumulated colour divided by the accumulated weight, sRGB-encoded, clamped to the range and rounded to the nearest integer of 0..255.',
     ['inputs'], 'every film content and resolution', 'No test writes an image.', ['src/film.rs'], [('text of the image', 'Film::write_image_ppm'), ('tone curve', 'gamma_correct')],
     'value-graph evaluation of MIR, decoded into output tokens')
prop('C06', 'Tiles cover what their samples reach and merge cell by cell',
     'A new film and every tile start as zeros, one cell per pixel. A tile holds every image pixel whose centre lies within the filter radius of any position in its region and no pixel outside the image. '
     'Merging adds colour and weight of every tile cell to the image pixel with the same coordinates, once, and changes nothing else.',
     ['inputs', 'histories'], 'every resolution, filter radius, tile region and sequence of merges', 'The tests only iterate tile regions; nothing accumulates or merges pixels.',
     ['src/film.rs', 'src/bbox.rs'], [('tile window', 'Film::get_film_tile'), ('merge', 'Film::merge_film_tile'), ('index formulas', 'pixel_offset')], 'write-set analysis on evaluated MIR')
prop('C07', 'Tiles partition the sample area, and the pixel enumeration visits each cell once',
     'The tile enumeration yields, row by row, the cells of the fixed-stride partition of the sample area, clipped to it: every position belongs to exactly one tile, and empty areas give no tile. '
     'The enumeration of the pixels of a region yields each integer position of the half-open region exactly once. The sample area reaches one filter radius beyond the outermost pixel centres.',
     ['inputs', 'configurations'], 'every resolution, filter radius and region', 'The two tests check three fixed regions and a zero filter radius.', ['src/film.rs', 'src/bbox.rs'],
     [('tile enumeration', 'FilmTileIter::next'), ('pixel enumeration', 'BBox2iIter::next'), ('sample area', 'Film::sample_bbox')], 'case analysis of iterator transition functions on evaluated MIR')
prop('C08', 'A sample adds to exactly the pixels within the filter radius',
     'Adding a sample updates exactly the pixels of the tile whose centres are within the filter radius (per axis), each once, by the colour times the weight and by the weight. '
     'The weight is the tabulated filter value of the distance along each axis, the last table cell included. The table samples the Gaussian, shifted to end in zero at the radius, at cell centres.',
     ['inputs'], 'every sample position, colour, radius and tile', 'No test adds a sample.', ['src/film.rs', 'src/filter.rs'],
     [('splatting', 'FilmTile::add_sample'), ('filter table', 'Film::new'), ('filter', 'GaussianFilter::evaluate')], 'write-set analysis on evaluated MIR')
prop('C09', 'Every sample value lies in [0, 1)',
     'Every number a sampler hands out, in one or two dimensions, for every pixel, sample number and dimension, is at least 0 and strictly less than 1, after rounding to single precision as well. '
     'Choosing a light, indexing a table and staying inside a pixel rely on it.',
     ['inputs', 'histories'], 'every pixel, sample number, dimension and seed', 'No test draws a sample.', ['src/sampler_halton.rs', 'src/sampler_random.rs'],
     [('values handed out', 'Sampler::get_1d, Sampler::get_2d'), ('radical inverse', 'radical_inverse')], 'value-graph evaluation of MIR with interval reasoning per prime base')
prop('C10', 'Samples depend only on pixel, sample number, dimension; clones are independent',
     'The values of the Halton sampler depend only on the current pixel, the sample number within the pixel and the number of dimensions drawn so far: not on pixels visited before, on the worker or on other clones. '
     'A clone draws the same values as a new sampler of the same configuration; random-sampler clones share no generator state.',
     ['histories', 'schedules', 'configurations'], 'every history of pixels and draws, every number of workers', 'No test clones a sampler or revisits a pixel.', ['src/sampler_halton.rs', 'src/sampler_random.rs'],
     [('per-pixel state', 'HaltonSampler::start_pixel, start_next_sample'), ('clones', 'clone_sampler')], 'state-dependence analysis on evaluated MIR')
prop('C11', 'Each dimension is the radical inverse in its own prime, at the pixel\'s indices',
     'Dimension d of a Halton sample is the radical inverse of the sample index in the d-th prime, and consecutive draws use consecutive dimensions, a two-dimensional draw two of them. '
     'The k-th sample of a pixel has the k-th smallest index whose first two radical inverses fall into that pixel of the repeated tile of pixels, so the first two dimensions give the position inside the pixel. '
     'Precondition: the sample index fits in 32 bits.',
     ['inputs', 'configurations'], 'every pixel, sample number and dimension', 'The tests compare radical inverses of a few numbers only.', ['src/sampler_halton.rs'],
     [('index of a sample', 'HaltonSampler::get_index_for_sample'), ('prime of a dimension', 'radical_inverse_prime')], 'value-graph evaluation of MIR, exact number theory on the constants')
prop('C21', 'The scene holds every light and shape added; lights know its extent',
     'Every light, shape and area light added to the builder is in the scene once: lights and area lights are all lights, shapes and area lights are all in the container, and an area light is the same object in both roles. '
     'Before rendering every light is prepared with a box around all shapes and area lights.',
     ['inputs', 'configurations'], 'every number and order of lights, shapes and area lights added, none included', 'No test builds a scene.', ['src/scene.rs', 'src/light.rs'],
     [('construction', 'Builder::construct'), ('adding', 'Builder::add_light, add_shape, add_area_light')], 'dataflow over evaluated MIR')
prop('C34', 'Rays leave a surface on the right side, beyond its error bound',
     'A ray started at a hit point starts off the surface, on the side it travels to, at least as far along the normal as the error bound of the point reaches, and every moved coordinate is pushed to the next representable number; it keeps its direction and has no limit. '
     'A ray to another point also ends just short of it, off its surface on the near side. Next numbers are right for zeros of both signs, negative and infinite numbers.',
     ['inputs'], 'every point, normal, error bound and direction; every float', 'No test spawns a ray; the errors show as rare self-intersections.', ['src/interaction.rs', 'src/common.rs', 'src/ray.rs'],
     [('offset', 'Interaction::offset_ray_origin'), ('constructors', 'Interaction::spawn_ray, spawn_ray_to'), ('next numbers', 'next_float_up, next_float_down')], 'case analysis and equivalence on evaluated MIR')
prop('C12', 'No path draws more sample dimensions than there are',
     'However long a path gets, the camera sample and the path together draw no more dimensions from the sampler than it can supply, so that rendering never fails for lack of dimensions. '
     'Paths have a bounded number of vertices.',
     ['inputs', 'histories', 'configurations'], 'every scene, path and sampler value', 'No test renders; long paths are rare.', ['src/integrator.rs', 'src/sampler.rs', 'src/sampler_halton.rs'],
     [('path loop', 'IntegratorLocal::li'), ('dimensions supplied', 'radical_inverse_prime')], 'cost analysis on evaluated MIR')
prop('C13', 'Each pixel gets exactly its samples, each added where it was taken',
     'For each pixel of a tile the sampler is moved to the pixel and the configured number of samples is taken, no more and no fewer, whatever the values of the samples. '
     'For each sample one film position inside the pixel is drawn, one camera ray is made for it, its radiance is computed once, and the contribution is added at that film position.',
     ['inputs', 'configurations', 'histories'], 'every sample count, tile, scene and sampler', 'No test renders.', ['src/integrator.rs', 'src/sampler_halton.rs', 'src/sampler_random.rs', 'src/sampler.rs'],
     [('sampling loop', 'IntegratorLocal::render'), ('sample counters', 'Sampler::start_pixel, start_next_sample')], 'loop summaries of evaluated MIR')
prop('C14', 'Radical inverses and the modular arithmetic behind them are exact',
     'The radical inverse mirrors the base-b digits of its argument at the point, the digit reversal inverts it for a given number of digits, and the modular inverse and the extended Euclid algorithm return the Bezout coefficients of their arguments. '
     'All this holds for every argument, and no intermediate integer overflows.',
     ['inputs'], 'every 32-bit argument and every base of the table', 'The one test compares a few values.', ['src/sampler_halton.rs'],
     [('radical inverse', 'radical_inverse'), ('digit reversal', 'inverse_radical_inverse'), ('modular inverse', 'multiplicative_inverse, extended_gcd')], 'loop invariants checked on evaluated MIR')
prop('C20', 'Bounding boxes contain what they bound',
     'A box made from two corners is ordered, and the union of boxes and points is the smallest box containing both. The box of a triangle, a sphere or a list of shapes is the smallest box containing it (for lists: each of its members). '
     'Containment and overlap include the boundary; diagonal, area, surface area and bounding sphere agree with the corners.',
     ['inputs'], 'every box, point, shape and list of shapes', 'The tests construct a few integer regions and no box of a shape.', ['src/bbox.rs', 'src/shape.rs', 'src/shape_triangle.rs', 'src/shape_sphere.rs'],
     [('union and corners', 'BBox3f'), ('shape boxes', 'Shape::bbox'), ('box of a list', 'bbox_of_shapes')], 'equivalence of evaluated MIR with closed formulas')
prop('C27', 'Invalid radiance never reaches the film and valid radiance is never altered',
     'A radiance value with a component that is not a number, infinite or negative is never added to the image. Every other value is added unchanged, at its full weight. '
     'One invalid sample hence cannot spoil the pixels around it.',
     ['inputs'], 'every radiance value, NaN, infinities and signed zeros included', 'No test adds a sample.', ['src/integrator.rs', 'src/spectrum.rs'],
     [('validity filter', 'IntegratorLocal::render, Spectrum::is_valid')], 'NaN-aware value-graph evaluation of MIR')
prop('C29', 'Each path collects emission and direct light exactly once, without bias',
     'The radiance of a path is the sum over its vertices of throughput times direct light, plus throughput times emission where the camera ray or a specular bounce hits a light; light hit otherwise is not counted again. '
     'Direct light comes from one light chosen with equal probability, times the number of lights, and none if there are none. It is the multiple-importance-sampling estimate with the power heuristic: a light sample '
     'counted if visible, and, unless the light is a point or direction or the bounce is specular, a BSDF sample counted if it hits that very light. Samples of zero density count nothing.',
     ['inputs', 'configurations'], 'every scene, path, light and sampler value', 'No test computes radiance; statistical tests could not tell small bias from noise.', ['src/integrator.rs', 'src/light.rs', 'src/interaction.rs', 'src/sampling.rs'],
     [('path loop', 'IntegratorLocal::li'), ('direct light', 'IntegratorLocal::estimate_direct, uniform_sample_one_light'), ('visibility', 'VisibilityTester::unoccluded')], 'equivalence of evaluated MIR with closed formulas, loop summary')
prop('C30', 'Throughput is value times cosine over density; paths end without bias',
     'At each bounce the throughput is multiplied by the BSDF value times the cosine over the density of the sampled direction, and the path goes on from the hit point in that direction. A path ends when it leaves the scene, when '
     'value or density are zero, at a fixed largest length, or by Russian roulette; surviving with probability q in (0, 1] divides the throughput by exactly that q, and q is zero only where the throughput is.',
     ['inputs', 'configurations'], 'every scene, path and sampler value', 'No test follows a path.', ['src/integrator.rs'], [('path loop', 'IntegratorLocal::li')],
     'loop summary of evaluated MIR with proved transition')
prop('C31', 'Transforms and their stored inverses are exact inverses of each other',
     'For every way to make a transform, the stored matrix times the stored inverse is the identity, in both orders. Composition multiplies matrices in order and inverses in reverse order, and inverting swaps the two. '
     'Matrix product, transpose and inverse are those of linear algebra.',
     ['inputs', 'programs'], 'every transform built from the constructors with non-singular arguments, and any composition', 'The tests check a few concrete matrices.', ['src/transform.rs', 'src/matrix.rs'],
     [('constructors', 'Transform'), ('matrix algebra', 'Matrix')], 'equivalence of evaluated MIR with matrix identities')
prop('C32', 'Transforms act on points, directions, normals and rays as homogeneous maps',
     'Points are multiplied by the matrix and divided by w, directions ignore translation, normals are multiplied by the inverse transpose, and rays keep their extent; applying the inverse uses the inverse matrix. '
     'Translation, scaling, rotation (right-handed, degrees), perspective and look-at are the maps they are named after.',
     ['inputs'], 'every transform, point, direction, normal and ray', 'The tests apply a few concrete transforms.', ['src/transform.rs'], [('application', 'Transform::apply'), ('named transforms', 'Transform')],
     'equivalence of evaluated MIR with closed formulas')
prop('C33', 'Vector, point, normal and colour arithmetic is componentwise and correct',
     'Every arithmetic, assignment, comparison, indexing and conversion operation of vectors, points, normals and colours acts on each component as its name says; dot and cross products, lengths, distances, normalisation, permutation and axis choice follow their definitions. '
     'The coordinate frame built around a unit vector is orthonormal.',
     ['inputs'], 'every operand', 'The tests evaluate a few operations on a few values.', ['src/vector.rs', 'src/vector_macro.rs', 'src/spectrum.rs', 'src/axis.rs'], [('operators', 'vector_macro.rs'), ('products and frames', 'vector.rs')],
     'equivalence of evaluated MIR with closed formulas')
prop('C39', 'Transformed boxes and error bounds still bound; normals stay unit',
     'The transform of a bounding box contains the image of every point of the box. The transform of a surface interaction moves its point, tangents and outgoing direction, keeps uv and shape, keeps its normals of unit length (a missing normal stays missing), '
     'and its error bound still covers every image of a point within the old bound.',
     ['inputs'], 'every affine transform, box and interaction', 'No test transforms a box or an interaction.', ['src/transform.rs'], [('boxes', 'BBox3f::_transform'), ('interactions', 'Interaction::_transform')],
     'implications proved on evaluated MIR')
prop('C35', 'The camera maps film positions to the rays of a pinhole camera',
     'For every film position the generated ray starts at the eye and passes through the point of the screen window that corresponds to that position, with the y axis of the image pointing down, in world space and without a far limit.',
     ['inputs', 'configurations'], 'every resolution, field of view, camera pose and film position', 'No test generates a camera ray.', ['src/camera.rs', 'src/transform.rs'],
     [('ray generation', 'PerspectiveCamera::generate_ray'), ('screen mapping', 'PerspectiveCamera::new')], 'equivalence of evaluated MIR with closed formulas')

prop('C15', 'Containers report exactly the nearest hit of all their shapes',
     'Asking a container or the scene for the intersection of a ray gives the hit of the shape hit nearest, with that shape recorded in it, and nothing only if no shape is hit; the same for every kind of container, so the k-d tree agrees with the plain list. '
     'The traversal of the k-d tree visits every leaf the ray reaches before the nearest hit, also for rays parallel to an axis or lying exactly in a split plane.',
     ['inputs', 'configurations'], 'every set of shapes, every tree over them and every ray, zero direction components of either sign included', 'No test intersects a container; random scenes almost never have rays lying in split planes.',
     ['src/container_kdtree.rs', 'src/container_simple.rs', 'src/shape.rs', 'src/scene.rs'], [('traversal', 'KdTree::intersect, KdTree::intersect_p'), ('list', 'Simple::intersect'), ('shortening of the ray', 'shape::intersect')],
     'inductive invariants on evaluated MIR, IEEE case folding')
prop('C16', 'The occlusion test agrees with the full intersection test',
     'For every kind of shape and container, intersect_p is true for exactly those rays for which intersect reports a hit. Shadows hence agree with what the camera sees.',
     ['inputs'], 'every shape, container and ray', 'No test calls the two on the same ray.', ['src/shape_triangle.rs', 'src/shape_sphere.rs', 'src/light.rs', 'src/container_kdtree.rs', 'src/container_simple.rs'],
     [('shape tests', 'Shape::intersect, Shape::intersect_p'), ('container tests', 'Container::intersect, Container::intersect_p')], 'sibling consistency on evaluated MIR')
prop('C17', 'Every leaf of the k-d tree holds all shapes that reach into it',
     'The nodes built for a list of shapes are a leaf with all of them, or a split at a bound of one of them, followed at once by the nodes of the lower child and then, at the index the split records, by those of the upper child. '
     'Every shape that reaches below the split, or touches it from below, is in the lower child, likewise above, and a shape lying in the split plane is in one of them. The construction starts with all shapes, ends for every input, and the box of a container is that of all its shapes.',
     ['inputs', 'configurations'], 'every list of shapes, coinciding and flat ones included', 'No test builds a tree.', ['src/container_kdtree.rs', 'src/container_simple.rs', 'src/bbox.rs'],
     [('construction', 'KdTree::build'), ('start', 'KdTree::new'), ('leaves', 'Node::new_leaf')], 'symbolic dataflow on evaluated MIR, per outcome of the split search')
prop('C18', 'Triangle intersection is exact, and its shading data fits the triangle',
     'A ray hits a triangle if and only if its line passes through it, edges included, strictly ahead of the origin and within the extent of the ray, from either side. The hit point is on the ray and in the triangle, the normal is perpendicular to it, on the side of '
     'the interpolated vertex normals if given, flipped if orientation is reversed. Tangents are the derivatives of the position with respect to uv, or perpendicular to the shading normal, and the error bound of the point covers its rounding.',
     ['inputs'], 'every triangle and ray', 'No test intersects a triangle.', ['src/shape_triangle.rs'], [('hit test', 'Triangle::intersect'), ('shading data', 'Triangle::intersect')],
     'algebraic proof on evaluated MIR')
prop('C19', 'Sphere intersection finds the nearest root, with exact shading data',
     'A ray hits a sphere at the smallest root of its quadratic that is ahead of the origin and within its extent, from outside or inside. Point, outward normal, uv and tangents are those of the sphere there, at the poles too, and the error bound covers the rounding of the point.',
     ['inputs'], 'every sphere and ray', 'No test intersects a sphere.', ['src/shape_sphere.rs'], [('hit test', 'Sphere::intersect'), ('roots', 'solve_quadratic')], 'algebraic proof on evaluated MIR')
prop('C28', 'The bounding box test never culls what a ray can hit',
     'The test of a ray against a box says no only if no point of the ray within its extent lies in the box, and otherwise gives an interval that covers all such points, for rays parallel to axes, starting in a face, or of unlimited extent as well: not-a-number values cannot cull.',
     ['inputs'], 'every box and ray, zero direction components of either sign included', 'No test intersects a box.', ['src/bbox.rs'], [('slab test', 'BBox3f::intersect')], 'NaN-aware evaluation of MIR, IEEE case folding')

prop('C22', 'What a light samples is what it emits, with the density it reports',
     'Sampling an area light gives a point distributed uniformly over its shape, the unit direction from the given point to it, the light emitted there in that direction, which is none on the back, and the density per solid angle that the light reports for that direction. '
     'In every other respect an area light is its shape. A distant light comes from its one direction with its full colour. The segment tested for visibility is the one to the sampled point, or out of the scene. Other shapes emit nothing.',
     ['inputs', 'configurations'], 'every shape, point and sample value', 'No test samples a light.', ['src/light.rs', 'src/shape.rs', 'src/shape_triangle.rs', 'src/shape_sphere.rs', 'src/bbox.rs'],
     [('light samples', 'Light::sample_li, Light::pdf_li'), ('emission', 'Shape::l'), ('density', 'Shape::pdf'), ('uniform points', 'Shape::sample')], 'symbolic differentiation and equivalence on evaluated MIR')
prop('C23', 'Materials scatter as their textures say at the point hit',
     'What a surface scatters is decided by the material of the shape that was hit, with its textures evaluated at the point hit and negative colours cut off: matte, mirror, glass, metal and plastic are made of just the distribution functions that define them, '
     'ideally specular ones if roughness is zero, microfacet ones otherwise. Nothing but black components is left out.',
     ['inputs', 'configurations'], 'every texture value, every combination of black and bright, smooth and rough', 'No test evaluates a material.',
     ['src/material_glass.rs', 'src/material_metal.rs', 'src/material_plastic.rs', 'src/material_mirror.rs', 'src/material_lambertian_reflection.rs', 'src/interaction.rs', 'src/shape.rs'],
     [('components', 'Material::compute_scattering'), ('material of the hit', 'Interaction::compute_scattering, Shape::compute_scattering')], 'case analysis on evaluated MIR against constructor results')
prop('C25', 'A BSDF is the sum of its parts, evaluated and sampled consistently',
     'The value of a BSDF is the sum of the values of its parts that reflect, if both directions are on the same side of the geometric surface, or transmit, if not; its density is the mean of the densities of its parts. Both refer to the frame of the shading normal and tangent. '
     'Sampling chooses each part with equal probability, with what is left of the sample value used again, and returns value and density of the whole for the sampled direction, or of the specular part that was chosen.',
     ['inputs', 'configurations'], 'every list of parts, directions and sample values', 'The one test of BSDF checks component flags; no directions are evaluated or sampled.', ['src/reflection.rs'],
     [('value and density', 'BSDF::f, BSDF::pdf'), ('sampling', 'BSDF::sample_f'), ('frame', 'BSDF::new')], 'loop-transition analysis on evaluated MIR')
prop('C24', 'Each BxDF evaluates, samples and weighs directions as its scattering law says',
     'Every BxDF gives the value and density of its law for every pair of directions: the Lambertian constant over pi, the mirror and refraction laws with Fresnel weights, and the microfacet laws with half vector, distribution, shadowing and Fresnel term, from inside as well as from outside. '
     'What a BxDF samples agrees with what it evaluates: the sampled direction obeys the law, and value and density returned with it are those of evaluating that direction. Delta laws evaluate to zero, total reflection gives nothing, and the flags tell what kind of scattering it is.',
     ['inputs'], 'every pair of directions of the local frame, every sample value, roughness and index of refraction', 'No test evaluates a BxDF.',
     ['src/bxdf_lambertian_reflection.rs', 'src/bxdf_specular_reflection.rs', 'src/bxdf_specular_transmission.rs', 'src/bxdf_microfacet_reflection.rs', 'src/bxdf_microfacet_transmission.rs', 'src/reflection.rs'],
     [('value', 'BxDF::f'), ('density', 'BxDF::pdf'), ('sampling', 'BxDF::sample_f')], 'algebraic proof on evaluated MIR, sibling consistency')
prop('C26', 'Fresnel terms follow the Fresnel equations on either side of the surface',
     'The dielectric term is the mean of the two polarised reflectances of the Fresnel equations, with the indices swapped when light comes from inside, one at total reflection, and lies between zero and one. The conductor term is that of the complex index, per colour channel. '
     'Reflection mirrors about the normal, refraction obeys Snell\'s law and reports total reflection exactly when it occurs.',
     ['inputs'], 'every angle, from both sides, grazing ones and out-of-range cosines included, every index', 'No test evaluates a Fresnel term.', ['src/fresnel.rs', 'src/reflection.rs'],
     [('reflectance', 'Fresnel::evaluate'), ('directions', 'reflect, refract')], 'algebraic proof on evaluated MIR')
prop('C40', 'The microfacet distribution samples what it evaluates and stays finite',
     'The distribution of microfacet normals is the anisotropic Trowbridge-Reitz one, with its matching shadowing function; its density is the distribution times cosine and its sampled normals follow exactly that density, on the side of the outgoing direction. '
     'Values are finite and never NaN: at grazing and vertical directions, in every azimuth, and for zero roughness in one or both directions.',
     ['inputs'], 'every direction, roughness pair and sample value', 'No test evaluates the distribution.', ['src/microfacet.rs', 'src/reflection.rs'],
     [('distribution', 'MicrofacetDistribution::d'), ('shadowing', 'MicrofacetDistribution::lambda, g1, g'), ('sampling', 'MicrofacetDistribution::sample_wh')], 'algebraic proof on evaluated MIR, NaN-aware evaluation')

prop('C38', 'Disk and hemisphere sampling is one-to-one, uniform; weights add up to one',
     'The map from the unit square to the disk is continuous and one-to-one and has the same area element everywhere, so uniform samples become uniform points inside the disk, with the centre at the origin; cosine-weighted directions are unit vectors in the upper half that project to those points. '
     'The two power-heuristic weights are the squared shares of the densities, add up to one, and are numbers for all positive densities, however large. Spherical coordinates turn into the direction they denote.',
     ['inputs'], 'every sample value and pair of densities', 'No test calls a sampling map.', ['src/sampling.rs', 'src/vector.rs'],
     [('disk', 'concentric_sample_disk'), ('hemisphere', 'cosine_sample_hemisphere'), ('weights', 'power_heuristic'), ('spherical', 'Vector3f::from_spherical_direction')], 'symbolic differentiation and algebraic proof on evaluated MIR, degree analysis')

prop('C41', 'Textures have the value of the cell or point they are evaluated at',
     'A constant texture has its value everywhere. A checkerboard alternates between its first and second value with every cell in each direction, on both sides of zero, and the cell at the origin has the first; it is evaluated where its mapping puts the point hit. '
     'The surface mapping scales and shifts the surface parameters, and the space mapping transforms the point hit with the transform given.',
     ['inputs'], 'every point, parameter and transform', 'No test evaluates a texture.', ['src/texture.rs'],
     [('checkerboard', 'CheckerboardTexture::evaluate, Checkerboard3DTexture::evaluate'), ('mappings', 'UVMapping2D::map, IdentityMapping3D::map')], 'parity analysis and algebraic proof on evaluated MIR')

prop('C42', 'A triangle mesh holds exactly the triangles of its index lists',
     'Making a mesh gives one triangle for every index triple, in order, with the vertices the triple names, and with the normals the matching triple of normal indices names if there is one for every triangle, else with none; every triangle has the material of the mesh and is not turned over.',
     ['inputs'], 'every vertex list, index list and normal list', 'No test makes a mesh.', ['src/shape_triangle.rs'],
     [('mesh', 'Triangle::new_triangle_mesh')], 'algebraic proof on evaluated MIR for a generic index')

prop('C37', 'Rendering never panics on a valid scene',
     'Building a scene and rendering it does not end the program: every index and range used is within its list, no divisor is zero, no value that is unwrapped is missing, and no deliberate panic is reached, for every scene, the empty one, one without lights and one whose surfaces scatter nothing included. '
     'Only failures of the outside world end it: the output file, a worker that died, the source of randomness.',
     ['inputs', 'configurations'], 'every scene, ray, sample and configuration; index lists of meshes that name existing vertices', 'The tests run small pieces on well-behaved inputs.',
     ['src/integrator.rs', 'src/reflection.rs', 'src/interaction.rs', 'src/scene.rs', 'src/light.rs', 'src/shape.rs', 'src/shape_triangle.rs', 'src/sampler.rs', 'src/container_kdtree.rs'],
     [('light choice', 'Integrator::uniform_sample_one_light'), ('component choice', 'BSDF::sample_f'), ('lights prepared', 'Builder::construct'), ('dimensions', 'HaltonSampler, radical_inverse')], 'obligation analysis on evaluated MIR, induction over loops and fields')

prop('C36', 'Workers share nothing that changes except the tile queue and the film',
     'What a worker computes for a tile depends on nothing but the scene, the camera, the tile and its own sampler. Nothing that workers share can change while they run, except the queue of tiles and the pixels of the film. There are no variables of the whole program that change, no hidden inputs such as time, environment, thread, addresses or hash seeds, and no unsafe code but bit casts of numbers; the compiler vouches for the rest.',
     ['schedules', 'configurations'], 'every number of workers and every interleaving', 'Tests run in one thread and cannot try every interleaving.',
     ['src/integrator.rs', 'src/scene.rs', 'src/film.rs', 'src/common.rs', 'src/sampler.rs'],
     [('captured state', 'Integrator::render'), ('tile work', 'IntegratorLocal::render')], 'type reachability and effect analysis on MIR')

prop('C43', 'Rounding never takes a square root or inverse function out of its domain',
     'Every square root, inverse sine or cosine, logarithm and power is taken of a number within its domain however the operations before it are rounded: what could leave it by rounding alone is cut off first. So directions at grazing angles, samples on the rim of a disk, total reflection at its limit and the sines and cosines of azimuths never become NaN or leave their range.',
     ['inputs'], 'every finite direction, sample and parameter, and every rounding', 'The inputs where rounding matters are rare: random tests do not meet them.',
     ['src/reflection.rs', 'src/sampling.rs', 'src/microfacet.rs', 'src/fresnel.rs', 'src/shape_sphere.rs', 'src/common.rs', 'src/film.rs', 'src/vector.rs'],
     [('trigonometry', 'sin_2_theta, cos_phi, sin_phi'), ('directions', 'refract, cosine_sample_hemisphere, MicrofacetDistribution::sample_wh, Sphere::sample'), ('Fresnel', 'fr_dielectric, fr_conductor'), ('roots', 'quadratic')], 'interval analysis on evaluated MIR')

prop('N01', 'The image converges to the solution of the rendering equation',
     'As the number of samples per pixel grows, every pixel converges to the light that the rendering equation gives for it.',
     ['inputs', 'configurations'], 'every scene and camera, in the limit of many samples', 'Tests take a handful of samples.', ['src/integrator.rs'],
     [('path tracing', 'Integrator::li')], 'none')
prop('N02', 'The Halton points of a pixel have low discrepancy',
     'The samples of a pixel cover it more evenly than random ones: their star discrepancy decreases nearly as 1/n in every dimension used.',
     ['inputs'], 'every pixel and number of samples', 'Tests draw no samples.', ['src/sampler_halton.rs'], [('Halton points', 'HaltonSampler')], 'none')
prop('N03', 'The image is the same to within rounding for every number of workers',
     'Rendering the same scene with different numbers of workers gives pixels that differ only by the order in which rounded sums are taken, and by at most one step of the 8-bit output.',
     ['schedules', 'configurations'], 'every number of workers and every interleaving', 'No test renders.', ['src/integrator.rs', 'src/film.rs'], [('merging of tiles', 'Film::merge_film_tile')], 'none')
prop('N04', 'Rendering time shrinks with the number of workers',
     'Rendering with n workers takes about one n-th of the time of one worker, up to the number of processors.', ['schedules'], 'every scene', 'Tests do not measure time.', ['src/integrator.rs'],
     [('workers', 'Integrator::render')], 'none')
prop('N05', 'A ray never hits the surface it leaves again by rounding alone',
     'A ray that leaves a hit point is never reported to hit the same flat surface again, and never misses a closed surface between two triangles that share an edge, whatever the rounding of the intersection test.',
     ['inputs'], 'every ray and shape', 'Tests try a few rays.', ['src/shape_triangle.rs', 'src/shape_sphere.rs', 'src/ray.rs'], [('smallest distance accepted', 'Triangle::intersect, Sphere::intersect')], 'none')

NA.update({
    'N01': 'A statement about limits of random sums: it quantifies over run-time sample values and their distribution. What a static argument can settle of it is claimed separately: each estimator divides by the density it sampled with (C22, C24, C25, C29, C30, C38), and no path is counted twice or lost (C28, C29).',
    'N02': 'A number-theoretic bound on point sets, not a fact about the program text. The program facts it needs (radical inverses, prime bases, digit permutations, sample index per pixel, distinct dimensions) are claimed as C09 to C11 and C14.',
    'N03': 'The size of the difference depends on the run-time values summed, and with the random sampler on the random numbers each worker draws. What is decided: the set of samples merged does not depend on schedules (C01, C36) and Halton values do not depend on the worker (C10).',
    'N04': 'Time is a run-time quantity; the structural part (locks are never held while rays are traced, work is handed out dynamically) is claimed as C03 and C01.',
    'N05': 'Needs a rounding-error analysis of whole intersection routines with relations between variables (cancellation in determinants), for all magnitudes of inputs; no analysis available here bounds it soundly without false alarms. The monotone part of rounding is claimed as C43, the intersection over the reals and the error bounds returned as C18 and C19, their transformation as C39, the offset of new rays beyond them as C34.',
})
