PROPS=[
dict(id='R01', title='The ray accelerator answers like a brute-force search',
 statement='For any scene, casting a ray through the acceleration structure finds exactly the nearest triangle that a search over all triangles finds (same triangle, distance and side) and nothing when there is none, and the unobstructed-distance query agrees with it. Building the structure only permutes the objects: every triangle keeps its own normals, front and back materials, and meshed spheres are seen from outside by their front.',
 over=['inputs'], quant='all scenes, ray origins and directions',
 why='A pruning mistake hides a surface only for particular arrangements of triangles and rays.',
 files=['rendering/src/bvh.rs','rendering/src/scene.rs','rendering/src/triangle/mod.rs','rendering/src/triangle/fallback.rs'], mech=[('build','BoundingVolumeTree::new, recursive_build'),('traversal','intersect, unobstructed_distance'),('reordering','Scene::build_accelerator')], observe='public API of the rendering crate',
 technique='exhaustive enumeration of all subsets of a triangle pool, structured, degenerate and deep scenes x all rays of a lattice on the real code against brute force', note='hits closer than 2 cm and rays grazing an edge are not judged'),
dict(id='R02', title='Samplers cover their domain evenly and densities match',
 statement='Every sampling map (disc, cosine and uniform hemisphere, sphere, triangle, tilted disc and hemisphere) sends the unit square into exactly its domain, giving equal shares to equal areas (cosine-weighted for the cosine hemisphere), and yields unit directions. Directions sampled towards a triangle, sphere or distant light hit it, their solid-angle density is positive, and one over the density averages, over every part of the light, to the solid angle that the part subtends.',
 over=['inputs'], quant='all random draws, lights and viewing points',
 why='A biased map or density only shifts averages, which sampled tests tolerate.',
 files=['rendering/src/samplers.rs','rendering/src/primitive_samplers.rs','rendering/src/primitive.rs'], mech=[('maps','uniform_sample_*, sample_*_hemisphere'),('densities','*_solid_angle_pdf'),('light directions','Primitive::sample_direction')], observe='public API of the rendering crate',
 technique='exhaustive enumeration of a grid of random draws (the generator state is constructed so that every cell of the draws is visited) on the real code, counting arrivals per equal-measure cell', note=''),
dict(id='R03', title='Surfaces scatter light as their material says and create none',
 statement='For every incoming direction and random outcome, matte surfaces return exactly their colour, mirrors and panes send light along the exact mirrored or straight direction, dielectrics obey Snell and Fresnel also through any sequence of reflections and refractions inside a slab, panes reflect and transmit what the sum of internal reflections gives, rough plastics and metals follow their reciprocal lobe (Ward, bounded albedo) when evaluated and when sampled, choices happen with the stated probability, and the path continues on the correct side. Traced paths carry the sky, the sun or lamps of any size (in the open, nothing in the shade) accordingly, and colour arithmetic is channel by channel.',
 over=['inputs','histories'], quant='all materials, directions, sides, random outcomes and bounce sequences',
 why='Unlikely branches (total reflection, internal bounces, grazing rays) are hardly ever drawn by sampled renderings.',
 files=['rendering/src/material/mod.rs','rendering/src/material/glass.rs','rendering/src/material/dielectric.rs','rendering/src/material/mirror.rs','rendering/src/material/diffuse.rs','rendering/src/material/plastic.rs','rendering/src/material/metal.rs','rendering/src/material/specular.rs','rendering/src/material/ward.rs','rendering/src/ray_tracer.rs','rendering/src/colour.rs'], mech=[('scattering','sample_bsdf'),('optics','fresnel_*, mirror_direction, cos_and_n'),('transport','RayTracer::trace_ray, get_local_illumination')], observe='public API of the rendering crate',
 technique='exhaustive enumeration of random draws, directions and all bounce sequences up to 6 hits on the real code with a controlled generator, against analytic optics', note='rough lobes at grazing angles are not judged'),
dict(id='R04', title='Images, matrices, colour scales and cameras keep every value in place',
 statement='Images and (colour) matrices read back from storage equal what was saved within the format precision, and a file cut short at any byte is refused rather than read as something else. The ray generated for a pixel looks through that pixel and maps back to it for any film shape, view and field of view (rays outside the frustum or behind map to nothing), and colour scales are continuous, total and hit both ends.',
 over=['inputs','crash_points'], quant='all sizes, values, truncation points, films, views and values',
 why='Torn files and non-square films need specific shapes and cut points.',
 files=['rendering/src/colour_matrix.rs','rendering/src/image.rs','rendering/src/camera/pinhole.rs','rendering/src/camera/view.rs','rendering/src/colourmap/mod.rs'], mech=[('files','save_*, read_*, from_file'),('camera','gen_ray, pixel_from_ray'),('scale','map_linear')], observe='public API of the rendering crate, files in a scratch directory',
 technique='exhaustive enumeration of sizes, value patterns, all truncation points, all pixels of all small films on the real code', note='a cut inside the last number of a text file is not judged'),
dict(id='R05', title='Skies put into scenes and daylight coefficients account for every ray',
 statement='Adding a sky for any site, moment and radiation gives the Perez sky of that moment and, by day only, exactly one sun disc in the direction of the sun carrying the direct light of the sky vector; at night everything is black. Daylight coefficients share pi among the sky patches the sensor faces when nothing is around, lose exactly what surfaces absorb, get nothing from behind walls or inside closed rooms, and inside partly open matte rooms add up to the series of the reflections.',
 over=['inputs'], quant='all sites, moments, radiations, sensors and random draws',
 why='Nights, suns at the zenith and sensors facing the ground are special moments that validation days skip.',
 files=['rendering/src/scene.rs','rendering/src/daylight_coefficients.rs','weather/src/solar/perez.rs','weather/src/solar/reinhart_sky.rs'], mech=[('sky','Scene::add_perez_sky'),('coefficients','DCFactory::calc_dc, trace_ray')], observe='public API of the rendering crate',
 technique='exhaustive enumeration of sites, days, clock times and radiations, and of sensor directions around elementary scenes, on the real code', note='the coefficients draw from a generator seeded by the system: only facts true of every draw are judged'),
dict(id='R06', title='Scene loaders keep every surface, whole, once and with its material',
 statement='Reading a Radiance or OBJ source, or a Simple model, yields exactly the described materials, surfaces, lamps and suns: every surface is tiled by its triangles without gaps, overlaps or flips (holes left open, openings skipped), faces its original way and carries the material that was in force, with fronts and backs looking like the outer faces of the first and last layers. A source that is cut short or has a wrong token is refused rather than read as something else.',
 over=['inputs','crash_points'], quant='all sources: object sequences, polygon shapes, constructions, truncations and token errors',
 why='Redefinitions, concave or many-cornered faces and asymmetric layers each need a specific combination.',
 files=['rendering/src/from_radiance.rs','rendering/src/from_obj.rs','rendering/src/from_simple_model.rs','rendering/src/scene.rs'], mech=[('Radiance','Scene::from_radiance_source'),('OBJ','Scene::add_from_obj_source'),('model','SimpleModelReader::build_scene')], observe='public API of the rendering crate',
 technique='exhaustive enumeration of object sequences, truncation points, token replacements, all simple polygons on a grid and layer combinations on the real code against independent readers', note='the Radiance reader may refuse by panicking, as its own tests ask'),
dict(id='R07', title='Rendering a picture ends and each pixel holds what its ray sees',
 statement='For every scene, view, size and count of samples, rendering finishes and gives as many pixels as asked for, each a number that is not negative, wherever the lamps are: edge-on, in, on or under the surfaces that they light. A pixel whose ray meets a lamp first holds the colour of that lamp, and one whose ray meets nothing or something black first holds none.',
 over=['inputs','configurations'], quant='all arrangements of three triangles out of eight, lamps or walls, and all lamps of a list in special positions, x materials x views x sizes x counts of rays',
 why='Special positions, such as a lamp in the plane of a shadow ray, are found by enumerating positions on a grid, not by a picture or two.',
 files=['rendering/src/ray_tracer.rs','rendering/src/scene.rs','rendering/src/camera/pinhole.rs','rendering/src/primitive.rs'], mech=[('rendering','RayTracer::render, trace_ray, get_local_illumination')], observe='pixels of the rendered pictures and the end of the call',
 technique='exhaustive enumeration of scenes, views and sizes on the real renderer against an independent ray caster, with a watchdog for calls that do not end', note='pixels whose ray passes within a millionth of an edge are not compared'),
dict(id='R08', title='Light is followed through any number of bounces and from every source',
 statement='A traced ray carries the source back through any sequence of mirrors and panes with the product of their factors, up to exactly the allowed depth and black beyond it. Inside closed matte rooms the traced light adds up to the geometric series of the reflections, and with any number of lamps and distant lights, shadow rays and sides, every source that is in view, and no other, contributes exactly once.',
 over=['inputs','histories','configurations'], quant='all mirror chains, depths, cavity colours and combinations of sources hidden or in view',
 why='Losing or double-counting a source or a bounce only shows for scenes with several of them, and only as a shift of an average.',
 files=['rendering/src/ray_tracer.rs','rendering/src/scene.rs','rendering/src/primitive_samplers.rs','rendering/src/material/mod.rs'], mech=[('transport','RayTracer::trace_ray'),('sources','RayTracer::intersect_light, get_local_illumination, Scene::push_object')], observe='radiance returned by RayTracer::trace_ray',
 technique='exhaustive enumeration of mirror corridors x depths, cavities x colours x depths, and all subsets of sources x shadow rays on the real code against analytic sums', note='cavity and source averages are judged within the spread of their draws, from a seeded generator'),
]
