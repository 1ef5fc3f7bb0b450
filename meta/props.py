def P(id, title, statement, over, text, why, files, mechanism, technique, note, level="other", state=()):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                         **({"state": [{"name": a, "meaning": b, "where": c} for a, b, c in state]} if state else {})},
                technique=technique, level_note=note, level=level)


def N(reason, **k):
    d = P(technique="", note="", **k)
    d["reason"] = reason
    return d


I = "include/huira/"
X = "include/huira_impl/"

PROPS = [
    P("U01", "Named units and literals keep their physical magnitude in every operation",
      "Every named unit and unit literal stands for its standard physical magnitude, for every value and every pair of scales of one "
      "dimension. Constructing, reading back, converting, adding, subtracting, scaling, multiplying, dividing, negating, assigning and "
      "comparing quantities gives (up to floating-point rounding) what the same operation gives on the SI values. No quantity can be "
      "constructed from NaN.",
      ["inputs", "programs"], "all finite values, all named units and literals, all ordered pairs of units of one dimension",
      "The unit tests sample a few conversions; the claim is about every value and all ~300 pairs of units under every operator.",
      [I + "units/units.hpp", I + "units/quantity.hpp", I + "units/spectral_quantity.hpp", X + "units/quantity.ipp"],
      [("scale of each unit", I + "units/units.hpp"), ("conversion through SI", I + "units/quantity.hpp Quantity::from_si/to_si")],
      "value-graph dataflow over instantiated templates, polynomial normal form vs unit definitions",
      "Decides the real-arithmetic value of ~6000 witness expressions generated over all named units; rounding is outside."),
    P("U02", "Quantities of different dimensions never mix",
      "A program that adds, subtracts, compares, assigns or converts quantities of different physical dimensions, or a dimensional "
      "quantity and a bare number, does not compile, and products and quotients have the dimension dimensional analysis prescribes. "
      "Likewise no camera, scene, orbit, rotation, light, sensor or time interface that takes a quantity accepts one of another "
      "dimension or a bare number.",
      ["programs"], "all client programs: every ordered pair of the 31 named dimensions under every operator, every quantity-taking API entry",
      "A test that compiles cannot show that other programs do not compile.",
      [I + "units/quantity.hpp", I + "units/dimensionality.hpp", I + "units/units.hpp", I + "handles/camera_model_handle.hpp", I + "scene/scene.hpp"],
      [("dimension in the type", I + "units/quantity.hpp"), ("explicit construction from numbers", I + "units/quantity.hpp")],
      "type-level encoding: generated static_asserts (compile-fail witnesses) decided by overload resolution",
      "Every obligation is discharged by the compiler over the library's current types.", "proof"),
    P("G01", "Header-only: any number of translation units can share one program",
      "Any set of the library's headers can be included, more than once and by any number of translation units of one program, without "
      "duplicate definitions at compile or link time. Every piece of mutable process-wide state (logger, kernel state, id counters) "
      "exists exactly once per program, not once per translation unit.",
      ["programs", "configurations"], "all functions and variables defined in the headers; all programs of any number of translation units",
      "The test programs are single translation units, so duplicate definitions never meet at link time.",
      [I + "huira.hpp", I + "util/logger.hpp", X + "util/logger.ipp", X + "stars/io/load_tycho2.ipp"],
      [("inline definitions and include guards", I), ("inline static data", I + "util/logger.hpp")],
      "linkage/ODR analysis of the type-checked AST plus an include-twice compile witness",
      "Every function and variable defined in any header is classified by the compiler's own linkage computation."),
    P("G02", "Every template works for every spectral configuration",
      "Every class template and every member function of the library (scene, renderer, cameras, materials, lights, images, handles, "
      "spectral I/O) can be used with each predefined spectral type and with user-defined bins of any count: code that uses them "
      "compiles.",
      ["programs", "configurations"], "all class templates x all member functions x spectral types (RGB, Visible8, SWIR8, a user-defined 5-bin type)",
      "Members of templates are only type-checked when used; the tests use few of them and mostly with one spectral type.",
      [I + "core/spectral_bins.hpp", I + "scene/scene.hpp", I + "render/renderer.hpp", X + "images/io/tiff_io.ipp"],
      [("genericity over the spectral type", I + "core/spectral_bins.hpp")],
      "exhaustive explicit-instantiation type checking (clang and g++)",
      "Type-level: the compilers check every member of every class template for four spectral types."),
    P("M01", "Rotations mean what their constructors and accessors say",
      "For every input, a Rotation built from axis and angle, from a quaternion (Hamilton or Shuster convention, local-to-parent or "
      "parent-to-local), from Euler angles of any supported sequence (intrinsic or extrinsic) or from a matrix is the rotation that its "
      "definition prescribes, re-orthonormalised; a matrix whose determinant is not close to 1 (or is NaN) is refused. Every accessor "
      "(matrices, quaternions, axes), inverse, composition and application to a vector agrees with that rotation, and composing or "
      "inverting rotations keeps them orthonormal.",
      ["inputs"], "all axes, angles, quaternions, matrices and vectors; every constructor x every accessor, float and double",
      "Unit tests try single angles about coordinate axes; a sign or order error on a general rotation or another convention passes them.",
      [I + "core/rotation.hpp", X + "core/rotation.ipp", I + "core/types.hpp"],
      [("re-orthonormalisation on construction", X + "core/rotation.ipp"), ("local-to-parent convention", I + "core/rotation.hpp")],
      "value-graph dataflow over template instantiations; polynomial/trigonometric normal forms vs textbook formulas",
      "Real-arithmetic equality of every matrix entry; rounding is outside. Orthonormalisation is an abstract function, itself checked against Gram-Schmidt."),
    P("M02", "Transforms compose and invert like similarity transforms of moving frames",
      "For every pair of transforms (position, rotation, scale, velocity, angular velocity), composing them and applying the result to a "
      "point, vector or direction equals applying one after the other; velocities and angular velocities compose as time derivatives of "
      "the composition; inverse undoes application, and the matrix form agrees with applying the transform. For inverse and composed "
      "velocities scale is uniform.",
      ["inputs"], "all transforms and vectors, float and double",
      "Tests use translations and axis-aligned rotations with zero rates, for which most wrong formulas agree with the right one.",
      [I + "core/transform.hpp", X + "core/transform.ipp"],
      [("composition and inverse", X + "core/transform.ipp")],
      "value-graph dataflow; polynomial normal forms modulo orthonormality vs kinematic definitions",
      "Real-arithmetic equality per component; non-uniform scale is not claimed for inverses and rates."),
    P("M09", "Node states compose parent and local states, light time and aberration",
      "For every node and every mode (manual position and rotation in any unit, parent-frame or body-frame rates, whole-transform, SPICE "
      "origin and/or frame, position, rotation or state callbacks) the true state relative to the solar-system barycentre is the parent's "
      "state at the same time composed with the local state of the mode at that time (callbacks are evaluated at that time and told the "
      "other half of the local state); SPICE-driven components are absolute. The geometric "
      "state is the state at the time of emission, iterated with the light time between observer and state; the aberrated state moves that "
      "position to the direction given by the relativistic aberration formula at the same distance. The nadir callbacks point z along (or "
      "against) the position and y closest to the velocity.",
      ["inputs", "histories"], "all node modes x all components x arbitrary parent states, callbacks, times and observers",
      "The scene graph needs CSPICE and is not compiled by the tests at all.",
      [I + "scene/node.hpp", X + "scene/node.ipp", I + "scene/state_callbacks/nadir_point.hpp", X + "core/physics.ipp"],
      [("state by mode", X + "scene/node.ipp get_apparent_transform"), ("aberration", X + "core/physics.ipp")],
      "value-graph dataflow with uninterpreted parent/SPICE/callback states; normal forms vs kinematic definitions",
      "Each component compared as a real function; convergence of the light-time iteration is not decided, only what each iterate is.",
      state=[("position/rotation/state modes", "where a node's local state comes from", I + "scene/node.hpp")]),
    P("T02", "Time scales, SPICE wrappers and Keplerian orbits convert by definition",
      "For every epoch, converting to and from Julian dates, modified Julian dates and Julian years in UTC, TAI, TT and TDB uses the "
      "definitions of those scales (J2000 = JD 2451545.0, MJD = JD - 2400000.5, 86400 s days, 365.25-day years); comparison, difference and "
      "offset of times agree with ephemeris time; intervals have the stated bounds, centre, duration and evenly spaced samples. Results "
      "from SPICE reach the caller unaltered: metres, metres per second, parent-to-local rotation matrices, angular velocity in the "
      "from-frame; Keplerian elements are handed to SPICE in its order and units (periapsis distance in km).",
      ["inputs"], "all epochs, scales, frames, bodies and elements; every conversion",
      "The time and SPICE layers need CSPICE and are not built by the tests.",
      [I + "core/time.hpp", X + "core/time.ipp", I + "core/interval.hpp", X + "core/spice.ipp", I + "scene/state_callbacks/keplerian_orbit.hpp"],
      [("scale conversions", X + "core/time.ipp"), ("CSPICE calls", X + "core/spice.ipp")],
      "value-graph dataflow with CSPICE as uninterpreted functions of their named arguments; normal forms vs definitions",
      "CSPICE's own accuracy is trusted; only what is passed in and what is done with the result is decided."),
    P("M03", "Spectral bins and radiometry compute what their names say",
      "For every bin layout (uniform, edges or explicit pairs, ascending or descending) the bins are the declared wavelength intervals in "
      "metres, in declared order, with their centres; arithmetic between spectral values and with scalars is per bin; total, integrate, "
      "magnitude, max, min, from_total, equality and the validity predicates (finite and not negative; within 0..1) are what they are called, for all values "
      "including NaN and infinities. Integrating tabulated data gives each bin the mean over it of the data's piecewise-linear interpolation for "
      "bins inside the data's range and zero for bins that do not overlap it; data of mismatched length, empty or not ascending is refused; "
      "integrating a spectrum over a band adds each bin's value times its overlap with the band in metres. Photon energies, "
      "Planck's law and black bodies, the trapezoid rule, linspace, the Johnson V response, magnitudes to irradiance and RGB to spectral "
      "conversion follow their definitions with the CODATA constants.",
      ["inputs"], "representative layouts of every kind (8 layouts) x every operation, symbolic values; grids of tabulated data",
      "Unit tests do not exercise the spectral types; a wrong bin edge or weight still gives plausible numbers.",
      [I + "core/spectral_bins.hpp", X + "core/spectral_bins.ipp", X + "core/physics.ipp", I + "core/constants.hpp"],
      [("bins and integrals", X + "core/spectral_bins.ipp"), ("radiometry", X + "core/physics.ipp")],
      "value-graph dataflow over layout instantiations (constant-count loops unrolled); normal forms vs definitions",
      "Real-arithmetic equality; predicates are decided on the cells of their comparisons incl. NaN and infinities. Bins partly outside the data are not claimed."),
    P("M04", "Camera projection, rays, distortion and aperture follow the camera model",
      "For every intrinsics, both camera conventions (+Z forward with y down, or Blender's -Z forward with y up) and every distortion "
      "model: projecting a point gives the pixel of the pinhole model applied to the distorted normalised coordinates; the ray of a pixel "
      "starts at the origin, has unit direction and passes through the pixel's undistorted normalised coordinates; with depth of field the "
      "ray starts at the sampled aperture point and meets the pinhole ray on the plane at the focus distance; a point is in the field of "
      "view, and projects to a pixel rather than NaN, exactly when it is in front of the camera and its pixel lies between the outermost "
      "pixels. Brown-Conrady, OpenCV and Owen distortion compute their published polynomials (no coefficients: the identity) and "
      "undistortion is their fixed-point iteration, stopped by tolerance or iteration count. Intrinsics from pixel pitch, sensor size or matrix, focal length, f-stop, "
      "diopters, aperture area, aperture samples, defocus radius and radiance-to-power factors follow their optical definitions.",
      ["inputs"], "all intrinsics, points, pixels, coefficients and samples; every configuration path; sensor of 4x4 pixels for per-pixel tables",
      "The camera layer is not built by the tests; sign, axis and convention errors still give plausible images.",
      [X + "cameras/camera_model.ipp", X + "cameras/distortion/brown_distortion.ipp", X + "cameras/distortion/opencv_distortion.ipp",
       X + "cameras/distortion/owen_distortion.ipp", X + "cameras/apertures/circular_aperture.ipp"],
      [("projection and rays", X + "cameras/camera_model.ipp"), ("distortion polynomials", X + "cameras/distortion")],
      "value-graph dataflow through the camera's public interface; normal forms and pointwise comparison of value graphs vs the camera model",
      "Formulas are compared as normal forms or, where guards or iteration prevent that, by evaluating the value graph at fixed points. "
      "The inverse distortion is an uninterpreted function inside the camera. Pixels on the outermost ring are not claimed."),
    P("M05", "BSDFs, direction sampling and materials follow their definitions",
      "For every pair of directions and all shading parameters: each BSDF (Lambertian, Oren-Nayar, Lommel-Seeliger, McEwen, Hapke, "
      "Cook-Torrance, null) evaluates to its published formula, with zero for directions below the horizon where the model has one; pdf is "
      "the density of the directions its sampler draws; a sample's pdf and weight are the pdf and f*cos/pdf of the direction drawn. "
      "The hemisphere and GGX samplers map the unit square to unit vectors in the hemisphere of the normal with the density they report "
      "(one over the Jacobian of the map). Local frames are orthonormal and round-trip. Shading parameters of a material are its textures at the "
      "interaction's (u, v) times its factors (and the vertex albedo), the shading normal is the normal map's vector in the tangent frame, "
      "alpha and requirement flags follow the material's images; each setter affects its own parameter and reset restores the default.",
      ["inputs"], "all directions, parameters, sampler values and texture coordinates (2x2 and 1x1 textures); every BSDF and setter",
      "Materials are not exercised by the tests; a wrong lobe or density still gives plausible renders.",
      [X + "materials/bsdfs/cook_torrance_bsdf.ipp", X + "materials/bsdfs/hapke_bsdf.ipp", X + "materials/bsdfs/oren_nayar_bsdf.ipp", I + "materials/sampling_utils.hpp", X + "materials/material.ipp"],
      [("BSDFs", X + "materials/bsdfs"), ("material parameters", X + "materials/material.ipp")],
      "value-graph dataflow; normal forms and pointwise comparison of value graphs vs published formulas",
      "Value graphs are compared at fixed points over both sides of every horizon guard. Energy conservation is not claimed. "
      "Interactions are assumed to have a tangent frame; Lambertian only guards the light's side."),
    P("M07", "Images store, sample, convolve and convert pixels by definition",
      "For every image: a pixel written at (x, y) is the one read back through every accessor (index y * width + x), checked access accepts "
      "exactly the positions inside the image and refuses all others, and copies keep size, pixels and sensor bit depth. Nearest and "
      "bilinear sampling place texel centres of the first and last column at 0 and 1 and treat coordinates outside by clamping, repeating or mirroring. "
      "Convolution with a kernel of any size is the centred convolution with zeros outside, channel by channel, and keeps size and bit depth. "
      "Sums, channel extraction, normal and depth maps, colour-space conversion (sRGB, gamma) of images and numbers, conversion between pixel types (ranges, "
      "rounding to nearest, Rec. 709 luma) and Resolution/Pixel arithmetic compute what their names say.",
      ["inputs"], "all positions, coordinates (inside and outside), pixel values and kernel values; images of 3x2 to 4x3 pixels, ten kernel shapes on both convolution paths",
      "No test touches images; an off-by-one in sampling or a shifted kernel still renders.",
      [I + "images/image.hpp", X + "images/image.ipp", I + "images/io/color_space.hpp", X + "images/io/convert_pixel.ipp", I + "images/color_map.hpp"],
      [("sampling and convolution", X + "images/image.ipp"), ("pixel types", X + "images/io/convert_pixel.ipp")],
      "value-graph dataflow with FFTW modelled as the Fourier transform it computes; pointwise comparison of value graphs vs definitions",
      "Positions and pixels are symbolic; sizes are fixed small ones. Value graphs are compared at fixed points on both sides of every guard."),
    P("M08", "Frame-buffer channels are independent; sensor readout follows its model",
      "A frame buffer made by a camera has the camera's resolution and no channel present. Each of the nine channels has its own image: enabling one makes exactly it present, at the frame "
      "buffer's size (enabling the sensor response also enables the received power it needs), disabling one removes exactly it, enabling a channel that is present keeps its content, writing one never changes another, and "
      "a newly enabled or cleared channel holds infinity for depth and zero otherwise. SimpleSensor::readout computes, for each pixel (and each channel of an RGB image; for any other spectral type "
      "summed over the bins), electrons = received power x exposure time / photon energy x quantum efficiency; if noise is simulated it adds dark current x exposure time, then one normal draw "
      "of standard deviation sqrt(electrons) and one of standard deviation read noise, every pixel and channel with draws of its own; it limits the result to the full well capacity, divides by the gain, adds the bias "
      "level if noise is simulated, clamps to [0, 2^bits - 1] and stores the fraction of 2^bits - 1, leaving the received power unchanged and setting the image's sensor bit depth. Sensor parameters read back as "
      "set; gain = 10^((unity_db - gain_db)/20) in both directions; pixel pitch and sensor size are related through the resolution on each axis separately.",
      ["inputs", "histories"], "all powers, exposure times, sensor parameters and noise draws; enable, disable, re-enable, write and clear of every channel",
      "A reading is a formula of a dozen parameters with saturation and clamps, and the frame buffer is nine copies of the same code in which a slip aliases two channels; no test touches either.",
      [I + "render/frame_buffer.hpp", X + "cameras/sensors/simple_sensor.ipp", I + "cameras/sensors/sensor_model.hpp", X + "cameras/sensors/sensor_model.ipp"],
      [("frame buffer", I + "render/frame_buffer.hpp"), ("readout", X + "cameras/sensors/simple_sensor.ipp")],
      "value-graph dataflow with normal draws modelled as mean + sigma * fresh unknown; pointwise comparison of value graphs vs the detector formula",
      "Image sizes of the witnesses are small constants. The quality of the standard library's generators is trusted."),
    P("M06", "Lights, unresolved objects, stars and media follow their radiometric formulas",
      "A sphere light of radius r (at least 1e-5 m) emits, per bin, the radiance P/(4 pi^2 r^2) for a spectral power P, the given radiance, from_total(P)/(4 pi^2 r^2) for a total power P, or black_body(T) for a temperature, the same in every "
      "direction. sample_li from a point outside draws unit directions uniformly over the cone the sphere subtends, with pdf 1/(solid angle), the distance to the first intersection and that radiance; from inside it "
      "draws nothing; pdf_li is 1/(solid angle) inside the cone and 0 outside; irradiance_at is pi L (r/d)^2 outside and 0 inside. An unresolved object's irradiance is what it was given (0 if new; a total is spread by from_total); "
      "an unresolved emitter's is P/(4 pi d^2) at its distance d from the camera (origin); an unresolved Lambertian sphere's is albedo E (2/3) phi(alpha) (R/d)^2 with phi = (sin alpha + (pi-alpha) cos alpha)/pi, never negative, E the "
      "irradiance of its own light at its position and alpha the phase angle; an asteroid's is that of visual magnitude H - 2.5 log10((1-G) phi1 + G phi2) + 5 log10(r delta) with distances in au, phi1 = exp(-3.33 tan(alpha/2)^0.64) and "
      "phi2 = exp(-1.87 tan(alpha/2)^1.22). Its own light is the one it was made with, wherever that is in the list; if it is missing, resolving throws and the irradiance stays. A star is at DEC + pmDEC t, RA + pmRA t/cos(DEC at t) (mas/year, years since J2000), "
      "with irradiance black_body(T) x solid angle. In a homogeneous medium extinction = absorption + scattering, transmittance over t>0 is exp(-extinction t) per bin (1 for t<=0), free paths are exponential with the "
      "mean extinction over the bins (none if it is 0) and carry the point, the reversed direction and the medium's properties; the isotropic phase function is 1/(4 pi) and its samples are uniform on the sphere. A medium stack "
      "toggled by primitives holds exactly those toggled an odd number of times, in order of entry; its top is the medium of the last entered.",
      ["inputs", "histories"], "all radii, powers, geometries, phases, samples, media and toggle sequences",
      "Each formula has factors that only show at particular phases, distances and orders; none is tested.",
      [X + "assets/lights/sphere_light.ipp", X + "assets/unresolved/unresolved_object.ipp", X + "assets/unresolved/unresolved_emitter.ipp", X + "assets/unresolved/unresolved_sphere.ipp", X + "assets/unresolved/unresolved_asteroid.ipp",
       X + "stars/star.ipp", I + "volumes/medium.hpp", I + "volumes/medium_stack.hpp", I + "volumes/scattering/phase_function.hpp", I + "volumes/density/constant_density_field.hpp"],
      [("lights", X + "assets/lights/sphere_light.ipp"), ("unresolved objects", X + "assets/unresolved/unresolved_sphere.ipp"), ("stars", X + "stars/star.ipp"), ("media", I + "volumes/medium.hpp")],
      "value-graph dataflow from source with symbolic samples; pointwise comparison of value graphs vs radiometric formulas; numerical Jacobian of the value graph vs the reported density",
      "black_body, the magnitude zero point and julian years are uninterpreted. Toggle sequences to length 6. Only the first transform of a light is used, as in the code."),
    P("T01", "Every CSPICE failure becomes an exception and leaves consistent state",
      "Each SPICE wrapper (furnsh, furnsh_relative_to_file, load_default_pck, str2et, deltet, unitim, timout, spkezr, pxform, sxform, conics), and any other function that calls a CSPICE routine, throws if a routine it called signalled "
      "an error, whichever routine of several it was, and does not throw otherwise; the routine is really executed even when an error was already signalled before the call; the error signal is clear when the wrapper returns or throws; "
      "no routine runs while the error action could still be ABORT, also when it is the first SPICE call of the process. Wrappers that need leap seconds load the default leap-second kernel exactly when none is loaded, record it as loaded only "
      "if that succeeded, and throw if it failed. furnsh_relative_to_file leaves the working directory as it was, on success and on error.",
      ["fault_sequences", "histories"], "all combinations of routine failures, earlier error states, error actions and loaded kernels, for the first and for later SPICE calls",
      "Failures of a SPICE routine depend on kernels and on the process's history; the test sandbox has no CSPICE at all.",
      [X + "core/spice.ipp"],
      [("checked call", X + "core/spice.ipp"), ("leap seconds", X + "core/spice.ipp"), ("directory guard", X + "core/spice.ipp")],
      "typestate of the CSPICE error signal by value-graph dataflow (with destructors, static locals and exceptions), evaluated for every combination of failures; call-site enumeration of all CSPICE routines",
      "Library functions other than CSPICE are taken not to throw. The CSPICE error subsystem is modelled by its documentation. Concurrent callers are not modelled. Which exception message is built is not decided."),
    P("M10", "Rays, primitives, clipping and trajectories compute the geometry their names say",
      "Ray and HitRecord accessors. Ellipsoid: its bounds, and that its intersection callback reports, within [tnear, tfar], the nearest surface point the filter accepts (the far side if the near one is rejected, nothing and an unchanged hit if none), with the outward "
      "surface normal and the (u, v) whose compute_surface_interaction gives that same point and normal. Mesh: surface attributes, tangents and uv are the barycentric combination of the hit triangle's vertices, and a constructor throws for "
      "an index outside the vertices or a tangent count that is neither zero nor the vertex count. build_default_tangent_frame gives a right-handed orthonormal frame; offset_intersection_ moves a point slightly to the side of the normal. Frustum: "
      "contains tells whether all planes have the direction on their inner side, clip_triangle returns triangles covering exactly the part inside, with the same winding and linearly interpolated attributes and tangents, clip_arc returns the "
      "parameter intervals in which the arc is inside. TrajectoryArc passes through its samples as a line, a parabola or a natural cubic spline, and find_plane_crossings finds the parameters where it crosses a plane. "
      "lookup_effective_radius gives the smallest PSF radius beyond which no pixel gets more than the photon threshold.",
      ["inputs"], "all rays, primitives, planes and sample points",
      "None of the geometry classes has a test.",
      [X + "geometry/ellipsoid.ipp", X + "geometry/mesh.ipp", X + "render/interaction.ipp", X + "render/frustum.ipp", X + "render/trajectory_arc.ipp", X + "render/psf_lut.ipp", "include/huira/geometry/ray.hpp"],
      [("ellipsoid", X + "geometry/ellipsoid.ipp"), ("mesh", X + "geometry/mesh.ipp"), ("clip", X + "render/frustum.ipp"), ("trajectory", X + "render/trajectory_arc.ipp"), ("psf-radius", X + "render/psf_lut.ipp")],
      "value-graph dataflow of every way through the geometry code (branch by branch), each way's terms compared pointwise with independent geometry",
      "Exact arithmetic stands for float arithmetic; points within rounding distance of a decision (grazing rays, vertices on a plane) are left out. Embree's packet accessors and filter call are modelled for packets of one ray. "
      "Trajectories of up to 6 samples and clipping by up to 2 planes are followed."),
    P("H01", "Handles and scene methods act on their object as their name says",
      "Every method of CameraModelHandle, FrameHandle/InstanceHandle (NodeHandle), MaterialHandle, UnresolvedObjectHandle, ModelHandle, MeshHandle and TextureHandle performs exactly the operation of that name on the object the handle denotes, with the same arguments in the same order, "
      "and returns its result (set_sensor_X acts on the camera's sensor; set_rotation_local_to_parent / parent_to_local / set_euler_angles set the rotation that those Rotation constructors build; set_scale(s) scales all axes; removed methods throw). "
      "A handle is valid exactly while its object exists and is owned by the scene; using an invalid one throws. Every Scene::new_*/add_*/get_*/set_name/delete_* constructs the documented object from exactly its arguments (defaults included), registers it under the given name in the registry of "
      "its kind, gives geometry the scene's Embree device, returns a handle to that object, and deletes it from that registry and from the scene graph; deleting a geometry deletes every primitive that uses it.",
      ["inputs", "histories"], "all arguments and all states of the objects",
      "None of the handle and scene classes is compiled by a test.",
      [X + "handles/camera_handle.ipp", X + "handles/scene/node_handle.ipp", X + "handles/scene/frame_handle.ipp", X + "handles/material_handle.ipp", X + "handles/handle.ipp", X + "scene/scene.ipp"],
      [("forward", X + "handles/camera_handle.ipp"), ("validity", X + "handles/handle.ipp"), ("registries", X + "scene/scene.ipp")],
      "effect traces: each method and a one-line reference are followed on every path; the operations called (receiver, arguments), fields written, results and failures must agree",
      "The operations themselves are the vocabulary: what set_fstop does to a camera is not part of this property. load_model and the print functions are not covered. Lists of primitives of length 2 stand for all lengths in delete_geometry."),
    P("S02", "Names are unique and lead to their object; graph edits are exact",
      "Within one kind of scene object, every name given (explicitly, by default or by renaming) is made different from the names already "
      "in use and a free name is kept as it is; looking a name up gives the object that has it now and fails for a name nobody has "
      "(also after renaming or deleting its object). Deleting an object removes exactly that one, marks it as no longer in the scene, and "
      "fails for an object that is not there. A new child or instance has the node as its parent and is the node's last child; deleting a "
      "child removes exactly that child and is refused for a node that is not a child. Deleting an asset removes all and only its instances "
      "anywhere in the scene graph and in model graphs; a node's parent is found wherever it is in the graph.",
      ["inputs", "histories"], "all names, all registry contents, every operation followed by every lookup; trees with instances at every level",
      "Tests add a few objects with different names; stale or clashing names appear only for particular sequences of adding, renaming and deleting.",
      [I + "scene/name_registry.hpp", X + "scene/name_registry.ipp", X + "scene/frame_node.ipp", X + "scene/scene.ipp", X + "scene/node.ipp"],
      [("unique names", X + "scene/name_registry.ipp NameRegistry::make_unique_name_"), ("removal of instances", X + "scene/scene.ipp Scene::prune_graph_references_"), ("children", X + "scene/frame_node.ipp")],
      "path-by-path dataflow with a map theory: every operation against a reference, observed through an arbitrary lookup",
      "Registry operations for arbitrary contents and names (up to three other objects); graph operations on trees of depth three with arbitrary assets."),
    P("S03", "A node's position and rotation have one mode each; accessors keep to it",
      "Each setter of a node (manual position, rotation, scale, rates, whole transform, SPICE origin and frame, custom callbacks, Keplerian "
      "orbit, axis-alignment callbacks) changes exactly the values and the modes it is named for and forgets a SPICE name its part no longer "
      "uses. A part (position or rotation) cannot be made manual or callback-driven while a child takes that part from SPICE, nor be taken "
      "from SPICE below a parent whose same part is not; rates can be set and manual values read only while their own part is manual, SPICE "
      "names only while it is SPICE. A refused call changes nothing.",
      ["inputs", "histories"], "all node states, all arguments, all modes of parent and children",
      "The tests never combine modes of parents and children; a setter that leaves a stale mode or name shows only in a later transform query.",
      [X + "scene/node.ipp", X + "scene/frame_node.ipp", I + "scene/node.hpp"],
      [("mode switches", X + "scene/node.ipp"), ("position_must_be_spice_ / rotation_must_be_spice_", X + "scene/frame_node.ipp")],
      "path-by-path dataflow: effects of every setter and getter compared with a reference, for frames and instances",
      "Compares the outcome, every write and the result on every path; frames with two children stand for any number."),
    P("S04", "Setters accept exactly their domain, store exactly that, or change nothing",
      "Settings with one value - of sensors (noise levels, gains, bit depth, capacity, quantum efficiency 0..1, resolution, pixel pitch, sensor size), "
      "cameras (focal length, f-stop, focus distance, veiling glare and scatter fractions 0..1, principal point), sphere lights, unresolved objects, "
      "constant density fields and the common validators - accept every value of the domain and no other: finite where a number is needed, positive "
      "or not negative as the quantity requires, 0..1 for ratios, and never NaN. An accepted value is stored as given and changes nothing else; a refused one "
      "throws and a setter that refuses leaves the object as it was.",
      ["inputs"], "all values incl. infinities, NaN, signed zeros and the neighbours of each bound",
      "The tests pass ordinary values; NaN slips through comparisons and a value stored before it is checked stays after the exception.",
      [X + "cameras/sensors/sensor_model.ipp", X + "cameras/camera_model.ipp", X + "assets/lights/sphere_light.ipp", X + "assets/unresolved/unresolved_object.ipp", I + "util/validate.hpp"],
      [("set_* of the sensor", X + "cameras/sensors/sensor_model.ipp"), ("set_* of the camera", X + "cameras/camera_model.ipp")],
      "value graph of each setter (exceptional exits included) evaluated at the boundaries of its domain and compared with a table of domains and effects",
      "Decides at the boundary points of each domain, not by a proof over all values; principal-point checks do not claim an unchanged camera."),
    P("S05", "What a camera derives from its settings always follows its present settings",
      "Rays (with and without distortion), projection, field of view, pixel solid angles, the aperture's point spread function and the defocus "
      "kernel are, after any public call that changes a camera, what its present settings give, whatever was set before and in whatever order; "
      "without explicit intrinsics the focal length in pixels is focal length over pixel pitch. Each setter changes exactly the settings it is "
      "named for (set_intrinsics also focal length, resolution and pitch of the sensor), and a PSF that is not the aperture's is left alone.",
      ["inputs", "histories"], "all histories of setter calls, all values of the settings",
      "A stale product shows only for a particular order of calls; the tests never change a camera after using it.",
      [X + "cameras/camera_model.ipp", I + "cameras/camera_model.hpp", X + "cameras/sensors/sensor_model.ipp"],
      [("compute_intrinsics_ / refresh_aperture_products_", X + "cameras/camera_model.ipp"), ("set_* / configure_*", X + "cameras/camera_model.ipp")],
      "value graph of every observation of a camera after each change compared with the same observation after everything is derived anew",
      "Cameras of five kinds (pinhole, distorted, explicit intrinsics, Blender, own PSF) with all settings symbolic on a 2x2 / 3x2 sensor; where the graphs differ in form they are compared at sample points."),
    P("R01", "Work done in parallel shares nothing mutable and is reproducible",
      "In every library loop whose iterations run in parallel (tbb::parallel_for and the like: path tracing and unresolved rendering, PSF "
      "generation, batch ray queries, star updates) an iteration writes only objects it created itself or elements that belong to that iteration "
      "alone - never anything (object, cache, generator, static, global) another iteration may use, directly or in a function it calls, unless it "
      "is atomic or locked - and keeps nothing for the next iteration. Nothing in an iteration depends on random devices, clocks or thread identities.",
      ["schedules", "inputs"], "all schedules and all ways of splitting the iterations into chunks, all inputs",
      "A race or a schedule-dependent value shows only under particular interleavings; the tests run nothing in parallel.",
      [X + "render/renderer.ipp", X + "cameras/psfs/psf.ipp", X + "scene/scene_view.ipp", X + "scene/scene.ipp"],
      [("path_trace_ / render_unresolved_", X + "render/renderer.ipp"), ("generate_polyphase_data_", X + "cameras/psfs/psf.ipp"),
       ("intersect / resolve_hits (batches)", X + "scene/scene_view.ipp"), ("load_stars / update_star_epoch", X + "scene/scene.ipp")],
      "region and effect analysis of every parallel body and all it calls, with a symbolic dependence test on element indices",
      "Every write reachable from a parallel body is to its own objects, to elements proved to belong to the iteration (linear bounds in the iteration index), atomic or locked; extern functions are judged by constness and tables (Embree queries are thread-safe by its documentation; logging is excluded)."),
    P("R02", "Queries modify nothing",
      "Calling a public const member function of any library class other than a handle (getters, lookups, evaluation, sampling, ray queries, camera "
      "projection) changes neither the object, nor anything reachable from it or from a const argument, nor any static or global state, so queries can be "
      "repeated and interleaved freely; building a SceneView and rendering it change only the view and the frame buffer, and free functions keep no hidden state. Exempt are the acceleration structure built on first use, "
      "a node callback's last value, the data-directory setters, the logger, CSPICE, and the sensor readout's noise generator.",
      ["histories", "schedules", "inputs"], "all sequences and interleavings of queries, all objects and arguments",
      "A hidden change shows only in what some later call returns; the tests query each object once or twice.",
      [X + "geometry/", X + "cameras/camera_model.ipp", X + "scene/scene_view.ipp", X + "images/image.ipp", X + "materials/material.ipp"],
      [("all public const members (about 900)", "include/huira"), ("free functions (about 300)", X)],
      "region and effect analysis of every query and all it calls (class-hierarchy virtual calls)",
      "Objects reachable from this or from const arguments are one region; every write reachable from a query is to locals or output arguments, for every query; extern functions are judged by constness and tables."),
    P("R03", "Rendering uses only the frame buffer channels that are enabled",
      "Rendering, and reading out the sensor, into a frame buffer with any subset of its channels enabled reads and writes pixels only of enabled channels, "
      "fills each of those, and never enables a disabled one.",
      ["inputs", "histories"], "all subsets of the nine channels, all scenes and cameras",
      "A test renders with one or two sets of channels; an unguarded access corrupts memory only for particular subsets.",
      [X + "render/renderer.ipp", X + "cameras/sensors/simple_sensor.ipp", "include/huira/render/frame_buffer.hpp"],
      [("path_trace_ / render_unresolved_", X + "render/renderer.ipp"), ("SimpleSensor::readout", X + "cameras/sensors/simple_sensor.ipp")],
      "flow-sensitive must analysis of channel presence (has_X guards) over the render and readout call graph",
      "Every pixel access or replacement of a channel's image on every path from render and readout is dominated by a guard that implies the channel is present."),
    P("G06", "Failures reach the caller: nothing throws where no handler can run",
      "No exception can leave a noexcept function, a destructor, a callback handed to a C library, or a terminate or signal handler, and writing to the log never throws (even if a "
      "custom sink does), so that every failure reaches the caller as a catchable exception and never ends the program. Running out of memory is not considered.",
      ["inputs", "histories"], "all call paths to a throw in the instantiated library, all virtual targets",
      "A test would have to hit the failing call inside the noexcept function, and then it does not fail but dies; most such paths need a stale handle or a corrupt file.",
      ["include/huira/", X],
      [("Handle::get_", "include/huira/handles/handle.hpp"), ("SceneView visitors", X + "scene/scene_view.ipp"), ("tiff_mem_*_", X + "images/io/tiff_io.ipp"), ("Logger::log", X + "util/logger.ipp")],
      "interprocedural may-throw analysis on the call graph, with handlers and class-hierarchy virtual targets",
      "No path of calls leads from a noexcept function, destructor, C callback or log call to a throw that no handler on the path takes."),
    P("G05", "No value is used before it is set",
      "When a constructor of a library class returns, every field of the object has been set, and no local value, or field of one, is read, returned or stored on a path on which "
      "it has not been set; so results never depend on leftover memory.",
      ["inputs", "histories"], "all paths of all instantiated constructors and functions, loops summarised",
      "Leftover memory is often zero in a test, and the paths that skip an assignment are the rare ones (short lists, volumes, early exits).",
      ["include/huira/", X],
      [("SpectralBins constructors", X + "core/spectral_bins.ipp"), ("CameraModel::CameraModel", X + "cameras/camera_model.ipp"),
       ("path_trace_", X + "render/renderer.ipp"), ("read_*_raw_", X + "images/io/")],
      "field-sensitive definite-assignment dataflow over the syntax trees, following helpers called on the object",
      "Every path from an object's creation to its use, or to the end of its constructor, assigns the field."),
    P("I03", "Native resources are released exactly once on every way out",
      "Every file, decoder, Fourier plan or buffer, Embree scene, geometry or device and block of memory the library gets from a C library is released exactly once on every way "
      "out, errors and exceptions included; none is used after its release; no copy or move of a library object makes two objects release the same one; and objects deleted through a base class have a virtual destructor.",
      ["inputs", "histories"], "all paths, loops and exception edges of all instantiated functions that hold a native resource",
      "A leak or a double release shows only on the failing path (a corrupt file, a full disk, a failed allocation, a copied object), which tests seldom take and never assert.",
      ["include/huira/", X],
      [("read_png_raw_/write_png", X + "images/io/png_io.ipp"), ("write_image_jpeg", X + "images/io/jpeg_io.ipp"), ("SceneView::build_tlas_", X + "scene/scene_view.ipp"),
       ("Mesh::build_blas_", X + "geometry/mesh.ipp"), ("EmbreeDevice", "include/huira/scene/embree_device.hpp"), ("Image convolution", X + "images/image.ipp")],
      "interprocedural typestate analysis of native resources with may-throw exception edges; ownership and copy rules for classes that keep one",
      "On every path each acquired resource is released once or handed to an owner, and each owner's destructor, copies and moves release it once."),
    P("I04", "A failed read or write is always reported",
      "Whenever a file, image codec, FITS or star-catalog operation fails or comes up short (also when the failure only shows on flushing or closing, or at the end of a read loop), "
      "the library function that ran it throws or returns its documented failure value; it never returns normally with missing, partial or unwritten data.",
      ["inputs", "histories"], "all paths of all instantiated functions between a call that can fail and a normal return",
      "Needs a full disk, a truncated or corrupt file or a failing codec at one particular call; tests run on healthy files, and unreported failures look like success.",
      ["include/huira/", X],
      [("read_file_to_buffer", "include/huira/images/io/io_util.hpp"), ("write_image_png/jpeg/tiff/fits", X + "images/io/"), ("read_tiff_raw_", X + "images/io/tiff_io.ipp"),
       ("fits_check", X + "images/io/fits_io.ipp"), ("StarCatalog::read/write_star_data", X + "stars/io/star_catalog.ipp"), ("read_tycho2_*", X + "stars/io/load_tycho2.ipp")],
      "path-sensitive dataflow of call outcomes, status variables and unflushed files, with helper summaries",
      "On every path, the outcome of each fallible call is tested and its failing side throws or returns a failure value."),
    P("M11", "Star catalogs are read by their columns and stored without loss",
      "For every line of the Tycho-2 main and supplement files, read_tycho2_dat/suppl give the star the catalogue's column tables describe: identifier, position in radians (the observed one where the line has no mean position) moved to "
      "J2000 by its proper motion, proper motions in mas/yr (0 if blank), and process_magnitude's V magnitude VT - 0.09 (BT - VT), the temperature of B - V = 0.85 (BT - VT) and the solid angle that gives that magnitude; lines that are no data, or lack a position, epoch or both magnitudes, give no star and "
      "do not affect later ones. pack/unpack_tycho2_id are inverse. read_star_data of a catalog written by write_star_data gives its type and exactly its stars that have a magnitude, not fainter than the limit, unchanged and brightest first; "
      "clip_by_magnitude keeps exactly those, in order.",
      ["inputs"], "all catalogue lines, identifiers, catalogs and magnitude limits",
      "No test reads a catalogue; column and stale-value mistakes give plausible stars.",
      [X + "stars/io/load_tycho2.ipp", X + "stars/io/star_data.ipp", X + "stars/io/star_catalog.ipp", "include/huira/stars/io/tycho2_id.hpp", "include/huira/stars/io/star_data.hpp"],
      [("columns", X + "stars/io/load_tycho2.ipp"), ("photometry", X + "stars/io/star_data.ipp"), ("storage", X + "stars/io/star_catalog.ipp"), ("identifiers", "include/huira/stars/io/tycho2_id.hpp")],
      "value-graph dataflow with string and file theories: each way through the readers yields terms over the text of the line, compared pointwise with the column tables; a written catalog is tracked as objects at offsets into the reader",
      "Lines are samples of every way found (each field present, blank, malformed or cut off); catalogs have three stars (four in thorough). The V-band response, Planck's law and the integral are uninterpreted here (M03)."),
    P("I01", "Image files decode to the pixels their format defines; damaged ones are refused",
      "For every BMP (24/32 bits), TGA (true colour 24/32 bits, grey, palette of 24/32 bits, plain or run-length) and Radiance HDR file (flat or new run-length), in every orientation the format allows, read_image and read_image_mono give exactly the pixels the file holds: rows and columns in image order, 8-bit "
      "channels divided by 255 (HDR: mantissa times 2^(exponent - 136)), mono the mean of red, green and blue, alpha iff the file has it and it was asked for. A file that is cut off, of another kind, or has impossible sizes, indices or settings is refused by an exception, and no byte outside the file or the "
      "reader's own buffers is read or written, whatever the file holds. The format given, or the extension of the path, decides which reader gets the whole file.",
      ["inputs"], "all layouts, orientations, packets, palettes and damages of the formats huira decodes itself; all pixel values",
      "The tests read no image file; orientation, palette and packet mistakes show only in particular files, and overruns only in damaged ones.",
      [X + "images/io/bmp_io.ipp", X + "images/io/tga_io.ipp", X + "images/io/hdr_io.ipp", X + "images/io/read_image.ipp", "include/huira/images/io/io_util.hpp"],
      [("pixels", X + "images/io/bmp_io.ipp"), ("contained", X + "images/io/tga_io.ipp"), ("refused", X + "images/io/hdr_io.ipp"), ("format", X + "images/io/read_image.ipp")],
      "value-graph dataflow through the readers with given layouts and unknown pixel bytes: every channel is traced to the bytes it is made of, and every element access is checked against the bounds of the file or buffer it belongs to",
      "Layouts are an enumerated family (each format's variants and each kind of damage); images are a few pixels large. PNG, JPEG, TIFF and FITS are decoded by their C libraries (their use: I03, I04)."),
    P("M12", "A pixel averages its samples' radiance, each path weighted as it is sampled",
      "Whatever rays meet and whatever lights, materials and sky answer, outside media path_trace_ gives each pixel pixel_radiance_to_power times the average over the samples taken of each path's radiance: the sky or a light where the path "
      "ends on it, and at each surface every light's Li f cos / pdf times transmittance to it, weighted against BSDF sampling by the power heuristic (lights seen by the camera or after a delta BSDF count in full), multiplied by the path's throughput; "
      "transparent hits do not count as bounces; roulette survivors are divided by their probability of surviving; what exceeds the clamp is scaled to it. First-hit light is direct, the rest indirect, together the received power. Depth, albedo, "
      "normals and geometry ids are those of the surface seen first. render() adds resolved and unresolved power and spreads veiling glare with the total kept; transforms and irradiances between time samples are interpolated.",
      ["inputs"], "all scenes, lights, materials, skies, sample counts, bounce limits and random draws",
      "Tests render nothing; a wrong weight still gives a plausible image.",
      [X + "render/renderer.ipp"],
      [("estimator", X + "render/renderer.ipp"), ("glare", X + "render/renderer.ipp"), ("interpolation", X + "render/renderer.ipp")],
      "value-graph dataflow: witnesses replace what the path tracer asks (rays' hits, lights, materials, sky, camera) by symbolic answers; the term of every frame buffer channel along each way through path_trace_ and render is compared pointwise with the estimator",
      "Ways are scripts of up to five hits, six samples and two lights; intersection, light, BSDF and camera answers are arbitrary here (M05, M06, M04 decide them); paths inside media, where the code adds light sampling and phase sampling without weights, are not covered. The PSF and unresolved objects are M01, R01."),
]
NA = [
    N("Quantifies over the value of a recursive Monte Carlo estimator (expected radiance of random paths); no sound static bound on it is in reach. "
      "What can be decided statically (each sampling density integrates to the sampled distribution, lobe weights, throughput factors) is in M05 and M06.",
      id="X01", title="Path tracing converges to the rendering equation",
      statement="For every scene, the average of the path tracer over samples converges to the solution of the rendering equation, with no energy gained at surfaces or media.",
      over=["inputs"], text="all scenes, materials, lights and sample counts", why="A test renders a few scenes and compares coarse averages.",
      files=[X + "render/renderer.ipp"], mechanism=[("path tracing", X + "render/renderer.ipp Renderer::path_trace_")]),
    N("The claim bounds the error of a fixed-point iteration for all coefficients and points; convergence depends on the coefficients' magnitude, which no static analysis of the source bounds "
      "(the forward model and the iteration step are decided in M04).",
      id="X02", title="Undistorting a distorted point recovers it",
      statement="For every distortion model, admissible coefficients and point in the field of view, undistort(distort(p)) is p to within a small tolerance.",
      over=["inputs"], text="all coefficient sets and points", why="Tests sample a few points and coefficients.",
      files=[X + "cameras/distortion/opencv_distortion.ipp"], mechanism=[("fixed-point iteration", X + "cameras/distortion/owen_distortion.ipp")]),
    N("Depends on numerical truncation of sampled kernels (a sum over a data-dependent grid of floating-point samples); only the normalisation step itself is a static fact.",
      id="X03", title="Point spread functions conserve flux",
      statement="For every aperture, wavelength and kernel radius the polyphase point spread function kernels sum to one and their centroid is at the requested sub-pixel position.",
      over=["inputs"], text="all apertures, wavelengths, radii and phases", why="Tests check a few kernels.",
      files=[X + "cameras/psfs/psf.ipp"], mechanism=[("polyphase kernels", X + "cameras/psfs/psf.ipp PSF::build_polyphase_cache")]),
    N("Ephemeris values come from CSPICE kernels at run time; the source only decides which CSPICE routine is asked with which arguments (T02).",
      id="X04", title="Ephemeris positions are accurate",
      statement="For every body, frame and epoch covered by the loaded kernels, positions, orientations and light times agree with the ephemeris to its stated accuracy.",
      over=["inputs"], text="all bodies, frames, epochs and kernels", why="Needs kernels that the tests do not have.",
      files=[X + "core/spice.ipp"], mechanism=[("CSPICE calls", X + "core/spice.ipp")]),
    N("Statistical distribution of pseudo-random draws over seeds; the mapping from uniform draws to samples is decided in M05 and M08, the generator's quality is not a static fact of this source.",
      id="X05", title="Sensor noise has the specified statistics",
      statement="Over many pixels and seeds, the simulated dark, shot and read noise have the mean and variance the sensor's configuration specifies.",
      over=["inputs", "histories"], text="all configurations and seeds", why="Statistical; tests use one seed.",
      files=[X + "cameras/sensors/simple_sensor.ipp"], mechanism=[("noise", X + "cameras/sensors/simple_sensor.ipp")]),
]
