"""H01: handles and the scene do on the object they denote exactly what their name says."""
from sa import fx
from sa import terms as tm
from sa.trace import Vocab, same

HEAD = '''#include <vector>
#include <string>
#include <optional>
#include <memory>
#include "huira/huira.hpp"
using namespace huira;
using S = RGB;
using Cam = CameraModelHandle<S>;
using MatH = MaterialHandle<S>;
using Unr = UnresolvedObjectHandle<S>;
using Fr = FrameHandle<S>;
using Ins = InstanceHandle<S>;
using Sc = Scene<S>;
using Str = std::string;
namespace verif_w {
'''

# (group, name, parameters, what the library does, what it should do, result type)
CAM = [
    ("set_focal_length", "units::Millimeter a", "set_focal_length(a)", None, None),
    ("focal_length", "", "focal_length()", None, "units::Millimeter"),
    ("set_fstop", "float a", "set_fstop(a)", None, None),
    ("fstop", "", "fstop()", None, "float"),
    ("set_brown_conrady_distortion", "BrownCoefficients a", "set_brown_conrady_distortion(a)", None, None),
    ("set_opencv_distortion", "OpenCVCoefficients a", "set_opencv_distortion(a)", None, None),
    ("set_owen_distortion", "OwenCoefficients a", "set_owen_distortion(a)", None, None),
    ("set_distortion_brown", "BrownCoefficients a", "template set_distortion<BrownDistortion<S>>(a)", None, None),
    ("delete_distortion", "", "delete_distortion()", None, None),
    ("configure_sensor_from_pitch", "Resolution r, units::Micrometer a, std::optional<units::Micrometer> b, std::optional<float> c, std::optional<float> d",
     "configure_sensor_from_pitch(r, a, b, c, d)", None, None),
    ("configure_sensor_from_size", "Resolution r, units::Millimeter a, std::optional<units::Millimeter> b, std::optional<float> c, std::optional<float> d",
     "configure_sensor_from_size(r, a, b, c, d)", None, None),
    ("set_intrinsic_matrix", "const Mat3<float>& m, Resolution r, units::Millimeter a", "set_intrinsic_matrix(m, r, a)", None, None),
    ("set_intrinsics", "float a, float b, float c, float d, Resolution r, units::Millimeter e", "set_intrinsics(a, b, c, d, r, e)", None, None),
    ("qe_double", "double a", "set_sensor_quantum_efficiency(a)", "sensor_->set_quantum_efficiency(S(static_cast<float>(a)))", None),
    ("qe_spectral", "S a", "set_sensor_quantum_efficiency(a)", "sensor_->set_quantum_efficiency(a)", None),
    ("full_well", "float a", "set_sensor_full_well_capacity(a)", "sensor_->set_full_well_capacity(a)", None),
    ("simulate_noise", "bool a", "set_sensor_simulate_noise(a)", "sensor_->set_simulate_noise(a)", None),
    ("read_noise", "float a", "set_sensor_read_noise(a)", "sensor_->set_read_noise(a)", None),
    ("dark_current", "float a", "set_sensor_dark_current(a)", "sensor_->set_dark_current(a)", None),
    ("bias_level", "float a", "set_sensor_bias_level(a)", "sensor_->set_bias_level_dn(a)", None),
    ("bit_depth", "int a", "set_sensor_bit_depth(a)", "sensor_->set_bit_depth(a)", None),
    ("gain", "float a", "set_sensor_gain(a)", "sensor_->set_gain_adu(a)", None),
    ("gain_db", "float a", "set_sensor_gain_db(a)", "sensor_->set_gain_db(a)", None),
    ("unity_db", "float a", "set_sensor_uinty_db(a)", "sensor_->set_unity_db(a)", None),
    ("sensor_rotation", "units::Radian a", "set_sensor_rotation(a)", "sensor_->set_rotation(a)", None),
    ("set_aperture", "units::Millimeter a", "template set_aperture<CircularAperture<S>>(a)", None, None),
    ("use_aperture_psf_flag", "bool a", "use_aperture_psf(a)", "?", None),
    ("use_aperture_psf_size", "int a, int b", "use_aperture_psf(a, b)", None, None),
    ("enable_psf_convolution", "bool a", "enable_psf_convolution(a)", None, None),
    ("delete_psf", "", "delete_psf()", None, None),
    ("set_veiling_glare", "float a", "set_veiling_glare(a)", None, None),
    ("disable_veiling_glare", "", "disable_veiling_glare()", None, None),
    ("set_harvey_shack_scatter", "float a, float b, float c, float d", "set_harvey_shack_scatter(a, b, c, d)", None, None),
    ("disable_harvey_shack_scatter", "", "disable_harvey_shack_scatter()", None, None),
    ("enable_depth_of_field", "bool a", "enable_depth_of_field(a)", None, None),
    ("set_focus_distance", "units::Meter a", "set_focus_distance(a)", None, None),
    ("get_focus_distance", "", "get_focus_distance()", None, "units::Meter"),
    ("set_diopters", "units::Diopter a", "set_diopters(a)", None, None),
    ("get_diopters", "", "get_diopters()", None, "units::Diopter"),
    ("project_point", "const Vec3<float>& a", "project_point(a)", None, "Pixel"),
    ("make_frame_buffer", "", "make_frame_buffer()", None, "FrameBuffer<S>"),
    ("use_blender_convention", "bool a", "use_blender_convention(a)", None, None),
    ("removed_resolution", "Resolution a", "set_sensor_resolution(a)", "!", None),
    ("removed_resolution2", "int a, int b", "set_sensor_resolution(a, b)", "!", None),
    ("removed_pitch", "units::Millimeter a", "set_sensor_pixel_pitch(a)", "!", None),
    ("removed_pitch2", "units::Millimeter a, units::Millimeter b", "set_sensor_pixel_pitch(a, b)", "!", None),
    ("removed_size", "units::Millimeter a", "set_sensor_size(a)", "!", None),
    ("removed_size2", "units::Millimeter a, units::Millimeter b", "set_sensor_size(a, b)", "!", None),
]
NODE = [
    ("set_position", "units::Meter a, units::Meter b, units::Meter c", "set_position(a, b, c)", None, None),
    ("get_static_position", "", "get_static_position()", None, "Vec3<double>"),
    ("set_velocity", "units::MetersPerSecond a, units::MetersPerSecond b, units::MetersPerSecond c", "set_velocity(a, b, c)", None, None),
    ("get_static_velocity", "", "get_static_velocity()", None, "Vec3<double>"),
    ("set_rotation", "const Rotation<double>& a", "set_rotation(a)", None, None),
    ("lp_matrix", "const Mat3<double>& a", "set_rotation_local_to_parent(a)", "set_rotation(Rotation<double>::from_local_to_parent(a))", None),
    ("lp_quaternion", "const Quaternion<double>& a", "set_rotation_local_to_parent(a)", "set_rotation(Rotation<double>::from_local_to_parent(a))", None),
    ("lp_axis", "const Vec3<double>& a, units::Degree b", "set_rotation_local_to_parent(a, b)", "set_rotation(Rotation<double>::from_local_to_parent(a, b))", None),
    ("pl_matrix", "const Mat3<double>& a", "set_rotation_parent_to_local(a)", "set_rotation(Rotation<double>::from_parent_to_local(a))", None),
    ("pl_quaternion", "const Quaternion<double>& a", "set_rotation_parent_to_local(a)", "set_rotation(Rotation<double>::from_parent_to_local(a))", None),
    ("pl_axis", "const Vec3<double>& a, units::Degree b", "set_rotation_parent_to_local(a, b)", "set_rotation(Rotation<double>::from_parent_to_local(a, b))", None),
    ("euler", "units::Radian a, units::Radian b, units::Radian c, std::string d", "set_euler_angles(a, b, c, d)", "set_rotation(Rotation<double>::extrinsic_euler_angles(a, b, c, d))", None),
    ("get_static_rotation", "", "get_static_rotation()", None, "Rotation<double>"),
    ("set_angular_velocity", "units::RadiansPerSecond a, units::RadiansPerSecond b, units::RadiansPerSecond c", "set_angular_velocity(a, b, c)", None, None),
    ("set_body_angular_velocity", "units::RadiansPerSecond a, units::RadiansPerSecond b, units::RadiansPerSecond c", "set_body_angular_velocity(a, b, c)", None, None),
    ("get_static_angular_velocity", "", "get_static_angular_velocity()", None, "Vec3<double>"),
    ("set_scale3", "double a, double b, double c", "set_scale(a, b, c)", None, None),
    ("set_scale1", "double a", "set_scale(a)", "set_scale(a, a, a)", None),
    ("get_static_scale", "", "get_static_scale()", None, "Vec3<double>"),
    ("set_spice_origin", "const Str& a", "set_spice_origin(a)", None, None),
    ("set_spice_frame", "const Str& a", "set_spice_frame(a)", None, None),
    ("set_spice", "const Str& a, const Str& b", "set_spice(a, b)", None, None),
    ("get_spice_origin", "", "get_spice_origin()", None, "std::string"),
    ("get_spice_frame", "", "get_spice_frame()", None, "std::string"),
]
MAT = [("set_bsdf", "std::shared_ptr<BSDF<S>> a", "set_bsdf(a)", None, None)]
for nm, pix, f in (("albedo", "S", "set_albedo"), ("alpha", "float", "set_alpha"), ("metallic", "float", None), ("roughness", "float", None),
                   ("normal", "Vec3<float>", None), ("transmission", "S", None), ("emissive", "S", None)):
    MAT.append(("set_%s_image" % nm, "const TextureHandle<%s>& a" % pix, "set_%s_image(a)" % nm, "%s(a.get_()->shared_image())" % (f or "set_%s_image" % nm), None))
    MAT.append(("set_%s_factor" % nm, "%s a" % ("float" if pix != "S" else "S"), "set_%s_factor(a)" % nm, None, None))
    MAT.append(("reset_%s" % nm, "", "reset_%s()" % nm, None, None))
UNR = [
    ("set_irradiance_spectral", "const units::SpectralWattsPerMeterSquared<S>& a", "set_irradiance(a)", None, None),
    ("set_irradiance_total", "const units::WattsPerMeterSquared& a", "set_irradiance(a)", None, None),
    ("get_irradiance", "Time a", "get_irradiance(a)", None, "S"),
]

# Whole functions: (name, result, parameters, implementation, reference)
FREE = [
    ("frame_new_subframe", "Fr", "const Fr& h", "return h.new_subframe();", "return Fr{h.get_()->new_child()};"),
    ("frame_new_spice_subframe", "Fr", "const Fr& h, const Str& a, const Str& b", "return h.new_spice_subframe(a, b);",
     "auto c = h.get_()->new_child(); Fr x{c}; x.get_()->set_spice(a, b); return x;"),
    ("frame_delete_subframe", "void", "const Fr& h, Fr a", "h.delete_subframe(a);", "h.get_()->delete_child(a.get_());"),
    ("frame_delete_instance", "void", "const Fr& h, Ins a", "h.delete_instance(a);", "h.get_()->delete_child(a.get_());"),
    ("model_get_material_by_id", "MatH", "const ModelHandle<S>& h, std::uint64_t a", "return h.get_material_by_id(a);", "return h.get_()->get_material_by_id(a);"),
    ("model_set_all_bsdfs", "void", "const ModelHandle<S>& h, const BSDFHandle<S>& a", "h.set_all_bsdfs(a);", "h.get_()->set_all_bsdfs(a);"),
    ("frame_get_parent", "NodeHandle<S, Node<S>>", "const Fr& h", "return h.get_parent();", "return NodeHandle<S, Node<S>>{h.get_()->get_parent()};"),
    ("texture_resolution", "Resolution", "const TextureHandle<float>& h", "return h.resolution();", "return h.get_()->resolution();"),
    ("handle_name", "Str", "const Fr& h", "return h.name();", "return h.get_()->name();"),
    ("handle_id", "std::uint64_t", "const Fr& h", "return h.id();", "return h.get_()->id();"),
    ("handle_type", "Str", "const Fr& h", "return h.type();", "return h.get_()->type();"),
]
for nm, hd in (("primitive", "PrimitiveHandle<S>"), ("light", "LightHandle<S>"), ("model", "ModelHandle<S>"), ("unresolved", "Unr"), ("camera", "Cam")):
    FREE.append(("frame_new_instance_" + nm, "Ins", "const Fr& h, const %s& a" % hd, "return h.new_instance(a);", "return Ins{h.get_()->new_instance(a.get_().get())};"))


def scene_pairs():
    out = []

    def add(name, ret, params, impl, ref):
        out.append(("scene_" + name, ret, "Sc& s" + (", " + params if params else ""), impl, ref))

    KINDS = [("Geometry", "geometry", "geometries_"), ("Primitive", "primitive", "primitives_"), ("Light", "light", "lights_"),
             ("UnresolvedObject", "unresolved_object", "unresolved_objects_"), ("CameraModel", "camera_model", "camera_models_"), ("Model", "model", "models_")]
    for cls, nm, reg in KINDS:
        H = cls + "Handle<S>"
        add("set_name_" + nm, "void", "const %s& h, const Str& n" % H, "s.set_name(h, n);", "s.%s.set_name(h.get_(), n);" % reg)
        add("get_" + nm, H, "const Str& n", "return s.get_%s(n);" % nm, "return %s{s.%s.lookup(n)};" % (H, reg))
        if nm not in ("geometry",):
            add("delete_" + nm, "void", "const %s& h" % H, "s.delete_%s(h);" % nm,
                "auto p = h.get_(); if (p) { s.prune_graph_references_(p.get()); s.%s.remove(p); }" % reg)
    for cls, nm, reg in (("Light", "light", "lights_"), ("UnresolvedObject", "unresolved_object", "unresolved_objects_"), ("BSDF", "bsdf", "bsdfs_"),
                         ("Material", "material", "materials_"), ("DensityField", "density_field", "density_fields_"),
                         ("PhaseFunction", "phase_function", "phase_functions_"), ("Medium", "medium", "volumes_")):
        add("add_" + nm, cls + "Handle<S>", "std::shared_ptr<%s<S>> p, Str n" % cls, "return s.add_%s(p, n);" % nm,
            "s.%s.add(p, n); return %sHandle<S>{p};" % (reg, cls))
    add("add_geometry", "GeometryHandle<S>", "std::shared_ptr<Geometry<S>> p, Str n", "return s.add_geometry(p, n);",
        "p->set_device(s.device_); s.geometries_.add(p, n); return GeometryHandle<S>{p};")
    add("add_mesh", "MeshHandle<S>", "const IndexBuffer& i, const VertexBuffer<S>& v, Str n", "return s.add_mesh(i, v, n);",
        "auto p = std::make_shared<Mesh<S>>(i, v); p->set_device(s.device_); s.geometries_.add(p, n); return MeshHandle<S>{p};")
    add("add_mesh_tangents", "MeshHandle<S>", "const IndexBuffer& i, const VertexBuffer<S>& v, const TangentBuffer& t, Str n", "return s.add_mesh(i, v, t, n);",
        "auto p = std::make_shared<Mesh<S>>(i, v, t); p->set_device(s.device_); s.geometries_.add(p, n); return MeshHandle<S>{p};")
    add("add_ellipsoid", "EllipsoidHandle<S>", "units::Meter a, units::Meter b, units::Meter c, Str n", "return s.add_ellipsoid(a, b, c, n);",
        "auto p = std::make_shared<Ellipsoid<S>>(a, b, c); p->set_device(s.device_); s.geometries_.add(p, n); return EllipsoidHandle<S>{p};")
    for nm, extra, call in (("", "", "g, n"), ("_material", "const MaterialHandle<S>& m, ", "g, m, n"), ("_medium", "const MediumHandle<S>& v, ", "g, v, n"),
                            ("_both", "const MaterialHandle<S>& m, const MediumHandle<S>& v, ", "g, m, v, n")):
        add("add_primitive" + nm, "PrimitiveHandle<S>", "const GeometryHandle<S>& g, %sStr n" % extra, "return s.add_primitive(%s);" % call,
            "%s%sif (!g.valid() || !m.valid() || !v.valid()) throw std::runtime_error(\"x\"); auto p = std::make_shared<Primitive<S>>(); "
            "p->geometry = g.get_(); p->material = m.get_(); p->medium = v.get_(); s.primitives_.add(p, n); return PrimitiveHandle<S>{p};"
            % ("" if "m," in call else "MaterialHandle<S> m{s.default_material_}; ", "" if "v," in call else "MediumHandle<S> v{s.default_medium_}; "))
    L = "s.lights_.add(p, n); return LightHandle<S>{p};"
    for nm, ty in (("radiance", "units::SpectralWattsPerMeterSquaredSteradian<S>"), ("power", "units::SpectralWatts<S>"), ("total", "units::Watt")):
        add("new_sphere_light_" + nm, "LightHandle<S>", "const units::Meter& r, const %s& a, Str n" % ty, "return s.new_sphere_light(r, a, n);",
            "auto p = std::make_shared<SphereLight<S>>(r, a); " + L)
    add("new_sun_light", "LightHandle<S>", "", "return s.new_sun_light();",
        "units::SpectralWattsPerMeterSquaredSteradian<S> a(black_body<S>(5800, 1000)); units::Meter r(6.957e8); Str n = \"Sun\"; "
        "auto p = std::make_shared<SphereLight<S>>(r, a); " + L)
    U = "s.unresolved_objects_.add(p, n); return Unr{p};"
    add("new_unresolved_object_spectral", "Unr", "const units::SpectralWattsPerMeterSquared<S>& a, Str n", "return s.new_unresolved_object(a, n);",
        "auto p = std::make_shared<UnresolvedObject<S>>(a); " + U)
    add("new_unresolved_object_total", "Unr", "const units::WattsPerMeterSquared& a, Str n", "return s.new_unresolved_object(a, n);",
        "auto p = std::make_shared<UnresolvedObject<S>>(a); " + U)
    add("new_unresolved_object_magnitude", "Unr", "double a, Str n", "return s.new_unresolved_object_from_magnitude(a, n);",
        "units::SpectralWattsPerMeterSquared<S> w(visual_magnitude_to_irradiance<S>(a, S{1.f})); auto p = std::make_shared<UnresolvedObject<S>>(w); " + U)
    add("new_unresolved_object_magnitude_albedo", "Unr", "double a, S b, Str n", "return s.new_unresolved_object_from_magnitude(a, b, n);",
        "units::SpectralWattsPerMeterSquared<S> w(visual_magnitude_to_irradiance<S>(a, b)); auto p = std::make_shared<UnresolvedObject<S>>(w); " + U)
    for nm, ty in (("spectral", "units::SpectralWatts<S>"), ("total", "units::Watt")):
        add("new_unresolved_emitter_" + nm, "Unr", "const %s& a, Str n" % ty, "return s.new_unresolved_emitter(a, n);",
            "auto p = std::make_shared<UnresolvedEmitter<S>>(a); " + U)
    for nm, ps, call in (("", "", ""), ("_albedo", "S b, ", ", b"), ("_total", "float b, ", ", b")):
        one = call or ", S{1.f}"
        add("new_unresolved_sphere" + nm, "Unr", "units::Meter r, Ins h, %sStr n" % ps, "return s.new_unresolved_sphere(r, h%s, n);" % call,
            "auto p = std::make_shared<UnresolvedLambertianSphere<S>>(r, h%s); " % one + U)
        add("new_unresolved_asteroid" + nm, "Unr", "double a, double g, Ins h, %sStr n" % ps, "return s.new_unresolved_asteroid(a, g, h%s, n);" % call,
            "auto p = std::make_shared<UnresolvedAsteroid<S>>(a, g, h%s); " % one + U)
    add("new_camera_model", "Cam", "Str n", "return s.new_camera_model(n);", "auto p = std::make_shared<CameraModel<S>>(); s.camera_models_.add(p, n); return Cam{p};")
    for nm, cls in (("cook_torrance", "CookTorranceBSDF"), ("lambertian", "LambertianBSDF"), ("lommel_seeliger", "LommelSeeligerBSDF"),
                    ("mcewen", "McEwenBSDF"), ("null", "NullBSDF"), ("oren_nayar", "OrenNayarBSDF")):
        add("new_bsdf_" + nm, "BSDFHandle<S>", "Str n", "return s.new_bsdf_%s(n);" % nm, "auto p = std::make_shared<%s<S>>(); s.bsdfs_.add(p, n); return BSDFHandle<S>{p};" % cls)
    add("new_bsdf_hapke", "BSDFHandle<S>", "float a, float b, float c, float d, Str n", "return s.new_bsdf_hapke(a, b, c, d, n);",
        "auto p = std::make_shared<HapkeBSDF<S>>(a, b, c, d); s.bsdfs_.add(p, n); return BSDFHandle<S>{p};")
    add("new_material", "MatH", "const BSDFHandle<S>& b, Str n", "return s.new_material(b, n);",
        "auto q = b.get_(); auto p = std::make_shared<Material<S>>(q, s.default_albedo_image_, s.default_alpha_image_, s.default_metallic_image_, s.default_roughness_image_, "
        "s.default_normal_image_, s.default_transmission_image_, s.default_emission_image_); s.materials_.add(p, n); return MatH{p};")
    add("new_constant_density_field", "DensityFieldHandle<S>", "S a, S b, Str n", "return s.new_constant_density_field(a, b, n);",
        "auto p = std::make_shared<ConstantDensityField<S>>(a, b); s.density_fields_.add(p, n); return DensityFieldHandle<S>{p};")
    add("new_isotropic_phase_function", "PhaseFunctionHandle<S>", "Str n", "return s.new_isotropic_phase_function(n);",
        "auto p = std::make_shared<IsotropicPhaseFunction<S>>(); s.phase_functions_.add(p, n); return PhaseFunctionHandle<S>{p};")
    add("new_medium", "MediumHandle<S>", "DensityFieldHandle<S> d, PhaseFunctionHandle<S> f, Str n", "return s.new_medium(d, f, n);",
        "auto x = d.get_(); auto y = f.get_(); auto p = std::make_shared<Medium<S>>(x, y); s.volumes_.add(p, n); return MediumHandle<S>{p};")
    add("set_background_spectral", "void", "S a", "s.set_background_radiance(a);", "s.background_ = std::make_shared<Image<S>>(1, 1, a);")
    add("set_background_total", "void", "float a", "s.set_background_radiance(a);", "s.background_ = std::make_shared<Image<S>>(1, 1, S::from_total(a));")
    add("set_background_image", "void", "Image<S> a", "s.set_background_radiance(a);", "s.background_ = std::make_shared<Image<S>>(a);")
    for nm, ty, reg in (("spectral", "S", "spectral_textures_"), ("mono", "float", "mono_textures_"), ("vec3", "Vec3<float>", "vec3_textures_")):
        add("add_texture_" + nm, "TextureHandle<%s>" % ty, "Image<%s>&& a, Str n" % ty, "return s.add_texture(std::move(a), n);",
            "auto p = std::make_shared<Texture<%s>>(std::move(a)); s.%s.add(p, n); return TextureHandle<%s>{p};" % (ty, reg, ty))
    add("delete_geometry", "void", "const GeometryHandle<S>& h, std::shared_ptr<Primitive<S>> a, std::shared_ptr<Primitive<S>> b",
        TWO + "s.delete_geometry(h);",
        TWO + "auto g = h.get_(); if (a->geometry.get() == g.get()) { auto p = PrimitiveHandle<S>{a}.get_(); s.prune_graph_references_(p.get()); s.primitives_.remove(p); } "
        "if (b->geometry.get() == g.get()) { auto p = PrimitiveHandle<S>{b}.get_(); s.prune_graph_references_(p.get()); s.primitives_.remove(p); } s.geometries_.remove(g);")
    add("set_stars", "void", "const std::vector<Star<S>>& a", "s.set_stars(a);", "s.stars_ = a; s.dynamic_stars_ = false;")
    return out


TWO = "s.primitives_.objects_.clear(); s.primitives_.objects_.push_back(a); s.primitives_.objects_.push_back(b); "


def source():
    t = [HEAD]
    names = []

    def pair(name, ret, params, impl, ref):
        t.append("%s i_%s(%s) { %s }\n%s r_%s(%s) { %s }\n" % (ret, name, params, impl, ret, name, params, ref))
        names.append(name)

    for pre, H, table in (("camera", "Cam", CAM), ("frame", "Fr", NODE), ("instance", "Ins", NODE), ("material", "MatH", MAT), ("unresolved", "Unr", UNR)):
        for name, params, impl, ref, ret in table:
            ps = "%s& h%s" % (H, ", " + params if params else "")
            if H in ("Fr", "Ins"):
                ps = "const " + ps
            r = "return " if ret else ""
            if ref == "!":
                rb = "throw std::runtime_error(\"removed\");"
            elif ref == "?":
                rb = "if (a) h.get_()->use_aperture_psf(); else h.get_()->delete_psf();"
            else:
                rb = "%sh.get_()->%s;" % (r, ref or impl)
            pair(pre + "_" + name, ret or "void", ps, "%sh.%s;" % (r, impl), rb)
    for name, ret, ps, impl, ref in FREE + scene_pairs():
        pair(name, ret, ps, impl, ref)
    t.append('''
int i_valid(const LightHandle<S>& h) { if (h.valid()) return 1; return 0; }
int r_valid(const LightHandle<S>& h) { auto p = h.ptr_.lock(); if (p) { if (p->is_scene_owned()) return 1; } return 0; }
std::shared_ptr<Light<S>> i_get(const LightHandle<S>& h) { return h.get_(); }
std::shared_ptr<Light<S>> r_get(const LightHandle<S>& h) { auto p = h.ptr_.lock(); if (!p || !p->is_scene_owned()) throw std::runtime_error("x"); return p; }
std::shared_ptr<Light<S>> i_get_public(const LightHandle<S>& h) { return h.get(); }
std::shared_ptr<Light<S>> r_get_public(const LightHandle<S>& h) { return h.get_(); }
std::shared_ptr<Mesh<S>> i_mesh(const MeshHandle<S>& h) { return h.get_mesh_shared(); }
std::shared_ptr<Mesh<S>> r_mesh(const MeshHandle<S>& h) { auto p = std::dynamic_pointer_cast<Mesh<S>>(h.get_()); if (!p) throw std::runtime_error("x"); return p; }
std::size_t i_vertex_count(const MeshHandle<S>& h) { return h.get_vertex_count(); }
std::size_t r_vertex_count(const MeshHandle<S>& h) { auto p = std::dynamic_pointer_cast<Mesh<S>>(h.get_()); if (!p) throw std::runtime_error("x"); return p->vertex_buffer().size(); }
''')
    t.append("}\n")
    return "".join(t), names


NOTVOCAB = ("huira::Handle", "huira::CameraModelHandle", "huira::MaterialHandle", "huira::NodeHandle", "huira::FrameHandle", "huira::UnresolvedObjectHandle", "verif_w")


def vocabulary(P, fn):
    """The library's member and free functions a reference calls itself."""
    out = set()
    for n in fn.walk():
        f = n.get("f") if n.a else None
        g = P.fns.get(f) if f is not None else None
        if g is None or g.file is None or g.file.startswith("/") or g.sp in ("ctor", "dtor", "copyassign", "moveassign", "conv", "copy", "move", "default"):
            continue
        if g.key.startswith(NOTVOCAB) or g.key.startswith("huira::units") or "operator" in g.n:
            continue
        out.add(g.key)
    return out


def run(ctx):
    text, names = source()
    W = fx.Wit(ctx, "w_h01.cpp", text, flags=["-fno-access-control"])
    P = W.P
    ctx.explanation = ("each handle method and each scene method is followed on every path next to a one-line reference; both must call the same "
                       "operations of the library with the same receivers and arguments, write the same fields, return the same object and fail alike")
    ctx.trusted = ["std::shared_ptr/weak_ptr semantics", "the operations themselves (decided by other properties)"]
    for name in names:
        ref = W.fns.get("r_" + name)
        ctx.require(ref is not None and W.fns.get("i_" + name) is not None, name)
        keys = vocabulary(P, ref)
        if not keys and "throw" not in str(name):
            ctx.count("without_operations")
        same(ctx, "forward", W, "i_" + name, "r_" + name, Vocab(P, keys), alt=Vocab(P, ()), site=name)
        ctx.count("operations", len(keys))
    V = Vocab(P, {"huira::SceneObject::is_scene_owned"}, handles=False)
    for nm in ("valid", "get"):
        same(ctx, "validity", W, "i_" + nm, "r_" + nm, V, site=nm)
    for nm in ("get_public", "mesh", "vertex_count"):
        same(ctx, "validity", W, "i_" + nm, "r_" + nm, Vocab(P, {"huira::Mesh::vertex_buffer"}), site=nm)
    ctx.require(ctx.cov.get("pairs", 0) > 150, "handle and scene methods")
