// The analysed translation unit: the whole library, with every class template instantiated for one
// spectral type and every member template / free template used once, so that the type-checked
// program contains a definition of every function in the headers.
#include "all_headers.inc"

namespace huira {
using S = RGB;
#include "inst.inc"
template class Image<std::int8_t>;
template class Image<std::uint8_t>;
template class Image<std::uint64_t>;
template class Image<float>;
template class Image<Vec3<float>>;
template class Rotation<float>;
template class Rotation<double>;
template struct Transform<float>;
template struct Transform<double>;
template class Sampler<float>;
template class RandomSampler<float>;
template class DeterministicSampler<float>;
template struct BasePixel<float>;
template struct BasePixel<double>;
template class units::SpectralQuantity<units::Irradiance, std::ratio<1, 1>, RGB>;
template class units::SpectralQuantity<units::Irradiance, std::ratio<1000, 1>, RGB>;
template class NameRegistry<Node<RGB>>;

namespace verif_use {
using namespace units;
using K = Kilometer;
struct PosCb final : public PositionCallback {
    void evaluate(const huira::Time&, const Rotation<double>&, const Vec3<double>&) override {}
};
struct StCb final : public StateCallback {
    void evaluate(const huira::Time&) override {}
};
inline void units_uses(Meter m, Kilometer k, Degree d, Radian r, Celsius c, Fahrenheit f, Kelvin kv,
                       Second s, Quantity<Dimensionless, std::ratio<1, 1>> q,
                       Quantity<Dimensionless, std::ratio<1, 1000>> q2)
{
    Meter a(k); Kilometer b(m); a = k; Degree e(r); Radian g(d); Kelvin kc(c), kf(f); Celsius ck(kv), cf(f);
    (void)(m + m); (void)(m - m); m += k; m -= k; m *= 2; m /= 2.0; m *= 2.f;
    (void)(m == m); (void)(m != m); (void)(m < m); (void)(m > m); (void)(m <= m); (void)(m >= m);
    (void)(m + k); (void)(m - k); (void)(k == m); (void)(k != m); (void)(k < m); (void)(k > m);
    (void)(k <= m); (void)(k >= m); (void)(-m); (void)(m * 2); (void)(m / 2); (void)(2 * m); (void)(2.0 / k);
    (void)(2.0 / d); (void)(k * s); (void)(k / s); (void)(d * s); (void)(d / s); (void)(d + r);
    (void)(r - d); (void)(d < r); (void)(m * k); (void)(m / k);
    (void)m.as<std::ratio<1000, 1>>(); (void)m.as<Kilometer>(); (void)d.as<Radian>();
    (void)m.to_string(); (void)q.to_string(); std::cout << m << q;
    (void)q2.as<std::ratio<1, 1>>(); (void)q2.as<Quantity<Dimensionless, std::ratio<1, 1>>>();
    Quantity<Dimensionless, std::ratio<1, 1>> q3(q2); q3 = q; q3 += q2; q3 -= q2; q3 *= 2.0; q3 /= 2.0;
    Quantity<Dimensionless, std::ratio<1, 1>> q4(2.0), q5;
    (void)(q.operator+(q)); (void)(q.operator-(q)); (void)(q.operator*(2.0)); (void)(q.operator/(2.0));
    (void)(q.operator==(q)); (void)(q.operator!=(q)); (void)(q.operator<(q)); (void)(q.operator>(q));
    (void)(q.operator<=(q)); (void)(q.operator>=(q)); (void)q.to_si(); (void)q.to_si_f(); (void)q.value();
    (void)q.raw_value(); (void)(double)q2; (void)m.to_si_f(); (void)m.value(); (void)m.raw_value(); (void)d.to_si();
    using SQ = SpectralQuantity<Irradiance, std::ratio<1, 1>, RGB>;
    using SK = SpectralQuantity<Irradiance, std::ratio<1000, 1>, RGB>;
    SQ sa; SK sb(sa); SQ sc(sb); (void)sb.to_si(); (void)sa.to_si(); (void)sb.as<std::ratio<1, 1>>(); (void)sa.to_string();
    (void)(sa == sc); (void)(sa != sc);
}
inline void scene_uses(FrameHandle<RGB> f, MeshHandle<RGB> mh, PrimitiveHandle<RGB> ph, LightHandle<RGB> lh,
                       UnresolvedObjectHandle<RGB> uh, CameraModelHandle<RGB> ch, ModelHandle<RGB> moh,
                       Scene<RGB>& scene, FrameNode<RGB>* fn)
{
    (void)f.new_instance(ph); (void)f.new_instance(lh); (void)f.new_instance(uh);
    (void)f.new_instance(ch); (void)f.new_instance(moh);
    (void)f.template get_parent_as<FrameNode<RGB>>();
    ch.template set_distortion<BrownDistortion<RGB>>(BrownCoefficients{});
    ch.template set_sensor<SimpleSensor<RGB>>(SimpleSensorConfig<RGB>{});
    ch.template set_aperture<CircularAperture<RGB>>(Meter(1.0));
    ch.template set_psf<AiryDisk<RGB>>(Meter(1), Meter(1), Meter(1), Meter(1), 3, 3);
    fn->template set_custom_position_callback<PosCb>();
    fn->template set_custom_state_callback<StCb>();
    fn->template set_custom_rotation_callback<ZUpYForwardCallback>();
    (void)scene; (void)mh;
}
}

inline void verif_misc_uses(const SpectralBins<3, 600, 750, 500, 600, 380, 500>& b, const Visible8& v, const Image<RGB>& img,
                      Resolution res, Vec2<float> v2f, const Texture<RGB>& tex, const Frustum<RGB>& fr)
{
    (void)convert_float_to_pixel<float>(1.f); (void)convert_float_to_pixel<std::uint8_t>(1.f);
    (void)convert_float_to_pixel<std::int16_t>(1.f); (void)convert_float_to_pixel<Vec3<float>>(1.f);
    (void)convert_vec3_to_pixel<float>(Vec3<float>{}); (void)convert_vec3_to_pixel<std::uint8_t>(Vec3<float>{});
    (void)convert_vec3_to_pixel<Vec3<float>>(Vec3<float>{});
    (void)convert_pixel_to_float<std::uint8_t>(1); (void)convert_pixel_to_float<std::int8_t>(1);
    (void)convert_pixel_to_float<float>(1); (void)convert_pixel_to_float<Vec3<float>>(Vec3<float>{});
    (void)convert_pixel_to_vec3<std::uint8_t>(1); (void)convert_pixel_to_vec3<Vec3<float>>(Vec3<float>{});
    (void)convert_pixel_to_vec3<float>(1.f);
    (void)float_to_integer<std::uint8_t>(1.f); (void)float_to_integer<std::uint16_t>(1.f); (void)float_to_integer<std::int16_t>(1.f);
    (void)float_to_integer<std::int8_t>(1.f);
    (void)integer_to_float<std::uint8_t>(std::uint8_t{1}); (void)integer_to_float<std::int16_t>(std::int16_t{1});
    (void)img.sample_nearest_neighbor<WrapMode::Repeat>(0.f, 0.f);
    (void)img.sample_nearest_neighbor<WrapMode::Clamp>(0.f, 0.f);
    (void)img.sample_nearest_neighbor<WrapMode::Mirror>(0.f, 0.f);
    (void)img.sample_bilinear<WrapMode::Repeat>(0.f, 0.f);
    (void)img.sample_bilinear<WrapMode::Clamp>(0.f, 0.f);
    (void)img.sample_bilinear<WrapMode::Mirror>(0.f, 0.f);
    (void)(res * v2f); (void)(res * 2.f); (void)(res / v2f); (void)(res / 2.f);
    (void)(v2f * res); (void)(2.f * res); (void)(v2f / res); (void)(2.f / res);
    validate_real(1.f, ""); validate_real(1.0, ""); validate_strictly_positive(1.f, ""); validate_strictly_positive(1.0, "");
    validate_real(Vec3<double>{}, ""); validate_strictly_positive(Vec3<double>{}, "");
    validate_real(Mat3<double>{}, ""); validate_real(Vec3<float>{}, ""); validate_real(Mat3<float>{}, "");
    (void)vec_to_string<3>(Vec3<float>{}); (void)mat_to_string<3, 3>(Mat3<float>{});
    (void)b.magnitude(); (void)b.min(); (void)b.integrate(); 
    RGB c(b); c -= b; (void)(b + b); (void)(b - b); (void)(b != b); (void)(2.f - b); std::cout << b;
    (void)convert_rgb_to_spectral<Visible8>(b); (void)convert_rgb_to_spectral<RGB>(b); (void)convert_rgb_to_spectral<SWIR8>(b);
    c -= 1.f; (void)(b + 1.f); (void)(b - 1.f); (void)(1.f - b); (void)(b * 2.f); (void)(b / 2.f); (void)(+b); (void)(-b);
    RGB e(1.f, 2.f, 3.f); (void)e; (void)spice::pxform<double>("A", "B", huira::Time{}); (void)spice::pxform<float>("A", "B", huira::Time{});
    (void)rgb_to_spectral<Visible8>(img); write_image_tiff(fs::path("x"), ImageBundle<Visible8>{}, "", "");
    (void)v;
    (void)tex; (void)fr;
    float arr[8] = {}; std::vector<double> lam{400., 500.}; std::vector<float> val{1.f, 2.f};
    (void)b.integrate_over_data(lam, val);
    RGB d{1.f, 2.f, 3.f}; d.fill(1.f); (void)d.at(0); (void)b.at(0); (void)d.front(); (void)b.front(); (void)d.back(); (void)b.back();
    (void)d.data(); (void)b.data(); (void)d.begin(); (void)b.begin(); (void)d.cbegin(); (void)d.end(); (void)b.end(); (void)d.cend(); (void)b.empty(); (void)arr;
}
} // namespace huira
