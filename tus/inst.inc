// Explicit instantiation of every class template of the library for the spectral type S.
template class Scene<S>;
template class SceneView<S>;
template class Renderer<S>;
template class Node<S>;
template class FrameNode<S>;
template class Instance<S>;
template class NodeHandle<S, Node<S>>;
template class NodeHandle<S, FrameNode<S>>;
template class NodeHandle<S, Instance<S>>;
template class FrameHandle<S>;
template class RootFrameHandle<S>;
template class InstanceHandle<S>;
template class CameraModelHandle<S>;
template class MeshHandle<S>;
template class EllipsoidHandle<S>;
template class GeometryHandle<S>;
template class LightHandle<S>;
template class ModelHandle<S>;
template class PrimitiveHandle<S>;
template class UnresolvedObjectHandle<S>;
template class MaterialHandle<S>;
template class BSDFHandle<S>;
template class TextureHandle<S>;
template class TextureHandle<float>;
template class TextureHandle<Vec3<float>>;
template class MediumHandle<S>;
template class DensityFieldHandle<S>;
template class PhaseFunctionHandle<S>;
template class Handle<Mesh<S>>;
template class Model<S>;
template class ModelLoader<S>;
template class Primitive<S>;
template class Light<S>;
template class SphereLight<S>;
template class UnresolvedObject<S>;
template class UnresolvedEmitter<S>;
template class UnresolvedAsteroid<S>;
template class UnresolvedLambertianSphere<S>;
template class Geometry<S>;
template class Mesh<S>;
template class Ellipsoid<S>;
template struct Vertex<S>;
template class Ray<S>;
template struct Interaction<S>;
template class Material<S>;
template class Texture<S>;
template class Texture<float>;
template class Texture<Vec3<float>>;
template class BSDF<S>;
template class LambertianBSDF<S>;
template class OrenNayarBSDF<S>;
template class CookTorranceBSDF<S>;
template class HapkeBSDF<S>;
template class LommelSeeligerBSDF<S>;
template class McEwenBSDF<S>;
template class NullBSDF<S>;
template class Medium<S>;
template struct MediumInteraction<S>;
template class MediumStack<S>;
template class DensityField<S>;
template class ConstantDensityField<S>;
template class PhaseFunction<S>;
template class IsotropicPhaseFunction<S>;
template class CameraModel<S>;
template class SensorModel<S>;
template class SimpleSensor<S>;
template struct SensorConfig<S>;
template class Aperture<S>;
template class CircularAperture<S>;
template class PSF<S>;
template class AiryDisk<S>;
template class Distortion<S>;
template class BrownDistortion<S>;
template class OpenCVDistortion<S>;
template class OwenDistortion<S>;
template class Frustum<S>;
template class FrameBuffer<S>;
template class Image<S>;
template class Star<S>;
