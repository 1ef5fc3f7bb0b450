"""S03: a node's position and rotation have one mode each; setters and getters keep to it."""
from sa import fx
from sa import terms as tm
from sa.trace import Vocab, same

HEAD = '''#include <vector>
#include <string>
#include <memory>
#include "huira/huira.hpp"
using namespace huira;
using S = RGB;
using Str = std::string;
using Ch = std::shared_ptr<Node<S>>;
using TM = TransformMode;
namespace verif_w {
Node<S>* make_frame() { return new FrameNode<S>(nullptr); }
Node<S>* make_instance(Light<S>* l) { return new Instance<S>(nullptr, l); }
struct PCb : PositionCallback { double k; PCb(double x) : k(x) {} void evaluate(const Time&, const Rotation<double>&, const Vec3<double>&) override {} };
struct RCb : RotationCallback { double k; RCb(double x) : k(x) {} void evaluate(const Time&, const Vec3<double>&, const Vec3<double>&) override {} };
struct SCb : StateCallback { double k; SCb(double x) : k(x) {} void evaluate(const Time&) override {} };
'''
# conditions under which a setter refuses
PC, RC = "(a->position_mode_ == TM::SPICE_TRANSFORM || b->position_mode_ == TM::SPICE_TRANSFORM)", "(a->rotation_mode_ == TM::SPICE_TRANSFORM || b->rotation_mode_ == TM::SPICE_TRANSFORM)"
PP, RP = "(n.parent_ && n.parent_->position_mode_ != TM::SPICE_TRANSFORM)", "(n.parent_ && n.parent_->rotation_mode_ != TM::SPICE_TRANSFORM)"
PM, RM = "(n.position_mode_ != TM::MANUAL_TRANSFORM)", "(n.rotation_mode_ != TM::MANUAL_TRANSFORM)"
V3 = "Vec3<double>{x.to_si(), y.to_si(), z.to_si()}"
PMAN, RMAN = " n.position_mode_ = TM::MANUAL_TRANSFORM; n.spice_origin_ = \"\";", " n.rotation_mode_ = TM::MANUAL_TRANSFORM; n.spice_frame_ = \"\";"
PSP, RSP = " n.position_mode_ = TM::SPICE_TRANSFORM; n.spice_origin_ = o;", " n.rotation_mode_ = TM::SPICE_TRANSFORM; n.spice_frame_ = f;"
T3 = lambda u: "units::%s x, units::%s y, units::%s z" % (u, u, u)
SET = [
    # name, parameters, call, refused when, effect
    ("position", T3("Meter"), "set_position(x, y, z)", PC, "n.local_transform_.position = " + V3 + ";" + PMAN),
    ("position_vec", "const Vec3<double>& x", "set_position(x)", PC, "n.local_transform_.position = x;" + PMAN),
    ("rotation", "const Rotation<double>& x", "set_rotation(x)", RC, "n.local_transform_.rotation = x;" + RMAN),
    ("scale", "double x, double y, double z", "set_scale(x, y, z)", None, "n.local_transform_.scale = Vec3<double>{x, y, z};"),
    ("scale_vec", "const Vec3<double>& x", "set_scale(x)", None, "n.local_transform_.scale = x;"),
    ("velocity", T3("MetersPerSecond"), "set_velocity(x, y, z)", PM, "n.local_transform_.velocity = " + V3 + ";"),
    ("velocity_vec", "const Vec3<double>& x", "set_velocity(x)", PM, "n.local_transform_.velocity = x;"),
    ("angular_velocity", T3("RadiansPerSecond"), "set_angular_velocity(x, y, z)", RM, "n.local_transform_.angular_velocity = " + V3 + "; n.body_frame_rates_ = false;"),
    ("angular_velocity_vec", "const Vec3<double>& x", "set_angular_velocity(x)", RM, "n.local_transform_.angular_velocity = x; n.body_frame_rates_ = false;"),
    ("body_angular_velocity", T3("RadiansPerSecond"), "set_body_angular_velocity(x, y, z)", RM, "n.local_transform_.angular_velocity = " + V3 + "; n.body_frame_rates_ = true;"),
    ("manual_transform", "const Transform<double>& x", "set_manual_transform(x)", PC + " || " + RC, "n.local_transform_ = x; n.body_frame_rates_ = false;" + PMAN + RMAN),
    ("spice_origin", "const Str& o", "set_spice_origin(o)", PP, PSP),
    ("spice_frame", "const Str& f", "set_spice_frame(f)", RP, RSP),
    ("spice", "const Str& o, const Str& f", "set_spice(o, f)", PP + " || " + RP, PSP + RSP),
    ("position_callback", "double x", "template set_custom_position_callback<PCb>(x)", PC,
     "n.position_callback_ = std::make_unique<PCb>(x); n.position_mode_ = TM::POSITION_CALLBACK; n.spice_origin_ = \"\";"),
    ("rotation_callback", "double x", "template set_custom_rotation_callback<RCb>(x)", RC,
     "n.rotation_callback_ = std::make_unique<RCb>(x); n.rotation_mode_ = TM::ROTATION_CALLBACK; n.spice_frame_ = \"\";"),
    ("state_callback", "double x", "template set_custom_state_callback<SCb>(x)", PC + " || " + RC,
     "n.transform_callback_ = std::make_unique<SCb>(x); n.position_mode_ = TM::TRANSFORM_CALLBACK; n.rotation_mode_ = TM::TRANSFORM_CALLBACK; n.spice_origin_ = \"\"; n.spice_frame_ = \"\";"),
    ("keplerian", "units::Meter x, double e, units::Radian i, units::Radian r, units::Radian w, units::Radian m, Time t, double u", "set_keplerian_orbit(x, e, i, r, w, m, t, u)", PC,
     "n.position_callback_ = std::make_unique<KeplerianOrbitCallback>(x, e, i, r, w, m, t, u); n.position_mode_ = TM::POSITION_CALLBACK; n.spice_origin_ = \"\";"),
    ("z_up", "", "set_z_up_y_forward_callback()", RC,
     "n.rotation_callback_ = std::make_unique<ZUpYForwardCallback>(); n.rotation_mode_ = TM::ROTATION_CALLBACK; n.spice_frame_ = \"\";"),
    ("z_down", "", "set_z_down_y_forward_callback()", RC,
     "n.rotation_callback_ = std::make_unique<ZDownYForwardCallback>(); n.rotation_mode_ = TM::ROTATION_CALLBACK; n.spice_frame_ = \"\";"),
]
PS, RS = "(n.position_mode_ != TM::SPICE_TRANSFORM)", "(n.rotation_mode_ != TM::SPICE_TRANSFORM)"
GETTERS = [
    ("position", "Vec3<double>", "get_static_position()", PM, "n.local_transform_.position"),
    ("rotation", "Rotation<double>", "get_static_rotation()", RM, "n.local_transform_.rotation"),
    ("scale", "Vec3<double>", "get_static_scale()", None, "n.local_transform_.scale"),
    ("velocity", "Vec3<double>", "get_static_velocity()", PM, "n.local_transform_.velocity"),
    ("angular_velocity", "Vec3<double>", "get_static_angular_velocity()", RM, "n.local_transform_.angular_velocity"),
    ("spice_origin", "Str", "get_spice_origin()", PS, "n.spice_origin_"),
    ("spice_frame", "Str", "get_spice_frame()", RS, "n.spice_frame_"),
    ("position_mode", "TM", "get_position_mode()", None, "n.position_mode_"),
    ("rotation_mode", "TM", "get_rotation_mode()", None, "n.rotation_mode_"),
]


def source():
    t = [HEAD]
    names = []
    for cls, N in (("frame", "FrameNode<S>"), ("instance", "Instance<S>")):
        pre = "n.children_.clear(); n.children_.push_back(a); n.children_.push_back(b); " if cls == "frame" else ""
        for name, ps, call, refused, effect in SET:
            args = "%s& n, Ch a, Ch b%s" % (N, ", " + ps if ps else "")
            if cls == "instance" and refused:
                refused = " || ".join(x for x in refused.split(" || (n.") if 0) if 0 else refused
                for c in (PC, RC):
                    refused = refused.replace(c, "false")
            guard = "if (%s) throw std::runtime_error(\"x\"); " % refused if refused else ""
            nm = "%s_set_%s" % (cls, name)
            t.append("void i_%s(%s) { %sn.%s; }\nvoid r_%s(%s) { %s%s%s }\n" % (nm, args, pre, call, nm, args, pre, guard, effect))
            names.append(nm)
        for name, ret, call, refused, val in GETTERS:
            guard = "if (%s) throw std::runtime_error(\"x\"); " % refused if refused else ""
            nm = "%s_get_%s" % (cls, name)
            t.append("%s i_%s(const %s& n) { return n.%s; }\n%s r_%s(const %s& n) { %sreturn %s; }\n" % (ret, nm, N, call, ret, nm, N, guard, val))
            names.append(nm)
    t.append("}\n")
    return "".join(t), names


def run(ctx):
    text, names = source()
    W = fx.Wit(ctx, "w_s03.cpp", text, flags=["-fno-access-control"])
    P = W.P
    ctx.explanation = ("each setter and getter of a node is followed on every path next to a reference that states when it refuses and exactly which "
                       "fields it changes; both must have the same outcome, writes and result")
    ctx.trusted = ["std::string and std::vector semantics", "frames with two children stand for any number"]
    V = Vocab(P, ())
    for nm in names:
        cls = "huira::FrameNode" if nm.startswith("frame") else "huira::Instance"

        def setup(I, nm=nm, cls=cls):
            for w in ("i_", "r_"):
                fn = W.fns[w + nm]
                t = P.ty(P.deref_type(fn.params[0]["t"]))
                I.dyn[tm.mk("par", fn.params[0]["d"])] = t["rec"]
        same(ctx, "setter" if "_set_" in nm else "getter", W, "i_" + nm, "r_" + nm, V, site=nm, setup=setup, limit=600)
    ctx.require(ctx.cov.get("pairs", 0) >= 50, "setters and getters of nodes")
