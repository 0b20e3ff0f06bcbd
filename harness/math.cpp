// C25: rotation and matrix helpers against their defining identities, on value lattices.
#include <explore.hpp>
#include <math_lib.hpp>
using namespace ESKF_VIO_BACKEND;
using mc::Ctx;
using mc::fmt;

extern "C" int rand(void) { return 4; }

namespace {
const double PI = 3.14159265358979323846;
template <typename M> mc::u64 mh(const M &m) { mc::u64 h = 7; for (int i = 0; i < m.size(); ++i) h = mc::mix(h, mc::grid(static_cast<double>(m(i)), 1e-2)); return h; }
const double VAL[7] = {0, 1, -2, 0.5, -0.25, 3e3, -1e-4};

mc::Scenario skew(int nv) {
    mc::Scenario s;
    s.name = "skew matrix";
    s.bounds = fmt("all pairs of vectors with components from a menu of %d values, single and double precision, fixed and expression argument", nv);
    s.body = [=](Ctx &c) {
        double v[3], w[3];
        for (double &x : v) x = VAL[c.choose(nv, "v")];
        for (double &x : w) x = VAL[c.choose(nv, "w")];
        Eigen::Vector3d a(v[0], v[1], v[2]), b(w[0], w[1], w[2]), x(v[1] * w[2] - v[2] * w[1], v[2] * w[0] - v[0] * w[2], v[0] * w[1] - v[1] * w[0]);
        const Vector3 af = a.cast<float>(), bf = b.cast<float>();
        double tol = 1e-5 * (a.norm() * b.norm()) + 1e-12;
        c.step(3);
        c.compared(3);
        c.state(mh(x));
        c.check((Utility::SkewSymmetricMatrix(af) * bf - x.cast<float>()).norm() <= tol, "C25-skew", "skew(v) w is not v x w (single precision)");
        c.check((Utility::SkewSymmetricMatrix(a) * b - x).norm() <= tol, "C25-skew", "skew(v) w is not v x w (double precision)");
        c.check((Utility::SkewSymmetricMatrix(af + Vector3::Zero()) * bf - x.cast<float>()).norm() <= tol, "C25-skew", "skew(v) w is not v x w (expression)");
        c.check((Utility::SkewSymmetricMatrix(af) + Utility::SkewSymmetricMatrix(af).transpose()).norm() == 0, "C25-skew", "the skew matrix is not antisymmetric");
    };
    return s;
}

mc::Scenario products(int nv) {
    mc::Scenario s;
    s.name = "product matrices";
    s.bounds = fmt("all pairs of quaternions with components from %d values (also not of unit length), single and double precision", nv);
    s.splitDepth = 4;
    s.body = [=](Ctx &c) {
        const double q4[5] = {0.5, -1, 0, 0.25, -0.7};
        double v[8];
        for (double &x : v) x = q4[c.choose(nv, "component")];
        double p[4] = {v[0], v[1], v[2], v[3]}, q[4] = {v[4], v[5], v[6], v[7]};
        // Hamilton product, w first
        double r[4] = {p[0] * q[0] - p[1] * q[1] - p[2] * q[2] - p[3] * q[3], p[0] * q[1] + p[1] * q[0] + p[2] * q[3] - p[3] * q[2],
                       p[0] * q[2] - p[1] * q[3] + p[2] * q[0] + p[3] * q[1], p[0] * q[3] + p[1] * q[2] - p[2] * q[1] + p[3] * q[0]};
        Eigen::Vector4d P(p[0], p[1], p[2], p[3]), Q(q[0], q[1], q[2], q[3]), R(r[0], r[1], r[2], r[3]);
        Eigen::Quaterniond pd(p[0], p[1], p[2], p[3]), qd(q[0], q[1], q[2], q[3]);
        const Quaternion pf = pd.cast<float>(), qf = qd.cast<float>();
        c.step(4);
        c.compared(4);
        c.state(mh(R));
        c.check((Utility::Qleft(pf).cast<double>() * Q - R).norm() < 1e-5, "C25-qleft", "Qleft(p) q is not p q (single precision)");
        c.check((Utility::Qright(qf).cast<double>() * P - R).norm() < 1e-5, "C25-qright", "Qright(q) p is not p q (single precision)");
        c.check((Utility::Qleft(pd) * Q - R).norm() < 1e-12, "C25-qleft", "Qleft(p) q is not p q (double precision)");
        c.check((Utility::Qright(qd) * P - R).norm() < 1e-12, "C25-qright", "Qright(q) p is not p q (double precision)");
    };
    return s;
}

Eigen::Vector3d dir26(int k) {
    int i = k < 13 ? k : k + 1;
    return Eigen::Vector3d(i % 3 - 1, i / 3 % 3 - 1, i / 9 - 1).normalized();
}

mc::Scenario deltaQ() {
    mc::Scenario s;
    s.name = "small-angle quaternion";
    s.bounds = "26 directions x 9 angles up to 0.2 rad, single and double precision";
    s.body = [](Ctx &c) {
        Eigen::Vector3d d = dir26(c.choose(26, "direction"));
        double a = (const double[]){0, 1e-9, 1e-6, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.2}[c.choose(9, "angle")];
        Eigen::Vector3d t = d * a;
        Eigen::Quaterniond ex(std::cos(a / 2), d.x() * std::sin(a / 2), d.y() * std::sin(a / 2), d.z() * std::sin(a / 2));
        auto q = Utility::DeltaQ(t);
        const Vector3 tf = t.cast<float>();
        auto qf = Utility::DeltaQ(tf);
        double tol = a * a / 6 + 1e-12;
        c.step(2);
        c.compared(3);
        c.state(mc::grid(a, 1e-10));
        c.check((q.coeffs() - ex.coeffs()).norm() <= tol, "C25-deltaq", fmt("the small-angle quaternion of %.3g rad is %.3g off", a, (q.coeffs() - ex.coeffs()).norm()));
        c.check((qf.coeffs().cast<double>() - ex.coeffs()).norm() <= tol + 1e-7, "C25-deltaq", fmt("the small-angle quaternion of %.3g rad is off (single precision)", a));
        double ang = ex.angularDistance(q.normalized());
        c.check(ang <= a * a * a / 10 + 2e-8 + a * a / 20, "C25-deltaq", fmt("the normalized small-angle quaternion of %.3g rad is rotated %.3g rad off", a, ang));
    };
    return s;
}

Eigen::Quaterniond euler(double roll, double pitch, double yaw) {
    return Eigen::Quaterniond(Eigen::AngleAxisd(yaw, Eigen::Vector3d::UnitZ()) * Eigen::AngleAxisd(pitch, Eigen::Vector3d::UnitY()) * Eigen::AngleAxisd(roll, Eigen::Vector3d::UnitX()));
}

mc::Scenario transform() {
    mc::Scenario s;
    s.name = "homogeneous transform";
    s.bounds = "8 x 5 x 8 rotations x 27 translations x 27 points";
    s.splitDepth = 3;
    s.body = [](Ctx &c) {
        double r = c.choose(8, "roll") * PI / 4, p = (c.choose(5, "pitch") - 2) * PI / 4, y = c.choose(8, "yaw") * PI / 4;
        Eigen::Quaterniond q = euler(r, p, y);
        const double m[3] = {0, 1.5, -20};
        Eigen::Vector3d t(m[c.choose(3, "t")], m[c.choose(3, "t")], m[c.choose(3, "t")]), x(m[c.choose(3, "x")], m[c.choose(3, "x")], m[c.choose(3, "x")]);
        Matrix44 T = Utility::TransformMatrix(q.cast<float>(), t.cast<float>());
        Vector4 h;
        h << x.cast<float>(), 1.0f;
        Vector4 o = T * h;
        Eigen::Vector3d want = q * x + t;
        c.step();
        c.compared(2);
        c.state(mh(want));
        c.check((o.head<3>().cast<double>() - want).norm() < 2e-5 * (1 + want.norm() + x.norm()), "C25-transform", "the homogeneous transform does not rotate, then translate");
        c.check(o(3) == 1.0f && T(3, 0) == 0 && T(3, 1) == 0 && T(3, 2) == 0, "C25-transform", "the last row of the homogeneous transform is not 0 0 0 1");
    };
    return s;
}

mc::Scenario eulerAngles(int steps) {
    mc::Scenario s;
    s.name = "Euler angles";
    s.bounds = fmt("%d x %d x %d roll, pitch and yaw angles, including gimbal lock and its neighbourhood (1e-1 .. 1e-7 rad away), both quaternion signs", steps, steps / 2 + 13, steps);
    s.splitDepth = 2;
    s.body = [=](Ctx &c) {
        double roll = -PI + c.choose(steps, "roll") * 2 * PI / steps, yaw = -PI + c.choose(steps, "yaw") * 2 * PI / steps;
        int k = c.choose(steps / 2 + 13, "pitch");
        double pitch;
        if (k <= steps / 2) pitch = -PI / 2 + k * 2 * PI / steps;
        else pitch = ((k - steps / 2) % 2 ? 1 : -1) * (PI / 2 - std::pow(10, -1 - (k - steps / 2 - 1) / 2));
        Eigen::Quaterniond q = euler(roll, pitch, yaw);
        Quaternion qf = q.cast<float>();
        if (c.flip("sign")) qf.coeffs() = -qf.coeffs();
        Vector3 e = Utility::QuaternionToEuler(qf);
        c.step();
        c.compared();
        c.state(mh(e));
        c.check(e.allFinite(), "C25-euler-finite", fmt("the Euler angles of roll %.6f pitch %.6f yaw %.6f are not finite", roll, pitch, yaw));
        double cp = std::cos(pitch);
        if (cp < 0.01) return;
        Eigen::Quaterniond b = euler(e.x() * PI / 180, e.y() * PI / 180, e.z() * PI / 180);
        c.check(b.angularDistance(q) < 2e-6 + 2e-6 / cp, "C25-euler", fmt("the Euler angles (%.4f %.4f %.4f) of roll %.4f pitch %.4f yaw %.4f rad rebuild a rotation %.3g rad off", e.x(), e.y(), e.z(), roll, pitch, yaw, b.angularDistance(q)));
        c.check(std::fabs(e.y()) <= 90.001f, "C25-euler", "pitch beyond 90 degrees");
    };
    return s;
}

mc::Scenario magnitude() {
    mc::Scenario s;
    s.name = "rotation magnitude";
    s.bounds = "26 axes x 24 angles from 0 to half a turn, as matrix, quaternion (both signs) and rotation vector, with rounding of up to 4 units in the trace; translation magnitude";
    s.body = [](Ctx &c) {
        Eigen::Vector3d d = dir26(c.choose(26, "axis"));
        const double A[24] = {0, 1e-7, 1e-5, 1e-4, 1e-3, 0.003, 0.01, 0.03, 0.1, 0.3, 0.5, 0.8, 1.0, 1.3, PI / 2, 1.8, 2.1, 2.5, 2.8, 3.0, 3.1, 3.14, PI - 1e-5, PI};
        double a = A[c.choose(24, "angle")];
        Eigen::Quaterniond q(Eigen::AngleAxisd(a, d));
        int ulp = c.choose(9, "rounding") - 4;
        // the cosine of the angle is only known to rounding: so is the angle
        double tol = [&] { double e = 1.5e-6, s1 = std::sin(a); return s1 > 2e-3 ? 2 * e / s1 + 1e-6 : std::sqrt(2 * e) + 3e-3; }();
        Matrix33 R = q.toRotationMatrix().cast<float>();
        R(0, 0) += static_cast<float>(ulp) * 1.2e-7f;
        R(2, 2) += static_cast<float>(ulp) * 1.2e-7f;
        double m = Utility::ComputeRotationMagnitude(R);
        c.step(3);
        c.compared(4);
        c.state(mc::grid(a, 1e-8));
        c.check(std::fabs(m - a) < tol, "C25-magnitude-matrix", fmt("the magnitude of a rotation matrix of %.7f rad is %.7f", a, m));
        for (int sg = 0; sg < 2; ++sg) {
            Quaternion qf = q.cast<float>();
            if (sg) qf.coeffs() = -qf.coeffs();
            m = Utility::ComputeRotationMagnitude(qf);
            c.check(std::fabs(m - a) < tol, "C25-magnitude-quaternion", fmt("the magnitude of a quaternion of %.7f rad is %.7f", a, m));
        }
        Vector3 r = (d * a).cast<float>();
        m = Utility::ComputeRotationMagnitude(r);
        c.check(std::fabs(m - a) < 1e-6 * (1 + a), "C25-magnitude-vector", fmt("the magnitude of a rotation vector of %.7f rad is %.7f", a, m));
        m = Utility::ComputeTranslationMagnitude((d * a * 10).cast<float>());
        c.check(std::fabs(m - a * 10) < 1e-5 * (1 + a), "C25-magnitude-translation", fmt("the magnitude of a translation of %.7f is %.7f", a * 10, m));
    };
    return s;
}

mc::Scenario inverse(int maxN) {
    mc::Scenario s;
    s.name = "symmetric inverse";
    s.bounds = fmt("sizes 1..%d, every assignment of eigenvalues from {1, 30, 0.05, 0} and 5 scales, 6 orthogonal bases", maxN);
    s.splitDepth = 3;
    s.body = [=](Ctx &c) {
        int n = 1 + c.choose(maxN, "size"), basis = c.choose(6, "basis");
        double scale = (const double[]){1, 1e-3, 100, 1e4, 1e-5}[c.choose(5, "scale")];
        Eigen::VectorXd ev(n);
        for (int i = 0; i < n; ++i) ev(i) = scale * (const double[]){1, 30, 0.05, 0}[c.choose(4, "eigenvalue")];
        Eigen::MatrixXd Q = Eigen::MatrixXd::Identity(n, n);
        for (int k = 0; k < basis; ++k) {
            Eigen::VectorXd u(n);
            for (int i = 0; i < n; ++i) u(i) = std::sin(1.3 * (i + 1) * (k + 1) + 0.4 * k) + 0.2;
            u.normalize();
            Q = Q * (Eigen::MatrixXd::Identity(n, n) - 2 * u * u.transpose());
        }
        Eigen::MatrixXd Ad = Q * ev.asDiagonal() * Q.transpose();
        Ad = (0.5 * (Ad + Ad.transpose())).eval();
        Eigen::VectorXd iv(n);
        double mx = 0;
        for (int i = 0; i < n; ++i) { iv(i) = ev(i) > 0 ? 1 / ev(i) : 0; mx = std::max(mx, iv(i)); }
        Eigen::MatrixXd want = Q * iv.asDiagonal() * Q.transpose();
        const Matrix A = Ad.cast<float>();
        Matrix inv = Utility::Inverse(A);
        c.step();
        c.compared(static_cast<mc::u64>(n * n));
        c.state(mh(ev));
        bool singular = (ev.array() == 0).any();
        c.outcome(static_cast<mc::u64>(singular) + 2 * static_cast<mc::u64>(n));
        c.check(inv.rows() == n && inv.cols() == n && inv.allFinite(), "C25-inverse-shape", "the inverse has another size or is not finite");
        double err = (inv.cast<double>() - want).norm();
        double cond = ev.maxCoeff() * mx;
        double tol = 3e-6 * (1 + cond) * mx + 1e-9;
        c.check(err <= tol, singular ? "C25-inverse-singular" : "C25-inverse", fmt("size %d, eigenvalues %.3g .. %.3g%s: the %sinverse is %.3g off (allowed %.3g)", n, ev.minCoeff(), ev.maxCoeff(), basis ? ", rotated" : "", singular ? "pseudo-" : "", err, tol));
    };
    return s;
}

std::vector<mc::Scenario> make(const std::string &) {
    bool T = mc::thorough();
    return {skew(T ? 7 : 5), products(T ? 5 : 4), deltaQ(), transform(), eulerAngles(T ? 72 : 24), magnitude(), inverse(T ? 7 : 5)};
}
}  // namespace

int main(int argc, char **argv) { return mc::run(argc, argv, make); }
