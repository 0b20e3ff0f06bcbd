// C11: triangulation, C12: camera pose estimation, C13: RANSAC pose estimation.
#include <explore.hpp>
#include <trianglation.hpp>
#include <perspective_n_point.hpp>
#include <memory>
using namespace ESKF_VIO_BACKEND;
using mc::Ctx;
using mc::fmt;
using V3 = Eigen::Vector3d;
using V2 = Eigen::Vector2d;
using Qd = Eigen::Quaterniond;

// rand() is a choice point when an execution asks for it
namespace { std::function<int()> drawHook; }
extern "C" int rand(void) { return drawHook ? drawHook() : 4; }

namespace {
Qd rv(double x, double y, double z) { V3 t(x, y, z); double a = t.norm(); return a < 1e-12 ? Qd(1, 0, 0, 0) : Qd(Eigen::AngleAxisd(a, t / a)); }
struct Pose { Qd q; V3 p; };
V3 toCam(const Pose &T, const V3 &x) { return T.q.conjugate() * (x - T.p); }
V2 proj(const Pose &T, const V3 &x) { V3 c = toCam(T, x); return V2(c.x() / c.z(), c.y() / c.z()); }
struct In {
    std::vector<Quaternion> q;
    std::vector<Vector3> p;
    std::vector<Vector2> n;
    void add(const Pose &T, const V2 &m) { q.push_back(T.q.cast<float>()); p.push_back(T.p.cast<float>()); n.push_back(m.cast<float>()); }
};
mc::u64 vh(const V3 &v) { mc::u64 h = 1; for (int i = 0; i < 3; ++i) h = mc::mix(h, mc::grid(v(i), 1e-2)); return h; }

// cameras looking roughly along world z
const std::vector<Pose> &forward() {
    static const std::vector<Pose> v = {
        {rv(0, 0, 0), V3(0, 0, 0)}, {rv(0, 0, 0), V3(0.4, 0, 0)}, {rv(0.05, -0.1, 0.3), V3(-0.3, 0.5, 0.1)}, {rv(-0.1, 0.05, -1.2), V3(0.8, -0.4, 0.3)},
        {rv(0.02, 0.2, 3.0), V3(-0.7, 0.2, -0.5)}, {rv(0, -0.15, 0.1), V3(1.2, 0.3, 0.6)}};
    return v;
}
// the same cameras carried to other places of the world
const std::vector<Pose> &places() {
    static const std::vector<Pose> v = {{rv(0, 0, 0), V3(0, 0, 0)}, {rv(1.57079632679, 0, 0), V3(3, -2, 1)}, {rv(0.4, -2.5, 0.7), V3(-6, 5, 4)}, {rv(0, 3.0, 0), V3(0.5, 0.2, 20)}};
    return v;
}
Pose compose(const Pose &a, const Pose &b) { return {a.q * b.q, a.p + a.q * b.p}; }

double parallax(const std::vector<Pose> &cams, const V3 &x) {
    double best = 0;
    for (auto &a : cams) for (auto &b : cams) best = std::max(best, std::acos(std::min(1.0, (x - a.p).normalized().dot((x - b.p).normalized()))));
    return best;
}
const double LX[3] = {-0.5, 0.1, 0.6}, LY[3] = {-0.4, 0.0, 0.5}, LZ[4] = {1.5, 3, 6, 12};

double cost(const In &in, const Vector3 &x) {
    double s = 0;
    for (size_t i = 0; i < in.q.size(); ++i) {
        Pose T{in.q[i].cast<double>().normalized(), in.p[i].cast<double>()};
        s += (proj(T, x.cast<double>()) - in.n[i].cast<double>()).squaredNorm();
    }
    return s;
}

mc::Scenario exactPoints(int maxViews) {
    mc::Scenario s;
    s.name = "exact observations";
    s.bounds = fmt("every ordered selection of 0..%d of 6 cameras, in 4 places of the world, 36 points in front (3 x 3 directions, depth 1.5..12) or behind; direct and iterative (from starts up to 15%% off)", maxViews);
    s.splitDepth = 4;
    s.body = [=](Ctx &c) {
        int place = c.choose(4, "place"), n = c.choose(maxViews + 1, "views");
        V3 local(LX[c.choose(3, "x")], LY[c.choose(3, "y")], 1);
        local *= LZ[c.choose(4, "z")];
        V3 x = places()[static_cast<size_t>(place)].p + places()[static_cast<size_t>(place)].q * local;
        std::vector<Pose> cams;
        std::vector<int> left = {0, 1, 2, 3, 4, 5};
        In in;
        bool front = true;
        for (int i = 0; i < n; ++i) {
            int k = c.choose(static_cast<int>(left.size()), "camera");
            cams.push_back(compose(places()[static_cast<size_t>(place)], forward()[static_cast<size_t>(left[static_cast<size_t>(k)])]));
            left.erase(left.begin() + k);
            V3 pc = toCam(cams.back(), x);
            if (pc.z() < 0.2) front = false;
            in.add(cams.back(), V2(pc.x() / pc.z(), pc.y() / pc.z()));
        }
        if (!front) return;
        Trianglator t;
        Vector3 out(7, 7, 7);
        bool ok = t.TrianglateAnalytic(in.q, in.p, in.n, out);
        c.step();
        c.compared();
        c.state(mc::mix(vh(x), static_cast<mc::u64>(n)));
        if (n < 2) {
            c.check(!ok, "C11-few-views", fmt("triangulation from %d view(s) succeeds", n));
            return;
        }
        double par = parallax(cams, x), depth = toCam(cams[0], x).norm();
        c.outcome(ok);
        if (par < 0.03) return;
        double tol = depth * 3e-5 / par * (1 + x.norm() / depth) + 1e-4;
        c.check(ok, "C11-direct-fails", fmt("exact observations from %d views with %.3f rad parallax are not triangulated", n, par));
        double e = (out.cast<double>() - x).norm();
        c.check(e < tol, "C11-direct", fmt("exact observations from %d views with %.3f rad parallax: the point is %.4g m off (allowed %.4g)", n, par, e, tol));
        // iterative, from nearby starts
        const V3 off[4] = {V3(0, 0, 0), V3(0.1, -0.05, 0.1), V3(-0.08, 0.06, 0.15), V3(0.03, 0.1, -0.12)};
        for (auto &o : off) {
            Vector3 it = (x + places()[static_cast<size_t>(place)].q * (o * depth)).cast<float>(), it0 = it;
            t.TrianglateIterative(in.q, in.p, in.n, it);
            c.step();
            double e2 = (it.cast<double>() - x).norm(), c0 = cost(in, it0), c1 = cost(in, it);
            c.compared(2);
            c.check(c1 <= c0 * (1 + 1e-3) + 1e-8, "C11-iterative-worse", fmt("the iterative triangulation ends with reprojection error %.4g, it started with %.4g", c1, c0));
            // flat minimum: a small reprojection error is all single precision can give
            double tol2 = 20 * tol + 0.01 * depth;
            if (par > 0.06) c.check(e2 < tol2, "C11-iterative", fmt("place %d, %d views, %.3f rad parallax: from a start %.2f m away the iterative triangulation ends %.4g m off (allowed %.3g)", place, n, par, (it0.cast<double>() - x).norm(), e2, tol2));
        }
    };
    return s;
}

// many views of one point, at most one of them from behind
mc::Scenario manyViews() {
    mc::Scenario s;
    s.name = "many views";
    s.bounds = "2..40 views from an arc in 4 places of the world, in either order, of 9 directions x 4 depths; none or any one of the cameras beyond the point";
    s.splitDepth = 3;
    s.body = [](Ctx &c) {
        int place = c.choose(4, "place"), n = 2 + c.choose(39, "views");
        V3 local(LX[c.choose(3, "x")], LY[c.choose(3, "y")], 1);
        local *= LZ[c.choose(4, "z")];
        const Pose &W = places()[static_cast<size_t>(place)];
        V3 x = W.p + W.q * local;
        const bool reverse = c.flip("reversed");
        const int beyond = c.choose(std::min(n, 6) + 1, "beyond");     // which view looks away from the point: none, first ones, last ones
        const int which = beyond == 0 ? -1 : beyond <= 3 ? std::min(beyond - 1, n - 1) : n - (beyond - 3);
        In in;
        std::vector<Pose> cams;
        for (int i = 0; i < n; ++i) {
            int k = reverse ? n - 1 - i : i;
            double a = 0.37 * k;
            Pose T{rv(0.1 * std::sin(a), 0.1 * std::cos(1.3 * a), 0.2 * k), V3(0.6 * std::sin(a), 0.5 * std::cos(1.7 * a), 0.1 * std::sin(2.3 * a))};
            if (i == which) T.p += 2 * local;
            cams.push_back(compose(W, T));
            V3 pc = toCam(cams.back(), x);
            if (std::fabs(pc.z()) < 0.3 || (pc.z() < 0) != (i == which)) return;
            in.add(cams.back(), V2(pc.x() / pc.z(), pc.y() / pc.z()));
        }
        Trianglator t;
        Vector3 out(7, 7, 7);
        bool ok = t.TrianglateAnalytic(in.q, in.p, in.n, out);
        c.step();
        c.compared();
        c.state(mc::mix(vh(x), static_cast<mc::u64>(n * 50 + which)));
        c.outcome(ok);
        if (which >= 0) { c.check(!ok, "C11-behind", fmt("%d views, the point is behind camera %d, but the triangulation succeeds", n, which)); return; }
        double par = parallax(cams, x), depth = local.norm();
        if (par < 0.03) return;
        double tol = depth * 3e-5 / par * (1 + x.norm() / depth) + 1e-4;
        c.check(ok, "C11-direct-fails", fmt("exact observations from %d views with %.3f rad parallax are not triangulated", n, par));
        double e = (out.cast<double>() - x).norm();
        c.check(e < tol, "C11-direct", fmt("exact observations from %d views with %.3f rad parallax: the point is %.4g m off (allowed %.4g)", n, par, e, tol));
        Vector3 it = (x + W.q * (V3(0.08, -0.05, 0.08) * depth)).cast<float>();
        t.TrianglateIterative(in.q, in.p, in.n, it);
        c.step();
        double e2 = (it.cast<double>() - x).norm(), tol2 = 20 * tol + 0.01 * depth;
        if (par > 0.06) c.check(e2 < tol2, "C11-iterative", fmt("%d views: the iterative triangulation ends %.4g m off (allowed %.3g)", n, e2, tol2));
    };
    return s;
}

// observations that do not agree, or agree behind the cameras
mc::Scenario frontOnly(int views) {
    mc::Scenario s;
    s.name = fmt("solution in front or failure, %d views", views);
    s.bounds = fmt("%d of 6 cameras in 2 places; every combination of %d normalized coordinates per view from a lattice, and exact observations of points behind some or all cameras", views, views == 2 ? 25 : 9);
    s.splitDepth = 3;
    s.body = [=](Ctx &c) {
        int place = 2 * c.choose(2, "place");
        int mode = c.choose(2, "mode");
        In in;
        std::vector<Pose> cams;
        int first = c.choose(6 - views + 1, "cameras");
        const double U[5] = {-0.6, -0.2, 0.0, 0.3, 0.7};
        V3 x;
        if (mode == 1) {
            x = V3(LX[c.choose(3, "x")] * 2, LY[c.choose(3, "y")] * 2, 1) * (const double[]){-8.0, -3.0, -1.0, 0.2, 0.5, 1.0}[c.choose(6, "z")];
            x = places()[static_cast<size_t>(place)].p + places()[static_cast<size_t>(place)].q * x;
        }
        double minz = INFINITY;
        for (int i = 0; i < views; ++i) {
            Pose T = compose(places()[static_cast<size_t>(place)], forward()[static_cast<size_t>(first + i)]);
            cams.push_back(T);
            if (mode == 0) {
                if (views == 2) in.add(T, V2(U[c.choose(5, "u")], U[c.choose(5, "v")]));
                else in.add(T, V2(U[2 * c.choose(3, "u")], U[2 * c.choose(3, "v")]));
            } else {
                V3 pc = toCam(T, x);
                minz = std::min(minz, pc.z());
                if (std::fabs(pc.z()) < 0.05) return;
                in.add(T, V2(pc.x() / pc.z(), pc.y() / pc.z()));
            }
        }
        Trianglator t;
        Vector3 out(7, 7, 7);
        bool ok = t.TrianglateAnalytic(in.q, in.p, in.n, out);
        c.step();
        c.compared();
        c.outcome(ok);
        c.state(vh(out.cast<double>()));
        if (ok) {
            for (size_t i = 0; i < cams.size(); ++i) {
                double z = toCam(cams[i], out.cast<double>()).z();
                c.check(out.allFinite() && z > -1e-4 * (1 + out.norm()), "C11-behind", fmt("a successful triangulation lies %.4g m behind view %zu", -z, i));
            }
        }
        double par = mode == 1 ? parallax(cams, x) : 1;
        if (mode == 1 && par > 0.05) c.check(ok == (minz > 0), minz > 0 ? "C11-direct-fails" : "C11-behind-accepted", fmt("exact observations of a point at depth %.3g of the worst view: triangulation %s", minz, ok ? "succeeds" : "fails"));
        // the iterative one never ends worse than it starts
        if (mode == 0 || minz > 0) {
            const V3 st[4] = {V3(0.2, 0.1, 2), V3(-1, 0.5, 5), V3(0, 0, 20), V3(0.5, -0.5, 1)};
            for (auto &l : st) {
                Vector3 it = (places()[static_cast<size_t>(place)].p + places()[static_cast<size_t>(place)].q * l).cast<float>(), it0 = it;
                t.TrianglateIterative(in.q, in.p, in.n, it);
                c.step();
                double c0 = cost(in, it0), c1 = cost(in, it);
                c.compared();
                c.check(c1 <= c0 * (1 + 1e-3) + 1e-6, "C11-iterative-worse", fmt("the iterative triangulation ends with reprojection error %.6g, it started with %.6g", c1, c0));
            }
        }
    };
    return s;
}

// ------------------------------------------------------------------ C12
const std::vector<Pose> &camPoses() {
    static const std::vector<Pose> v = {{rv(0, 0, 0), V3(0, 0, 0)}, {rv(0.3, -0.2, 1.0), V3(1, -2, 0.5)}, {rv(-1.2, 1.4, 0.3), V3(-3, 1, 2)}, {rv(0, 3.1, 0.2), V3(5, 5, -4)}, {rv(2.0, 0.4, -2.0), V3(0.2, 0.1, 8)}};
    return v;
}
std::vector<V3> cloud(int n) {
    static const std::vector<V3> pts = {V3(-1.2, -0.9, 3.0), V3(1.3, -0.8, 4.5), V3(-0.9, 1.1, 5.0), V3(1.0, 1.2, 3.4), V3(0.1, 0.1, 6.5), V3(-1.8, 0.2, 4.2), V3(0.4, -1.6, 5.4), V3(1.9, 0.3, 6.0),
                                        V3(-0.4, 0.7, 3.1), V3(0.7, -0.3, 7.0), V3(-1.5, -1.4, 5.8), V3(0.2, 1.7, 4.8)};
    return std::vector<V3>(pts.begin(), pts.begin() + n);
}
struct Corr { std::vector<Vector3> p3; std::vector<Vector2> p2; };
Corr correspondences(const Pose &T, const std::vector<V3> &local) {
    Corr r;
    for (auto &l : local) {
        r.p3.push_back((T.p + T.q * l).cast<float>());
        r.p2.push_back(V2(l.x() / l.z(), l.y() / l.z()).cast<float>());
    }
    return r;
}
double poseErr(const Pose &T, const Quaternion &q, const Vector3 &p) {
    return (p.cast<double>() - T.p).norm() + T.q.angularDistance(q.cast<double>().normalized());
}
Pose startPose(const Pose &T, int k) {
    const double a[7][6] = {{0, 0, 0, 0, 0, 0}, {0.1, 0, 0, 0.1, -0.1, 0.1}, {0, -0.15, 0, -0.2, 0, 0.1}, {0, 0, 0.2, 0, 0.3, 0}, {-0.08, 0.08, -0.08, 0.2, 0.1, -0.2}, {0.03, 0.02, -0.2, -0.1, -0.2, -0.1}, {0, 0, 0, 0, 0, 0.4}};
    return {T.q * rv(a[k][0], a[k][1], a[k][2]), T.p + V3(a[k][3], a[k][4], a[k][5])};
}

mc::Scenario poseExact() {
    mc::Scenario s;
    s.name = "exact correspondences";
    s.bounds = "5 camera poses x 4..12 points (first n, or any one left out) x 7 starts (up to 0.2 rad, 0.4 m) x plain / robust, plus mismatched and empty inputs";
    s.body = [](Ctx &c) {
        const Pose &T = camPoses()[static_cast<size_t>(c.choose(5, "pose"))];
        int n = 4 + c.choose(9, "points");
        auto pts = cloud(n);
        int drop = n > 4 ? c.choose(n + 1, "left out") : 0;
        if (drop) pts.erase(pts.begin() + drop - 1);
        Corr k = correspondences(T, pts);
        Pose st = startPose(T, c.choose(7, "start"));
        int bad = c.choose(5, "input");            // 0 good, others malformed
        Corr in = k;
        if (bad == 1) in.p2.pop_back();
        if (bad == 2) in.p3.pop_back();
        if (bad == 3) { in.p2.clear(); in.p3.clear(); }
        if (bad == 4) in.p2.clear();
        PnPSolver sv;
        for (int m = 0; m < 4; ++m) {
            if (m >= 2 && !bad) break;
            Quaternion q = st.q.cast<float>();
            Vector3 p = st.p.cast<float>();
            const Quaternion q0 = q;
            const Vector3 p0 = p;
            std::vector<bool> fl;
            bool ok = m == 0 ? sv.EstimatePose(in.p3, in.p2, q, p) : m == 1 ? sv.EstimatePoseKernel(in.p3, in.p2, q, p)
                    : m == 2 ? sv.EstimatePoseRANSAC(in.p3, in.p2, q, p) : sv.EstimatePoseRANSAC(in.p3, in.p2, q, p, fl);
            c.step();
            c.compared();
            if (bad) {
                c.check(!ok, "C12-malformed-accepted", fmt("%zu points with %zu observations are accepted", in.p3.size(), in.p2.size()));
                c.check(q.coeffs() == q0.coeffs() && p == p0, "C12-malformed-changes", "a refused input changes the pose");
                continue;
            }
            c.check(ok, "C12-fails", fmt("%s pose estimation fails on %zu exact correspondences", m ? "robust" : "plain", in.p3.size()));
            c.check(std::fabs(q.norm() - 1) < 1e-4, "C12-unit", "the estimated orientation has no unit length");
            double e = poseErr(T, q, p);
            c.state(mc::mix(vh(p.cast<double>()), static_cast<mc::u64>(m)));
            c.check(e < 2e-3 * (1 + 0.1 * T.p.norm()), "C12-exact", fmt("%s pose estimation from %zu exact correspondences is %.4g off", m ? "robust" : "plain", in.p3.size(), e));
        }
        c.outcome(static_cast<mc::u64>(bad));
    };
    return s;
}

std::vector<V3> manyPoints(int n) {
    std::vector<V3> v;
    for (int i = 0; i < n; ++i) {
        double a = 2.399963 * i, r = 0.15 + 0.6 * std::sqrt((i + 0.5) / n), z = 3 + ((i * 7) % 11) * 0.4;
        v.push_back(V3(r * std::cos(a) * z, r * std::sin(a) * z, z));
    }
    return v;
}

mc::Scenario poseMany() {
    mc::Scenario s;
    s.name = "many exact correspondences";
    s.bounds = "5 camera poses x 20, 49, 50, 51, 64, 100, 128, 200 or 500 points in either order x 7 starts x plain / robust";
    s.splitDepth = 2;
    s.body = [](Ctx &c) {
        const Pose &T = camPoses()[static_cast<size_t>(c.choose(5, "pose"))];
        const int n = (const int[]){20, 49, 50, 51, 64, 100, 128, 200, 500}[c.choose(9, "points")];
        auto pts = manyPoints(n);
        if (c.flip("reversed")) std::reverse(pts.begin(), pts.end());
        Corr k = correspondences(T, pts);
        Pose st = startPose(T, c.choose(7, "start"));
        PnPSolver sv;
        for (int m = 0; m < 2; ++m) {
            Quaternion q = st.q.cast<float>();
            Vector3 p = st.p.cast<float>();
            bool ok = m == 0 ? sv.EstimatePose(k.p3, k.p2, q, p) : sv.EstimatePoseKernel(k.p3, k.p2, q, p);
            c.step();
            c.compared();
            c.check(ok, "C12-fails", fmt("%s pose estimation fails on %d exact correspondences", m ? "robust" : "plain", n));
            c.check(std::fabs(q.norm() - 1) < 1e-4, "C12-unit", "the estimated orientation has no unit length");
            double e = poseErr(T, q, p);
            c.state(mc::mix(static_cast<mc::u64>(n), static_cast<mc::u64>(m)));
            c.outcome(mc::mix(vh(p.cast<double>()), static_cast<mc::u64>(m)));
            c.check(e < 2e-3 * (1 + 0.1 * T.p.norm()), "C12-exact", fmt("%s pose estimation from %d exact correspondences is %.4g off", m ? "robust" : "plain", n, e));
        }
    };
    return s;
}
mc::Scenario poseOutliers(int points, int maxOut, std::vector<double> mags, int dirs) {
    mc::Scenario s;
    s.name = fmt("outliers, %d points, up to %d outliers of %zu magnitudes", points, maxOut, mags.size());
    s.bounds = fmt("5 camera poses x %d points x every set of 1..%d outliers of %zu magnitudes (1.6..100 in normalized coordinates) and %d directions x 3 starts; robust against plain", points, maxOut, mags.size(), dirs);
    s.splitDepth = 4;
    s.body = [=](Ctx &c) {
        const Pose &T = camPoses()[static_cast<size_t>(c.choose(5, "pose"))];
        Corr k = correspondences(T, manyPoints(points));
        int no = maxOut > 1 ? 1 + c.choose(maxOut, "outliers") : 1;
        int from = 0;
        double mag = mags[static_cast<size_t>(c.choose(static_cast<int>(mags.size()), "magnitude"))];
        double ang = c.choose(dirs, "direction") * 6.28318530718 / dirs;
        for (int i = 0; i < no; ++i) {
            if (from >= points) return;
            int w = from + c.choose(points - from, "which");
            k.p2[static_cast<size_t>(w)] += Vector2(static_cast<float>(mag * std::cos(ang + i)), static_cast<float>(mag * std::sin(ang + i)));
            from = w + 1;
        }
        Pose st = startPose(T, c.choose(3, "start"));
        PnPSolver sv;
        Quaternion q = st.q.cast<float>(), qr = q;
        Vector3 p = st.p.cast<float>(), pr = p;
        bool a = sv.EstimatePose(k.p3, k.p2, q, p), b = sv.EstimatePoseKernel(k.p3, k.p2, qr, pr);
        c.step(2);
        c.compared();
        c.check(b, "C12-fails", "robust pose estimation fails");
        c.check(std::fabs(qr.norm() - 1) < 1e-4, "C12-unit", "the estimated orientation has no unit length");
        double ea = a ? poseErr(T, q, p) : INFINITY, eb = poseErr(T, qr, pr);
        if (!(ea == ea)) ea = INFINITY;
        c.note(fmt("plain %.4g robust %.4g", ea, eb));
        c.state(mc::mix(vh(pr.cast<double>()), static_cast<mc::u64>(no)));
        c.outcome(eb < ea);
        c.check(eb < ea, "C12-robust", fmt("%d outlier(s) of %.3g among %d points disturb the robust estimate by %.4g, the plain one by %.4g", no, mag, points, eb, ea));
        c.check(eb < 4, "C12-robust-bounded", fmt("%d outlier(s) of %.3g among %d points disturb the robust estimate by %.4g", no, mag, points, eb));
    };
    return s;
}

// ------------------------------------------------------------------ C13
struct Draws {
    Ctx &c;
    int n, repeats;
    std::set<int> cur;
    std::vector<int> log;
    size_t replay = 0;
    int operator()() {
        if (replay < log.size()) {
            return log[replay++];
        }
        std::vector<int> menu;
        for (int i = 0; i < n; ++i) if (!cur.count(i)) menu.push_back(i);
        if (repeats > 0) for (int i : cur) menu.push_back(i);
        int v = menu[static_cast<size_t>(c.choose(static_cast<int>(menu.size()), "draw"))];
        if (cur.count(v)) --repeats;
        cur.insert(v);
        if (cur.size() >= 3) cur.clear();
        // also values far beyond the number of points
        v += n * (static_cast<int>(log.size()) % 3) * 1000;
        log.push_back(v);
        ++replay;
        return v;
    }
};

// how many correspondences are surely inliers of a pose
int sureInliers(const Pose &R, const Corr &k, double thr) {
    int lo = 0;
    for (size_t i = 0; i < k.p3.size(); ++i) lo += (proj(R, k.p3[i].cast<double>()) - k.p2[i].cast<double>()).squaredNorm() < thr * (1 - 1e-3) - 1e-9;
    return lo;
}
// the hypothesis that three correspondences give from a start pose; unknown when it depends on rounding
bool hypothesis(const Corr &k, std::vector<int> tri, Quaternion q, Vector3 p, Pose &out) {
    std::vector<Pose> r;
    for (int v = 0; v < 3; ++v) {
        std::vector<Vector3> x;
        std::vector<Vector2> m;
        for (int i = 0; i < 3; ++i) {
            int j = tri[static_cast<size_t>(v == 1 ? 2 - i : (i + v) % 3)];
            x.push_back(k.p3[static_cast<size_t>(j)]);
            m.push_back(k.p2[static_cast<size_t>(j)]);
        }
        Quaternion a = v == 1 ? (q * Quaternion(1, 2e-4f, -1e-4f, 1e-4f)).normalized() : q;
        Vector3 b = v == 2 ? Vector3(p + Vector3(1e-4f, -2e-4f, 1e-4f)) : p;
        PnPSolver sv;
        if (!sv.EstimatePose(x, m, a, b)) return false;
        r.push_back({a.cast<double>().normalized(), b.cast<double>()});
        if (!r[0].p.allFinite() || (r.back().p - r[0].p).norm() > 1e-3 || r.back().q.angularDistance(r[0].q) > 1e-3) return false;
    }
    out = r[0];
    return true;
}
// follows the best pose over growing budgets and asks that every drawn triple was given its chance
struct Best {
    Ctx &c;
    const Corr &k;
    double thr;
    std::vector<int> draws;  // every value handed out, taken modulo the number of points
    Quaternion q;
    Vector3 p;
    bool mapped = true;
    int at = 0, rules = 0;
    std::vector<std::vector<int>> triples() const {
        std::vector<std::vector<int>> t;
        std::set<int> cur;
        for (int d : draws) {
            cur.insert(d % static_cast<int>(k.p3.size()));
            if (cur.size() == 3) { t.emplace_back(cur.begin(), cur.end()); cur.clear(); }
        }
        return t;
    }
    // result of budget 'it'; the result of budget it-1 has been reported before
    void result(int it, const Quaternion &rq, const Vector3 &rp, int hi) {
        auto t = triples();
        if (it == at + 1 && static_cast<int>(t.size()) == it && mapped) {
            Pose h;
            if (hypothesis(k, t.back(), q, p, h)) {
                Pose R{rq.cast<double>().normalized(), rp.cast<double>()};
                // the first result tells whether a draw means what is assumed here
                if (it == 1) mapped = ((R.p - h.p).norm() < 2e-3 && R.q.angularDistance(h.q) < 2e-3) || (rq.coeffs() == q.coeffs() && rp == p);
                int s = sureInliers(h, k, thr);
                ++rules;
                if (mapped) c.check(hi >= s, "C13-best", fmt("iteration %d tried a pose with %d inliers, the result has %d", it, s, hi));
            }
        }
        at = it;
        q = rq;
        p = rp;
    }
};

mc::Scenario ransac(int n, int maxIter, int repeats, int outliers) {
    mc::Scenario s;
    s.name = fmt("RANSAC, %d points, %d outliers, %d repeated draws, up to %d iterations", n, outliers, repeats, maxIter);
    s.bounds = fmt("all draws of rand() for %d points with up to %d repetitions of a drawn index, iteration budgets 1..%d on the same draws, %d outlier layouts, 2 starts, 2 thresholds, 2 stop rates, 4 previous contents of the flag list", n, repeats, maxIter, outliers ? 2 : 1);
    s.splitDepth = 5;
    s.body = [=](Ctx &c) {
        const Pose &T = camPoses()[1];
        Corr k = correspondences(T, cloud(n));
        int layout = outliers ? c.choose(2, "layout") : 0;
        for (int i = 0; i < outliers; ++i) k.p2[static_cast<size_t>(layout ? n - 1 - i : i)] += Vector2(layout ? 0.25f : 0.6f, layout ? -0.3f * (i + 1) : 0.1f);
        Pose st = startPose(T, c.choose(2, "start") ? 4 : 1);
        PnPSolver sv;
        double thr = c.choose(2, "threshold") ? 1e-3 : 0.02;
        sv.ransacParam.inlierThres = static_cast<float>(thr);
        if (c.flip("rate")) sv.ransacParam.inlierRateThres = 0.5f;
        Draws d{c, n, repeats, {}, {}, 0};
        Best best{c, k, thr, {}, st.q.cast<float>(), st.p.cast<float>()};
        int lastLo = -1;
        for (int it = 1; it <= maxIter; ++it) {
            sv.ransacParam.maxIterateTimes = static_cast<unsigned>(it);
            Quaternion q = st.q.cast<float>();
            Vector3 p = st.p.cast<float>();
            std::vector<bool> fl;
            int pre = it % 4;
            if (pre == 1) fl.assign(static_cast<size_t>(n), false);
            if (pre == 2) fl.assign(static_cast<size_t>(n) + 3, true);
            if (pre == 3) fl.assign(static_cast<size_t>(n) - 1, false);
            d.replay = 0;
            d.cur.clear();
            best.draws.clear();
            // rebuild the state of the drawing loop while replaying
            drawHook = [&] {
                bool old = d.replay < d.log.size();
                int v = d();
                if (old) { d.cur.insert(v % n); if (d.cur.size() >= 3) d.cur.clear(); }
                best.draws.push_back(v);
                return v;
            };
            bool ok = sv.EstimatePoseRANSAC(k.p3, k.p2, q, p, fl);
            drawHook = nullptr;
            c.step();
            c.check(ok, "C13-fails", "the estimation fails on well-formed input");
            c.check(fl.size() == static_cast<size_t>(n), "C13-flags-size", fmt("%zu flags for %d correspondences", fl.size(), n));
            int lo = 0, hi = 0;
            Pose R{q.cast<double>().normalized(), p.cast<double>()};
            for (int i = 0; i < n; ++i) {
                double e = (proj(R, k.p3[static_cast<size_t>(i)].cast<double>()) - k.p2[static_cast<size_t>(i)].cast<double>()).squaredNorm();
                bool in = e < thr * (1 - 1e-3), out = !(e < thr * (1 + 1e-3));
                lo += in;
                hi += !out;
                c.compared();
                if (in || out) c.check(fl[static_cast<size_t>(i)] == in, in ? "C13-flag-missing" : "C13-flag-wrong", fmt("correspondence %d has squared error %.4g (threshold %.4g) and is flagged %s", i, e, thr, fl[static_cast<size_t>(i)] ? "inlier" : "outlier"));
            }
            c.note(fmt("budget %d: %d inliers", it, lo));
            c.check(hi >= lastLo, "C13-worse", fmt("with %d iterations the result has %d inliers, with fewer iterations on the same draws it had %d", it, hi, lastLo));
            lastLo = lo;
            c.check(d.replay >= static_cast<size_t>(3 * it) || hi > static_cast<double>(sv.ransacParam.inlierRateThres) * n, "C13-stops-early", fmt("%d of %d correspondences fit the result and it stopped before its %d iterations", hi, n, it));
            best.result(it, q, p, hi);
            c.state(mc::mix(vh(p.cast<double>()), static_cast<mc::u64>(lo)));
            // without flags: the same pose
            Quaternion q2 = st.q.cast<float>();
            Vector3 p2 = st.p.cast<float>();
            size_t used = d.replay;
            size_t pos = 0;
            drawHook = [&] { return d.log[pos < used ? pos++ : used - 1]; };
            if (it == maxIter) {
                ok = sv.EstimatePoseRANSAC(k.p3, k.p2, q2, p2);
                c.step();
                c.check(ok && (p2 - p).norm() < 1e-5 && (q2.coeffs() - q.coeffs()).norm() < 1e-5, "C13-two-forms", "the form with flags returns another pose");
            }
            drawHook = nullptr;
        }
        c.outcome(static_cast<mc::u64>(lastLo));
    };
    return s;
}

mc::Scenario ransacLong(int n, int maxIter) {
    mc::Scenario s;
    s.name = fmt("RANSAC, %d points, long regular draws", n);
    s.bounds = fmt("%d noisy points with 0..4 outliers in 3 layouts; draws i*stride+offset for every stride 1..%d and offset 0..%d; iteration budgets 1..%d on the same draws; 3 starts, 3 thresholds, 3 stop rates", n, n - 1, n - 1, maxIter);
    s.body = [=](Ctx &c) {
        const Pose &T = camPoses()[static_cast<size_t>(c.choose(3, "pose"))];
        Corr k = correspondences(T, cloud(n));
        for (int i = 0; i < n; ++i) k.p2[static_cast<size_t>(i)] += Vector2(0.01f * static_cast<float>((i * 5) % 7 - 3), 0.01f * static_cast<float>((i * 3) % 5 - 2));
        int no = c.choose(5, "outliers"), layout = c.choose(3, "layout");
        for (int i = 0; i < no; ++i) k.p2[static_cast<size_t>((layout == 0 ? i : layout == 1 ? n - 1 - i : 2 * i + 1) % n)] += Vector2(0.3f + 0.2f * static_cast<float>(i), -0.4f);
        Pose st = startPose(T, (const int[]){0, 4, 6}[c.choose(3, "start")]);
        int stride = 1 + c.choose(n - 1, "stride"), offset = c.choose(n, "offset");
        double thr = (const double[]){3e-4, 1e-3, 1e-2}[c.choose(3, "threshold")];
        PnPSolver sv;
        sv.ransacParam.inlierThres = static_cast<float>(thr);
        sv.ransacParam.inlierRateThres = (const float[]){0.9f, 0.5f, 0.7f}[c.choose(3, "rate")];
        int last = -1;
        Best best{c, k, thr, {}, st.q.cast<float>(), st.p.cast<float>()};
        for (int it = 1; it <= maxIter; it = it < 8 ? it + 1 : it * 2) {
            sv.ransacParam.maxIterateTimes = static_cast<unsigned>(it);
            Quaternion q = st.q.cast<float>();
            Vector3 p = st.p.cast<float>();
            std::vector<bool> fl(static_cast<size_t>(it % 3 * n / 2), it % 2 == 0);
            int i = 0;
            // after a full round the sequence moves on by one, so that no triple is drawn for ever
            best.draws.clear();
            drawHook = [&] { int v = (i * stride + offset + i / n) % n; ++i; best.draws.push_back(v); return v; };
            bool ok = sv.EstimatePoseRANSAC(k.p3, k.p2, q, p, fl);
            drawHook = nullptr;
            c.step();
            c.compared();
            c.check(ok, "C13-fails", "the estimation fails on well-formed input");
            c.check(fl.size() == static_cast<size_t>(n), "C13-flags-size", fmt("%zu flags for %d correspondences", fl.size(), n));
            int lo = 0, hi = 0;
            Pose R{q.cast<double>().normalized(), p.cast<double>()};
            for (int j = 0; j < n; ++j) {
                double e = (proj(R, k.p3[static_cast<size_t>(j)].cast<double>()) - k.p2[static_cast<size_t>(j)].cast<double>()).squaredNorm();
                bool in = e < thr * (1 - 1e-3) - 1e-9, out = !(e < thr * (1 + 1e-3) + 1e-9);
                lo += in;
                hi += !out;
                if (in || out) c.check(fl[static_cast<size_t>(j)] == in, in ? "C13-flag-missing" : "C13-flag-wrong", fmt("correspondence %d has squared error %.4g (threshold %.4g) and is flagged %s", j, e, thr, fl[static_cast<size_t>(j)] ? "inlier" : "outlier"));
            }
            c.check(hi >= last, "C13-worse", fmt("with %d iterations the result has %d inliers, with fewer iterations on the same draws it had %d", it, hi, last));
            last = lo;
            c.check(i >= 3 * it || hi > static_cast<double>(sv.ransacParam.inlierRateThres) * n, "C13-stops-early", fmt("%d of %d correspondences fit the result and it stopped before its %d iterations", hi, n, it));
            best.result(it, q, p, hi);
            c.state(mc::mix(vh(p.cast<double>()), static_cast<mc::u64>(lo)));
        }
        c.outcome(static_cast<mc::u64>(last * 2 + (best.rules > 0)));
    };
    return s;
}

mc::Scenario ransacBad() {
    mc::Scenario s;
    s.name = "RANSAC, malformed input";
    s.bounds = "0..6 points x 0..6 observations x 4 previous flag lists, with and without flags";
    s.body = [](Ctx &c) {
        int a = c.choose(7, "points"), b = c.choose(7, "observations"), pre = c.choose(4, "flags"), form = c.choose(2, "form");
        if (a == b && a >= 3) return;
        Corr k = correspondences(camPoses()[1], cloud(8));
        k.p3.resize(static_cast<size_t>(a));
        k.p2.resize(static_cast<size_t>(b));
        Pose st = startPose(camPoses()[1], 1);
        Quaternion q = st.q.cast<float>(), q0 = q;
        Vector3 p = st.p.cast<float>(), p0 = p;
        std::vector<bool> fl(static_cast<size_t>(pre * 2), true);
        int n = 0;
        drawHook = [&] { return n++; };
        PnPSolver sv;
        bool ok = form ? sv.EstimatePoseRANSAC(k.p3, k.p2, q, p, fl) : sv.EstimatePoseRANSAC(k.p3, k.p2, q, p);
        drawHook = nullptr;
        c.step();
        c.compared();
        c.state(static_cast<mc::u64>(a * 7 + b));
        c.outcome(ok);
        c.check(!ok, "C13-malformed-accepted", fmt("%d points with %d observations are accepted", a, b));
        c.check(q.coeffs() == q0.coeffs() && p == p0, "C13-malformed-changes", "a refused input changes the pose");
    };
    return s;
}

std::vector<mc::Scenario> make(const std::string &prop) {
    std::vector<mc::Scenario> v;
    bool T = mc::thorough();
    if (prop == "C11") {
        v.push_back(exactPoints(T ? 4 : 3));
        v.push_back(frontOnly(2));
        v.push_back(frontOnly(3));
        v.push_back(manyViews());
    }
    if (prop == "C12") {
        v.push_back(poseExact());
        v.push_back(poseMany());
        v.push_back(poseOutliers(20, 1, {1.6, 2, 3, 6, 10, 20, 50, 100}, T ? 12 : 6));
        v.push_back(poseOutliers(40, 1, {1.6, 3, 10, 30, 100}, T ? 12 : 4));
        if (T) v.push_back(poseOutliers(40, 2, {2, 6, 20, 100}, 6));
        else v.push_back(poseOutliers(40, 2, {6, 100}, 1));
    }
    if (prop == "C13") {
        v.push_back(ransacBad());
        v.push_back(ransac(3, 2, 1, 0));
        v.push_back(ransac(4, T ? 3 : 2, 1, 1));
        v.push_back(ransac(5, 2, T ? 1 : 0, 2));
        if (T) v.push_back(ransac(6, 2, 0, 2));
        v.push_back(ransacLong(8, 20));
        if (T) v.push_back(ransacLong(11, 40));
        v.push_back(ransac(4, 3, 0, 1));
    }
    return v;
}
}  // namespace

int main(int argc, char **argv) { return mc::run(argc, argv, make); }
