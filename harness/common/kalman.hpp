// Double-precision reference of the vision update: numerical Jacobians of the reprojection, landmark positions
// projected out by an SVD null space, textbook Kalman update.  Reads the state it starts from out of a Backend.
#pragma once
#include "world.hpp"

namespace ref {
using namespace world;
using MX = Eigen::MatrixXd;
using VX = Eigen::VectorXd;

struct State {
    V3 p, v, ba, bg;
    Qd q;
    std::vector<Cam> ext;
    std::vector<Cam> win;          // all frames but the newest, whose pose is (p, q)
    int dim() const { return 15 + 6 * static_cast<int>(ext.size() + win.size()); }
};
inline State plus(const State &s, const VX &d) {
    State r = s;
    r.p += d.segment<3>(0);
    r.v += d.segment<3>(3);
    r.q = (s.q * expq(d.segment<3>(6))).normalized();
    r.ba += d.segment<3>(9);
    r.bg += d.segment<3>(12);
    int o = 15;
    for (auto *l : {&r.ext, &r.win}) for (auto &c : *l) {
        c.p += d.segment<3>(o);
        c.q = (c.q * expq(d.segment<3>(o + 3))).normalized();
        o += 6;
    }
    return r;
}
struct Ob { int frame; int cam; V2 z; };          // frame: index in the window, the newest is win.size()
struct Lm { uint32_t id; std::vector<Ob> obs; V3 pw = V3::Zero(); bool good = false; double margin = 0; };

inline Cam body(const State &s, int f) { return f == static_cast<int>(s.win.size()) ? Cam{s.q, s.p} : s.win[static_cast<size_t>(f)]; }
inline V3 camPoint(const State &s, int f, int c, const V3 &pw) {
    Cam b = body(s, f);
    const Cam &e = s.ext[static_cast<size_t>(c)];
    return e.q.conjugate() * (b.q.conjugate() * (pw - b.p) - e.p);
}
inline V2 project(const State &s, int f, int c, const V3 &pw) {
    V3 p = camPoint(s, f, c, pw);
    return V2(p.x() / p.z(), p.y() / p.z());
}
// linear triangulation; good = in front of all views
inline void triangulate(const State &s, Lm &l) {
    l.good = false;
    l.margin = 0;
    size_t n = l.obs.size();
    if (n < 2) { l.margin = 1; return; }
    MX A(2 * static_cast<long>(n), 4);
    for (size_t i = 0; i < n; ++i) {
        Cam b = body(s, l.obs[i].frame);
        const Cam &e = s.ext[static_cast<size_t>(l.obs[i].cam)];
        M3 R = (b.q * e.q).toRotationMatrix().transpose();
        V3 t = -(R * (b.q * e.p + b.p));
        Eigen::Matrix<double, 3, 4> P;
        P << R, t;
        A.row(2 * static_cast<long>(i)) = l.obs[i].z.x() * P.row(2) - P.row(0);
        A.row(2 * static_cast<long>(i) + 1) = l.obs[i].z.y() * P.row(2) - P.row(1);
    }
    Eigen::JacobiSVD<MX> svd(A, Eigen::ComputeFullV);
    Eigen::Vector4d x = svd.matrixV().col(3);
    if (std::fabs(x(3)) < 1e-7) return;
    l.pw = x.head<3>() / x(3);
    double lo = INFINITY;
    for (auto &o : l.obs) lo = std::min(lo, camPoint(s, o.frame, o.cam, l.pw).z());
    l.good = lo > 0;
    l.margin = std::fabs(lo) / (1 + l.pw.norm());
}

struct Result { State s; MX P; VX dx; double innovation = 0; };
// update with the given landmarks (all good)
inline Result update(const State &s, const MX &P, const std::vector<const Lm *> &lms, double sigma) {
    const int D = s.dim();
    std::vector<MX> Hs;
    std::vector<VX> rs;
    long rows = 0;
    for (auto *l : lms) {
        long m = 2 * static_cast<long>(l->obs.size());
        MX Hf(m, 3), Hx = MX::Zero(m, D);
        VX r(m);
        for (size_t i = 0; i < l->obs.size(); ++i) {
            const Ob &o = l->obs[i];
            long row = 2 * static_cast<long>(i);
            r.segment<2>(row) = o.z - project(s, o.frame, o.cam, l->pw);
            const double h = 1e-5;
            for (int k = 0; k < 3; ++k) {
                V3 d = V3::Zero();
                d(k) = h;
                Hf.block<2, 1>(row, k) = (project(s, o.frame, o.cam, l->pw + d) - project(s, o.frame, o.cam, l->pw - d)) / (2 * h);
            }
            // only the pose of the frame and the calibration of the camera matter
            int fb = o.frame == static_cast<int>(s.win.size()) ? -1 : 15 + 6 * static_cast<int>(s.ext.size()) + 6 * o.frame;
            std::vector<int> cols;
            for (int k = 0; k < 3; ++k) { cols.push_back(fb < 0 ? k : fb + k); cols.push_back(fb < 0 ? 6 + k : fb + 3 + k); }
            for (int k = 0; k < 6; ++k) cols.push_back(15 + 6 * o.cam + k);
            for (int k : cols) {
                VX d = VX::Zero(D);
                d(k) = h;
                State a = plus(s, d);
                d(k) = -h;
                State b = plus(s, d);
                Hx.block<2, 1>(row, k) = (project(a, o.frame, o.cam, l->pw) - project(b, o.frame, o.cam, l->pw)) / (2 * h);
            }
        }
        Eigen::JacobiSVD<MX> svd(Hf, Eigen::ComputeFullU);
        MX N = svd.matrixU().rightCols(m - 3);
        Hs.push_back(N.transpose() * Hx);
        rs.push_back(N.transpose() * r);
        rows += m - 3;
    }
    MX H(rows, D);
    VX r(rows);
    long at = 0;
    for (size_t i = 0; i < Hs.size(); ++i) {
        H.middleRows(at, Hs[i].rows()) = Hs[i];
        r.segment(at, rs[i].size()) = rs[i];
        at += Hs[i].rows();
    }
    MX S = H * P * H.transpose() + MX::Identity(rows, rows) * sigma * sigma;
    Eigen::LDLT<MX> ld(S);
    MX K = ld.solve(H * P).transpose();
    Result o;
    o.dx = K * r;
    o.s = plus(s, o.dx);
    MX I_KH = MX::Identity(D, D) - K * H;
    o.P = I_KH * P * I_KH.transpose() + K * K.transpose() * sigma * sigma;
    o.P = (0.5 * (o.P + o.P.transpose())).eval();
    o.innovation = r.norm();
    return o;
}
// the newest frame joins (copy of position and orientation of the IMU)
inline MX expand(const MX &P) {
    long n = P.rows();
    MX J = MX::Zero(n + 6, n);
    J.topLeftCorner(n, n).setIdentity();
    for (int k = 0; k < 3; ++k) { J(n + k, k) = 1; J(n + 3 + k, 6 + k) = 1; }
    return J * P * J.transpose();
}
// block idx of the window leaves
inline MX without(const MX &P, int cams, int idx) {
    long at = 15 + 6 * cams + 6 * idx, n = P.rows();
    MX R(n - 6, n - 6);
    auto src = [&](long i) { return i < at ? i : i + 6; };
    for (long i = 0; i < n - 6; ++i) for (long j = 0; j < n - 6; ++j) R(i, j) = P(src(i), src(j));
    return R;
}

// ---- read out of a Backend
inline Cam cam(const Quaternion &q, const Vector3 &p) { return {q.cast<double>().normalized(), p.cast<double>()}; }
// state before an update: newest pose from the given item
inline State read(Backend &b, const IMUPropagateQueueItem &it) {
    State s;
    s.p = it.nominalState.p_wb.cast<double>();
    s.v = it.nominalState.v_wb.cast<double>();
    s.q = it.nominalState.q_wb.cast<double>().normalized();
    s.ba = b.propagator.bias_a.cast<double>();
    s.bg = b.propagator.bias_g.cast<double>();
    for (auto &e : b.frameManager.extrinsics) s.ext.push_back(cam(e.q_bc, e.p_bc));
    for (size_t i = 0; i + 1 < b.frameManager.frames.size(); ++i) s.win.push_back(cam(b.frameManager.frames[i]->q_wb, b.frameManager.frames[i]->p_wb));
    return s;
}
// all observations of the landmarks seen in the newest frame
inline std::vector<Lm> landmarks(Backend &b) {
    std::vector<Lm> r;
    auto &fr = b.frameManager.frames;
    for (auto &kv : fr.back()->features) {
        Lm l;
        l.id = kv.first;
        for (size_t f = 0; f < fr.size(); ++f) for (uint32_t c = 0; c < b.frameManager.extrinsics.size(); ++c) {
            Vector2 z;
            if (kv.second->GetNorm(fr[f]->id, c, z)) l.obs.push_back({static_cast<int>(f), static_cast<int>(c), z.cast<double>()});
        }
        r.push_back(l);
    }
    std::sort(r.begin(), r.end(), [](const Lm &a, const Lm &c) { return a.id < c.id; });
    return r;
}

struct Diff { double worst = 0; std::string where; };
inline void take(Diff &d, double e, const std::string &w) { if (!(e <= d.worst)) { d.worst = e == e ? e : INFINITY; d.where = w; } }
// state difference in units of the prior standard deviation
inline Diff stateDiff(const State &a, const State &b, const MX &P) {
    Diff d;
    auto put = [&](const V3 &x, long at, const std::string &n) { for (int k = 0; k < 3; ++k) take(d, std::fabs(x(k)) / (std::sqrt(std::max(0.0, P(at + k, at + k))) + 1e-4), n); };
    auto rot = [](const Qd &x, const Qd &y) { Qd e = x.conjugate() * y; if (e.w() < 0) e.coeffs() = -e.coeffs(); return V3(2 * e.vec()); };
    put(a.p - b.p, 0, "position");
    put(a.v - b.v, 3, "velocity");
    put(rot(a.q, b.q), 6, "orientation");
    put(a.ba - b.ba, 9, "accelerometer bias");
    put(a.bg - b.bg, 12, "gyroscope bias");
    for (size_t i = 0; i < a.ext.size(); ++i) {
        put(a.ext[i].p - b.ext[i].p, 15 + 6 * static_cast<long>(i), mc::fmt("position of camera %zu", i));
        put(rot(a.ext[i].q, b.ext[i].q), 18 + 6 * static_cast<long>(i), mc::fmt("orientation of camera %zu", i));
    }
    for (size_t i = 0; i < a.win.size(); ++i) {
        long at = 15 + 6 * static_cast<long>(a.ext.size() + i);
        put(a.win[i].p - b.win[i].p, at, mc::fmt("position of frame %zu", i));
        put(rot(a.win[i].q, b.win[i].q), at + 3, mc::fmt("orientation of frame %zu", i));
    }
    return d;
}
inline std::string element(long i, int cams) {
    static const char *n[5] = {"p", "v", "q", "ba", "bg"};
    if (i < 15) return mc::fmt("%s%ld", n[i / 3], i % 3);
    i -= 15;
    if (i < 6 * cams) return mc::fmt("cam%ld.%ld", i / 6, i % 6);
    i -= 6 * cams;
    return mc::fmt("frame%ld.%ld", i / 6, i % 6);
}
// covariance difference relative to the standard deviations of `scale`
inline Diff covDiff(const MX &a, const MX &b, const MX &scale, int cams) {
    Diff d;
    if (a.rows() != b.rows() || a.cols() != b.cols()) { d.worst = INFINITY; d.where = mc::fmt("size %ld, must be %ld", static_cast<long>(a.rows()), static_cast<long>(b.rows())); return d; }
    for (long i = 0; i < a.rows(); ++i) for (long j = 0; j < a.cols(); ++j)
        take(d, std::fabs(a(i, j) - b(i, j)) / (std::sqrt(std::max(0.0, scale(i, i)) * std::max(0.0, scale(j, j))) + 1e-12), "(" + element(i, cams) + ", " + element(j, cams) + ")");
    return d;
}
}  // namespace ref
