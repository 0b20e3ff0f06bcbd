// A small exact world: piecewise motion, noise-free IMU samples, exact landmark observations, and a driver
// that feeds them to the real Backend.  Everything here is computed in double precision, independently of
// the code under test.
#pragma once
#include "explore.hpp"
#include <backend.hpp>
#include <memory>

namespace world {
using namespace ESKF_VIO_BACKEND;
using V3 = Eigen::Vector3d;
using V2 = Eigen::Vector2d;
using M3 = Eigen::Matrix3d;
using Qd = Eigen::Quaterniond;

inline Qd expq(const V3 &r) {
    double a = r.norm();
    if (a < 1e-12) return Qd(1, r.x() / 2, r.y() / 2, r.z() / 2).normalized();
    V3 n = r / a;
    return Qd(std::cos(a / 2), n.x() * std::sin(a / 2), n.y() * std::sin(a / 2), n.z() * std::sin(a / 2));
}

struct Cam { Qd q; V3 p; };
struct Cfg {
    int rate = 100;
    int cams = 2, window = 4;
    V3 ba = V3::Zero(), bg = V3::Zero();          // configured (and by default true) biases
    double sigma = 0.0021739, g = 9.81;
    double na = 0.019, ng = 0.015, nwa = 0.0001, nwg = 0.00001;
    int minTrack = 8;
    double minParallax = 0.2, maxMove = 0.05;
    double start = 100.0;                 // time stamp of sample 0
    double idle = 0;                      // so long before it the system got a first sample, without force
    std::vector<Cam> ext;                 // calibrations in the files, if not the true ones
};

inline std::vector<Cam> rig(int n) {
    M3 R;
    R << 0, 0, 1, -1, 0, 0, 0, -1, 0;
    std::vector<Cam> v = {{Qd(R), V3(0.05, 0.16, 0.02)}, {Qd(R) * expq(V3(0.01, -0.03, 0.02)), V3(0.04, -0.15, 0.01)}, {Qd(R) * expq(V3(-0.02, 0.02, 0.01)), V3(0.06, 0.0, 0.22)},
                          {Qd(R) * expq(V3(0.03, 0.01, -0.02)), V3(0.02, 0.21, 0.17)}, {Qd(R) * expq(V3(0, -0.02, 0.03)), V3(0.07, -0.19, -0.16)}};
    v.resize(static_cast<size_t>(n));
    return v;
}

inline void removeDir(const std::string &d) {
    if (d.size() <= 8) return;
    for (const char *n : {"imu_frequence", "imu_na_ng_nwa_nwg", "imu_bias_a_g_init", "gravity_norm", "window_size", "vision_measure_noise", "keyframe_policy", "T_bc0", "T_bc1", "T_bc2", "T_bc3", "T_bc4"}) ::unlink((d + "/" + n + ".txt").c_str());
}
// writes the configuration files once per process and content
inline std::string configDir(const Cfg &c) {
    static std::map<std::string, std::string> done;
    static pid_t owner = 0;
    if (owner != getpid()) { owner = getpid(); done.clear(); }
    std::string key = mc::fmt("%d %d %d %.9g %.9g %.9g %.9g %.9g %.9g %.9g %.9g %.9g %.9g %.9g %.9g %d %.9g %.9g", c.rate, c.cams, c.window, c.ba.x(), c.ba.y(), c.ba.z(), c.bg.x(), c.bg.y(), c.bg.z(),
                              c.sigma, c.g, c.na, c.ng, c.nwa, c.nwg, c.minTrack, c.minParallax, c.maxMove);
    for (auto &e : c.ext) key += mc::fmt(" %.9g %.9g %.9g %.9g %.9g %.9g %.9g", e.q.w(), e.q.x(), e.q.y(), e.q.z(), e.p.x(), e.p.y(), e.p.z());
    if (done.size() > 2000) {
        for (auto &d : done) removeDir(d.second);
        done.clear();
    }
    auto it = done.find(key);
    if (it != done.end()) return it->second;
    std::string d = mc::opt().outDir + mc::fmt("/world-%d-%zu", static_cast<int>(getpid()), done.size());
    ::mkdir(d.c_str(), 0755);
    auto put = [&](const std::string &n, const std::string &s) { std::ofstream o(d + "/" + n); o << s << "\n"; };
    put("imu_frequence.txt", mc::fmt("%d", c.rate));
    put("imu_na_ng_nwa_nwg.txt", mc::fmt("%.9g %.9g %.9g %.9g", c.na, c.ng, c.nwa, c.nwg));
    put("imu_bias_a_g_init.txt", mc::fmt("%.9g %.9g %.9g\n%.9g %.9g %.9g", c.ba.x(), c.ba.y(), c.ba.z(), c.bg.x(), c.bg.y(), c.bg.z()));
    put("gravity_norm.txt", mc::fmt("%.9g", c.g));
    put("window_size.txt", mc::fmt("%d", c.window));
    put("vision_measure_noise.txt", mc::fmt("%.9g", c.sigma));
    put("keyframe_policy.txt", mc::fmt("%d %.9g %.9g", c.minTrack, c.minParallax, c.maxMove));
    auto r = c.ext.empty() ? rig(c.cams) : c.ext;
    for (size_t i = 0; i < r.size(); ++i) {
        M3 R = r[i].q.toRotationMatrix();
        std::string s;
        for (int k = 0; k < 3; ++k) s += mc::fmt("%.12g %.12g %.12g %.12g\n", R(k, 0), R(k, 1), R(k, 2), r[i].p(k));
        put(mc::fmt("T_bc%zu.txt", i), s + "0 0 0 1");
    }
    done[key] = d;
    return d;
}

// ---- motion
struct Seg { double seconds; V3 acc; V3 rate; };      // world acceleration, body angular rate
struct Truth {
    int hz = 100;
    double g = 9.81;
    std::vector<V3> p, v, a, w;
    std::vector<Qd> q;
    Truth(int hz_, double g_, const std::vector<Seg> &segs, Qd q0 = Qd::Identity(), V3 v0 = V3::Zero()) : hz(hz_), g(g_) {
        for (auto &s : segs) {
            int n = static_cast<int>(std::lround(s.seconds * hz));
            for (int i = 0; i < n; ++i) { a.push_back(s.acc); w.push_back(s.rate); }
        }
        p.push_back(V3::Zero());
        v.push_back(v0);
        q.push_back(q0);
        double dt = 1.0 / hz;
        for (size_t k = 1; k < a.size(); ++k) {
            q.push_back((q.back() * expq(0.5 * (w[k - 1] + w[k]) * dt)).normalized());
            v.push_back(v.back() + 0.5 * (a[k - 1] + a[k]) * dt);
            p.push_back(p.back() + 0.5 * (v[k - 1] + v[k]) * dt);
        }
    }
    int samples() const { return static_cast<int>(a.size()); }
    // pose at sample index + fraction
    void pose(int k, double f, Qd &qq, V3 &pp, V3 *vv = nullptr) const {
        size_t i = static_cast<size_t>(k);
        if (f <= 0 || i + 1 >= p.size()) { qq = q[i]; pp = p[i]; if (vv) *vv = v[i]; return; }
        double dt = 1.0 / hz;
        qq = q[i] * expq(0.5 * (w[i] + w[i + 1]) * dt * f);
        V3 am = 0.5 * (a[i] + a[i + 1]);
        pp = p[i] + v[i] * dt * f + 0.5 * am * dt * dt * f * f;
        if (vv) *vv = v[i] + am * dt * f;
    }
    V3 accel(int k) const { return q[static_cast<size_t>(k)].conjugate() * (a[static_cast<size_t>(k)] + V3(0, 0, g)); }
    V3 gyro(int k) const { return w[static_cast<size_t>(k)]; }
};

// landmarks in front of the start (body x forward), spread over direction and depth
inline std::vector<V3> cloud(int n, const V3 &at = V3::Zero(), double yaw = 0) {
    std::vector<V3> v;
    for (int i = 0; i < n; ++i) {
        double a = 2.399963 * i, r = 0.12 + 0.45 * std::sqrt((i + 0.5) / n), x = 3 + ((i * 5) % 9) * 0.55;
        v.push_back(at + expq(V3(0, 0, yaw)) * V3(x, r * std::cos(a) * x, r * std::sin(a) * x));
    }
    return v;
}
// all around, for turning motions
inline std::vector<V3> ring(int n) {
    std::vector<V3> v;
    for (int i = 0; i < n; ++i) {
        double a = 2.399963 * i, d = 4 + ((i * 5) % 9) * 0.5, z = (((i * 7) % 11) - 5) * 0.4;
        v.push_back(V3(d * std::cos(a), d * std::sin(a), z));
    }
    return v;
}

struct Pub {
    bool ok = false;
    Qd q = Qd::Identity();
    V3 p = V3::Zero(), v = V3::Zero(), ba = V3::Zero(), bg = V3::Zero();
    double t = 0;
    bool finite() const { return p.allFinite() && v.allFinite() && q.coeffs().allFinite() && ba.allFinite() && bg.allFinite() && std::isfinite(t); }
};

class Sim {
public:
    Cfg cfg;
    std::unique_ptr<Backend> b;
    double offset = 0, t0 = 0;       // the loader's shift of all stamps; stamp of sample 0
    bool haveOffset = false;
    explicit Sim(const Cfg &c) : cfg(c), b(new Backend()), t0(c.start) {
        b->ConfigParams(configDir(c));
        if (cfg.idle > 0) { imuRaw(V3::Zero(), V3::Zero(), t0 - cfg.idle); drain(); }
    }
    double stamp(int k, double f = 0) const { return t0 + (k + f) / cfg.rate; }
    void imuRaw(const V3 &accel, const V3 &gyro, double t) {
        auto m = std::make_shared<IMUMessage>();
        m->accel = accel.cast<float>();
        m->gyro = gyro.cast<float>();
        m->timeStamp = t;
        b->GetIMUMessage(m);
        ++pending;
        if (!haveOffset) { offset = m->timeStamp - t; haveOffset = true; }
    }
    void imu(const Truth &tr, int k) { imuRaw(tr.accel(k) + trueBa(), tr.gyro(k) + trueBg(), stamp(k)); }
    // mask(landmark) gives the cameras that report it
    template <typename F>
    void frame(const Truth &tr, const std::vector<V3> &lm, int k, double f, F mask) {
        Qd q;
        V3 p;
        tr.pose(k, f, q, p);
        auto r = rig(cfg.cams);
        auto m = std::make_shared<FeaturesMessage>();
        m->timeStamp = stamp(k, f);
        for (size_t i = 0; i < lm.size(); ++i) {
            int bits = mask(static_cast<int>(i));
            auto o = std::make_shared<FeatureObserve>();
            for (size_t c = 0; c < r.size(); ++c) {
                if (!(bits >> c & 1)) continue;
                V3 pc = r[c].q.conjugate() * (q.conjugate() * (lm[i] - p) - r[c].p);
                if (pc.z() < 0.3 || std::fabs(pc.x()) > 1.2 * pc.z() || std::fabs(pc.y()) > 1.2 * pc.z()) continue;
                o->norms[static_cast<uint32_t>(c)] = V2(pc.x() / pc.z(), pc.y() / pc.z()).cast<float>();
            }
            if (o->norms.empty()) continue;
            m->ids.push_back(static_cast<uint32_t>(i + 1));
            m->observes.push_back(o);
            m->flag.push_back(1);
        }
        b->GetFeaturesMessage(m);
        ++pending;
        if (!haveOffset) { offset = m->timeStamp - stamp(k, f); haveOffset = true; }
    }
    void frame(const Truth &tr, const std::vector<V3> &lm, int k, double f = 0) { frame(tr, lm, k, f, [](int) { return 7; }); }
    bool run() { return b->RunOnce(); }
    // every call consumes at least one queued message
    int pending = 0;
    void drain() { for (; pending > 0; --pending) b->RunOnce(); }
    Pub latest() { return pub(&Backend::PublishPropagateState); }
    Pub updated() { return pub(&Backend::PublishUpdateState); }
    bool up() const { return b->status == INITIALIZED; }
    virtual V3 trueBa() const { return cfg.ba; }
    virtual V3 trueBg() const { return cfg.bg; }
    virtual ~Sim() = default;
private:
    Pub pub(bool (Backend::*f)(IMUFullState &, fp64 &)) {
        IMUFullState s;
        fp64 t = -77;
        Pub r;
        r.ok = (b.get()->*f)(s, t);
        if (!r.ok) return r;
        r.p = s.p_wb.cast<double>();
        r.v = s.v_wb.cast<double>();
        r.q = s.q_wb.cast<double>();
        r.ba = s.bias_a.cast<double>();
        r.bg = s.bias_g.cast<double>();
        r.t = t - offset;
        return r;
    }
};

// ---- the joint covariance at the anchor of the window
inline Eigen::MatrixXd joint(Backend &b) {
    auto &it = *b.propagator.items.front();
    long m = it.imuExCamCov.cols();
    Eigen::MatrixXd P(15 + m, 15 + m);
    P.topLeftCorner(15, 15) = it.imuCov.cast<double>();
    P.topRightCorner(15, m) = it.imuExCamCov.cast<double>();
    P.bottomLeftCorner(m, 15) = it.imuExCamCov.transpose().cast<double>();
    P.bottomRightCorner(m, m) = b.propagator.exCamCov.topLeftCorner(m, m).cast<double>();
    return P;
}
inline mc::u64 hash(const Pub &p) {
    mc::u64 h = p.ok;
    for (int i = 0; i < 3; ++i) h = mc::mix(mc::mix(h, mc::grid(p.p(i))), mc::grid(p.v(i)));
    for (int i = 0; i < 4; ++i) h = mc::mix(h, mc::grid(p.q.coeffs()(i)));
    return h;
}
}  // namespace world
