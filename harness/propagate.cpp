// C06, C07: the IMU propagation queue, driven sample by sample on the real PropagateQueue.
#include <explore.hpp>
#include <sequence_propagator.hpp>
#include <memory>
using namespace ESKF_VIO_BACKEND;
using mc::Ctx;
using mc::fmt;
using V3 = Eigen::Vector3d;
using M3 = Eigen::Matrix3d;
using Qd = Eigen::Quaterniond;
using MX = Eigen::MatrixXd;

extern "C" int rand(void) { return 4; }

namespace {
M3 skew(const V3 &v) { M3 m; m << 0, -v.z(), v.y(), v.z(), 0, -v.x(), -v.y(), v.x(), 0; return m; }
Qd expq(const V3 &th) { double a = th.norm(); return a < 1e-12 ? Qd(1, th.x() / 2, th.y() / 2, th.z() / 2).normalized() : Qd(Eigen::AngleAxisd(a, th / a)); }
double qdiff(const Quaternion &a, const Qd &b) { return Qd(a.cast<double>()).normalized().angularDistance(b.normalized()); }

struct Noise { double na, ng, nwa, nwg; };
struct Setup {
    std::shared_ptr<FrameManager> fm = std::make_shared<FrameManager>();
    PropagateQueue q;
    Noise n;
};

Vector3 f3(double a, double b, double c) { return Vector3(static_cast<float>(a), static_cast<float>(b), static_cast<float>(c)); }
Vector3 GRAVITY = f3(0, 0, 9.81);                        // of the current execution
const Vector3 ACC[] = {f3(0, 0, 9.81), f3(2.5, -1.25, 9), f3(-4, 6, 0.5), f3(0, 0, 0)};
const Vector3 GYR[] = {f3(0, 0, 0), f3(0.6, -0.9, 1.2), f3(-1.5, 0.3, 0.2)};
const double DT[] = {0.005, 0.0125, 0.05, 0.4};

void configure(Setup &s, int ext, int variant, const Noise &n) {
    s.n = n;
    for (int i = 0; i < ext; ++i) s.fm->extrinsics.push_back(Extrinsic(Quaternion::Identity(), Vector3(0, 0, 0)));
    s.q.propagator = s.fm.get();
    s.q.InitializeProcessNoiseMatrix(static_cast<float>(n.na), static_cast<float>(n.ng), static_cast<float>(n.nwa), static_cast<float>(n.nwg));
    GRAVITY = f3(0, 0, variant ? 9.5 : 9.81);
    s.q.gravity_w = GRAVITY;
    s.q.bias_a = variant ? f3(0.3, -0.2, 0.15) : f3(0, 0, 0);
    s.q.bias_g = variant ? f3(-0.05, 0.08, 0.11) : f3(0, 0, 0);
    Quaternion q0 = variant ? Quaternion(0.7f, -0.3f, 0.4f, 0.5f).normalized() : Quaternion::Identity();
    s.q.initState = IMUMotionState(variant ? f3(3, -4, 5) : f3(0, 0, 0), variant ? f3(-1, 2, 0.5) : f3(0, 0, 0), q0);
}

// a fixed, well conditioned positive matrix of the size of the joint state
MX somePSD(int n, double scale) {
    MX a(n, n);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) a(i, j) = std::sin(1.0 + i * 1.7 + j * 2.3 + i * j * 0.37);
    return scale * (a * a.transpose() / n + 0.3 * MX::Identity(n, n));
}

struct Step { MX F, G; V3 p, v; Qd q; };
Step kinematics(const IMUPropagateQueueItem &i0, const IMUPropagateQueueItem &i1, const Vector3 &baf, const Vector3 &bgf) {
    Step s;
    double dt = i1.timeStamp - i0.timeStamp;
    V3 ba = baf.cast<double>(), bg = bgf.cast<double>();
    V3 a0 = i0.accel.cast<double>() - ba, a1 = i1.accel.cast<double>() - ba;
    V3 w = 0.5 * (i0.gyro.cast<double>() + i1.gyro.cast<double>()) - bg;
    Qd q0(i0.nominalState.q_wb.cast<double>());
    q0.normalize();
    s.q = q0 * expq(w * dt);
    V3 g = GRAVITY.cast<double>();
    V3 v0 = i0.nominalState.v_wb.cast<double>();
    s.v = v0 + (0.5 * (q0 * a0 + s.q * a1) - g) * dt;
    s.p = i0.nominalState.p_wb.cast<double>() + 0.5 * (v0 + s.v) * dt;
    M3 R = q0.toRotationMatrix(), I = M3::Identity();
    s.F = MX::Identity(15, 15);
    s.F.block<3, 3>(0, 3) = dt * I;
    s.F.block<3, 3>(3, 6) = -dt * R * skew(0.5 * (a0 + a1));
    s.F.block<3, 3>(3, 9) = -dt * R;
    s.F.block<3, 3>(6, 6) = I - dt * skew(w);
    s.F.block<3, 3>(6, 12) = -dt * I;
    s.G = MX::Zero(15, 12);
    s.G.block<3, 3>(0, 0) = 0.5 * dt * dt * R;
    s.G.block<3, 3>(3, 0) = dt * R;
    s.G.block<3, 3>(6, 3) = dt * I;
    s.G.block<3, 3>(9, 6) = dt * I;
    s.G.block<3, 3>(12, 9) = dt * I;
    return s;
}

void checkStep(Ctx &c, Setup &s, const IMUPropagateQueueItem &i0, const IMUPropagateQueueItem &i1) {
    Step r = kinematics(i0, i1, s.q.bias_a, s.q.bias_g);
    double dt = i1.timeStamp - i0.timeStamp;
    double th = ((0.5 * (i0.gyro + i1.gyro) - s.q.bias_g).cast<double>() * dt).norm();
    double qe = qdiff(i1.nominalState.q_wb, r.q);
    // the small-angle quaternion may be used for the increment
    double qtol = th * th * th / 8 + 2e-6;
    c.compared(3);
    c.check(qe <= qtol, "C06-orientation", fmt("orientation after one sample is %.3g rad off the averaged rate (allowed %.3g)", qe, qtol));
    c.check(std::fabs(i1.nominalState.q_wb.norm() - 1) < 1e-5, "C06-unit", fmt("orientation has length %g", i1.nominalState.q_wb.norm()));
    double amag = std::max(i0.accel.norm(), i1.accel.norm()) + 1;
    double ve = (i1.nominalState.v_wb.cast<double>() - r.v).norm(), vtol = amag * dt * (qtol + 3e-6) + 1e-6 * (1 + r.v.norm());
    c.check(ve <= vtol, "C06-velocity", fmt("velocity after one sample is %.3g off (allowed %.3g)", ve, vtol));
    double pe = (i1.nominalState.p_wb.cast<double>() - r.p).norm(), ptol = vtol * dt + 1e-6 * (1 + r.p.norm());
    c.check(pe <= ptol, "C06-position", fmt("position after one sample is %.3g off (allowed %.3g)", pe, ptol));
    MX P0 = i0.imuCov.cast<double>();
    Eigen::VectorXd qd(12);
    for (int i = 0; i < 3; ++i) { qd(i) = s.n.na; qd(3 + i) = s.n.ng; qd(6 + i) = s.n.nwa; qd(9 + i) = s.n.nwg; }
    MX P1 = r.F * P0 * r.F.transpose() + r.G * qd.asDiagonal() * r.G.transpose();
    MX abs1 = r.F.cwiseAbs() * P0.cwiseAbs() * r.F.cwiseAbs().transpose() + r.G.cwiseAbs() * qd.asDiagonal() * r.G.cwiseAbs().transpose();
    for (int i = 0; i < 15; ++i)
        for (int j = 0; j < 15; ++j) {
            double e = std::fabs(P1(i, j) - static_cast<double>(i1.imuCov(i, j)));
            c.check(e <= 1e-4 * std::sqrt(P1(i, i) * P1(j, j)) + 5e-6 * abs1(i, j) + 1e-30, "C06-covariance",
                    fmt("covariance entry (%d,%d) after one sample is %.9g, expected %.9g", i, j, static_cast<double>(i1.imuCov(i, j)), P1(i, j)));
        }
    c.compared(225);
    c.check(i1.imuExCamCov.cols() == i0.imuExCamCov.cols(), "C06-cross-size", "the correlation with cameras changed its size");
    MX C0 = i0.imuExCamCov.cast<double>(), C1 = r.F * C0, Ca = r.F.cwiseAbs() * C0.cwiseAbs();
    for (int i = 0; i < C1.rows(); ++i)
        for (int j = 0; j < C1.cols(); ++j)
            c.check(std::fabs(C1(i, j) - static_cast<double>(i1.imuExCamCov(i, j))) <= 2e-5 * Ca(i, j) + 1e-30, "C06-cross",
                    fmt("correlation entry (%d,%d) with cameras is %.9g, expected %.9g", i, j, static_cast<double>(i1.imuExCamCov(i, j)), C1(i, j)));
    c.compared(static_cast<mc::u64>(C1.size()));
}

mc::u64 itemHash(const IMUPropagateQueueItem &i) {
    mc::u64 h = 5;
    for (int k = 0; k < 3; ++k) { h = mc::mix(h, mc::grid(i.nominalState.p_wb(k), 1e-4)); h = mc::mix(h, mc::grid(i.nominalState.v_wb(k), 1e-3)); h = mc::mix(h, mc::grid(i.nominalState.q_wb.vec()(k), 1e-3)); }
    return mc::mix(h, mc::grid(i.timeStamp, 1e-4));
}

mc::Scenario samples(int depth) {
    mc::Scenario s;
    s.name = "sample sequences";
    s.bounds = fmt("all sequences of %d samples after the first (4 specific forces x 3 rates x 4 time steps; every second sample restricted to 2 x 2 x 2) for 2 initial states / bias / gravity sets, 0..2 calibrated cameras, 2 noise sets, zero or full initial correlations", depth);
    s.splitDepth = 5;
    s.body = [=](Ctx &c) {
        int variant = c.choose(2, "variant"), ext = c.choose(3, "cameras"), noise = c.choose(2, "noise"), corr = c.choose(2, "correlated");
        Setup s;
        configure(s, ext, variant, noise ? Noise{0.019, 0.015, 1e-4, 1e-5} : Noise{0.5, 0.2, 0.03, 0.07});
        double t = variant ? 1000.0 : 1.0;
        auto &q = s.q;
        struct Raw { Vector3 a, g; double t; };
        std::vector<Raw> raw;
        raw.push_back({ACC[1], GYR[1], t});
        bool ok = q.Propagate(ACC[1], GYR[1], t);
        c.step();
        const int dim = ext * 6 + 6;
        c.check(ok && q.items.size() == 1, "C06-first", "the first sample is not kept as the start");
        {
            auto &i = *q.items.front();
            c.check(i.nominalState.p_wb == q.initState.p_wb && i.nominalState.v_wb == q.initState.v_wb && i.nominalState.q_wb.coeffs() == q.initState.q_wb.coeffs(),
                    "C06-start-state", "the sequence does not start at the initial motion state");
            c.check(i.imuCov.isZero(0) && i.imuExCamCov.rows() == 15 && i.imuExCamCov.cols() == dim && i.imuExCamCov.isZero(0) && q.exCamCov.rows() == dim && q.exCamCov.cols() == dim && q.exCamCov.isZero(0),
                    "C06-start-cov", "the uncertainty at the start is not zero or has the wrong size");
            if (corr) {
                MX P = somePSD(15 + dim, 0.01);
                i.imuCov = P.topLeftCorner(15, 15).cast<float>();
                i.imuExCamCov = P.topRightCorner(15, dim).cast<float>();
                q.exCamCov = P.bottomRightCorner(dim, dim).cast<float>();
            }
        }
        Matrix cam = q.exCamCov;
        for (int k = 0; k < depth; ++k) {
            bool small = k % 2 == 1;
            int a = c.choose(small ? 2 : 4, "accel"), g = c.choose(small ? 2 : 3, "gyro"), d = c.choose(small ? 2 : 4, "dt");
            t += DT[d];
            raw.push_back({ACC[a], GYR[g], t});
            ok = q.Propagate(ACC[a], GYR[g], t);
            c.step();
            c.check(ok && q.items.size() == raw.size(), "C06-kept", fmt("%zu samples were fed, %zu are kept", raw.size(), q.items.size()));
            for (size_t i = 0; i < raw.size(); ++i)
                c.check(q.items[i]->accel == raw[i].a && q.items[i]->gyro == raw[i].g && q.items[i]->timeStamp == raw[i].t, "C06-raw", fmt("sample %zu is not kept as it was measured", i));
            checkStep(c, s, *q.items[raw.size() - 2], *q.items.back());
            c.check(q.exCamCov.rows() == cam.rows() && q.exCamCov.cols() == cam.cols() && q.exCamCov == cam, "C06-camera-cov", "propagation changed the camera covariance");
            c.state(itemHash(*q.items.back()));
        }
        c.outcome(itemHash(*q.items.back()));
    };
    return s;
}

// a long straight run: unit length and no drift from the double precision kinematics
mc::Scenario longRun(int n) {
    mc::Scenario s;
    s.name = "long runs";
    s.bounds = fmt("%d samples of each of 12 periodic force / rate patterns; unit length, and the sum of all steps", n);
    s.splitDepth = 1;
    s.body = [=](Ctx &c) {
        int variant = c.choose(2, "variant"), a = c.choose(3, "accel"), g = c.choose(2, "gyro");
        Setup s;
        configure(s, 1, variant, Noise{0.019, 0.015, 1e-4, 1e-5});
        double t = 1.0;
        auto &q = s.q;
        for (int k = 0; k < n; ++k) {
            q.Propagate(ACC[(a + k / 3) % 3], GYR[(g + k / 7) % 3], t);
            t += 0.005;
            c.step();
            if (k) checkStep(c, s, *q.items[q.items.size() - 2], *q.items.back());
        }
        c.check(q.items.size() == static_cast<size_t>(n), "C06-kept", "samples are missing");
        c.state(itemHash(*q.items.back()));
        c.outcome(itemHash(*q.items.back()));
    };
    return s;
}

// ------------------------------------------------------------------ C07
bool same(const Matrix &a, const Matrix &b, double rel) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j) {
        double s = std::max(std::fabs(a(i, j)), std::fabs(b(i, j)));
        if (!(std::fabs(a(i, j) - b(i, j)) <= rel * s + 1e-12)) return false;
    }
    return true;
}
void compareItems(Ctx &c, const IMUPropagateQueueItem &a, const IMUPropagateQueueItem &b, const char *sig, size_t k) {
    c.compared(6);
    c.check(a.timeStamp == b.timeStamp && a.accel == b.accel && a.gyro == b.gyro, sig, fmt("item %zu holds another sample", k));
    double e = std::max({(a.nominalState.p_wb - b.nominalState.p_wb).norm() / (1 + b.nominalState.p_wb.norm()), (a.nominalState.v_wb - b.nominalState.v_wb).norm() / (1 + b.nominalState.v_wb.norm()),
                         (a.nominalState.q_wb.coeffs() - b.nominalState.q_wb.coeffs()).norm()});
    c.check(e < 5e-6, sig, fmt("item %zu: state differs by %.3g from a fresh propagation", k, static_cast<double>(e)));
    c.check(same(a.imuCov, b.imuCov, 1e-4), sig, fmt("item %zu: covariance differs from a fresh propagation", k));
    c.check(same(a.imuExCamCov, b.imuExCamCov, 1e-4), sig, fmt("item %zu: correlation with cameras differs from a fresh propagation", k));
}

mc::Scenario anchoring(int maxN, int rounds) {
    mc::Scenario s;
    s.name = "anchor, correct, replay";
    s.bounds = fmt("1..%d samples with a gap at every position, anchored at every sample time and between, shifted by 0 / below / above / far above the tolerance, 3 tolerances, 2 time bases; corrections of state, bias and covariance (also with more or fewer window blocks); replay once or twice; 0..2 further samples; %d rounds",
                   maxN, rounds);
    s.splitDepth = 4;
    const bool small = rounds > 1 && !mc::thorough();
    s.body = [=](Ctx &c) {
        Setup s;
        int variant = small ? 1 : c.choose(2, "variant");
        Noise noise{0.3, 0.2, 0.03, 0.07};
        configure(s, 1, variant, noise);
        auto &q = s.q;
        // every call on an empty queue fails
        double t = !small && c.choose(2, "base") ? 1600000000.0 : 1.0;
        c.check(!q.ResetOrigin(t, 0.01), "C07-empty", "anchoring an empty sequence succeeds");
        struct Raw { Vector3 a, g; double t; };
        std::deque<Raw> raw;
        int serial = 0;
        auto feed = [&](double dt) {
            t += dt;
            Raw r{ACC[serial % 3], GYR[(serial / 2) % 3], t};
            ++serial;
            q.Propagate(r.a, r.g, r.t);
            raw.push_back(r);
            c.step();
        };
        int n = 1 + c.choose(maxN, "samples");
        int gap = small ? n - 1 : c.choose(n, "gap");            // before sample `gap` one sample is missing
        for (int i = 0; i < n; ++i) feed(i && i == gap ? 0.02 : 0.01);
        for (int r = 0; r < rounds; ++r) {
            double tols[3] = {0.01 * 0.999, 0.003, 0.0};
            double tol = tols[c.choose(small ? 1 : r ? 2 : 3, "tolerance")];
            int k = c.choose(static_cast<int>(raw.size()) + 1, "anchor");     // at sample k, or after the newest
            double base = k < static_cast<int>(raw.size()) ? raw[static_cast<size_t>(k)].t : raw.back().t + 0.01;
            double offs[5] = {0.0, tol * 0.9, tol + 1e-4, -0.004, tol + 0.05};
            double at = base + offs[c.choose(r || small ? 3 : 5, "offset")];
            size_t expDrop = 0;
            while (expDrop < raw.size() && at - raw[expDrop].t > tol) ++expDrop;
            auto before = q.items;
            bool ok = q.ResetOrigin(at, tol);
            c.step();
            c.note(fmt("anchor at %.4f tolerance %.4f: drops %zu of %zu", at, tol, expDrop, raw.size()));
            c.check(ok == (expDrop < raw.size()), "C07-anchor-return", fmt("anchoring at %.4f with tolerance %.4f returned %d although %zu of %zu samples remain", at, tol, ok, raw.size() - expDrop, raw.size()));
            if (!ok) { c.outcome(1); return; }
            for (size_t i = 0; i < expDrop; ++i) raw.pop_front();
            c.check(q.items.size() == raw.size(), "C07-anchor-drop", fmt("anchoring kept %zu samples, expected %zu", q.items.size(), raw.size()));
            for (size_t i = 0; i < raw.size(); ++i) {
                c.check(q.items[i]->timeStamp == raw[i].t && q.items[i]->accel == raw[i].a && q.items[i]->gyro == raw[i].g, "C07-anchor-kept", fmt("after anchoring item %zu is not the sample it should be", i));
                auto &o = *before[i + expDrop];
                c.check(o.nominalState.p_wb == q.items[i]->nominalState.p_wb && o.imuCov == q.items[i]->imuCov, "C07-anchor-changed", "anchoring changed a remaining state");
            }
            c.state(mc::mix(raw.size() * 31 + expDrop, static_cast<mc::u64>(r)));
            // correction
            int corr = small ? 2 + c.choose(2, "correction") : c.choose(r ? 3 : 5, "correction");
            auto &o = *q.items.front();
            int dim = static_cast<int>(q.exCamCov.rows());
            if (corr >= 1) {
                o.nominalState.p_wb += f3(0.4, -0.3, 0.2);
                o.nominalState.v_wb += f3(-0.1, 0.25, 0.3);
                o.nominalState.q_wb = (o.nominalState.q_wb * Quaternion(1.0f, 0.02f, -0.03f, 0.04f)).normalized();
            }
            if (corr >= 2) { q.bias_a += f3(0.05, 0.06, -0.07); q.bias_g += f3(-0.02, 0.01, 0.03); }
            if (corr >= 3 || corr == 1) {
                if (corr == 3) dim += 6;
                if (corr == 4 && dim > 6) dim -= 6;
                MX P = somePSD(15 + dim, 0.02);
                o.imuCov = P.topLeftCorner(15, 15).cast<float>();
                o.imuExCamCov = P.topRightCorner(15, dim).cast<float>();
                q.exCamCov = P.bottomRightCorner(dim, dim).cast<float>();
            }
            IMUPropagateQueueItem anchor = o;
            Matrix cam = q.exCamCov;
            Vector3 ba = q.bias_a, bg = q.bias_g;
            int times = 1 + c.choose(2, "replays");
            for (int i = 0; i < times; ++i) {
                ok = q.Repropagate();
                c.step();
                c.check(ok, "C07-replay-return", "replaying fails");
            }
            int more = c.choose(r ? 2 : 3, "further");
            for (int i = 0; i < more; ++i) feed(i ? 0.02 : 0.01);
            // fresh propagation of the same raw samples from the corrected anchor
            Setup f;
            configure(f, 1, variant, noise);
            f.q.bias_a = ba;
            f.q.bias_g = bg;
            f.q.Propagate(raw[0].a, raw[0].g, raw[0].t);
            *f.q.items.front() = anchor;
            f.q.exCamCov = cam;
            for (size_t i = 1; i < raw.size(); ++i) f.q.Propagate(raw[i].a, raw[i].g, raw[i].t);
            c.check(q.items.size() == raw.size() && f.q.items.size() == raw.size(), "C07-replay-count", fmt("%zu samples after replay, expected %zu", q.items.size(), raw.size()));
            for (size_t i = 0; i < raw.size(); ++i) compareItems(c, *q.items[i], *f.q.items[i], "C07-replay", i);
            for (size_t i = 1; i < raw.size(); ++i) checkStep(c, s, *q.items[i - 1], *q.items[i]);
            c.check(q.exCamCov == cam, "C07-replay-camera", "replaying changed the camera covariance");
            c.check(q.bias_a == ba && q.bias_g == bg, "C07-replay-bias", "replaying changed the biases");
            c.state(itemHash(*q.items.back()));
        }
        c.outcome(itemHash(*q.items.back()));
    };
    return s;
}

std::vector<mc::Scenario> make(const std::string &prop) {
    std::vector<mc::Scenario> v;
    bool T = mc::thorough();
    if (prop == "C06") {
        v.push_back(samples(T ? 4 : 3));
        v.push_back(longRun(T ? 20000 : 3000));
    }
    if (prop == "C07") {
        v.push_back(anchoring(T ? 7 : 4, 1));
        v.push_back(anchoring(T ? 4 : 3, 2));
        v.back().name = "two rounds";
    }
    return v;
}
}  // namespace

int main(int argc, char **argv) { return mc::run(argc, argv, make); }
