// C14, C15: the attitude estimator.
#include <explore.hpp>
#include <attitude_estimate.hpp>
#include <imu_state.hpp>
#include <memory>
using namespace ESKF_VIO_BACKEND;
using mc::Ctx;
using mc::fmt;
using V3 = Eigen::Vector3d;
using Qd = Eigen::Quaterniond;

extern "C" int rand(void) { return 4; }

namespace {
Qd expq(const V3 &th) { double a = th.norm(); return a < 1e-12 ? Qd(1, th.x() / 2, th.y() / 2, th.z() / 2).normalized() : Qd(Eigen::AngleAxisd(a, th / a)); }
Vector3 F(const V3 &v) { return v.cast<float>(); }
mc::u64 qHash(const Quaternion &q) { mc::u64 h = 9; for (int i = 0; i < 4; ++i) h = mc::mix(h, mc::grid(q.coeffs()(i), 1e-3)); return h; }

const std::vector<V3> &directions() {
    static std::vector<V3> d = [] {
        std::vector<V3> v;
        for (int x = -1; x <= 1; ++x) for (int y = -1; y <= 1; ++y) for (int z = -1; z <= 1; ++z)
            if (x || y || z) v.push_back(V3(x, y, z).normalized());
        for (double e : {1e-6, 1e-4, 3e-3, 0.05, 0.4}) for (int s = -1; s <= 1; s += 2) {
            v.push_back(V3(e, 0, s).normalized());
            v.push_back(V3(0, -e, s).normalized());
            v.push_back(V3(-e, e * 0.7, s).normalized());
            v.push_back(V3(s, e, -e).normalized());
        }
        return v;
    }();
    return d;
}

void unit(Ctx &c, const Quaternion &q) {
    c.check(q.coeffs().allFinite() && std::fabs(q.norm() - 1) < 1e-4, "C14-unit", fmt("the attitude is (%g %g %g %g)", q.w(), q.x(), q.y(), q.z()));
}

mc::Scenario start() {
    mc::Scenario s;
    s.name = "start";
    s.bounds = "66 directions of the specific force (level, inverted, nearly so, all octants) x 9 magnitudes around gravity x 3 biases x 3 gravities; up to two rejected samples before";
    s.body = [](Ctx &c) {
        double g = (const double[]){9.81, 9.5, 9.9}[c.choose(3, "gravity")];
        IMUFullState::SetGravityNorm(static_cast<float>(g));
        int bi = c.choose(3, "bias");
        V3 ba = bi == 0 ? V3(0, 0, 0) : bi == 1 ? V3(0.3, -0.2, 0.1) : V3(-1.5, 2, -0.7);
        V3 bg = bi == 0 ? V3(0, 0, 0) : V3(0.1, 0.2, -0.3);
        AttitudeEstimate e;
        if (bi) e.SetBias(F(ba), F(bg));
        double t = 1.0;
        int rejected = c.choose(3, "rejected");
        for (int i = 0; i < rejected; ++i) {
            double m = i ? g * 0.5 : g + 1;
            e.Propagate(F(V3(0.1, 0.2, 1).normalized() * m + ba), F(V3(1, 2, 3)), t);
            c.step();
            c.check(e.items.empty(), "C14-start-early", "a sample that is not gravity starts the estimate");
            Quaternion q;
            c.check(!e.GetAttitude(t, 0.01, q), "C14-start-early", "an attitude is reported before the start");
            t += 0.005;
        }
        V3 d = directions()[static_cast<size_t>(c.choose(static_cast<int>(directions().size()), "direction"))];
        double off[9] = {0, 0.01, -0.01, 0.037, -0.037, 0.043, -0.043, 0.5, -3};
        double o = off[c.choose(9, "magnitude")];
        bool exp = std::fabs(o) < 0.04;
        bool ok = e.Propagate(F(d * (g + o) + ba), F(V3(0.1, 0.2, 0.3)), t);
        c.step();
        c.compared();
        c.check(!e.items.empty() == exp && ok == exp, exp ? "C14-start-missed" : "C14-start-wrong", fmt("specific force of magnitude gravity %+g: the estimate %s", o, e.items.empty() ? "does not start" : "starts"));
        c.outcome(exp);
        if (!exp) return;
        Quaternion q;
        c.check(e.GetAttitude(t, 0.01, q), "C14-start-missed", "no attitude is reported at the start");
        unit(c, q);
        V3 up = q.cast<double>() * d;
        double err = std::acos(std::max(-1.0, std::min(1.0, up.z())));
        c.state(qHash(q));
        c.check(err < 2e-3, "C14-start-direction", fmt("specific force along (%g %g %g): the start orientation turns it %.4g rad away from the vertical", d.x(), d.y(), d.z(), err));
        c.check(std::fabs(e.items.front()->timeStamp - t) < 1e-12, "C14-start-stamp", "the start carries another time stamp");
    };
    return s;
}

// rotating body without linear acceleration
mc::Scenario tracking(int segs, int perSeg) {
    mc::Scenario s;
    s.name = "rotation";
    s.bounds = fmt("all sequences of %d segments of %d samples with one of 6 angular rates, sampled every 5 or 10 ms or irregularly, from 6 start tilts, with and without biases, 2 time bases", segs, perSeg);
    s.splitDepth = 4;
    s.body = [=](Ctx &c) {
        const double g = 9.81;
        IMUFullState::SetGravityNorm(static_cast<float>(g));
        bool bias = c.flip("bias");
        V3 ba = bias ? V3(0.4, -0.3, 0.2) : V3(0, 0, 0), bg = bias ? V3(0.15, -0.2, 0.1) : V3(0, 0, 0);
        int step = c.choose(3, "step");
        static const Qd starts[6] = {Qd(1, 0, 0, 0), Qd(0, 1, 0, 0), Qd(0.8, 0.6, 0, 0), Qd(0.7, -0.3, 0.5, 0.4).normalized(), Qd(0.1, 0.9, -0.2, 0.3).normalized(), Qd(0, 0.6, 0.8, 0)};
        Qd q = starts[c.choose(6, "start")];
        const V3 rates[6] = {V3(0, 0, 0), V3(2, 0, 0), V3(0, -1.5, 0), V3(0, 0, 2.5), V3(1, -1, 0.5), V3(-0.6, 0.4, -2)};
        AttitudeEstimate e;
        e.SetBias(F(ba), F(bg));
        const double base = c.choose(2, "base") ? 1600000000.0 : 1.0;
        double t = base;
        V3 prev(0, 0, 0);
        auto feed = [&](const V3 &w) { e.Propagate(F(q.conjugate() * V3(0, 0, g) + ba), F(w + bg), t); c.step(); };
        feed(prev);
        c.check(e.items.size() == 1, "C14-start-missed", "the first sample at rest does not start the estimate");
        Qd q0 = q, e0 = e.items.back()->q_wb.cast<double>();
        for (int k = 0; k < segs; ++k) {
            V3 w = rates[c.choose(6, "rate")];
            for (int i = 0; i < perSeg; ++i) {
                double dt = step == 0 ? 0.005 : step == 1 ? 0.01 : (i % 3 == 2 ? 0.015 : 0.005);
                t += dt;
                q = q * expq(0.5 * (prev + w) * dt);
                prev = w;
                feed(w);
            }
            const Quaternion est = e.items.back()->q_wb;
            unit(c, est);
            c.compared(2);
            V3 up = est.cast<double>() * (q.conjugate() * V3(0, 0, 1));
            double tilt = std::acos(std::max(-1.0, std::min(1.0, up.z())));
            c.check(tilt < 2e-3, "C14-tilt", fmt("after %.2f s of rotation roll and pitch are %.4g rad off", t - base, tilt));
            double rel = (q0.conjugate() * q).angularDistance(e0.conjugate() * est.cast<double>());
            c.check(rel < 2e-3, "C14-rotation", fmt("after %.2f s the rotation since the start is %.4g rad off", t - base, rel));
            c.state(qHash(est));
        }
        c.outcome(qHash(e.items.back()->q_wb));
    };
    return s;
}

// samples missing for a while: the rotation about the vertical goes on
mc::Scenario gaps(int n) {
    mc::Scenario s;
    s.name = "rotation about the vertical with gaps";
    s.bounds = fmt("all sequences of %d steps of 5, 50, 300 or 1000 ms, 3 rates, 3 tilts, 3 time bases", n);
    s.splitDepth = 3;
    s.body = [=](Ctx &c) {
        const double g = 9.81;
        IMUFullState::SetGravityNorm(static_cast<float>(g));
        static const Qd starts[3] = {Qd(1, 0, 0, 0), Qd(0.7, -0.3, 0.5, 0.4).normalized(), Qd(0, 0.6, 0.8, 0)};
        const Qd q = starts[c.choose(3, "start")];
        const double w = (const double[]){0.25, -0.4, 0}[c.choose(3, "rate")];
        double t = (const double[]){1.0, 5000.25, 1600000000.0}[c.choose(3, "base")];
        AttitudeEstimate e;
        auto feed = [&] { e.Propagate(F(q.conjugate() * V3(0, 0, g)), F(q.conjugate() * V3(0, 0, w)), t); c.step(); };
        feed();
        c.check(e.items.size() == 1, "C14-start-missed", "the first sample at rest does not start the estimate");
        const Qd e0 = e.items.back()->q_wb.cast<double>();
        double angle = 0, slack = 1e-3;
        for (int k = 0; k < n; ++k) {
            const double dt = (const double[]){0.005, 0.05, 0.3, 1.0}[c.choose(4, "dt")];
            t += dt;
            angle += w * dt;
            slack += std::pow(std::fabs(w * dt), 3) / 8;         // a small-angle quaternion may be used
            feed();
            const Quaternion est = e.items.back()->q_wb;
            unit(c, est);
            c.compared();
            double off = (expq(V3(0, 0, angle)) * e0).angularDistance(est.cast<double>());
            c.check(off < slack, "C14-gap", fmt("after %d steps the attitude is %.4g rad off (allowed %.4g)", k + 1, off, slack));
            c.state(qHash(est));
        }
        c.outcome(qHash(e.items.back()->q_wb));
    };
    return s;
}

// a tilt error is never amplified
mc::Scenario settling(int n) {
    mc::Scenario s;
    s.name = "settling";
    s.bounds = fmt("start under horizontal acceleration in 8 directions with 3 tilt errors, then %d samples at rest", n);
    s.splitDepth = 1;
    s.body = [=](Ctx &c) {
        IMUFullState::SetGravityNorm(9.81f);
        double ang = c.choose(8, "direction") * 0.7853981633974483, tilt = (const double[]){0.02, 0.1, 0.3}[c.choose(3, "tilt")];
        AttitudeEstimate e;
        V3 d(std::sin(tilt) * std::cos(ang), std::sin(tilt) * std::sin(ang), std::cos(tilt));
        double t = 1.0;
        e.Propagate(F(d * 9.81), F(V3(0, 0, 0)), t);
        auto err = [&] { V3 up = e.items.back()->q_wb.cast<double>() * V3(0, 0, 1); return std::acos(std::max(-1.0, std::min(1.0, up.z()))); };
        double first = err();
        c.check(std::fabs(first - tilt) < 1e-3, "C14-start-direction", "the start is not aligned with the measured force");
        for (int i = 0; i < n; ++i) {
            t += 0.005;
            e.Propagate(F(V3(0, 0, 9.81)), F(V3(0, 0, 0)), t);
            c.step();
            c.check(err() < first * 1.02 + 1e-3, "C14-settling", fmt("a tilt error of %.3g rad has grown to %.3g rad after %.2f s at rest", first, err(), t - 1));
        }
        c.compared();
        c.state(qHash(e.items.back()->q_wb));
        c.outcome(err() < first);
    };
    return s;
}

mc::Scenario wild(int depth) {
    mc::Scenario s;
    s.name = "any input";
    s.bounds = fmt("all sequences of %d samples with one of 8 specific forces (zero, tiny, huge) x 5 rates (zero, huge) x 3 time steps (0, normal, a second)", depth);
    s.body = [=](Ctx &c) {
        IMUFullState::SetGravityNorm(9.81f);
        AttitudeEstimate e;
        double t = 1.0;
        e.Propagate(Vector3(0, 0, 9.81f), Vector3(0, 0, 0), t);
        const V3 acc[8] = {V3(0, 0, 0), V3(0, 0, 9.81), V3(0, 0, -9.81), V3(9.81, 0, 0), V3(1e-30, 0, 0), V3(1e6, -1e6, 1e6), V3(3, 4, 5), V3(0, 1e-6, 0)};
        const V3 gyr[5] = {V3(0, 0, 0), V3(1, -2, 3), V3(1e6, 1e6, -1e6), V3(1e-20, 0, 0), V3(600, 0, 0)};
        const double dts[3] = {0.0, 0.005, 1.0};
        for (int i = 0; i < depth; ++i) {
            V3 a = acc[c.choose(8, "accel")], g = gyr[c.choose(5, "gyro")];
            t += dts[c.choose(3, "dt")];
            bool ok = e.Propagate(F(a), F(g), t);
            c.step();
            c.compared();
            c.check(ok, "C14-refused", "a sample in time order is refused");
            unit(c, e.items.back()->q_wb);
            c.state(qHash(e.items.back()->q_wb));
        }
        c.outcome(qHash(e.items.back()->q_wb));
    };
    return s;
}

// ------------------------------------------------------------------ C15
struct Hist { double t; Quaternion q; };

mc::Scenario history(int maxN, bool twoCleans) {
    mc::Scenario s;
    s.name = twoCleans ? "history, two cleanings" : "history";
    s.bounds = fmt("0..%d samples, each 0, 1, 2 or 5 ticks after the newest or earlier than it; queries on and between all ticks x 6 tolerances after every event; %s at every tick x 4 tolerances, further samples after it; 2 time bases", maxN, twoCleans ? "two cleanings" : "cleaning");
    s.splitDepth = 3;
    s.body = [=](Ctx &c) {
        const double T = 1.0 / 128;
        IMUFullState::SetGravityNorm(9.81f);
        AttitudeEstimate e;
        std::deque<Hist> ref;
        const double base = c.choose(2, "base") ? 1600000000.0 : 1.0;
        double t = base;
        int serial = 0;
        auto same = [&](const char *what) {
            c.check(e.items.size() == ref.size(), what, fmt("the history holds %zu samples, expected %zu", e.items.size(), ref.size()));
            for (size_t i = 0; i < ref.size(); ++i)
                c.check(e.items[i]->timeStamp == ref[i].t && e.items[i]->q_wb.coeffs() == ref[i].q.coeffs(), what, fmt("sample %zu of the history changed", i));
        };
        auto queries = [&] {
            for (int k = -3; k <= 36; ++k) for (int h = 0; h < 2; ++h) {
                double at = base + (k + 0.375 * h) * T;
                for (double thr : {0.0, 0.5 * T, 0.55 * T, T, 2.0 * T, 100 * T}) {
                    Quaternion q(0.5f, 0.5f, 0.5f, 0.5f), init = q;
                    bool got = e.GetAttitude(at, thr, q);
                    double best = INFINITY;
                    for (auto &r : ref) best = std::min(best, std::fabs(r.t - at));
                    bool exp = best < thr;
                    c.compared();
                    c.check(got == exp, exp ? "C15-refused" : "C15-answered", fmt("query at %.5f with tolerance %.5f %s, the nearest sample is %.5f away", at, thr, got ? "succeeds" : "fails", best));
                    if (got) {
                        bool hit = false;
                        for (auto &r : ref) if (std::fabs(r.t - at) <= best && r.q.coeffs() == q.coeffs()) hit = true;
                        c.check(hit, "C15-nearest", fmt("query at %.5f is not answered with the nearest sample", at));
                    } else {
                        c.check(q.coeffs() == init.coeffs(), "C15-written", "a failed query changes the caller's variable");
                    }
                }
            }
            same("C15-query-changes");
        };
        auto feed = [&](int k) {
            const int d[5] = {1, 2, 5, 0, -1};
            double nt = ref.empty() ? t + T : ref.back().t + d[k] * T;
            V3 acc = ref.empty() ? V3(0, 0, 9.81) : V3(1, 2, 8);
            bool ok = e.Propagate(F(acc), F(V3(3 + serial, -2, 4.0 * (serial + 1))), nt);
            ++serial;
            c.step();
            bool exp = ref.empty() || d[k] >= 0;
            c.check(ok == exp, exp ? "C15-sample-refused" : "C15-earlier-accepted", fmt("a sample %d ticks after the newest is %s", ref.empty() ? 1 : d[k], ok ? "accepted" : "refused"));
            if (ok) {
                c.check(e.items.size() == ref.size() + 1, "C15-history", "an accepted sample is not stored once");
                ref.push_back({nt, e.items.back()->q_wb});
                t = nt;
            }
            same("C15-history");
        };
        int n = c.choose(maxN + 1, "samples");
        for (int i = 0; i < n; ++i) feed(ref.empty() ? 0 : c.choose(5, "spacing"));
        queries();
        for (int r = 0; r < (twoCleans ? 2 : 1); ++r) {
            int ticks = static_cast<int>(std::lround((t - base) / T)) + 3;
            double at = base + (c.choose(ticks, "clean") + (twoCleans ? 0.0 : 0.5 * c.choose(2, "half"))) * T;
            double thr = (const double[]){0.0, 1.0, 0.6, 3.0}[c.choose(twoCleans ? 2 : 4, "tolerance")] * T;
            e.CleanOldItems(at, static_cast<float>(thr));
            c.step();
            while (!ref.empty() && at - ref.front().t > thr) ref.pop_front();
            same("C15-clean");
            c.note(fmt("clean at %.5f tolerance %.5f leaves %zu", at, thr, ref.size()));
            queries();
            int m = c.choose(2, "further");
            for (int i = 0; i < m; ++i) feed(i);
            c.state(mc::mix(ref.size(), mc::grid(ref.empty() ? 0 : ref.front().t - base, 1e-3)));
        }
        queries();
        c.outcome(mc::mix(ref.size(), static_cast<mc::u64>(serial)));
    };
    return s;
}

std::vector<mc::Scenario> make(const std::string &prop) {
    std::vector<mc::Scenario> v;
    bool T = mc::thorough();
    if (prop == "C14") {
        v.push_back(start());
        v.push_back(tracking(T ? 6 : 4, T ? 12 : 10));
        v.push_back(settling(T ? 3000 : 1000));
        v.push_back(wild(T ? 4 : 3));
        v.push_back(gaps(T ? 7 : 5));
    }
    if (prop == "C15") {
        v.push_back(history(T ? 6 : 4, false));
        v.push_back(history(T ? 4 : 3, true));
    }
    return v;
}
}  // namespace

int main(int argc, char **argv) { return mc::run(argc, argv, make); }
