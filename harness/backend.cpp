// The whole system: C16 (initialization), C17 (recovery), C18 (publication), C20 (robustness, with sanitizers),
// C21 (independence), C22 (ideal tracking), C23 (late camera data).
#include <kalman.hpp>
#include <malloc.h>
#include <unordered_map>
using namespace ref;
using mc::Ctx;
using mc::fmt;

namespace { unsigned drawSeed = 1; }
extern "C" int rand(void) { drawSeed = drawSeed * 1103515245u + 12345u; return static_cast<int>(drawSeed >> 1 & 0x7fffffff); }


// Every basic block of the code under test is a preemption point (C21 is compiled with -fsanitize-coverage=trace-pc):
// the profile lists the blocks in the order in which they are first entered, `fire` runs another system at one of them.
namespace preempt {
struct Point { unsigned long pc; size_t first, last; };         // entered first / last in these calls
std::vector<Point> *list = nullptr;
size_t call = 0;
unsigned long target = 0;
int mode = 0;                                                   // 0 off, 1 profile, 2 armed
std::function<void()> *fire = nullptr;
__attribute__((no_sanitize_coverage)) void profile(unsigned long pc) {
    static std::unordered_map<unsigned long, size_t> index;
    if (list->empty()) index.clear();
    auto it = index.find(pc);
    if (it == index.end()) { index[pc] = list->size(); list->push_back({pc, call, call}); }
    else (*list)[it->second].last = call;
}
}  // namespace preempt
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc(void) {
    if (preempt::mode == 0) return;
    const unsigned long pc = reinterpret_cast<unsigned long>(__builtin_return_address(0));
    if (preempt::mode == 1) { preempt::mode = 0; preempt::profile(pc); preempt::mode = 1; return; }
    if (pc != preempt::target) return;
    preempt::mode = 0;
    (*preempt::fire)();
}

namespace {
// published states live in a world that is turned about the vertical and shifted
struct Align {
    bool set = false;
    Qd R = Qd::Identity();
    V3 p = V3::Zero();
    void from(const Pub &u, const Qd &q, const V3 &pt) {
        // heading only: the vertical must agree by itself
        Qd d = u.q * q.conjugate();
        double n = std::hypot(d.w(), d.z());
        R = n > 1e-9 ? Qd(d.w() / n, 0, 0, d.z() / n) : Qd::Identity();
        p = u.p - R * pt;
        set = true;
    }
};
struct Err { double p = 0, v = 0, q = 0; };
Err errorOf(const Pub &u, const Align &a, const Qd &q, const V3 &p, const V3 &v) {
    Err e;
    e.p = (u.p - (a.R * p + a.p)).norm();
    e.v = (u.v - a.R * v).norm();
    e.q = u.q.angularDistance(a.R * q);
    return e;
}

// ---------------------------------------------------------------- C22
Seg segment(int kind, const V3 &v, double seconds) {
    switch (kind) {
        case 0: return {seconds, V3::Zero(), V3::Zero()};
        case 1: return {seconds, V3(1.5, 0.5, 0), V3::Zero()};
        case 2: return {seconds, V3::Zero(), V3(0, 0, 1.2)};
        case 3: return {seconds, -v / seconds, V3(0, 0, 0)};
        case 4: return {seconds, V3(0.3, -1, 1), V3(0.6, -0.5, 0.3)};
        default: return {seconds, V3(-1, 1, -0.5), V3(-0.4, 0.5, -1.0)};
    }
}
mc::Scenario ideal(int rate, double frac, bool bias, double start) {
    mc::Scenario s;
    const int segs = mc::thorough() ? 4 : 3;
    const int kinds = 6;
    s.name = fmt("programs at %d Hz, frames %s, biases %s", rate, frac > 0 ? fmt("%.1f after a sample", frac).c_str() : "at samples", bias ? "configured" : "zero");
    s.bounds = fmt("rest, then all sequences of %d segments of 0.25 s out of: constant velocity, acceleration, yaw, brake, two accelerations with rotation; start tilted or level; all landmarks by two cameras / by one camera once initialized / coming and going; window 3 or 6", segs);
    s.splitDepth = 3;
    s.body = [=](Ctx &c) {
        drawSeed = 1;
        Cfg cfg;
        cfg.rate = rate;
        int variant = c.choose(mc::thorough() ? 6 : 4, "variant");
        int see = variant % 3;                        // two cameras / one camera later / coming and going
        bool tilted = variant == 1 || variant >= 4;
        cfg.window = variant >= 2 ? 6 : 3;
        if (variant == 3) { see = 2; cfg.window = 3; }
        if (bias) { cfg.ba = V3(0.1, -0.05, 0.08); cfg.bg = V3(0.01, -0.02, 0.015); }
        std::vector<Seg> prog = {{0.2, V3::Zero(), V3::Zero()}};
        V3 v = V3::Zero();
        for (int i = 0; i < segs; ++i) {
            Seg g = segment(c.choose(kinds, "segment"), v, 0.25);
            v += g.acc * g.seconds;
            prog.push_back(g);
        }
        Truth tr(rate, cfg.g, prog, tilted ? expq(V3(0.3, -0.2, 0)) * expq(V3(0, 0, 0.7)) : Qd::Identity());
        auto lm = ring(90);
        cfg.start = start;
        cfg.idle = start > 1e9 ? 100000 : 0;
        Sim sim(cfg);
        const int per = rate / 20;
        Align al;
        int f = 0, seen = 0;
        double wp = 0, wv = 0, wq = 0, vmax = 0, wmax = 0;
        auto push = [&](int k, double fr) {
            bool up = sim.up();
            sim.frame(tr, lm, k, fr, [&](int l) { return see == 1 && up ? 1 : see == 2 && (f / 3 + l) % 4 == 0 ? 0 : see == 2 && (f / 2 + l) % 3 == 0 ? 1 : 3; });
            ++f;
        };
        for (int k = 0; k < tr.samples(); ++k) {
            bool isFrame = k % per == (frac > 0 ? 1 : 0);
            if (isFrame && frac == 0) push(k, 0);
            sim.imu(tr, k);
            sim.drain();
            if (isFrame && frac > 0 && k + 1 < tr.samples()) { push(k, frac); sim.drain(); }
            Pub u = sim.latest();
            c.step();
            if (!u.ok) { c.check(k < rate / 5, "C22-start", "no state is published after 0.2 s of ideal data"); continue; }
            c.check(sim.up(), "C22-lost", fmt("the system falls back to the uninitialized status at %.2f s", k / double(rate)));
            c.check(u.finite(), "C22-finite", "the published state is not finite");
            c.check(std::fabs(u.t - sim.stamp(k)) < 1e-6, "C22-time", "the published state is not that of the newest sample");
            size_t i = static_cast<size_t>(k);
            if (!al.set) al.from(u, tr.q[i], tr.p[i]);
            Err e = errorOf(u, al, tr.q[i], tr.p[i], tr.v[i]);
            wp = std::max(wp, e.p); wv = std::max(wv, e.v); wq = std::max(wq, e.q);
            ++seen;
            c.compared();
            vmax = std::max(vmax, tr.v[i].norm());
            wmax = std::max(wmax, tr.w[i].norm());
            double lag = frac > 0 ? (frac + 0.2) / rate : 0;      // what the frames are off by explains
            double bp = 0.001 + lag * (0.5 + 1.5 * vmax + 6 * wmax), bv = 0.003 + lag * 15, bq = 0.001 + lag * 3;
            if (!(e.p < bp)) c.check(false, "C22-position", fmt("at %.2f s the position is %.4f m off (bound %.4f)", k / double(rate), e.p, bp));
            if (!(e.v < bv)) c.check(false, "C22-velocity", fmt("at %.2f s the velocity is %.4f m/s off (bound %.4f)", k / double(rate), e.v, bv));
            if (!(e.q < bq)) c.check(false, "C22-orientation", fmt("at %.2f s the orientation is %.4f rad off (bound %.4f)", k / double(rate), e.q, bq));
            c.check(std::fabs(u.q.norm() - 1) < 1e-3, "C22-unit", "the orientation is not a unit quaternion");
        }
        c.check(seen > 0, "C22-start", "the system never initialized");
        c.note(fmt("worst error %.5f m, %.5f m/s, %.5f rad", wp, wv, wq));
        c.state(mc::mix(mc::grid(tr.p.back().x()), mc::mix(mc::grid(tr.q.back().z()), mc::grid(tr.v.back().y()))));
        c.outcome(world::hash(sim.latest()));
    };
    return s;
}

// long runs: round trips and straight runs through a field of landmarks, every combination of the menus
mc::Scenario longRun(double seconds) {
    mc::Scenario s;
    s.name = "long runs";
    s.bounds = fmt("%.0f s; course: circle, straight at 3 m/s, swing to and fro with tumbling, rest; x window 3 / 6 / 10 x 2 / 3 cameras x 100 / 200 Hz x 10 or 20 frames per second x samples regular or with every fifth missing", seconds);
    s.splitDepth = 4;
    s.body = [=](Ctx &c) {
        drawSeed = 1;
        Cfg cfg;
        const int course = c.choose(4, "course");
        cfg.window = (const int[]){3, 6, 10}[c.choose(3, "window")];
        const int cams = 2 + c.choose(2, "cameras");
        cfg.cams = cams;
        cfg.rate = c.choose(2, "rate") ? 200 : 100;
        const int per = cfg.rate / (c.choose(2, "frames") ? 20 : 10);
        const bool sparse = c.flip("samples missing");
        cfg.ba = V3(0.05, -0.04, 0.03);
        cfg.bg = V3(0.01, 0.008, -0.012);
        std::vector<Seg> prog = {{0.3, V3::Zero(), V3::Zero()}};
        // accelerations are constant over a tenth of a second
        const int n = static_cast<int>(seconds * 10);
        for (int i = 0; i < n; ++i) {
            double t = i * 0.1;
            if (course == 0) prog.push_back({0.1, i < 10 ? V3(1, 0, 0) : V3(-std::sin((t - 1) * 1.0), std::cos((t - 1) * 1.0), 0), V3(0, 0, i < 10 ? 0 : 1.0)});
            else if (course == 1) prog.push_back({0.1, i < 15 ? V3(2, 0, 0) : V3::Zero(), V3::Zero()});
            else if (course == 2) prog.push_back({0.1, V3(std::cos(2 * t), 0.6 * std::cos(3 * t), 0.5 * std::cos(2.5 * t)), V3(0.8 * std::cos(1.7 * t), 0.5 * std::cos(2.1 * t), 0.6 * std::cos(1.3 * t))});
            else prog.push_back({0.1, V3::Zero(), V3::Zero()});
        }
        Truth tr(cfg.rate, cfg.g, prog);
        std::vector<V3> lm;
        if (course == 1) {
            for (int i = 0; i < static_cast<int>((seconds * 3 + 10) * 6); ++i) {
                double a = 2.399963 * i, r = 1.5 + ((i * 7) % 11) * 0.2;
                lm.push_back(V3(i / 6.0 + 1, r * std::cos(a), r * std::sin(a)));
            }
        } else lm = ring(90);
        cfg.start = 1403636580.84;
        cfg.idle = 200000;
        Sim sim(cfg);
        Align al;
        double wp = 0, wv = 0, wq = 0;
        const double bp = seconds > 20 ? 0.01 : 0.002, bv = seconds > 20 ? 0.005 : 0.002, bq = seconds > 20 ? 0.0005 : 0.0002;
        for (int k = 0; k < tr.samples(); ++k) {
            if (k % per == 0) {
                size_t i = static_cast<size_t>(k);
                V3 here = tr.p[i];
                sim.frame(tr, lm, k, 0, [&](int l) { return course == 1 && std::fabs(lm[static_cast<size_t>(l)].x() - here.x() - 4) > 3.5 ? 0 : (1 << cams) - 1; });
            }
            if (sparse && k % 5 == 3) continue;
            sim.imu(tr, k);
            sim.drain();
            Pub u = sim.latest();
            if (!u.ok) { c.check(k < cfg.rate / 2, "C22-start", "no state is published after 0.5 s of ideal data"); continue; }
            c.check(sim.up(), "C22-lost", fmt("the system falls back to the uninitialized status at %.2f s", k / double(cfg.rate)));
            size_t i = static_cast<size_t>(k);
            if (!al.set) al.from(u, tr.q[i], tr.p[i]);
            Err e = errorOf(u, al, tr.q[i], tr.p[i], tr.v[i]);
            wp = std::max(wp, e.p); wv = std::max(wv, e.v); wq = std::max(wq, e.q);

            if (!(e.p < bp)) c.check(false, "C22-position", fmt("at %.2f s the position is %.4f m off (bound %.4f)", k / double(cfg.rate), e.p, bp));
            if (!(e.v < bv)) c.check(false, "C22-velocity", fmt("at %.2f s the velocity is %.4f m/s off (bound %.4f)", k / double(cfg.rate), e.v, bv));
            if (!(e.q < bq)) c.check(false, "C22-orientation", fmt("at %.2f s the orientation is %.5f rad off (bound %.5f)", k / double(cfg.rate), e.q, bq));
            c.compared();
            c.check(std::fabs(u.q.norm() - 1) < 1e-3, "C22-unit", "the orientation is not a unit quaternion");
        }
        for (int k = 0; k < tr.samples(); ++k) c.step();
        c.note(fmt("worst error %.5f m, %.5f m/s, %.5f rad", wp, wv, wq));
        c.state(mc::mix(mc::grid(tr.p.back().x()), mc::mix(static_cast<mc::u64>(cfg.window), static_cast<mc::u64>(per * 100 + cams))));
        c.outcome(world::hash(sim.latest()));
    };
    return s;
}

// ---------------------------------------------------------------- arrival schedules (C18, C23)
struct History {
    Cfg cfg;
    Truth tr;
    std::vector<V3> lm;
    int per = 5, frames = 0;
    double frac = 0;
    bool noisy = true;
};
History historyOf(int motion, int frames, double frac, int rate = 100) {
    std::vector<Seg> sg = {{0.12, V3::Zero(), V3::Zero()}};
    for (int i = 0; i < 8; ++i) sg.push_back({0.1, motion == 0 ? V3(1, 0.4, -0.3) * (i % 3 == 2 ? -1.5 : 1) : V3(0.3, -1, 0.6) * (i % 2 ? 1 : -0.5), motion == 0 ? V3(0, 0, 0.2 * i - 0.5) : V3(0.4, -0.3, 0.5)});
    Cfg cfg;
    cfg.start = motion ? 1600000000.0 : 100.0;
    cfg.idle = motion ? 50000 : 0;
    cfg.rate = rate;
    cfg.window = 3 + motion;
    cfg.ba = V3(0.02, -0.01, 0.03);
    cfg.bg = V3(0.002, 0.001, -0.003);
    History h{cfg, Truth(rate, cfg.g, sg), cloud(16)};
    h.per = rate / 20;
    h.frames = frames;
    h.frac = frac;
    return h;
}
std::vector<V3> landmarksAhead(const Qd &q, int n) {
    std::vector<V3> r;
    for (auto &x : cloud(n)) r.push_back(q * x);
    return r;
}
// exact or noisy observations of the landmarks from the true pose of sample k (+ f)
std::shared_ptr<FeaturesMessage> look(const Cfg &cfg, const Truth &tr, const std::vector<V3> &lm, double stamp, int k, double f, double noise, const std::function<int(int)> &mask) {
    Qd q;
    V3 p;
    tr.pose(k, f, q, p);
    auto r = rig(cfg.cams);
    auto m = std::make_shared<FeaturesMessage>();
    m->timeStamp = stamp;
    for (size_t i = 0; i < lm.size(); ++i) {
        int bits = mask(static_cast<int>(i));
        auto o = std::make_shared<FeatureObserve>();
        for (size_t c = 0; c < r.size(); ++c) {
            if (!(bits >> c & 1)) continue;
            V3 pc = r[c].q.conjugate() * (q.conjugate() * (lm[i] - p) - r[c].p);
            if (pc.z() < 0.3 || std::fabs(pc.x()) > 1.2 * pc.z() || std::fabs(pc.y()) > 1.2 * pc.z()) continue;
            double a = static_cast<double>(i), b = k, d = static_cast<double>(c);
            o->norms[static_cast<uint32_t>(c)] = (V2(pc.x() / pc.z(), pc.y() / pc.z()) + noise * V2(std::sin(3.1 * a + 1.7 * b + d), std::cos(2.3 * a - 0.7 * b + 2 * d))).cast<float>();
        }
        if (o->norms.empty()) continue;
        m->ids.push_back(static_cast<uint32_t>(i + 1));
        m->observes.push_back(o);
        m->flag.push_back(1);
    }
    return m;
}
// kind: 0 everything seen by both cameras, 1 nothing, 2 half the landmarks, most of them by one camera, 3 two landmarks
void pushFrame(Sim &sim, const History &h, int k, int kind = 0) {
    double t = sim.stamp(k, h.frac);
    auto m = look(sim.cfg, h.tr, h.lm, t, k, h.frac, h.noisy ? sim.cfg.sigma * 0.5 : 0, [=](int l) { return kind == 0 ? 3 : kind == 1 ? 0 : kind == 2 ? (l % 4 == 0 ? 3 : l % 2) : l < 2 ? 3 : 0; });
    sim.b->GetFeaturesMessage(m);
    ++sim.pending;
    if (!sim.haveOffset) { sim.offset = m->timeStamp - t; sim.haveOffset = true; }
}
std::string differ(const Pub &a, const Pub &b, double tol) {
    if (a.ok != b.ok) return fmt("one publishes a state, the other does not (%d, %d)", a.ok, b.ok);
    if (!a.ok) return "";
    if (std::fabs(a.t - b.t) > 1e-6) return fmt("time stamps differ by %.3g s", a.t - b.t);
    if (!((a.p - b.p).norm() < tol)) return fmt("positions differ by %.3g m", (a.p - b.p).norm());
    if (!((a.v - b.v).norm() < 2 * tol)) return fmt("velocities differ by %.3g m/s", (a.v - b.v).norm());
    if (!(a.q.angularDistance(b.q) < tol)) return fmt("orientations differ by %.3g rad", a.q.angularDistance(b.q));
    if (!((a.ba - b.ba).norm() < tol && (a.bg - b.bg).norm() < tol)) return "biases differ";
    return "";
}

mc::Scenario late(int motion, double frac, int rate, int kinds = 1) {
    mc::Scenario s;
    const int frames = mc::thorough() ? 9 : 7, bound = mc::thorough() ? 4 : 3;
    s.name = fmt("late frames, motion %d, %d Hz, frames %s", motion, rate, frac > 0 ? fmt("%.1f after a sample", frac).c_str() : "at samples");
    if (kinds > 1) s.name += ", contents vary";
    s.bounds = fmt("%d frames, 5 samples apart, noisy observations%s; up to %d of them late by 0..4 samples, including those before and during initialization; up to %d times the processing of three messages is held back", frames, kinds > 1 ? "; up to 3 of them without landmarks, with half of them, mostly by one camera, or with two (keyframe distance small, so that old frames leave)" : "", bound, bound);
    s.devBound = bound;
    s.splitDepth = 4;
    s.body = [=](Ctx &c) {
        History h = historyOf(motion, frames, frac, rate);
        h.per = 5;
        if (kinds > 1) h.cfg.maxMove = 0.001;
        Sim a(h.cfg), b(h.cfg);
        std::vector<int> delay(static_cast<size_t>(frames)), hold(static_cast<size_t>(frames)), kind(static_cast<size_t>(frames), 0);
        if (kinds > 1) for (int i = 2; i < frames; ++i) kind[static_cast<size_t>(i)] = c.dev(kinds, "content");
        for (int i = 0; i < frames; ++i) delay[static_cast<size_t>(i)] = c.dev(h.frac > 0 ? 5 : 6, "delay");
        for (int i = 0; i < frames; ++i) hold[static_cast<size_t>(i)] = c.dev(3, "hold");
        const int last = h.per * frames;
        int held = 0;
        for (int k = 0; k < last; ++k) {
            const int f = k / h.per, ph = k % h.per;
            // reference: everything in time order
            if (ph == 0 && h.frac == 0) pushFrame(a, h, k, kind[static_cast<size_t>(f)]);
            a.imu(h.tr, k);
            a.drain();
            if (ph == 0 && h.frac > 0) { pushFrame(a, h, k, kind[static_cast<size_t>(f)]); a.drain(); }
            // the same with late frames; 0: in time, d: after d - 1 further samples (after d, between samples)
            const int d = delay[static_cast<size_t>(f)];
            if (hold[static_cast<size_t>(f)] == 1 && ph == 0) held = 3;
            if (hold[static_cast<size_t>(f)] == 2 && ph == 2) held = 3;
            auto go = [&]() { if (held == 0) b.drain(); };
            if (ph == 0 && d == 0 && h.frac == 0) pushFrame(b, h, k, kind[static_cast<size_t>(f)]);
            b.imu(h.tr, k);
            go();
            if (h.frac > 0 ? ph == d : d > 0 && ph == d - 1) { pushFrame(b, h, k - ph, kind[static_cast<size_t>(f)]); go(); }
            if (held) --held;
            if (ph == h.per - 1) {
                held = 0;
                b.drain();
                c.step();
                c.compared(2);
                std::string x = differ(b.latest(), a.latest(), 1e-4);
                c.check(x.empty(), "C23-estimate", fmt("after frame %d: late and timely processing lead to different estimates: %s", f, x.c_str()));
                x = differ(b.updated(), a.updated(), 1e-4);
                c.check(x.empty(), "C23-update-state", fmt("after frame %d: late and timely processing lead to different update states: %s", f, x.c_str()));
                c.check(a.up() == b.up(), "C23-status", "late and timely processing lead to a different status");
                c.state(mc::mix(world::hash(b.latest()), static_cast<mc::u64>(d)));
            }
        }
        c.check(a.up(), "C23-harness", "the reference never initialized");
        c.outcome(world::hash(b.latest()));
    };
    return s;
}

// ---------------------------------------------------------------- C16
mc::Scenario start(double frac, bool lateToo, int cams = 2, int per = 5) {
    mc::Scenario s;
    const bool slow = per > 5;
    const int frames = (mc::thorough() ? 5 : 4) - slow;
    s.name = fmt("starting up, frames %s%s%s%s", frac > 0 ? fmt("%.2f after a sample", frac).c_str() : "at samples", lateToo ? ", late" : "", cams == 3 ? ", three cameras" : "", slow ? fmt(", %.2g s apart", per * 0.01).c_str() : "");
    s.bounds = fmt("%d frames, each one of 8 kinds (14 / 10 / 9 landmarks by both cameras, 14 by the first / second camera only, 14 other ones, 9 by both and 5 by the first only, none); gravity visible from sample 0, 4 or 9 on; rest, constant velocity, acceleration with rotation, all from a tilted start", frames);
    if (cams == 3) s.bounds = fmt("%d frames, each one of 8 kinds (14 landmarks by all three cameras, 10 by the first and second, 10 by the first and third, 10 by the second and third, 12 by one camera each, 5 by each of two pairs, 9 by all, none); gravity visible from sample 0, 4 or 9 on; rest, constant velocity, acceleration with rotation, all from a tilted start", frames);
    s.splitDepth = 4;
    s.body = [=](Ctx &c) {
        drawSeed = 1;
        Cfg cfg;
        cfg.ba = V3(0.05, -0.02, 0.04);
        cfg.bg = V3(0.003, 0.001, -0.002);
        cfg.cams = cams;
        if (frac > 0) { cfg.start = 1600000000.0; cfg.idle = 80000; }
        int motion = c.choose(slow ? 2 : 3, "motion");
        int from = (const int[]){0, 4, 9}[c.choose(3, "gravity from")];
        const int rest = 11;
        std::vector<Seg> sg = {{rest * 0.01, V3::Zero(), V3::Zero()}, {slow ? per * frames * 0.01 + 0.2 : 0.3, motion == 2 ? V3(1.2, -1.6, 0.8) : V3::Zero(), motion == 2 ? V3(0.3, -0.2, 0.4) : V3::Zero()}};
        Truth tr(cfg.rate, cfg.g, sg, expq(V3(0.2, -0.3, 0)) * expq(V3(0, 0, 0.4)), motion == 1 ? V3(V3(0.8, -0.5, 0.3) * (slow ? 0.15 : 1.0)) : V3::Zero());
        auto lm = landmarksAhead(tr.q[0], 28);
        Sim sim(cfg);
        std::vector<int> kinds;
        auto bitsOf = [cams](int kind, int l) {
            if (cams == 3) switch (kind) {
                case 0: return l < 14 ? 7 : 0;
                case 1: return l < 10 ? 3 : 0;
                case 2: return l < 10 ? 5 : 0;
                case 3: return l < 10 ? 6 : 0;
                case 4: return l < 12 ? 1 << l % 3 : 0;
                case 5: return l < 5 ? 5 : l < 10 ? 6 : 0;
                case 6: return l < 9 ? 7 : 0;
                default: return 0;
            }
            switch (kind) {
                case 0: return l < 14 ? 3 : 0;
                case 1: return l < 10 ? 3 : 0;
                case 2: return l < 9 ? 3 : 0;
                case 3: return l < 14 ? 1 : 0;
                case 4: return l < 14 ? 2 : 0;
                case 5: return l >= 14 ? 3 : 0;
                case 6: return l < 9 ? 3 : l < 14 ? 1 : 0;
                default: return 0;
            }
        };
        bool up = false;
        for (int k = 0; k < per * frames + (lateToo ? 4 : 1) && !up; ++k) {
            const int shift = lateToo ? 3 : 0;
            const int kf = k - shift;
            const bool isFrame = kf >= 0 && kf % per == 0 && kf / per < frames;
            int kind = 0;
            if (isFrame) kind = c.choose(8, "frame");
            auto push = [&]() {
                auto m = look(cfg, tr, lm, sim.stamp(kf, frac), kf, frac, 0, [&](int l) { return bitsOf(kind, l); });
                if (kind != 7) { size_t want = 0; for (int l = 0; l < 28; ++l) want += bitsOf(kind, l) != 0; c.check(m->ids.size() == want, "C16-harness", "landmark not visible"); }
                sim.b->GetFeaturesMessage(m);
                ++sim.pending;
                if (!sim.haveOffset) { sim.offset = m->timeStamp - sim.stamp(kf, frac); sim.haveOffset = true; }
            };
            bool before = isFrame && frac == 0 && !lateToo;
            if (before) push();
            double scale = k < from ? 1.5 : 1;
            sim.imuRaw(tr.accel(k) * scale + cfg.ba, tr.gyro(k) + cfg.bg, sim.stamp(k));
            sim.drain();
            if (isFrame && !before) { push(); sim.drain(); }
            if (!isFrame) { c.check(!sim.up(), "C16-no-frame", "the status becomes initialized without a frame"); continue; }
            kinds.push_back(kind);
            c.step();
            bool can = false;
            const int i = kf - per;
            if (kinds.size() >= 2 && i >= from) {
                int n = 0;
                for (int l = 0; l < 28; ++l) n += __builtin_popcount(static_cast<unsigned>(bitsOf(kinds[kinds.size() - 2], l))) >= 2 && (bitsOf(kind, l) & 1);
                can = n >= 10;
            }
            c.compared();
            c.state(mc::mix(static_cast<mc::u64>(kind), mc::mix(static_cast<mc::u64>(can), static_cast<mc::u64>(kinds.size()))));
            c.note(fmt("frame %zu of kind %d: %s", kinds.size() - 1, kind, can ? "can start" : "cannot start"));
            if (!can) {
                c.check(!sim.up(), "C16-too-early", fmt("the system starts at frame %zu although it cannot", kinds.size() - 1));
                c.check(!sim.latest().ok && !sim.updated().ok, "C16-published", "a state is published before the start");
                auto &fr = sim.b->frameManager.frames;
                c.check(fr.size() == 1 && std::fabs(fr[0]->timeStamp - sim.offset - sim.stamp(kf, frac)) < 1e-6, "C16-window", fmt("after a failed attempt the window holds %zu frames and must hold only the newest", fr.size()));
                continue;
            }
            up = true;
            c.check(sim.up(), "C16-not-started", fmt("the system does not start at frame %zu although it can", kinds.size() - 1));
            Pub l = sim.latest(), u = sim.updated();
            c.check(l.ok && u.ok && l.finite(), "C16-state", "no valid state is published after the start");
            c.check(std::fabs(l.t - sim.stamp(k)) < 1e-6, "C16-newest", fmt("after the start the published state is for %.3f, the newest sample is %.3f", l.t, sim.stamp(k)));
            c.check(sim.b->frameManager.frames.size() == 2, "C16-window", "after the start the window does not hold the two frames");
            // expected: origin at the first frame, mean velocity between the frames, all samples since
            const double dtf = per * 0.01;
            Qd qi, qj; V3 pi, pj;
            tr.pose(i, frac, qi, pi);
            tr.pose(i + per, frac, qj, pj);
            V3 v = (pj - pi) / dtf, p = V3::Zero();
            for (int x = i; x < k; ++x) {
                V3 a = 0.5 * (tr.a[static_cast<size_t>(x)] + tr.a[static_cast<size_t>(x) + 1]);
                p += v * 0.01 + 0.5 * a * 1e-4;
                v += a * 0.01;
            }
            Align al;
            Qd qk = tr.q[static_cast<size_t>(k)];
            al.from(l, qk, p);
            double tilt = std::acos(std::min(1.0, (l.q.conjugate() * V3(0, 0, 1)).dot(qk.conjugate() * V3(0, 0, 1))));
            double ep = (l.p - al.R * p).norm(), ev = (l.v - al.R * v).norm();
            double lag = frac > 0 ? 0.01 : 0;
            c.note(fmt("tilt %.5f, position %.5f, velocity %.5f", tilt, ep, ev));
            c.check(tilt < 3e-3 + lag, "C16-vertical", fmt("after the start the vertical is off by %.4f rad", tilt));
            c.check(ep < 3e-3 + 2 * lag, "C16-origin", fmt("after the start the position relative to the first frame is off by %.4f m", ep));
            c.check(ev < 1e-2 + 5 * lag, "C16-velocity", fmt("after the start the velocity is off by %.4f m/s", ev));
            c.outcome(mc::mix(world::hash(l), static_cast<mc::u64>(k)));
        }
    };
    return s;
}

// ---------------------------------------------------------------- C17
const double TP = 5e-4, TV = 2e-3, TQ = 5e-4, TC = 0.005;
struct Disruption { int type = 0, frame = 0, phase = 0; };      // 0 none, 1 reset, 2 three samples missing, 3 six samples missing, 4 both
mc::Scenario recovery(int window, int rate, int pace) {
    mc::Scenario s;
    const int most = mc::thorough() ? 3 : 2;
    s.name = fmt("disruptions, window %d, %d Hz, motion %d", window, rate, pace);
    s.bounds = fmt("up to %d disruptions, the first at frame 0..%d, the others 0..3 frames later, each out of: reset 0..4 samples before the frame, 3 or 6 IMU samples missing up to the frame so that the update fails, both; frames in time or two samples late; exact or noisy observations, biases exact or slightly off; 6 further frames; each time compared with a new system fed from the new start on", most, window + 2);
    s.splitDepth = 4;
    s.body = [=](Ctx &c) {
        drawSeed = 1;
        const int per = 5;
        const int variant = c.choose(mc::thorough() ? 8 : 4, "variant");
        const bool late = variant & 1;
        const bool noisy = variant == 1 || variant == 2 || variant == 5 || variant == 6;
        const bool wrongBias = variant == 2 || variant == 3 || variant == 4 || variant == 5;
        const int lag = late ? 2 : 0;
        std::vector<Disruption> ds;
        int at = 0;
        for (int i = 0; i < most; ++i) {
            Disruption d;
            if (i) { d.type = c.choose(5, "again"); if (!d.type) break; }
            else d.type = 1 + c.choose(4, "type");
            d.frame = at = at + (i ? c.choose(4, "frames later") : c.choose(window + 3, "frame"));
            if (d.type == 1) d.phase = c.choose(per, "phase");
            ds.push_back(d);
        }
        const int total = (at + 7) * per;
        auto resetAt = [&](int k) { for (auto &d : ds) if ((d.type == 1 && k == std::max(0, d.frame * per - d.phase)) || (d.type == 4 && k == std::max(0, d.frame * per - 1))) return true; return false; };
        auto gapAt = [&](int k) { for (auto &d : ds) if (d.type >= 2 && k > d.frame * per - (d.type == 3 ? 6 : 3) && k <= d.frame * per + lag && k > 0) return true; return false; };
        std::vector<Seg> sg = {{3.0 / rate, V3::Zero(), V3::Zero()}};
        if (pace == 0) { sg.push_back({20.0 / rate, V3(1.2, 0.6, -0.4), V3(0.2, -0.3, 0.5)}); sg.push_back({12.0 / rate, V3::Zero(), V3::Zero()}); sg.push_back({2.0, V3(-0.8, 1, 0.5), V3(-0.3, 0.2, 0.6)}); }
        else { sg.push_back({10.0 / rate, V3(0.5, -1.2, 1), V3(-0.5, 0.2, -0.3)}); sg.push_back({25.0 / rate, V3(-1, 0.8, 0.6), V3(0.6, 0.3, 0.8)}); sg.push_back({2.0, V3(0.4, -0.4, -0.8), V3(0.1, -0.5, -0.4)}); }
        Cfg cfg;
        cfg.window = window;
        cfg.rate = rate;
        if (pace) cfg.idle = 60000;
        Truth tr(rate, cfg.g, sg);
        V3 tba(0.25, -0.15, 0.2), tbg(0.02, -0.015, 0.01);
        cfg.ba = tba + (wrongBias ? V3(0.01, -0.008, 0.006) : V3::Zero());
        cfg.bg = tbg + (wrongBias ? V3(-0.001, 0.0015, 0.001) : V3::Zero());
        auto lm = cloud(20);
        for (auto &x : lm) x.x() += 2;
        Sim a(cfg);
        std::unique_ptr<Sim> n;
        const double nz = noisy ? cfg.sigma : 0;
        auto frame = [&](Sim &sim, int k) {
            auto m = look(cfg, tr, lm, sim.stamp(k), k, 0, nz, [](int) { return 3; });
            sim.b->GetFeaturesMessage(m);
            ++sim.pending;
            if (!sim.haveOffset) { sim.offset = m->timeStamp - sim.stamp(k); sim.haveOffset = true; }
        };
        auto imu = [&](Sim &sim, int k) { sim.imuRaw(tr.accel(k) + tba, tr.gyro(k) + tbg, sim.stamp(k)); };
        auto feed = [&](Sim &sim, int k, bool noImu) {
            if (!late && k % per == 0) frame(sim, k);
            if (!noImu) imu(sim, k);
            sim.drain();
            if (late && k % per == lag && k >= lag) { frame(sim, k - lag); sim.drain(); }
        };
        std::map<int, AttitudeEstimateItem> running;
        int lastBad = -1, lastDown = 0, starts = 0, compared = 0, lastUp = -1;
        V3 ba = cfg.ba, bg = cfg.bg;
        std::vector<Cam> ext;
        Align al;
        bool hurt = false;
        double wp = 0, wv = 0, wq = 0, wc = 0;
        for (int k = 0; k < total && k < tr.samples(); ++k) {
            const bool was = a.up(), reset = resetAt(k), gap = gapAt(k);
            if (reset) { a.b->Reset(); c.check(!a.up(), "C17-reset", "after a reset the status is not uninitialized"); }
            if (reset || gap) { lastBad = k; hurt = true; }
            feed(a, k, gap);
            if (!gap && !a.b->attitudeEstimator.items.empty()) running[k] = *a.b->attitudeEstimator.items.back();
            const bool frameNow = k % per == lag;
            if (gap && frameNow && k >= per && a.up()) c.check(false, "C17-fail", "an update without IMU data near the frame does not bring the system back to the uninitialized status");
            if (was && !a.up() && !reset && !(gap && frameNow)) c.check(false, "C17-lost", fmt("the system gives up at sample %d although nothing failed", k));
            if (reset && !a.up()) n.reset();
            c.step();
            if (!a.up()) {
                n.reset();
                lastDown = k;
                ba = a.b->propagator.bias_a.cast<double>();
                bg = a.b->propagator.bias_g.cast<double>();
                ext.clear();
                for (auto &e : a.b->frameManager.extrinsics) ext.push_back(cam(e.q_bc, e.p_bc));
                c.check(k - std::max(lastBad, 0) <= 3 * per + lag, "C17-slow", fmt("at sample %d the system has not started again, the last disruption was at %d", k, lastBad));
                continue;
            }
            if (!hurt) { lastUp = k; continue; }
            if ((!was || reset) && frameNow) {
                // a new system, fed from the frame before this one on
                ++starts;
                Cfg nc = cfg;
                nc.ba = ba;
                nc.bg = bg;
                nc.ext = ext;
                if (reset) { nc.ba = a.b->propagator.bias_a.cast<double>(); }
                n.reset(new Sim(nc));
                const int kj = k - lag, ki = kj - per;
                c.check(ki >= 0, "C17-one", "the system initializes with a single frame");
                for (int x = ki; x <= k; ++x) {
                    feed(*n, x, gapAt(x));
                    // the attitude estimate runs through failures; the new system is given the same one
                    if (x == ki && running.count(ki)) {
                        auto it = std::make_shared<AttitudeEstimateItem>(running[ki]);
                        it->timeStamp = n->stamp(ki) + n->offset;
                        n->b->attitudeEstimator.items.clear();
                        n->b->attitudeEstimator.items.push_back(it);
                    }
                }
                c.check(n->up(), "C17-harness", "the new system does not start with the same data");
                c.check(a.b->frameManager.frames.size() == n->b->frameManager.frames.size(), "C17-window", fmt("after the new start the window holds %zu frames, that of a new system %zu", a.b->frameManager.frames.size(), n->b->frameManager.frames.size()));
                c.check(a.b->featureManager.features.size() == n->b->featureManager.features.size(), "C17-landmarks", fmt("after the new start there are %zu landmarks, in a new system %zu", a.b->featureManager.features.size(), n->b->featureManager.features.size()));
                Pub u = a.latest(), w = n->latest();
                al.from(u, w.q, w.p);
                // the attitude estimate ran on through the disruptions, with the biases estimated so far
                const Qd &tq = tr.q[static_cast<size_t>(k)];
                double tilt = std::acos(std::min(1.0, (u.q.conjugate() * V3(0, 0, 1)).dot(tq.conjugate() * V3(0, 0, 1))));
                c.check(tilt < 0.04 + 0.02 * static_cast<double>(ds.size()), "C17-vertical", fmt("after the new start the vertical is off by %.4f rad", tilt));
                lastUp = k;
            } else if (n) feed(*n, k, gap);
            if (!n) continue;
            auto &ae = a.b->attitudeEstimator;
            if (frameNow) c.check(ae.bias_a == a.b->propagator.bias_a && ae.bias_g == a.b->propagator.bias_g, "C17-attitude-bias", "the attitude estimate, from which the next start takes the vertical, does not use the biases estimated so far");
            Pub u = a.latest(), w = n->latest(), u2 = a.updated(), w2 = n->updated();
            c.check(u.ok && w.ok, "C17-publish", "no state is published after the new start");
            c.check(std::fabs(u.t - w.t) < 1e-6 && std::fabs(u2.t - w2.t) < 1e-6, "C17-time", fmt("the states are for other instants (%.4f, %.4f) than those of a new system (%.4f, %.4f), sample %d, up at %d", u.t, u2.t, w.t, w2.t, k, lastUp));
            Err e = errorOf(u, al, w.q, w.p, w.v);
            e.p = (u.p - al.R * w.p).norm();                   // both start at the origin
            wp = std::max(wp, e.p);
            wv = std::max(wv, e.v);
            wq = std::max(wq, e.q);
            c.compared();
            if (!(e.p < TP && e.v < TV && e.q < TQ))
                c.check(false, "C17-estimate", fmt("%d samples after the new start the state differs from that of a new system by %.4g m, %.4g m/s, %.4g rad", k - lastUp, e.p, e.v, e.q));
            c.check((u.ba - w.ba).norm() < 5e-3 && (u.bg - w.bg).norm() < 1e-3, "C17-bias", "the biases differ from those of a new system");
            MX P = joint(*a.b), Q = joint(*n->b);
            c.check(P.rows() == Q.rows(), "C17-covariance", "the covariance has another size than that of a new system");
            for (long r = 0; r + 3 <= P.rows(); r += 3) {
                double x = P.block<3, 3>(r, r).trace(), y = Q.block<3, 3>(r, r).trace();
                wc = std::max(wc, (std::fabs(x - y) - 1e-9) / std::max(x, y));
                if (!(std::fabs(x - y) < TC * std::max(x, y) + 1e-9)) c.check(false, "C17-covariance", fmt("%d samples after the new start the variance of %s is %.4g, that of a new system %.4g", k - lastUp, element(r, cfg.cams).c_str(), x, y));
            }
            ++compared;
            c.state(mc::mix(world::hash(u), static_cast<mc::u64>(starts)));
        }
        c.note(fmt("%d new starts, %d states compared, worst %.5f m, %.5f m/s, %.5f rad, variance %.4f", starts, compared, wp, wv, wq, wc));
        c.check(a.up(), "C17-never", "the system does not start again");
        (void)lastDown;
        c.outcome(mc::mix(world::hash(a.latest()), static_cast<mc::u64>(lastUp)));
    };
    return s;
}

// ---------------------------------------------------------------- C18
struct Raw { double t; V3 a, w; };
mc::Scenario publication(int motion, double frac, int rate) {
    mc::Scenario s;
    const int frames = mc::thorough() ? 8 : 6, bound = mc::thorough() ? 4 : 3;
    s.name = fmt("publication, motion %d, %d Hz, frames %s", motion, rate, frac > 0 ? fmt("%.1f after a sample", frac).c_str() : "at samples");
    s.bounds = fmt("%d frames, 5 samples apart; up to %d departures from timely arrival: a frame late by 0..4 samples, a frame missing, one or two samples missing after a frame, processing held back for three messages, a reset", frames, bound);
    s.devBound = bound;
    s.splitDepth = 4;
    s.body = [=](Ctx &c) {
        History h = historyOf(motion, frames, frac, rate);
        h.per = 5;
        Sim a(h.cfg);
        std::vector<Raw> raw;
        const int last = h.per * frames;
        const double period = 1.0 / rate;
        double prevLatest = -1, prevUpdate = -1, frameTime = -1, newest = -1;
        bool ever = false;
        int held = 0, gap = 0;
        std::vector<double> queued;                    // stamps of frames not processed yet
        IMUFullState sentinel;
        auto look = [&](bool all) {
            IMUFullState st;
            st.p_wb = Vector3(7, 8, 9);
            fp64 ts = -55;
            bool ok = a.b->PublishPropagateState(st, ts);
            bool ok2 = a.b->PublishUpdateState(st, ts);
            c.check(ok == ok2, "C18-both", "only one of the two states is published");
            if (!ever && !a.up()) {
                c.check(!ok, "C18-early", "a state is published before the first initialization");
                c.check(st.p_wb.x() == 7 && st.p_wb.z() == 9 && ts == -55, "C18-untouched", "the variables of the caller change although nothing is published");
                return;
            }
            ever = true;
            c.check(ok, "C18-none", "no state is published after the initialization");
            Pub l = a.latest(), u = a.updated();
            c.compared(2);
            c.check(l.finite() && u.finite(), "C18-finite", "a published state is not finite");
            c.check(std::fabs(l.q.norm() - 1) < 1e-3 && std::fabs(u.q.norm() - 1) < 1e-3, "C18-unit", "a published orientation is not a unit quaternion");
            c.check(l.t >= prevLatest - 1e-9, "C18-backwards", fmt("the time of the latest state goes back from %.4f to %.4f", prevLatest, l.t));
            c.check(u.t <= l.t + 1e-9, "C18-order", "the update state is newer than the latest state");
            prevLatest = l.t;
            if (!a.up() || !all) return;
            c.check(u.t >= prevUpdate - 1e-9, "C18-update-backwards", "the time of the update state goes back");
            prevUpdate = u.t;
            c.check(std::fabs(l.t - newest) < 1e-6, "C18-newest", fmt("the latest state is for %.4f, the newest processed sample is %.4f", l.t, newest));
            c.check(std::fabs(u.t - frameTime) < period * 1.01, "C18-update-time", fmt("the update state is for %.4f, the last update was at %.4f", u.t, frameTime));
            // the latest state follows from the update state
            size_t i = 0;
            while (i < raw.size() && raw[i].t < u.t - 1e-6) ++i;
            c.check(i < raw.size() && std::fabs(raw[i].t - u.t) < 1e-6, "C18-update-sample", "the update state is not at an IMU sample");
            Qd q = u.q;
            V3 v = u.v, p = u.p, g(0, 0, h.cfg.g);
            for (++i; i < raw.size() && raw[i].t <= newest + 1e-9; ++i) {
                double dt = raw[i].t - raw[i - 1].t;
                Qd q1 = (q * expq((0.5 * (raw[i].w + raw[i - 1].w) - u.bg) * dt)).normalized();
                V3 v1 = v + (0.5 * (q * (raw[i - 1].a - u.ba) + q1 * (raw[i].a - u.ba)) - g) * dt;
                p += 0.5 * (v + v1) * dt;
                v = v1;
                q = q1;
            }
            if (!((p - l.p).norm() < 2e-4 && (v - l.v).norm() < 1e-3 && q.angularDistance(l.q) < 1e-3))
                c.check(false, "C18-propagated", fmt("the latest state is not the update state propagated through the later samples: off by %.3g m, %.3g m/s, %.3g rad", (p - l.p).norm(), (v - l.v).norm(), q.angularDistance(l.q)));
            c.check((u.ba - l.ba).norm() < 1e-6 && (u.bg - l.bg).norm() < 1e-6, "C18-bias", "the two states carry different biases");
        };
        auto pushF = [&](int k) { pushFrame(a, h, k); queued.push_back(a.stamp(k, h.frac)); };
        auto process = [&]() {
            if (held) { look(false); return; }
            bool was = a.up();
            a.drain();
            newest = raw.empty() ? -1 : raw.back().t;
            if (!queued.empty()) {
                if (a.up()) frameTime = queued.back();
                queued.clear();
            }
            (void)was;
            c.step();
            look(true);
            c.state(mc::mix(static_cast<mc::u64>(a.up()), world::hash(a.latest())));
        };
        for (int k = 0; k < last; ++k) {
            const int f = k / h.per, ph = k % h.per;
            static thread_local int d = 0;
            if (ph == 0) {
                d = c.dev(h.frac > 0 ? 11 : 12, "frame");
                // 0 in time; late by 1..5 (0..4); then: missing, gap 1, gap 2, hold at 0, hold at 2, reset
            }
            const int lateMax = h.frac > 0 ? 4 : 5;
            const int late = d <= lateMax ? d : 0;
            const int odd = d > lateMax ? d - lateMax : 0;      // 1..6
            if (odd == 6 && ph == 0) { a.b->Reset(); }
            if (odd == 4 && ph == 0) held = 3;
            if (odd == 5 && ph == 2) held = 3;
            if (ph == 0) gap = odd == 2 ? 1 : odd == 3 ? 2 : 0;
            if (ph == 0 && odd != 1 && late == 0 && h.frac == 0) pushF(k);
            bool skip = gap > 0 && ph >= 1 && ph <= gap;
            if (!skip) {
                a.imu(h.tr, k);
                raw.push_back({a.stamp(k), V3((h.tr.accel(k) + a.trueBa()).cast<float>().cast<double>()), V3((h.tr.gyro(k) + a.trueBg()).cast<float>().cast<double>())});
            }
            process();
            if (odd != 1 && (h.frac > 0 ? ph == late : late > 0 && ph == late - 1)) { pushF(k - ph); process(); }
            if (held) --held;
            if (ph == h.per - 1 && held) { held = 0; process(); }
            (void)f;
        }
        held = 0;
        process();
        c.outcome(mc::mix(world::hash(a.latest()), static_cast<mc::u64>(ever)));
    };
    return s;
}

// ---------------------------------------------------------------- C20
enum Odd { NORMAL, GAP, EMPTY, CAM0, CAM1, TWICE, FRESH, PAUSED, AHEAD, LATE, REPEAT, ZERO, RESET, IDLE, SPARSE, MISMATCH, JUMP, BACK, LARGE, SAME, NOCAM, BURST, NOIMU, FAR, ONE, WEAK, STRANGER, ONLYSTRANGER, ODDS };
const char *oddName(int e) {
    static const char *n[] = {"normal", "samples missing", "empty frame", "camera 0 only", "camera 1 only", "ids listed twice", "all ids new", "half the tracks pause", "frame ahead of the samples", "frame late", "everything repeated", "no force", "reset", "no data", "two landmarks", "lists of different length", "100 s later", "stamps in the past", "large rates", "all observations equal", "landmarks without observation", "samples without frame", "frame without samples", "wide and opposite observations", "the last camera for half, the first for others", "a track that pauses and changes camera", "some observations by a camera without calibration", "all observations by a camera without calibration"};
    return n[e];
}
mc::Scenario odd(int begin, int depth, int cams, int window, int total = 0) {
    mc::Scenario s;
    static const char *from[] = {"from a new system", "from a running system", "from a system whose update failed", "from a full window at rest"};
    s.name = fmt("odd events %s, %d cameras, window %d", from[begin], cams, window);
    std::string all;
    for (int i = 0; i < ODDS; ++i) all += fmt("%s%s", i ? ", " : "", oddName(i));
    s.bounds = fmt("all sequences of %d steps out of: %s; then two normal steps", depth, all.c_str());
    if (total) {
        s.name = fmt("odd events over and over %s, %d cameras, window %d", from[begin], cams, window);
        s.bounds = fmt("all cycles of %d steps out of: %s; repeated for %d steps, then two normal steps", depth, all.c_str(), total);
    }
    s.splitDepth = 2;
    s.body = [=](Ctx &c) {
        drawSeed = 1;
        Cfg cfg;
        cfg.cams = cams;
        cfg.window = window;
        std::vector<Seg> sg = {{0.11, V3::Zero(), V3::Zero()}};
        if (begin == 3) sg.push_back({total * 0.05 + 3, V3::Zero(), V3::Zero()});
        else if (total) {
            sg.push_back({0.2, V3(1, -0.8, 0.5), V3(0.3, -0.2, 0.4)});
            for (int i = 0; i < total / 8 + 4; ++i) sg.push_back({0.4, V3(1, -0.8, 0.5) * (i % 2 ? 1 : -1), V3(0.3, -0.2, 0.4) * (i % 2 ? 1 : -1)});
        } else { sg.push_back({0.3, V3(1, -0.8, 0.5), V3(0.3, -0.2, 0.4)}); sg.push_back({3, V3(-0.6, 0.5, 0.2), V3(-0.2, 0.3, -0.3)}); }
        Truth tr(100, cfg.g, sg);
        auto lm = cloud(13);
        cfg.start = begin % 2 ? 1600000000.0 : 50.0;
        cfg.idle = begin % 2 ? 60000 : 0;
        Sim a(cfg);
        int k = 0, base = 0;
        double shift = 0;
        bool wasUp = false;
        auto watch = [&]() {
            Backend &b = *a.b;
            c.check(b.frameManager.frames.size() <= static_cast<size_t>(window), "C20-window", fmt("%zu frames in a window of %d", b.frameManager.frames.size(), window));
            wasUp |= a.up();
            Pub l = a.latest(), u = a.updated();
            c.check(!a.up() || (l.ok && u.ok), "C20-none", "nothing is published although the system is initialized");
            c.compared();
            for (const Pub *p : {&l, &u}) {
                if (!p->ok) continue;
                c.check(p->finite(), "C20-finite", "a published state is not finite");
                c.check(std::fabs(p->q.norm() - 1) < 1e-3, "C20-unit", "a published orientation is not a unit quaternion");
            }
        };
        auto run = [&]() { a.run(); watch(); c.step(); };
        auto all3 = [](int) { return 7; };
        auto frameAt = [&](int kk, double f, const std::function<int(int)> &m) { return look(cfg, tr, lm, a.stamp(kk, f) + shift, kk, f, cfg.sigma * 0.5, m); };
        auto push = [&](std::shared_ptr<FeaturesMessage> m) {
            for (auto &id : m->ids) id += static_cast<uint32_t>(base);
            a.b->GetFeaturesMessage(m);
        };
        auto sample = [&](int kk, double scale = 1) {
            auto m = std::make_shared<IMUMessage>();
            m->accel = (tr.accel(kk) * scale).cast<float>();
            m->gyro = (tr.gyro(kk) * scale).cast<float>();
            m->timeStamp = a.stamp(kk) + shift;
            a.b->GetIMUMessage(m);
        };
        auto step = [&](int e) {
            const int per = 5;
            const int k0 = k;
            k += per;
            if (e == RESET) a.b->Reset();
            if (e == IDLE) { for (int i = 0; i < per; ++i) run(); return; }
            if (e == JUMP) shift += 100;
            if (e == BACK) shift -= 0.1;
            if (e == FRESH) base += 1000;
            auto frame = [&](int kk, double f) {
                auto m = frameAt(kk, f, e == CAM0 ? std::function<int(int)>([](int) { return 1; })
                                 : e == CAM1 ? std::function<int(int)>([=](int) { return 1 << (cams - 1); })
                                 : e == EMPTY ? std::function<int(int)>([](int) { return 0; })
                                 : e == PAUSED ? std::function<int(int)>([](int l) { return l & 1 ? 7 : 0; })
                                 : e == SPARSE ? std::function<int(int)>([](int l) { return l < 2 ? 7 : 0; })
                                 : e == ONE ? std::function<int(int)>([=](int l) { return l & 1 ? 1 << (cams - 1) : 1; })
                                 : e == WEAK ? std::function<int(int)>([=](int l) { return (l + k0 / 5) % 3 == 0 ? 0 : (l + k0 / 5) % 3 == 1 ? 1 << (cams - 1) : 1; })
                                 : std::function<int(int)>(all3));
                if (e == TWICE) {
                    size_t n = m->ids.size();
                    for (size_t i = 0; i < n; i += 2) {
                        auto o = std::make_shared<FeatureObserve>();
                        for (auto &p : m->observes[i]->norms) if (i & 2 || p.first == 0) o->norms[p.first] = p.second + Vector2(0.01f, 0.02f);
                        m->ids.push_back(m->ids[i]); m->observes.push_back(o); m->flag.push_back(1);
                    }
                }
                if (e == MISMATCH) { m->ids.push_back(99); if (k0 % 2) { m->observes.pop_back(); } }
                if (e == NOCAM) for (size_t i = 0; i < m->observes.size(); i += 2) m->observes[i] = std::make_shared<FeatureObserve>();
                if (e == STRANGER) for (size_t i = 0; i < m->observes.size(); i += 2) m->observes[i]->norms[i % 4 ? static_cast<uint32_t>(cams) : 4000000000u] = Vector2(0.05f, -0.1f);
                if (e == ONLYSTRANGER) for (auto &o : m->observes) { o->norms.clear(); o->norms[static_cast<uint32_t>(cams)] = Vector2(0.1f, 0.2f); o->norms[7] = Vector2(0.1f, 0.2f); }
                if (e == SAME) for (auto &o : m->observes) for (auto &p : o->norms) p.second = Vector2(0.1f, -0.1f);
                if (e == FAR) { int i = 0; for (auto &o : m->observes) for (auto &p : o->norms) { p.second = (++i % 3 == 0 ? Vector2(Vector2(p.second * -1)) : Vector2(p.second * 40)); } }
                push(m);
            };
            if (e == AHEAD) { frame(k0 + 3, 0.5); run(); for (int i = 0; i < per; ++i) { sample(k0 + i); run(); } return; }
            if (e == NOIMU) { frame(k0, 0); run(); run(); return; }
            bool early = e != LATE && e != BURST;
            if (early) frame(k0, 0);
            for (int i = 0; i < per; ++i) {
                if (!(e == GAP && i < 4)) {
                    sample(k0 + i, e == ZERO ? 0 : e == LARGE ? (total ? 100 : 300) : 1);
                    if (e == REPEAT) sample(k0 + i);
                }
                if (e == REPEAT && i == 0) frame(k0, 0);
                run();
                if (i == 0 && early) run();
            }
            if (e == LATE) { frame(k0, 0); run(); }
            run();
        };
        const int pre = begin == 0 ? 0 : begin == 2 ? 4 : window + 2;
        for (int i = 0; i < pre; ++i) step(NORMAL);
        if (begin) c.check(wasUp, "C20-harness", "the system does not start");
        if (begin == 2) { step(NOIMU); step(NOIMU); c.check(!a.up(), "C20-harness", "the update does not fail"); }
        std::vector<int> cycle;
        for (int i = 0; i < std::max(depth, total); ++i) {
            if (i < depth) cycle.push_back(c.choose(ODDS, "event"));
            if (i + 1 < depth && total) continue;
            if (i + 1 == depth && total) for (int j = 0; j + 1 < depth; ++j) step(cycle[static_cast<size_t>(j)]);
            step(cycle[static_cast<size_t>(i % depth)]);
            c.state(mc::mix(mc::mix(static_cast<mc::u64>(a.up()), a.b->frameManager.frames.size()), mc::mix(a.b->featureManager.features.size(), world::hash(a.latest()))));
        }
        step(NORMAL);
        step(NORMAL);
        c.outcome(mc::mix(world::hash(a.latest()), static_cast<mc::u64>(a.up())));
    };
    return s;
}

// the queues alone, over and over: their storage grows, shrinks and moves
mc::Scenario loaderCycles(int len) {
    mc::Scenario s;
    s.name = "queues over and over";
    s.bounds = fmt("all cycles of %d calls out of: push a sample / a frame / a frame half a period before a sample / an old sample and an old frame, deliver one / a pack / everything; repeated for 240 calls", len);
    s.splitDepth = 1;
    s.body = [=](Ctx &c) {
        std::vector<int> cycle;
        for (int i = 0; i < len; ++i) cycle.push_back(c.choose(7, "call"));
        DataLoader l;
        l.imuPeriod = 0.01f;
        std::shared_ptr<CombinedMessage> out;
        double t = 1600000000.0, newest = -1;
        size_t in = 0, got = 0;
        auto sample = [&](double at) {
            auto m = std::make_shared<IMUMessage>();
            m->timeStamp = at;
            m->accel = Vector3(0, 0, 9.81f);
            m->gyro = Vector3::Zero();
            l.PushIMUMessage(m);
        };
        auto frame = [&](double at) {
            auto m = std::make_shared<FeaturesMessage>();
            m->timeStamp = at;
            m->ids = {1, 2};
            for (int i = 0; i < 2; ++i) { auto o = std::make_shared<FeatureObserve>(); o->norms[0] = Vector2(0.1f, 0.2f); m->observes.push_back(o); m->flag.push_back(1); }
            l.PushFeaturesMessage(m);
        };
        auto take = [&](bool ok) {
            if (!ok) return;
            ++got;
            for (auto &i : out->imuMeas) { c.check(i != nullptr && std::isfinite(i->timeStamp) && std::fabs(i->accel.z() - 9.81f) < 1e-4, "C20-sample", "a delivered sample is garbage"); newest = std::max(newest, i->timeStamp); }
            if (out->featMeas) c.check(out->featMeas->ids.size() == 2 && out->featMeas->observes.size() == 2 && out->featMeas->observes[1]->norms[0].y() == 0.2f, "C20-frame", "a delivered frame is garbage");
            c.compared();
        };
        for (int i = 0; i < 240; ++i) {
            switch (cycle[static_cast<size_t>(i % len)]) {
                case 0: sample(t += 0.01); ++in; break;
                case 1: frame(t += 0.03); ++in; break;
                case 2: frame(t + 0.005); sample(t += 0.01); in += 2; break;
                case 3: sample(t - 1); frame(t - 1); in += in == 0 ? 2 : 0; break;
                case 4: take(l.PopOneMessage(out)); break;
                case 5: take(l.PopPackedMessage(out)); break;
                case 6: { size_t n = 0; while (l.PopOneMessage(out)) { take(true); c.check(++n <= 1000, "C20-endless", "the queues never run empty"); } break; }
            }
            c.step();
        }
        c.state(mc::mix(mc::mix(in, got), mc::bits(newest)));
        c.outcome(got);
    };
    return s;
}

// ---------------------------------------------------------------- C21
// a script is a fixed list of calls to one system; outputs are compared bit by bit
struct Call { int kind = 0, k = 0; };                 // 0 IMU sample, 1 frame, 2 process, 3 reset, 4 empty frame
struct Script {
    Cfg cfg;
    Truth tr{100, 9.81, {}};
    std::vector<V3> lm;
    double noise = 0, off = 0;               // frames come this fraction of a period after a sample
    int mask = 3;
    std::vector<std::vector<Call>> chunks;
    size_t calls() const { size_t n = 0; for (auto &c : chunks) n += c.size(); return n; }
};
Script scriptOf(int kind, int chunks) {
    Script s;
    const int per = 5;
    std::vector<Seg> sg = {{0.06, V3::Zero(), V3::Zero()}};
    if (kind == 0) sg.push_back({3, V3(1, 0.6, -0.4), V3(0.2, -0.3, 0.4)});
    else if (kind == 1) sg.push_back({3, V3(-0.6, 0.9, 0.5), V3(-0.3, 0.2, -0.5)});
    else sg.push_back({3, V3(0.3, -1.1, 0.4), V3(0.1, 0.3, 0.2)});
    if (kind >= 4) {                                             // configured differently in every respect
        s.cfg.rate = kind == 4 ? 125 : 80;
        s.cfg.g = kind == 4 ? 9.78 : 9.83;
        s.cfg.cams = kind == 4 ? 3 : 2;
    }
    s.tr = Truth(s.cfg.rate, s.cfg.g, sg);
    s.lm = cloud(kind == 0 ? 45 : kind == 1 ? 38 : 26);
    s.cfg.window = 3;
    s.cfg.ba = V3(0.02, 0.01, -0.02);
    if (kind >= 4) {
        s.cfg.window = kind == 4 ? 5 : 2;
        s.cfg.ba = V3(-0.05, 0.03, 0.04);
        s.cfg.bg = V3(0.002, -0.003, 0.001);
        s.cfg.sigma *= 2;
        s.cfg.na *= 3; s.cfg.ng *= 2; s.cfg.nwa *= 5; s.cfg.nwg *= 4;
        if (kind == 5) s.off = 0.9;
        s.cfg.minTrack = 14; s.cfg.minParallax = 0.01; s.cfg.maxMove = 0.3;
        s.mask = s.cfg.cams == 3 ? 7 : 3;
    }
    s.cfg.start = kind == 0 ? 100 : kind == 1 ? 7.25 : kind == 2 ? 2000.5 : 1600000000.0;
    s.noise = s.cfg.sigma * 0.7;
    if (kind == 3) s.mask = 1;
    for (int i = 0; i < chunks; ++i) {
        std::vector<Call> c;
        bool gap = kind == 2 && i == 3;
        if (kind == 2 && i == 4) c.push_back({3, 0});
        c.push_back({kind == 1 && i == chunks - 2 ? 4 : 1, i * per});
        for (int j = 0; j < per; ++j) {
            if (!gap) c.push_back({0, i * per + j});
            c.push_back({2, 0});
        }
        s.chunks.push_back(c);
    }
    return s;
}
mc::u64 bits(const void *p, size_t n, mc::u64 h) {
    const unsigned char *b = static_cast<const unsigned char *>(p);
    for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
    return mc::mix(h, n);
}
__attribute__((noinline)) void dirty(int fill) {
    volatile unsigned char junk[60000];
    for (size_t i = 0; i < sizeof junk; ++i) junk[i] = static_cast<unsigned char>(fill);
    asm volatile("" : : "r"(&junk) : "memory");
}
struct Player {
    const Script &sc;
    Sim sim;
    size_t chunk = 0, call = 0;
    int fill, arm = 0;
    std::vector<mc::u64> out;
    Player(const Script &s, int fill_) : sc(s), sim(s.cfg), fill(fill_) {}
    bool done() const { return chunk >= sc.chunks.size(); }
    void step() {
        const Call &c = sc.chunks[chunk][call];
        dirty(fill);
        Backend &b = *sim.b;
        std::shared_ptr<FeaturesMessage> msg;
        if (c.kind == 1 || c.kind == 4) msg = look(sc.cfg, sc.tr, sc.lm, sim.stamp(c.k, sc.off), c.k, sc.off, sc.noise, [&](int) { return c.kind == 4 ? 0 : sc.mask; });
        preempt::mode = arm;
        arm = 0;
        switch (c.kind) {
            case 0: sim.imu(sc.tr, c.k); break;
            case 1: case 4: b.GetFeaturesMessage(msg); break;
            case 3: b.Reset(); break;
            default: b.RunOnce();
        }
        preempt::mode = 0;
        if (++call == sc.chunks[chunk].size()) { call = 0; ++chunk; snapshot(); }
    }
    void snapshot() {
        Backend &b = *sim.b;
        mc::u64 h = 14695981039346656037ull;
        for (int w = 0; w < 2; ++w) {
            IMUFullState st;
            st.p_wb.setZero(); st.v_wb.setZero(); st.q_wb.setIdentity(); st.bias_a.setZero(); st.bias_g.setZero();
            fp64 t = -3;
            bool ok = w ? b.PublishUpdateState(st, t) : b.PublishPropagateState(st, t);
            h = mc::mix(h, ok);
            h = bits(st.p_wb.data(), 12, h); h = bits(st.v_wb.data(), 12, h); h = bits(st.q_wb.coeffs().data(), 16, h);
            h = bits(st.bias_a.data(), 12, h); h = bits(st.bias_g.data(), 12, h); h = bits(&t, 8, h);
        }
        h = mc::mix(h, static_cast<mc::u64>(b.status));
        h = mc::mix(h, b.frameManager.frames.size());
        if (!b.propagator.items.empty()) { Eigen::MatrixXd P = joint(b); h = bits(P.data(), static_cast<size_t>(P.size()) * 8, h); }
        out.push_back(h);
    }
};
// what the script gives when it runs alone in a fresh process
std::vector<mc::u64> alone(const Script &s) {
    int fd[2];
    if (::pipe(fd) != 0) abort();
    pid_t pid = ::fork();
    if (pid == 0) {
        ::close(fd[0]);
        drawSeed = 1;
        Player p(s, 0);
        while (!p.done()) p.step();
        ssize_t n = ::write(fd[1], p.out.data(), p.out.size() * sizeof(mc::u64));
        ::_exit(n > 0 ? 0 : 1);
    }
    ::close(fd[1]);
    std::vector<mc::u64> v;
    mc::u64 x;
    while (::read(fd[0], &x, sizeof x) == static_cast<ssize_t>(sizeof x)) v.push_back(x);
    ::close(fd[0]);
    int st = 0;
    ::waitpid(pid, &st, 0);
    return v;
}
// all orders of the chunks of two systems / all orders of calls with few switches
mc::Scenario together(std::vector<int> kinds, int chunks, bool calls, int switches) {
    std::vector<std::shared_ptr<Script>> sc;
    std::vector<std::vector<mc::u64>> solo;
    for (int k : kinds) { sc.push_back(std::make_shared<Script>(scriptOf(k, chunks))); solo.push_back(alone(*sc.back())); }
    mc::Scenario s;
    std::string names;
    for (int k : kinds) names += fmt("%s%d", names.empty() ? "" : "+", k);
    s.name = fmt("systems %s, %s", names.c_str(), calls ? "single calls" : "chunks");
    s.bounds = calls ? fmt("%zu systems with %zu calls each; all orders with at most %d switches between them", kinds.size(), sc[0]->calls(), switches)
                     : fmt("%zu systems with %d chunks (a frame and five samples) each; all orders of the chunks; each system created before all or at its first chunk; memory and stack filled with three patterns; afterwards the first history again in a new system", kinds.size(), chunks);
    s.splitDepth = 4;
    s.devBound = switches;
    s.body = [=](Ctx &c) {
        static unsigned seeds = 0;
        drawSeed = ++seeds * 77;                                  // whatever others have drawn
        const size_t n = sc.size();
        int how = calls ? 0 : c.choose(4, "creation and memory");
        const int fill = how == 0 ? 0 : how == 1 ? 0x5a : how == 2 ? 0xff : 0x7f;
        ::mallopt(M_PERTURB, fill);
        std::vector<std::unique_ptr<Player>> pl(n);
        if (how & 1) for (size_t i = 0; i < n; ++i) pl[n - 1 - i].reset(new Player(*sc[n - 1 - i], fill));
        auto over = [&](size_t i) { return pl[i] && pl[i]->done(); };
        size_t cur = 0;
        auto check = [&](Player &p, size_t i, const char *what) {
            size_t at = p.out.size() - 1;
            c.compared();
            if (p.out.size() <= solo[i].size() && p.out[at] == solo[i][at]) return;
            c.check(false, std::string("C21-") + what, fmt("after %zu frames system %zu differs from the same system alone in a fresh process", at + 1, i));
        };
        while (true) {
            std::vector<size_t> can;
            for (size_t i = 0; i < n; ++i) if (!over(i)) can.push_back(i);
            if (can.empty()) break;
            if (calls) {
                if (over(cur)) cur = can[0];
                std::vector<size_t> other;
                for (size_t i : can) if (i != cur) other.push_back(i);
                int d = other.empty() ? 0 : c.dev(1 + static_cast<int>(other.size()), "switch");
                if (d) cur = other[static_cast<size_t>(d - 1)];
            } else cur = can[static_cast<size_t>(c.choose(static_cast<int>(can.size()), "next"))];
            if (!pl[cur]) pl[cur].reset(new Player(*sc[cur], fill));
            size_t before = pl[cur]->out.size();
            do pl[cur]->step(); while (!calls && pl[cur]->out.size() == before);
            c.step();
            if (pl[cur]->out.size() != before) { check(*pl[cur], cur, "together"); }
            mc::u64 h = cur;
            for (auto &p : pl) h = mc::mix(h, p ? p->chunk * 100 + p->call : 99999);
            c.state(h);
        }
        for (size_t i = 0; i < n; ++i) c.check(pl[i]->out.size() == solo[i].size(), "C21-harness", "the lone run has another length");
        if (!calls) {
            pl[0].reset();
            Player again(*sc[0], fill);
            while (!again.done()) { size_t b = again.out.size(); again.step(); if (again.out.size() != b) check(again, 0, "again"); }
        }
        ::mallopt(M_PERTURB, 0);
        c.outcome(mc::mix(pl[1]->out.back(), static_cast<mc::u64>(how)));
    };
    return s;
}

// another system runs a whole frame in the middle of a call of the first: one preemption, at every basic block
mc::Scenario preempted(int ka, int kb, int chunks) {
    auto a = std::make_shared<Script>(scriptOf(ka, chunks)), b = std::make_shared<Script>(scriptOf(kb, chunks));
    auto soloA = alone(*a), soloB = alone(*b);
    auto points = std::make_shared<std::vector<preempt::Point>>();
    for (int round = 0; round < 2; ++round) {                    // the second round sees everything initialized
        points->clear();
        preempt::list = points.get();
        Player p(*a, 0);
        for (size_t n = 0; !p.done(); ++n) {
            preempt::call = n;
            p.arm = 1;
            p.step();
        }
    }
    mc::Scenario s;
    s.name = fmt("system %d preempted by system %d", ka, kb);
    s.bounds = fmt("two systems with %d chunks each, as if in two threads; one preemption of the first at each of its %zu basic blocks (the first time it is entered, in the first and in the last call that does), for 1 or 2 chunks of the second, at or after its initialization", chunks, points->size());
    s.splitDepth = 2;
    s.body = [=](Ctx &c) {
        const int begun = mc::thorough() ? c.choose(chunks - 1, "chunks the second has done") : c.choose(2, "chunks the second has done") ? 3 : 1;
        const size_t at = static_cast<size_t>(c.choose(static_cast<int>(points->size()), "block"));
        const auto &pt = (*points)[at];
        size_t where = pt.first;
        if (pt.last != pt.first && c.choose(2, "call")) where = pt.last;
        Player pa(*a, 0), pb(*b, 0);
        auto chunkB = [&]() { size_t n = pb.out.size(); while (!pb.done() && pb.out.size() == n) pb.step(); };
        auto judge = [&](Player &p, const std::vector<mc::u64> &solo, const char *who) {
            c.compared();
            for (size_t i = 0; i < p.out.size(); ++i)
                c.check(i < solo.size() && p.out[i] == solo[i], "C21-preempted", fmt("after %zu frames the %s system differs from the same system alone in a fresh process (the first was interrupted in call %zu of its history)", i + 1, who, where));
        };
        for (int i = 0; i < begun; ++i) chunkB();
        bool fired = false;
        std::function<void()> run = [&]() { fired = true; chunkB(); if (begun == 1) chunkB(); };
        for (size_t n = 0; !pa.done(); ++n) {
            if (n == where) { preempt::target = pt.pc; preempt::fire = &run; pa.arm = 2; }
            pa.step();
            c.step();
        }
        while (!pb.done()) chunkB();
        judge(pa, soloA, "first");
        judge(pb, soloB, "second");
        if (!fired) c.note("the block was not entered");
        c.state(mc::mix(at, mc::mix(where, static_cast<mc::u64>(begun))));
        c.outcome(mc::mix(static_cast<mc::u64>(fired), mc::mix(pa.out.back(), pb.out.back())));
    };
    return s;
}

// ---------------------------------------------------------------- C26
// heap in use after each processed frame of a repeated pattern: it must not grow with the number of repetitions
mc::Scenario stored(int longest, int cams, int window, bool moving = false) {
    mc::Scenario s;
    static const char *names[] = {"normal", "all ids new", "no landmarks", "first camera only", "two landmarks", "no samples", "samples missing", "reset before", "late", "half the tracks in turn", "ids listed twice", "other landmarks", "landmarks of this frame only besides the usual", "those by the first camera only"};
    const int kinds = 14;
    s.name = fmt("repeated patterns%s, %d cameras, window %d", moving ? ", moving" : "", cams, window);
    std::string all;
    for (int i = 0; i < kinds; ++i) all += fmt("%s%s", i ? ", " : "", names[i]);
    s.bounds = fmt("every pattern of 1..%d frames out of: %s; repeated for 120 frames; largest storage in frames 12..59 against frames 90..119", longest, all.c_str());
    s.splitDepth = 3;
    s.body = [=](Ctx &c) {
        drawSeed = 1;
        Cfg cfg;
        cfg.cams = cams;
        cfg.window = window;
        std::vector<Seg> sg = {{moving ? 0.2 : 6.5, V3::Zero(), V3::Zero()}};
        if (moving) {
            sg.push_back({0.25, V3(0, 1.5, 0.7), V3(0.2, 0.1, 0)});
            for (int i = 0; i < 14; ++i) sg.push_back({0.5, V3(0, 1.5, 0.7) * (i % 2 ? 1 : -1), V3(0.2, 0.1, 0) * (i % 2 ? 1 : -1)});
        }
        Truth tr(100, cfg.g, sg);
        auto lm = cloud(24);
        const int len = 1 + c.choose(longest, "length");
        std::vector<int> word;
        for (int i = 0; i < len; ++i) word.push_back(c.choose(kinds, "frame"));
        cfg.start = window > 3 ? 1600000000.0 : 50.0;
        cfg.idle = window > 3 ? 60000 : 0;
        Sim a(cfg);
        const int per = 5, total = 120;
        int base = 0;
        size_t early = 0, late = 0;
        bool wasUp = false;
        for (int f = 0; f < total; ++f) {
            const int e = word[static_cast<size_t>(f % len)];
            const int k0 = f * per;
            if (e == 7) a.b->Reset();
            if (e == 1) base += 100;
            auto frame = [&]() {
                auto m = look(cfg, tr, lm, a.stamp(k0, 0), k0, 0, cfg.sigma * 0.5, [&](int l) {
                    switch (e) {
                        case 2: return 0;
                        case 3: return l < 12 ? 1 : 0;
                        case 4: return l < 2 ? 7 : 0;
                        case 9: return l < 12 && (l + f) % 2 ? 7 : 0;
                        case 11: return l < 12 ? 0 : 7;
                        case 12: return 7;
                        case 13: return l < 12 ? 7 : 1;
                        default: return l < 12 ? 7 : 0;
                    }
                });
                if (e >= 12) for (auto &id : m->ids) if (id > 12) id += static_cast<uint32_t>(100000 + 100 * f);
                for (auto &id : m->ids) id += static_cast<uint32_t>(base);
                if (e == 10) for (size_t i = 0, n = m->ids.size(); i < n; i += 2) { m->ids.push_back(m->ids[i]); m->observes.push_back(m->observes[i]); m->flag.push_back(1); }
                a.b->GetFeaturesMessage(m);
            };
            if (e != 8) frame();
            for (int i = 0; i < per; ++i) {
                if (e == 5 || (e == 6 && i < 4)) continue;
                auto m = std::make_shared<IMUMessage>();
                m->accel = tr.accel(k0 + i).cast<float>();
                m->gyro = tr.gyro(k0 + i).cast<float>();
                m->timeStamp = a.stamp(k0 + i);
                a.b->GetIMUMessage(m);
                m.reset();
                a.b->RunOnce();
            }
            if (e == 8) frame();
            for (int i = 0; i < 4; ++i) a.b->RunOnce();
            wasUp |= a.up();
            const size_t now = ::mallinfo2().uordblks;
            if (f >= 12 && f < 60) early = std::max(early, now);
            if (f >= 90) late = std::max(late, now);
        }
        for (int f = 0; f < total; ++f) c.step();
        c.compared();
        c.note(fmt("largest storage %zu and %zu bytes", early, late));
        c.check(late <= early + 2500, "C26-grows", fmt("the storage in use grows by %zu bytes in 60 frames of a repeated pattern", late - early));
        mc::u64 h = 0;
        for (int e : word) h = mc::mix(h, static_cast<mc::u64>(e));
        c.state(h);
        c.outcome(mc::mix(static_cast<mc::u64>(wasUp), static_cast<mc::u64>(a.up())));
    };
    return s;
}

std::vector<mc::Scenario> make(const std::string &prop) {
    std::vector<mc::Scenario> v;
    if (prop == "C22") {
        v.push_back(ideal(100, 0, true, 100));
        v.push_back(ideal(125, 0, false, 1403636580.84));
        v.push_back(ideal(200, 0.4, true, 1500000017.3));
        v.push_back(ideal(100, 0.7, false, 0));
        v.push_back(longRun(mc::thorough() ? 60 : 15));
        if (mc::thorough()) for (int rate : {100, 128, 200}) for (double frac : {0.0, 0.3, 0.9}) v.push_back(ideal(rate, frac, frac < 0.5, 1000.01));
    }
    if (prop == "C16") {
        v.push_back(start(0, false));
        v.push_back(start(0.47, false));
        v.push_back(start(0, false, 2, 170));
        v.push_back(start(0, true));
        v.push_back(start(0, false, 3));
    }
    if (prop == "C17") {
        v.push_back(recovery(3, 100, 0));
        v.push_back(recovery(5, 200, 1));
        if (mc::thorough()) { v.push_back(recovery(2, 100, 1)); v.push_back(recovery(4, 125, 0)); }
    }
    if (prop == "C20") {
        const int d = mc::thorough() ? 3 : 2;
        v.push_back(odd(0, d, 2, 3));
        v.push_back(odd(0, d, 1, 3));
        v.push_back(odd(1, 3, 2, 3));
        v.push_back(odd(2, d, 2, 4));
        v.push_back(odd(3, d, 3, 5));
        v.push_back(odd(1, d, 2, 1));
        v.push_back(odd(1, 2, 2, 3, 75));
        if (d > 2) { v.push_back(odd(0, 2, 2, 4, 150)); v.push_back(odd(3, 2, 3, 2, 75)); }
        v.push_back(loaderCycles(mc::thorough() ? 5 : 4));
        if (d > 2) { v.push_back(odd(1, 3, 3, 2)); v.push_back(odd(3, 3, 2, 4)); }
    }
    if (prop == "C26") {
        v.push_back(stored(mc::thorough() ? 4 : 3, 2, 3));
        v.push_back(stored(2, 3, 5));
        v.push_back(stored(2, 1, 2));
        v.push_back(stored(2, 2, 4, true));
        if (mc::thorough()) v.push_back(stored(3, 3, 6));
    }
    if (prop == "C21") {
        int deep = mc::thorough() ? 1 : 0;
        v.push_back(together({0, 1}, 6 + deep, false, 0));
        v.push_back(together({2, 0}, 6 + deep, false, 0));
        v.push_back(together({1, 3}, 6 + deep, false, 0));
        v.push_back(together({0, 2}, 6, true, 2 + deep));
        v.push_back(together({0, 4}, 6 + deep, false, 0));
        v.push_back(together({4, 5}, 5 + deep, false, 0));
        v.push_back(together({0, 4}, 5, true, 1 + deep));
        v.push_back(preempted(0, 1, 6));
        v.push_back(preempted(2, 0, 6));
        if (deep) { v.push_back(preempted(1, 2, 7)); v.push_back(preempted(3, 0, 7)); }
        if (deep) v.push_back(together({0, 1, 2}, 4, false, 0));
    }
    if (prop == "C23") {
        v.push_back(late(0, 0, 100));
        v.push_back(late(1, 0.4, 100));
        v.push_back(late(0, 0, 100, 4));
        v.push_back(late(1, 0.3, 100, 4));
        if (mc::thorough()) { v.push_back(late(1, 0, 128)); v.push_back(late(0, 0.7, 200)); v.push_back(late(1, 0.2, 125)); }
    }
    if (prop == "C18") {
        v.push_back(publication(0, 0, 100));
        v.push_back(publication(1, 0.4, 125));
        if (mc::thorough()) { v.push_back(publication(1, 0, 128)); v.push_back(publication(0, 0.8, 200)); }
    }
    return v;
}
}  // namespace

int main(int argc, char **argv) { return mc::run(argc, argv, make); }
