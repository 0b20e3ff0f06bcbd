// C08: the vision update against the reference Kalman update.  C09: covariance blocks of joining and leaving
// frames.  C10: validity of the covariance in system histories.  C24: which landmarks are used.
#include <kalman.hpp>
using namespace ref;
using mc::Ctx;
using mc::fmt;

namespace { std::function<int()> drawHook; int drawCount = 0; }
extern "C" int rand(void) { return drawHook ? drawHook() : (++drawCount * 7919) % 1000; }
extern "C" int rand_r(unsigned int *) { return rand(); }

namespace {
// true body poses of the frames of a window
Cam pose(int motion, int i, double pace = 1) {
    double t = i * pace;
    switch (motion) {
        case 0: return {expq(V3(0.02, 0.01, 0.03) * t), V3(0.05, 0.3, 0.02) * t};
        case 1: return {expq(V3(0.3, -0.2, 0.4)) * expq(V3(0.01, -0.02, 0.05) * t), V3(1, 2, -1) + V3(0.25, -0.1, 0.2) * t};
        default: return {expq(V3(0, 0, 2.5)) * expq(V3(0.1, 0.02, -0.04) * t), V3(-5, 3, 2) + V3(0.1, 0.05, -0.3) * t + V3(0, 0.05, 0) * t * t};
    }
}
std::vector<V3> landmarksFor(int motion, int n) {
    std::vector<V3> l = cloud(n), r;
    Cam c = pose(motion, 0);
    for (auto &x : l) r.push_back(c.p + c.q * x);
    return r;
}
struct Setup {
    Cfg cfg;
    std::unique_ptr<Backend> b;
    State truth;
    MX P;
    std::vector<double> sig;
};

// standard deviations of the state components
std::vector<double> sigmas(int cams, int win) {
    std::vector<double> s;
    for (double x : {0.03, 0.1, 0.01, 0.05, 0.005}) for (int k = 0; k < 3; ++k) s.push_back(x * (1 + 0.2 * k));
    for (int i = 0; i < cams; ++i) { for (int k = 0; k < 3; ++k) s.push_back(0.01 + 0.002 * k); for (int k = 0; k < 3; ++k) s.push_back(0.005 + 0.001 * k); }
    for (int i = 0; i < win; ++i) { for (int k = 0; k < 3; ++k) s.push_back(0.03 - 0.004 * k + 0.003 * i); for (int k = 0; k < 3; ++k) s.push_back(0.01 + 0.001 * k + 0.001 * i); }
    return s;
}
MX covariance(const std::vector<double> &sg, int type) {
    long n = static_cast<long>(sg.size());
    MX C = MX::Identity(n, n);
    if (type > 0) {
        MX A(n, n);
        for (long i = 0; i < n; ++i) for (long j = 0; j < n; ++j) A(i, j) = std::sin(1.7 * static_cast<double>((i + 1) * (type + 1)) + 0.9 * static_cast<double>(j * j + type));
        C = (type == 1 ? 0.3 : 1.0) * A * A.transpose() / static_cast<double>(n) + (type == 1 ? 1.0 : 0.3) * MX::Identity(n, n);
        VX d = C.diagonal().cwiseSqrt().cwiseInverse();
        C = (d.asDiagonal() * C * d.asDiagonal()).eval();
    }
    VX s(n);
    for (long i = 0; i < n; ++i) s(i) = sg[static_cast<size_t>(i)];
    return s.asDiagonal() * C * s.asDiagonal();
}

void setItem(Backend &b, const State &s, const MX &P, double t) {
    b.propagator.items.clear();
    auto it = std::make_shared<IMUPropagateQueueItem>();
    it->nominalState.p_wb = s.p.cast<float>();
    it->nominalState.v_wb = s.v.cast<float>();
    it->nominalState.q_wb = s.q.cast<float>();
    it->accel = Vector3(0, 0, 9.81f);
    it->gyro = Vector3(0, 0, 0);
    it->timeStamp = t;
    it->imuCov = P.topLeftCorner(15, 15).cast<float>();
    it->imuExCamCov = P.topRightCorner(15, P.cols() - 15).cast<float>();
    b.propagator.exCamCov = P.bottomRightCorner(P.rows() - 15, P.cols() - 15).cast<float>();
    b.propagator.items.push_back(it);
    b.propagator.bias_a = s.ba.cast<float>();
    b.propagator.bias_g = s.bg.cast<float>();
}
std::shared_ptr<FeaturesMessage> message(double t, const State &truth, int frame, const std::vector<V3> &lm, const std::function<int(int, int)> &mask, const std::function<V2(int, int, int)> &noise) {
    auto m = std::make_shared<FeaturesMessage>();
    m->timeStamp = t;
    for (size_t i = 0; i < lm.size(); ++i) {
        int bits = mask(static_cast<int>(i), frame);
        auto o = std::make_shared<FeatureObserve>();
        for (size_t c = 0; c < truth.ext.size(); ++c) if (bits >> c & 1) {
            V3 pc = camPoint(truth, frame, static_cast<int>(c), lm[i]);
            o->norms[static_cast<uint32_t>(c)] = (V2(pc.x() / pc.z(), pc.y() / pc.z()) + noise(static_cast<int>(i), frame, static_cast<int>(c))).cast<float>();
        }
        if (o->norms.empty()) continue;
        m->ids.push_back(static_cast<uint32_t>(i + 1));
        m->observes.push_back(o);
        m->flag.push_back(1);
    }
    return m;
}

// visibility of landmark l in frame f of n (bits: cameras)
int visible(int pattern, int l, int f, int n, int cams) {
    const int all = (1 << cams) - 1;
    switch (pattern) {
        case 0: return all;
        case 1: return f >= l % n ? all : 0;                                   // tracks start one after the other
        case 2: return (f + l) % 3 == 1 && f != n - 1 ? 0 : (l % 2 ? 1 : all);  // gaps; half of them in the first camera only
        case 3: return 1 << ((f + l) % cams);                                  // one camera at a time
        case 4: return l % 3 == 0 ? (f < n - 1 ? all : 0) : l % 3 == 1 ? (f == n - 1 ? 1 : 0) : all;   // also ended tracks and single views
        case 5: return f == n - 1 ? (cams > 1 ? 2 : 1) : (f == 0 ? all : 0);   // first and newest frame only
        default: return f < n - 1 ? all : (l % 2 ? 0 : 0);                     // nothing in the newest frame
    }
}

const double TOL = 0.005;

// what an update must lead to, from the state before it; landmarks as given
void compareUpdate(Ctx &c, Backend &b, const State &before, const MX &P, std::vector<Lm> lms, int cams, const std::string &prop, bool exactTruth) {
    std::vector<const Lm *> use;
    for (auto &l : lms) {
        triangulate(before, l);
        if (l.obs.size() >= 2 && l.margin < 1e-3) throw mc::Stop{};       // too close to decide
    }
    for (auto &l : lms) if (l.good) use.push_back(&l);
    if (use.size() > b.visionUpdator.maxUsedFeatures) throw mc::Stop{};
    State want = before;
    MX Pu = P;
    if (!use.empty()) {
        Result r = update(before, P, use, b.visionUpdator.measureNoise);
        want = r.s;
        Pu = r.P;
    }
    c.note(fmt("%zu landmarks used", use.size()));
    State got = read(b, *b.propagator.items.front());
    Diff d = stateDiff(got, want, P);
    double tol = use.empty() ? 1e-6 : TOL;
    c.compared(static_cast<mc::u64>(P.rows()));
    c.check(d.worst < tol, prop + "-state", fmt("after an update with %zu landmarks the %s is %.3g standard deviations away from the Kalman update", use.size(), d.where.c_str(), d.worst));
    if (exactTruth) {
        Diff z = stateDiff(got, before, P);
        c.check(z.worst < TOL, prop + "-agree", fmt("observations that agree with the state move the %s by %.3g standard deviations", z.where.c_str(), z.worst));
    }
    auto last = b.frameManager.frames.back();
    c.check((last->p_wb - b.propagator.items.front()->nominalState.p_wb).norm() < 1e-5 && last->q_wb.angularDistance(b.propagator.items.front()->nominalState.q_wb) < 1e-3,
            prop + "-newest-pose", "the pose of the newest frame is not the updated IMU pose");
    // the covariance: posterior, newest frame joined, dropped frame left
    MX Pe = expand(Pu), S = expand(P);
    int n = static_cast<int>(b.frameManager.frames.size());
    if (b.visionUpdator.margPolicy == MARG_OLDEST) { Pe = without(Pe, cams, 0); S = without(S, cams, 0); }
    if (b.visionUpdator.margPolicy == MARG_SUBNEW) { Pe = without(Pe, cams, n - 2); S = without(S, cams, n - 2); }
    MX Pg = joint(b);
    d = covDiff(Pg, Pe, S, cams);
    c.compared(static_cast<mc::u64>(Pe.size()));
    c.check(d.worst < (use.empty() ? 1e-6 : TOL), prop + "-covariance", fmt("after an update with %zu landmarks the covariance at %s is %.3g (in standard deviations) away from the Kalman posterior", use.size(), d.where.c_str(), d.worst));
}

mc::Scenario oneUpdate(bool wide, bool large = false) {
    mc::Scenario s;
    s.name = large ? "one update, large systems" : wide ? "one update, every state component off" : "one update, all layouts";
    s.bounds = wide ? "windows of 2..4 frames, 1 or 2 cameras, 3 motions, 2 visibility patterns, 8 or 24 landmarks, 2 covariances; each single component of the state off by one standard deviation in either direction, 3 mixtures, none, and measurement noise"
                    : "windows of 2..6 frames, 1..3 cameras, 3 motions, 7 visibility patterns, 1 / 3 / 12 / 30 landmarks, 3 covariances, no drop / drop oldest / drop second-newest, 3 errors";
    if (large) s.bounds = std::string(mc::thorough() ? "windows of 7 / 9 / 12 frames, 1 / 2 / 4 / 5 cameras" : "windows of 7 / 12 frames, 2 / 5 cameras") + ", 3 motions, 3 visibility patterns, 12 or 30 landmarks, 2 covariances, no drop / drop oldest / drop second-newest, 3 errors";
    s.splitDepth = 5;
    s.body = [wide, large](Ctx &c) {
        drawCount = 0;
        Cfg cfg;
        cfg.cams = large ? (const int[]){2, 5, 1, 4}[c.choose(mc::thorough() ? 4 : 2, "cameras")] : 1 + c.choose(wide ? 2 : 3, "cameras");
        int n = large ? (const int[]){7, 12, 9}[c.choose(mc::thorough() ? 3 : 2, "frames")] : 2 + c.choose(wide ? 3 : 5, "frames");
        int motion = c.choose(3, "motion");
        const double pace = large ? 3.0 / n : 1;
        int pattern = large ? (const int[]){0, 2, 3}[c.choose(3, "visibility")] : wide ? 1 + c.choose(2, "visibility") : c.choose(7, "visibility");
        int count = large ? (c.choose(2, "landmarks") ? 30 : 12) : wide ? (c.choose(2, "landmarks") ? 24 : 8) : (const int[]){1, 3, 12, 30}[c.choose(4, "landmarks")];
        int ptype = c.choose(wide || large ? 2 : 3, "covariance");
        int drop = wide ? 0 : c.choose(n > 2 ? 3 : 2, "drop");
        cfg.window = drop ? n - 1 : large ? 20 : 8;
        cfg.minTrack = drop == 1 ? 1000 : 0;
        cfg.maxMove = drop == 1 ? 0.0 : 100.0;
        int dim = 15 + 6 * cfg.cams + 6 * (n - 1);
        auto sg = sigmas(cfg.cams, n - 1);
        int pert = wide ? c.choose(2 * dim + 6, "error") : (const int[]){0, 1, 4}[c.choose(3, "error")];
        VX d = VX::Zero(dim);
        double nz = 0;
        if (pert >= 1 && pert <= 3) for (int k = 0; k < dim; ++k) d(k) = sg[static_cast<size_t>(k)] * std::sin(2.1 * k * pert + pert);
        if (pert == 4 || pert == 5) nz = pert == 4 ? 1 : 3;
        if (pert >= 6) d((pert - 6) / 2) = sg[static_cast<size_t>((pert - 6) / 2)] * ((pert & 1) ? -1 : 1);
        Sim sim(cfg);
        Backend &b = *sim.b;
        State t;
        Cam last = pose(motion, n - 1, pace);
        t.p = last.p;
        t.q = last.q;
        t.v = V3(0.3, -0.2, 0.1);
        t.ba = V3(0.02, 0.01, -0.03);
        t.bg = V3(0.001, -0.002, 0.003);
        t.ext = rig(cfg.cams);
        for (int i = 0; i + 1 < n; ++i) t.win.push_back(pose(motion, i, pace));
        State est = plus(t, d);
        auto lm = landmarksFor(motion, count);
        auto noise = [&](int l, int f, int k) -> V2 { return V2(std::sin(3.1 * l + 1.7 * f + k), std::cos(2.3 * l - 0.7 * f + 2 * k)) * nz * cfg.sigma; };
        for (int f = 0; f < n; ++f) b.UpdateFeatureFrameManager(message(10 + 0.1 * f, t, f, lm, [&](int l, int fr) { return visible(pattern, l, fr, n, cfg.cams); }, noise));
        for (int f = 0; f + 1 < n; ++f) {
            b.frameManager.frames[static_cast<size_t>(f)]->p_wb = est.win[static_cast<size_t>(f)].p.cast<float>();
            b.frameManager.frames[static_cast<size_t>(f)]->q_wb = est.win[static_cast<size_t>(f)].q.cast<float>();
        }
        for (size_t i = 0; i < est.ext.size(); ++i) { b.frameManager.extrinsics[i].p_bc = est.ext[i].p.cast<float>(); b.frameManager.extrinsics[i].q_bc = est.ext[i].q.cast<float>(); }
        MX P = covariance(sg, ptype);
        setItem(b, est, P, 10 + 0.1 * (n - 1));
        State before = read(b, *b.propagator.items.front());
        auto lms = landmarks(b);
        bool ok = b.visionUpdator.Update(10 + 0.1 * (n - 1), b.dataloader.imuPeriod);
        c.step();
        c.check(ok, "C08-fails", "the update fails");
        c.check(b.visionUpdator.margPolicy == (drop == 0 ? NO_MARG : drop == 1 ? MARG_OLDEST : MARG_SUBNEW) || n == 2, "C08-policy", "another frame is dropped than expected");
        c.state(mc::mix(static_cast<mc::u64>(pattern * 100 + n * 10 + cfg.cams), static_cast<mc::u64>(pert)));
        c.outcome(static_cast<mc::u64>(lms.size()));
        compareUpdate(c, b, before, P, lms, cfg.cams, "C08", pert == 0);
    };
    return s;
}

// ---------------------------------------------------------------- C24
// kinds of unusable landmarks
enum Bad { SINGLE = 1, OLD = 2, BEHIND = 4 };
mc::Scenario selection(bool many) {
    mc::Scenario s;
    s.name = many ? "more landmarks than allowed" : "which landmarks are used";
    s.bounds = many ? "28..32 usable landmarks with the default limit of 30, 3 unusable ones, 5 regular draw sequences, 1 or 2 cameras"
                    : "1..4 usable landmarks, limit 0..4, all sets of unusable landmarks (seen once, not seen in the newest frame, behind the cameras), every draw of 0 / 1 / 12345 / RAND_MAX for up to 5 draws, then a fixed sequence, 1 or 2 cameras";
    s.splitDepth = 4;
    s.body = [many](Ctx &c) {
        Cfg cfg;
        cfg.cams = 1 + c.choose(2, "cameras");
        const int n = 3;
        cfg.window = 8;
        int good = many ? 28 + c.choose(5, "usable") : 1 + c.choose(4, "usable");
        int limit = many ? 30 : c.choose(5, "limit");
        int bad = many ? 7 : c.choose(8, "unusable");
        int regular = many ? c.choose(5, "draws") : 0;
        State t;
        Cam last = pose(1, n - 1);
        t.p = last.p;
        t.q = last.q;
        t.v = V3(0.3, -0.2, 0.1);
        t.ba = V3(0.02, 0.01, -0.03);
        t.bg = V3(0.001, -0.002, 0.003);
        t.ext = rig(cfg.cams);
        for (int i = 0; i + 1 < n; ++i) t.win.push_back(pose(1, i));
        auto lm = landmarksFor(1, good);
        std::vector<int> kind(lm.size(), 0);
        std::vector<V3> extra = landmarksFor(1, 3);
        auto insert = [&](const V3 &x, int k, size_t at) { lm.insert(lm.begin() + static_cast<long>(at), x); kind.insert(kind.begin() + static_cast<long>(at), k); };
        if (bad & SINGLE) insert(extra[0] + V3(0.1, 0.2, 0.1), SINGLE, 0);
        if (bad & OLD) insert(extra[1] + V3(0.1, -0.2, 0.1), OLD, lm.size() / 2);
        if (bad & BEHIND) {
            Cam c0 = pose(1, 0);
            insert(c0.p + c0.q * V3(-5, 0.7, 0.4), BEHIND, lm.size());
        }
        Sim sim(cfg);
        Backend &b = *sim.b;
        if (!many) b.visionUpdator.maxUsedFeatures = static_cast<uint32_t>(limit);
        const int all = (1 << cfg.cams) - 1;
        auto noise = [&](int l, int f, int k) -> V2 { return V2(std::sin(3.1 * l + 1.7 * f + k), std::cos(2.3 * l - 0.7 * f + 2 * k)) * (kind[static_cast<size_t>(l)] ? 0 : cfg.sigma); };
        for (int f = 0; f < n; ++f)
            b.UpdateFeatureFrameManager(message(10 + 0.1 * f, t, f, lm, [&](int l, int fr) {
                int k = kind[static_cast<size_t>(l)];
                return k == SINGLE ? (fr == n - 1 ? 1 : 0) : k == OLD ? (fr < n - 1 ? all : 0) : all; }, noise));
        for (int f = 0; f + 1 < n; ++f) {
            b.frameManager.frames[static_cast<size_t>(f)]->p_wb = t.win[static_cast<size_t>(f)].p.cast<float>();
            b.frameManager.frames[static_cast<size_t>(f)]->q_wb = t.win[static_cast<size_t>(f)].q.cast<float>();
        }
        MX P = covariance(sigmas(cfg.cams, n - 1), 1);
        setItem(b, t, P, 10 + 0.1 * (n - 1));
        State before = read(b, *b.propagator.items.front());
        auto lms = landmarks(b);
        std::vector<const Lm *> ok;
        for (auto &l : lms) {
            triangulate(before, l);
            c.check(l.good == (kind[l.id - 1] == 0), "harness", "the reference disagrees with the construction of the landmarks");
            if (l.good) ok.push_back(&l);
        }
        int calls = 0;
        drawHook = [&]() {
            int k = calls++;
            if (many) switch (regular) {
                case 0: return 0;
                case 1: return k;
                case 2: return RAND_MAX - k;
                case 3: return k % 2 ? RAND_MAX : 0;
                default: return (k * 7919) % 101;
            }
            if (k >= 5) return k;
            return (const int[]){0, 1, 12345, RAND_MAX}[c.choose(4, "draw")];
        };
        bool res = b.visionUpdator.Update(10 + 0.1 * (n - 1), b.dataloader.imuPeriod);
        drawHook = nullptr;
        c.step();
        c.check(res, "C24-fails", "the update fails");
        State got = read(b, *b.propagator.items.front());
        size_t use = std::min(ok.size(), static_cast<size_t>(limit));
        // every subset of the right size is allowed
        std::vector<bool> pick(ok.size(), false);
        std::fill(pick.begin(), pick.begin() + static_cast<long>(use), true);
        double best = INFINITY;
        std::string where;
        MX Pg = joint(b), S = expand(P);
        do {
            std::vector<const Lm *> sel;
            for (size_t i = 0; i < ok.size(); ++i) if (pick[i]) sel.push_back(ok[i]);
            State want = before;
            MX Pu = P;
            if (!sel.empty()) {
                Result r = update(before, P, sel, b.visionUpdator.measureNoise);
                want = r.s;
                Pu = r.P;
            }
            Diff d = stateDiff(got, want, P), e = covDiff(Pg, expand(Pu), S, cfg.cams);
            if (e.worst > d.worst) d = e;
            c.compared();
            if (d.worst < best) { best = d.worst; where = d.where; }
        } while (best > TOL && std::prev_permutation(pick.begin(), pick.end()));
        c.state(mc::mix(static_cast<mc::u64>(good * 8 + limit), static_cast<mc::u64>(bad)));
        c.outcome(mc::mix(mc::grid(got.p.x(), 1e-5), mc::grid(got.v.x(), 1e-5)));
        c.check(best < TOL, ok.size() <= static_cast<size_t>(limit) ? "C24-all" : "C24-limit",
                fmt("with %zu usable landmarks and a limit of %d the result is not the update with any %zu of them (best match off by %.3g standard deviations at %s)", ok.size(), limit, use, best, where.c_str()));
    };
    return s;
}

// many copies of one landmark: whichever are drawn, the result is the update with as many copies as allowed
mc::Scenario crowd() {
    mc::Scenario s;
    s.name = "many landmarks in one place";
    s.bounds = "1, 2, 29..32, 49..52, 59..64, 99..102, 127..130, 150 landmarks at the same place, limits 0, 1, 2, 29, 30, 31, 50, 60, 61, 64, 100, 101, 127, 128, 200, 3 regular draw sequences, 1 or 2 cameras";
    s.splitDepth = 3;
    s.body = [](Ctx &c) {
        static const int numbers[] = {1, 2, 29, 30, 31, 32, 49, 50, 51, 52, 59, 60, 61, 62, 63, 64, 99, 100, 101, 102, 127, 128, 129, 130, 150};
        static const int limits[] = {0, 1, 2, 29, 30, 31, 50, 60, 61, 64, 100, 101, 127, 128, 200};
        Cfg cfg;
        cfg.cams = 1 + c.choose(2, "cameras");
        const int n = 3, all = (1 << cfg.cams) - 1;
        cfg.window = 8;
        const int good = numbers[c.choose(25, "usable")], limit = limits[c.choose(15, "limit")], regular = c.choose(3, "draws");
        State t;
        Cam last = pose(1, n - 1);
        t.p = last.p;
        t.q = last.q;
        t.v = V3(0.3, -0.2, 0.1);
        t.ba = V3(0.02, 0.01, -0.03);
        t.bg = V3(0.001, -0.002, 0.003);
        t.ext = rig(cfg.cams);
        for (int i = 0; i + 1 < n; ++i) t.win.push_back(pose(1, i));
        std::vector<V3> lm(static_cast<size_t>(good), landmarksFor(1, 3)[0]);
        Sim sim(cfg);
        Backend &b = *sim.b;
        b.visionUpdator.maxUsedFeatures = static_cast<uint32_t>(limit);
        auto noise = [&](int, int f, int k) -> V2 { return V2(std::sin(1.7 * f + k), std::cos(0.7 * f + 2 * k)) * cfg.sigma; };
        for (int f = 0; f < n; ++f) b.UpdateFeatureFrameManager(message(10 + 0.1 * f, t, f, lm, [&](int, int) { return all; }, noise));
        for (int f = 0; f + 1 < n; ++f) {
            b.frameManager.frames[static_cast<size_t>(f)]->p_wb = t.win[static_cast<size_t>(f)].p.cast<float>();
            b.frameManager.frames[static_cast<size_t>(f)]->q_wb = t.win[static_cast<size_t>(f)].q.cast<float>();
        }
        MX P = covariance(sigmas(cfg.cams, n - 1), 1);
        setItem(b, t, P, 10 + 0.1 * (n - 1));
        State before = read(b, *b.propagator.items.front());
        auto lms = landmarks(b);
        std::vector<const Lm *> sel;
        for (auto &l : lms) {
            triangulate(before, l);
            c.check(l.good, "harness", "the reference disagrees with the construction of the landmarks");
            if (sel.size() < static_cast<size_t>(limit)) sel.push_back(&l);
        }
        int calls = 0;
        drawHook = [&]() {
            int k = calls++;
            return regular == 0 ? 0 : regular == 1 ? RAND_MAX - k : (k * 7919) % 101;
        };
        bool res = b.visionUpdator.Update(10 + 0.1 * (n - 1), b.dataloader.imuPeriod);
        drawHook = nullptr;
        c.step();
        c.check(res, "C24-fails", "the update fails");
        State got = read(b, *b.propagator.items.front()), want = before;
        MX Pu = P;
        if (!sel.empty()) {
            Result r = update(before, P, sel, b.visionUpdator.measureNoise);
            want = r.s;
            Pu = r.P;
        }
        Diff d = stateDiff(got, want, P), e = covDiff(joint(b), expand(Pu), expand(P), cfg.cams);
        if (e.worst > d.worst) d = e;
        c.compared();
        c.state(mc::mix(static_cast<mc::u64>(good), static_cast<mc::u64>(limit)));
        c.outcome(sel.size());
        c.check(d.worst < TOL, "C24-number", fmt("with %d usable landmarks at one place and a limit of %d the result is not the update with %zu of them (off by %.3g standard deviations at %s)", good, limit, sel.size(),
                                                 d.worst, d.where.c_str()));
    };
    return s;
}

// the landmarks of the second of two updates, whatever the first one used
mc::Scenario succession() {
    mc::Scenario s;
    s.name = "two updates in a row";
    s.bounds = "1 or 2 cameras, 0 / 3 / 6 landmarks in the first update; in the second each of 6 old and 3 new landmarks unseen or seen by all cameras; limit 2, 5 or 30 landmarks";
    s.splitDepth = 5;
    s.body = [](Ctx &c) {
        Cfg cfg;
        cfg.cams = 1 + c.choose(2, "cameras");
        cfg.window = 8;
        const int n = 3, all = (1 << cfg.cams) - 1;
        const int first = 3 * c.choose(3, "first"), limit = (const int[]){30, 5, 2}[c.choose(3, "limit")];
        int seen = 0;
        for (int l = 0; l < 9; ++l) seen |= c.choose(2, "seen") << l;
        auto lm = landmarksFor(1, 9);
        State t;
        t.v = V3(0.3, -0.2, 0.1);
        t.ba = V3(0.02, 0.01, -0.03);
        t.bg = V3(0.001, -0.002, 0.003);
        t.ext = rig(cfg.cams);
        Sim sim(cfg);
        Backend &b = *sim.b;
        b.visionUpdator.maxUsedFeatures = static_cast<uint32_t>(limit);
        auto noise = [&](int l, int f, int k) -> V2 { return V2(std::sin(3.1 * l + 1.7 * f + k), std::cos(2.3 * l - 0.7 * f + 2 * k)) * cfg.sigma; };
        auto at = [&](int m) {                                   // the truth when frame m is the newest
            State x = t;
            x.p = pose(1, m).p;
            x.q = pose(1, m).q;
            for (int i = 0; i < m; ++i) x.win.push_back(pose(1, i));
            return x;
        };
        for (int f = 0; f < n; ++f) b.UpdateFeatureFrameManager(message(10 + 0.1 * f, at(n - 1), f, lm, [&](int l, int) { return l < first ? all : 0; }, noise));
        for (int f = 0; f + 1 < n; ++f) {
            b.frameManager.frames[static_cast<size_t>(f)]->p_wb = pose(1, f).p.cast<float>();
            b.frameManager.frames[static_cast<size_t>(f)]->q_wb = pose(1, f).q.cast<float>();
        }
        setItem(b, at(n - 1), covariance(sigmas(cfg.cams, n - 1), 1), 10 + 0.1 * (n - 1));
        drawCount = 0;
        c.check(b.visionUpdator.Update(10 + 0.1 * (n - 1), b.dataloader.imuPeriod), "C24-fails", "the first update fails");
        c.step();
        b.UpdateFeatureFrameManager(message(10 + 0.1 * n, at(n), n, lm, [&](int l, int) { return seen >> l & 1 ? all : 0; }, noise));
        State est = at(n);
        est.ba = b.propagator.bias_a.cast<double>();
        est.bg = b.propagator.bias_g.cast<double>();
        MX P = covariance(sigmas(cfg.cams, n), 1);
        setItem(b, est, P, 10 + 0.1 * n);
        State before = read(b, *b.propagator.items.front());
        auto lms = landmarks(b);
        std::vector<const Lm *> ok;
        for (auto &l : lms) {
            triangulate(before, l);
            if (l.obs.size() >= 2 && l.margin < 1e-3) throw mc::Stop{};
            if (l.good) ok.push_back(&l);
        }
        bool res = b.visionUpdator.Update(10 + 0.1 * n, b.dataloader.imuPeriod);
        c.step();
        c.check(res, "C24-fails", "the second update fails");
        State got = read(b, *b.propagator.items.front());
        size_t use = std::min(ok.size(), static_cast<size_t>(limit));
        std::vector<bool> pick(ok.size(), false);
        std::fill(pick.begin(), pick.begin() + static_cast<long>(use), true);
        double best = INFINITY;
        std::string where;
        do {
            std::vector<const Lm *> sel;
            for (size_t i = 0; i < ok.size(); ++i) if (pick[i]) sel.push_back(ok[i]);
            State want = sel.empty() ? before : update(before, P, sel, b.visionUpdator.measureNoise).s;
            Diff d = stateDiff(got, want, P);
            c.compared();
            if (d.worst < best) { best = d.worst; where = d.where; }
        } while (best > TOL && std::prev_permutation(pick.begin(), pick.end()));
        c.state(mc::mix(static_cast<mc::u64>(seen), static_cast<mc::u64>(first)));
        c.outcome(ok.size());
        c.check(best < TOL, "C24-second", fmt("the second update is not the one with %zu of its %zu usable landmarks (best match off by %.3g standard deviations at %s)", use, ok.size(), best, where.c_str()));
    };
    return s;
}

// ---------------------------------------------------------------- C09
struct Rec { double t; std::map<int, std::map<int, V2>> obs; };
MX jointAt(Backend &b, const IMUPropagateQueueItem &it) {
    long m = it.imuExCamCov.cols();
    MX P(15 + m, 15 + m);
    P.topLeftCorner(15, 15) = it.imuCov.cast<double>();
    P.topRightCorner(15, m) = it.imuExCamCov.cast<double>();
    P.bottomLeftCorner(m, 15) = it.imuExCamCov.transpose().cast<double>();
    P.bottomRightCorner(m, m) = b.propagator.exCamCov.topLeftCorner(m, m).cast<double>();
    return P;
}
bool shapes(Backend &b, std::string &why) {
    long m = 6 * static_cast<long>(b.frameManager.extrinsics.size() + b.frameManager.frames.size());
    auto &ex = b.propagator.exCamCov;
    if (ex.rows() != m || ex.cols() != m) { why = fmt("the covariance of cameras and frames is %ldx%ld, must be %ld", static_cast<long>(ex.rows()), static_cast<long>(ex.cols()), m); return false; }
    for (auto &i : b.propagator.items) if (i->imuExCamCov.rows() != 15 || i->imuExCamCov.cols() != m) { why = fmt("the correlation of a propagated state is %ldx%ld, must be 15x%ld", static_cast<long>(i->imuExCamCov.rows()), static_cast<long>(i->imuExCamCov.cols()), m); return false; }
    return true;
}

mc::Scenario blocks(int cams, int window) {
    mc::Scenario s;
    const bool large = window > 4;                       // all histories up to some deviations from two regular ones
    const bool small = !large && window > 3 && !mc::thorough();
    const int steps = window + (large ? 3 : 2);
    const int devs = mc::thorough() ? 3 : 2;
    s.name = fmt("join and leave, %d camera%s, window %d", cams, cams > 1 ? "s" : "", window);
    s.bounds = fmt(small ? "histories of %d frames; each frame: moved little / far, no or many landmarks in it; 0 or 1 later IMU samples already there" : "histories of %d frames; each frame: moved little / far, no / few / many landmarks in it, 0 or 1 later IMU samples already there", steps);
    if (large) {
        s.bounds = fmt("histories of %d frames, all far apart or alternating, all with many landmarks; up to %d deviations, each of them a frame moved differently, with no or few landmarks, or with a later IMU sample already there", steps, devs);
        s.devBound = devs;
    }
    s.splitDepth = 6;
    s.body = [cams, window, steps, small, large](Ctx &c) {
        drawCount = 0;
        Cfg cfg;
        cfg.cams = cams;
        cfg.window = window;
        cfg.minTrack = 4;
        cfg.maxMove = 0.1;
        Sim sim(cfg);
        Backend &b = *sim.b;
        const int rate = cfg.rate;
        State t;
        t.ext = rig(cams);
        t.v = V3(0.3, -0.2, 0.1);
        t.ba = V3(0.02, 0.01, -0.03);
        t.bg = V3(0.001, -0.002, 0.003);
        std::vector<V3> lm = cloud(9);
        // the first sample tells the time offset of this loader
        sim.imuRaw(V3(0, 0, 9.81), V3::Zero(), sim.stamp(0));
        sim.drain();
        auto trueCam = [&](double x, double a) { return Cam{expq(V3(0.02, 0.01, 0.03) * a), V3(0.6 * x, x, -0.3 * x)}; };
        double along = 0;
        t.p = trueCam(0, 0).p;
        t.q = trueCam(0, 0).q;
        auto push = [&](int k, const Cam &body, int nl) {
            Rec r;
            r.t = sim.stamp(k);
            State one;
            one.p = body.p;
            one.q = body.q;
            one.ext = rig(cams);
            auto m = message(r.t, one, 0, lm, [&](int l, int) { return l < nl ? (1 << cams) - 1 : 0; }, [&](int l, int f, int q) -> V2 { return V2(std::sin(3.1 * l + 1.7 * k + q), std::cos(2.3 * l - 0.7 * k + 2 * q)) * cfg.sigma; });
            for (size_t i = 0; i < m->ids.size(); ++i) for (auto &o : m->observes[i]->norms) r.obs[static_cast<int>(m->ids[i])][static_cast<int>(o.first)] = o.second.cast<double>();
            b.GetFeaturesMessage(m);
            ++sim.pending;
            return r;
        };
        // one frame in the window, correlated with everything
        std::vector<Rec> win = {push(0, trueCam(0, 0), 9)};
        sim.drain();
        c.check(b.frameManager.frames.size() == 1, "harness", "the first frame did not stay");
        b.frameManager.frames[0]->p_wb = Vector3::Zero();
        b.frameManager.frames[0]->q_wb = Quaternion::Identity();
        {
            State est = t;
            est.win.push_back(trueCam(0, 0));
            setItem(b, est, covariance(sigmas(cams, 1), 2), sim.stamp(0) + sim.offset);
            b.propagator.items.back()->accel = (t.q.conjugate() * V3(0, 0, 9.81) + t.ba).cast<float>();
            b.propagator.items.back()->gyro = t.bg.cast<float>();
        }
        b.status = INITIALIZED;
        int k = 0;
        const int lateAll = small ? c.choose(2, "late") : 0;
        const int regular = large ? c.choose(2, "regular") : 0;
        for (int step = 1; step <= steps; ++step) {
            const bool far = large ? (regular == 0 || step % 2 == 0) != (c.dev(2, "far") == 1) : c.flip("far");
            along += far ? 0.25 : 0.02;
            int nl = large ? (const int[]){9, 0, 3}[c.dev(3, "landmarks")] : small ? 9 * c.choose(2, "landmarks") : (const int[]){0, 9, 3}[c.choose(step < 2 || step > window ? 2 : 3, "landmarks")];
            int late = large ? c.dev(2, "late") : step > window ? 0 : small ? lateAll : c.choose(2, "late");
            Cam now = trueCam(along, step);
            ++k;
            // samples: the anchor and possibly one more; exactCov: propagation leaves cameras alone
            MX ex = b.propagator.exCamCov.cast<double>();
            for (int i = 0; i <= late; ++i) {
                sim.imuRaw(t.q.conjugate() * V3(0, 0, 9.81) + t.ba, t.bg, sim.stamp(k + i));
                sim.drain();
                std::string why;
                c.check(shapes(b, why), "C09-size", why);
            }
            c.check((b.propagator.exCamCov.cast<double>() - ex).cwiseAbs().maxCoeff() == 0, "C09-propagation", "propagation changes the covariance of cameras or frames");
            c.check(b.propagator.items.size() >= static_cast<size_t>(1 + late), "harness", "samples missing");
            auto &it = *b.propagator.items[b.propagator.items.size() - static_cast<size_t>(1 + late)];
            c.check(std::fabs(it.timeStamp - sim.offset - sim.stamp(k)) < 1e-6, "harness", "wrong sample");
            // the nominal state at the frame is put where the frame is, so that small updates stay small
            it.nominalState.p_wb = now.p.cast<float>();
            it.nominalState.q_wb = now.q.cast<float>();
            State before;
            before.p = it.nominalState.p_wb.cast<double>();
            before.v = it.nominalState.v_wb.cast<double>();
            before.q = it.nominalState.q_wb.cast<double>().normalized();
            before.ba = b.propagator.bias_a.cast<double>();
            before.bg = b.propagator.bias_g.cast<double>();
            for (auto &e : b.frameManager.extrinsics) before.ext.push_back(cam(e.q_bc, e.p_bc));
            for (auto &f : b.frameManager.frames) before.win.push_back(cam(f->q_wb, f->p_wb));
            MX P = jointAt(b, it);
            win.push_back(push(k, now, nl));
            sim.drain();
            c.step();
            c.check(b.status == INITIALIZED, "C09-fails", "the update fails");
            std::string why;
            c.check(shapes(b, why), "C09-size", why);
            // which frame left
            int left = -1;
            auto &fr = b.frameManager.frames;
            c.check(fr.size() == win.size() || fr.size() + 1 == win.size(), "C09-window", fmt("%zu frames of %zu remain", fr.size(), win.size()));
            if (fr.size() < win.size()) {
                left = static_cast<int>(fr.size());
                for (size_t i = 0; i < fr.size(); ++i) if (std::fabs(fr[i]->timeStamp - sim.offset - win[i].t) > 1e-6) { left = static_cast<int>(i); break; }
            }
            // reference: update, join, leave
            std::vector<Lm> lms;
            for (auto &o : win.back().obs) {
                Lm l;
                l.id = static_cast<uint32_t>(o.first);
                for (size_t f = 0; f < win.size(); ++f) {
                    auto a = win[f].obs.find(o.first);
                    if (a != win[f].obs.end()) for (auto &z : a->second) l.obs.push_back({static_cast<int>(f), z.first, z.second});
                }
                triangulate(before, l);
                if (l.obs.size() >= 2 && l.margin < 1e-3) throw mc::Stop{};
                lms.push_back(l);
            }
            std::vector<const Lm *> use;
            for (auto &l : lms) if (l.good) use.push_back(&l);
            MX Pe = P;
            State want = before;
            if (!use.empty()) { Result r = update(before, P, use, b.visionUpdator.measureNoise); Pe = r.P; want = r.s; }
            Pe = expand(Pe);
            MX S = expand(P);
            want.win.push_back({want.q, want.p});
            if (left >= 0) {
                Pe = without(Pe, cams, left);
                S = without(S, cams, left);
                win.erase(win.begin() + left);
                want.win.erase(want.win.begin() + left);
            }
            c.note(fmt("frame %d: %zu landmarks used, frame %d left", step, use.size(), left));
            MX Pg = joint(b);
            double tol = use.empty() ? 1e-6 : 4 * TOL;
            Diff d = covDiff(Pg, Pe, S, cams);
            c.compared(static_cast<mc::u64>(Pg.size()));
            c.check(d.worst < tol, "C09-blocks", fmt("after frame %d (%zu landmarks used, frame %d left) the covariance at %s is off by %.3g standard deviations", step, use.size(), left, d.where.c_str(), d.worst));
            // and the poses go with the blocks
            for (size_t i = 0; i < fr.size(); ++i)
                c.check((fr[i]->p_wb.cast<double>() - want.win[i].p).norm() < 2e-3 && fr[i]->q_wb.cast<double>().angularDistance(want.win[i].q) < 2e-3, "C09-pose", fmt("after frame %d frame %zu of the window does not have its own pose", step, i));
            k += late;
            c.state(mc::mix(mc::grid(Pg.trace(), 1e-5), static_cast<mc::u64>(left + 1)));
        }
        c.outcome(mc::grid(joint(b).trace(), 1e-6));
    };
    return s;
}

// ---------------------------------------------------------------- C10
void valid(Ctx &c, Backend &b) {
    std::string why;
    c.check(shapes(b, why), "C10-size", why);
    for (size_t i = 0; i < b.propagator.items.size(); ++i) {
        auto &it = *b.propagator.items[i];
        MX P = jointAt(b, it);
        c.check(P.allFinite(), "C10-finite", "the covariance is not finite");
        double asym = 0, scale = 1e-30;
        for (long r = 0; r < P.rows(); ++r) scale = std::max(scale, std::fabs(P(r, r)));
        VX d(P.rows());
        for (long r = 0; r < P.rows(); ++r) {
            if (!(P(r, r) >= -1e-7 * scale)) c.check(false, "C10-negative", fmt("the variance of component %s is %.3g", element(r, static_cast<int>(b.frameManager.extrinsics.size())).c_str(), P(r, r)));
            d(r) = 1 / std::sqrt(std::max(P(r, r), 1e-12));
        }
        MX N = d.asDiagonal() * P * d.asDiagonal();
        asym = (N - N.transpose()).cwiseAbs().maxCoeff();
        c.check(asym < 1e-3, "C10-asymmetric", fmt("the covariance is asymmetric by %.3g", asym));
        if (i == 0 || i + 1 == b.propagator.items.size()) {
            Eigen::SelfAdjointEigenSolver<MX> es(0.5 * (N + N.transpose()), Eigen::EigenvaluesOnly);
            c.check(es.eigenvalues()(0) > -1e-3, "C10-psd", fmt("the normalized covariance has the eigenvalue %.4g", es.eigenvalues()(0)));
        }
        c.compared();
    }
}

mc::Scenario validity(int cams, int window, bool lasting = false) {
    mc::Scenario s;
    const int frames = lasting ? (mc::thorough() ? 600 : 150) : mc::thorough() ? 7 : 5;
    s.name = fmt("%s histories, %d cameras, window %d", lasting ? "long" : "system", cams, window);
    s.bounds = lasting ? fmt("rest / accelerate / turn; measurement noise of 0, 1 or 10 standard deviations; %d frames in all 16 two-step cycles of all landmarks / the first camera only / three landmarks / none", frames)
                       : fmt("rest / accelerate / turn; measurement noise of 0, 1 or 10 standard deviations; after initialization %d frames, each with all landmarks / the first camera only / three landmarks / none; every propagated and updated covariance is checked", frames);
    s.splitDepth = lasting ? 4 : 5;
    s.body = [cams, window, frames, lasting](Ctx &c) {
        drawCount = 0;
        Cfg cfg;
        cfg.cams = cams;
        cfg.window = window;
        cfg.rate = 100;
        int motion = c.choose(3, "motion");
        int nz = (const int[]){1, 0, 10}[c.choose(3, "noise")];
        std::vector<Seg> sg = {{0.2, V3::Zero(), V3::Zero()}};
        const int cyc = lasting ? c.choose(16, "cycle") : 0;
        for (int i = 0; i < (lasting ? frames / 4 + 2 : 6); ++i)
            sg.push_back(lasting ? Seg{0.2, V3(1.2, 0.6, -0.8) * (motion == 0 ? 0 : (i + 1) / 2 % 2 ? -1 : 1), V3(0.2, -0.1, 0.3) * (motion != 2 ? 0 : i % 2 ? -1 : 1)}
                                 : Seg{0.2, motion == 0 ? V3::Zero() : V3(0.6 * (i % 2 ? -1 : 1), 0.4, 0.2 * i - 0.4), motion == 2 ? V3(0.1, -0.2 + 0.1 * i, 0.5) : V3::Zero()});
        Truth tr(cfg.rate, cfg.g, sg);
        auto lm = cloud(14);
        Sim sim(cfg);
        Backend &b = *sim.b;
        const int per = 5;
        int done = 0, f = 0;
        for (int k = 0; k < tr.samples() && done < frames; ++k) {
            sim.imu(tr, k);
            sim.drain();
            if (b.status == INITIALIZED) valid(c, b);
            if (k % per) continue;
            bool was = b.status == INITIALIZED;
            int what = !was ? 0 : lasting ? (f & 1 ? cyc & 3 : cyc >> 2) : c.choose(4, "frame");
            MX P;
            std::vector<double> stamps;
            size_t nItems = b.propagator.items.size();
            if (was) {
                P = jointAt(b, *b.propagator.items.back());
                for (auto &x : b.frameManager.frames) stamps.push_back(x->timeStamp);
            }
            Qd q; V3 pp;
            tr.pose(k, 0, q, pp);
            State t;
            t.p = pp;
            t.q = q;
            t.ext = rig(cams);
            auto m = message(sim.stamp(k), t, 0, lm, [&](int l, int) { return what == 0 ? (1 << cams) - 1 : what == 1 ? 1 : what == 2 ? (l < 3 ? 3 : 0) : 0; },
                             [&](int l, int, int cm) -> V2 { return V2(std::sin(3.1 * l + 1.7 * f + cm), std::cos(2.3 * l - 0.7 * f + 2 * cm)) * cfg.sigma * nz; });
            b.GetFeaturesMessage(m);
            ++sim.pending;
            sim.drain();
            ++f;
            c.step();
            if (b.status != INITIALIZED) { if (was) throw mc::Stop{}; continue; }
            valid(c, b);
            if (!was) continue;
            ++done;
            (void)nItems;
            MX Q = joint(b);
            auto cmp = [&](long a, long o) {
                double before = P(o, o), after = Q(a, a);
                if (!(after <= before * (1 + 1e-3) + 1e-12)) c.check(false, "C10-grows", fmt("a vision update raises the variance of %s from %.6g to %.6g", element(o, cams).c_str(), before, after));
            };
            for (long i = 0; i < 15 + 6 * cams; ++i) cmp(i, i);
            for (size_t i = 0; i + 1 < b.frameManager.frames.size(); ++i) {
                size_t o = 0;
                while (o < stamps.size() && stamps[o] != b.frameManager.frames[i]->timeStamp) ++o;
                c.check(o < stamps.size(), "C10-window", "a frame of the window was not there before");
                for (int x = 0; x < 6; ++x) cmp(15 + 6 * cams + 6 * static_cast<long>(i) + x, 15 + 6 * cams + 6 * static_cast<long>(o) + x);
            }
            c.state(mc::mix(mc::grid(Q.trace(), 1e-6), static_cast<mc::u64>(what)));
        }
        c.check(done > 0 || nz == 10, "harness", "never initialized");
        c.outcome(done ? mc::grid(joint(b).trace(), 1e-6) : 0);
    };
    return s;
}

std::vector<mc::Scenario> make(const std::string &prop) {
    std::vector<mc::Scenario> v;
    if (prop == "C08") {
        v.push_back(oneUpdate(false));
        v.push_back(oneUpdate(true));
        v.push_back(oneUpdate(false, true));
    }
    if (prop == "C24") {
        v.push_back(selection(false));
        v.push_back(selection(true));
        v.push_back(succession());
        v.push_back(crowd());
    }
    if (prop == "C09") {
        for (int cams = 1; cams <= 2; ++cams) for (int w = 2; w <= 4; ++w) v.push_back(blocks(cams, w));
        v.push_back(blocks(2, 6));
        v.push_back(blocks(1, 9));
        v.push_back(blocks(3, 5));
    }
    if (prop == "C10") {
        v.push_back(validity(2, 3));
        v.push_back(validity(2, 5));
        v.push_back(validity(3, 3));
        v.push_back(validity(2, 4, true));
    }
    return v;
}
}  // namespace

int main(int argc, char **argv) { return mc::run(argc, argv, make); }
