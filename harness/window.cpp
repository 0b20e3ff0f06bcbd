// C04: observation bookkeeping of the sliding window; C05 (decision part): key frames and the frame to drop.
#include <world.hpp>
using namespace ESKF_VIO_BACKEND;
using mc::Ctx;
using mc::fmt;

extern "C" int rand(void) { return 4; }

namespace {
// ------------------------------------------------------------------ reference window
struct RFrame {
    int uid;
    double t;
    std::map<std::pair<int, int>, Vector2> obs;      // (landmark, camera) -> value
    bool sees(int lm) const { for (auto &o : obs) if (o.first.first == lm) return true; return false; }
};
using Ref = std::deque<RFrame>;

// extreme ids are as good as any
uint32_t idOf(int lm) { static const uint32_t v[] = {0, 0xffffffffu, 0x80000000u}; return lm < 3 ? v[lm] : static_cast<uint32_t>(100 + lm); }
Vector2 value(int uid, int lm, int cam) { return Vector2(uid + 0.25f * lm, 0.5f * cam - uid * 0.125f + lm); }

// patterns of one landmark in one frame
enum Pat { NONE, CAM0, BOTH, CAM1, EMPTY, TWICE };

std::shared_ptr<FeaturesMessage> message(int uid, double t, const std::vector<int> &pats, RFrame &r) {
    auto m = std::make_shared<FeaturesMessage>();
    r.uid = uid;
    r.t = t;
    m->timeStamp = t;
    auto add = [&](int lm, bool c0, bool c1) {
        auto o = std::make_shared<FeatureObserve>();
        if (c0) { o->norms[0] = value(uid, lm, 0); r.obs[{lm, 0}] = value(uid, lm, 0); }
        if (c1) { o->norms[1] = value(uid, lm, 1); r.obs[{lm, 1}] = value(uid, lm, 1); }
        m->ids.push_back(idOf(lm));
        m->observes.push_back(o);
        m->flag.push_back(1);
    };
    std::vector<int> again;
    for (size_t lm = 0; lm < pats.size(); ++lm) {
        int l = static_cast<int>(lm);
        switch (pats[lm]) {
            case CAM0: add(l, true, false); break;
            case CAM1: add(l, false, true); break;
            case BOTH: add(l, true, true); break;
            case EMPTY: add(l, false, false); break;
            case TWICE: add(l, true, true); again.push_back(l); break;
            default: break;
        }
    }
    for (int l : again) add(l, true, true);
    return m;
}

void verify(Ctx &c, FeatureManager &fm, FrameManager &fr, const Ref &ref, int L) {
    // requests that cannot be met: refused, and what follows finds everything as it was
    c.check(!fr.RemoveFrame(static_cast<uint32_t>(fr.frames.size())) && !fr.RemoveFrame(1000), "C04-remove-outside", "removing a frame beyond the window is not refused");
    {
        std::vector<std::shared_ptr<Feature>> changed(1);
        std::vector<std::shared_ptr<FeatureObserve>> one(1, std::make_shared<FeatureObserve>());
        one[0]->norms[0] = Vector2(5, 5);
        bool took = fm.AddNewFeatures({idOf(0), 999}, one, fr.frames.empty() ? 1 : fr.frames.back()->id, changed);
        c.check(!took && changed.empty(), "C04-mismatch", "an id list and an observation list of different length are not refused");
        fm.RemoveByID(12345);
    }
    c.check(fr.frames.size() == ref.size(), "C04-window-size", fmt("the window holds %zu frames, expected %zu", fr.frames.size(), ref.size()));
    uint32_t id = 0;
    for (size_t i = 0; i < ref.size(); ++i) {
        auto &f = fr.frames[i];
        c.check(f != nullptr, "C04-null-frame", "a frame of the window is null");
        c.check(f->timeStamp == ref[i].t, "C04-frame-order", fmt("frame %zu of the window carries stamp %g, expected %g", i, f->timeStamp, ref[i].t));
        if (i) c.check(f->id == id + 1, "C04-frame-ids", fmt("frame numbers are not consecutive: %u after %u", f->id, id));
        id = f->id;
        c.check(fr.GetFrame(id) == f, "C04-get-frame", fmt("GetFrame(%u) does not return the frame with that number", id));
        c.compared(3);
    }
    if (!ref.empty()) {
        c.check(fr.GetFrame(fr.frames.front()->id - 1) == nullptr && fr.GetFrame(id + 1) == nullptr, "C04-get-frame-outside", "GetFrame returns a frame for a number outside the window");
        c.check(fr.GetMaxFrameID() == id, "C04-max-id", "GetMaxFrameID is not the newest frame's number");
    }
    for (int lm = 0; lm < L; ++lm) {
        uint32_t lid = idOf(lm);
        uint32_t count = 0;
        for (auto &f : ref) for (auto &o : f.obs) if (o.first.first == lm) ++count;
        auto it = fm.features.find(lid);
        c.check((it != fm.features.end()) == (count > 0), "C04-existence",
                fmt("landmark %d %s although %u of its observations are in the window", lm, it != fm.features.end() ? "exists" : "is missing", count));
        if (it != fm.features.end()) {
            c.check(it->second != nullptr && it->second->id == lid, "C04-id", fmt("landmark %d is stored under another id", lm));
            c.check(it->second->observeNum == count, "C04-count", fmt("landmark %d counts %u observations, the window holds %u", lm, it->second->observeNum, count));
        }
        for (size_t i = 0; i < ref.size(); ++i) {
            auto &f = fr.frames[i];
            auto fit = f->features.find(lid);
            c.check((fit != f->features.end()) == ref[i].sees(lm), "C04-frame-refers",
                    fmt("frame %d %s landmark %d", ref[i].uid, fit != f->features.end() ? "refers to the unobserved" : "does not refer to the observed", lm));
            for (int via = 0; via < 2; ++via) {
                Feature *p = nullptr;
                if (via == 0 && it != fm.features.end()) p = it->second.get();
                if (via == 1 && fit != f->features.end()) p = fit->second.get();
                if (!p) continue;
                for (uint32_t cam = 0; cam < 3; ++cam) {
                    Vector2 n(777, 777);
                    bool got = p->GetNorm(f->id, cam, n);
                    auto o = ref[i].obs.find({lm, static_cast<int>(cam)});
                    bool exp = o != ref[i].obs.end();
                    c.compared();
                    c.check(got == exp, exp ? "C04-lookup-lost" : "C04-lookup-invented",
                            fmt("landmark %d in frame %d (number %u) camera %u: lookup %s, but it was %s there", lm, ref[i].uid, f->id, cam, got ? "succeeds" : "fails", exp ? "observed" : "not observed"));
                    if (exp) c.check(n == o->second, "C04-lookup-value", fmt("landmark %d in frame %d camera %u: lookup gives (%g %g), observed was (%g %g)", lm, ref[i].uid, cam, n.x(), n.y(), o->second.x(), o->second.y()));
                }
            }
        }
        if (it != fm.features.end() && !ref.empty()) {
            Vector2 n;
            for (uint32_t cam = 0; cam < 2; ++cam)
                c.check(!it->second->GetNorm(fr.frames.front()->id - 1, cam, n) && !it->second->GetNorm(id + 1, cam, n), "C04-lookup-outside", fmt("landmark %d: lookup in a frame outside the window succeeds", lm));
        }
    }
    c.check(fm.features.size() <= static_cast<size_t>(L), "C04-extra", "there are landmarks nobody reported");
    for (size_t i = 0; i < ref.size(); ++i) {
        c.check(fr.frames[i]->features.size() <= static_cast<size_t>(L), "C04-extra", "a frame refers to landmarks nobody reported");
        for (size_t j = 0; j < ref.size(); ++j) {
            auto v = fr.frames[i]->GetCovisibleFeatures(fr.frames[j]);
            std::set<uint32_t> got, exp;
            for (auto &p : v) got.insert(p->id);
            for (int lm = 0; lm < L; ++lm) if (ref[i].sees(lm) && ref[j].sees(lm)) exp.insert(idOf(lm));
            c.check(got == exp && v.size() == exp.size(), "C04-covisible", fmt("frames %d and %d: wrong set of common landmarks", ref[i].uid, ref[j].uid));
        }
    }
}

struct Driver {
    Backend *b = nullptr;
    FeatureManager *fm;
    FrameManager *fr;
    FeatureManager fm0;
    FrameManager fr0;
    explicit Driver(bool backend) {
        if (backend) { b = new Backend; for (int i = 0; i < 4; ++i) b->frameManager.extrinsics.emplace_back(Extrinsic(Quaternion::Identity(), Vector3::Zero())); fm = &b->featureManager; fr = &b->frameManager; }
        else { fm = &fm0; fr = &fr0; }
    }
    ~Driver() { delete b; }
    void add(const std::shared_ptr<FeaturesMessage> &m) {
        if (b) { b->UpdateFeatureFrameManager(m); return; }
        auto f = std::make_shared<Frame>(m->timeStamp);
        fr->AddNewFrame(f);
        std::vector<std::shared_ptr<Feature>> ch;
        fm->AddNewFeatures(m->ids, m->observes, f->id, ch);
        f->AddFeatures(ch);
    }
    // 0 oldest, 1 second newest, 2 newest
    void drop(int which) {
        if (b) { b->MarginalizeFeatureFrameManager(which == 0 ? MARG_OLDEST : which == 1 ? MARG_SUBNEW : MARG_NEWEST); return; }
        if (which == 0) { fm->RemoveByFrameID(fr->frames.front()->id, false); fr->RemoveFrame(0); }
        if (which == 1) { fm->RemoveByFrameID(fr->frames.back()->id - 1, true); fr->RemoveFrame(static_cast<uint32_t>(fr->frames.size()) - 2); }
        if (which == 2) { fm->RemoveByFrameID(fr->frames.back()->id, true); fr->RemoveFrame(static_cast<uint32_t>(fr->frames.size()) - 1); }
    }
};

mc::u64 refHash(const Ref &r) {
    mc::u64 h = 3;
    for (auto &f : r) { h = mc::mix(h, 99); for (auto &o : f.obs) h = mc::mix(h, static_cast<mc::u64>(o.first.first * 4 + o.first.second)); }
    return h;
}

// every sequence of arrivals (one pattern per landmark) and removals
mc::Scenario history(const char *name, bool backend, std::vector<int> pats, int L, int depth) {
    mc::Scenario s;
    s.name = name;
    s.bounds = fmt("all sequences of %d events; event = frame with each of %d landmarks in one of %zu tracking patterns, or removal of the oldest / second-newest / newest frame; %s",
                   depth, L, pats.size(), backend ? "through the system's own window operations" : "through the public window managers");
    s.splitDepth = 3;
    s.body = [=](Ctx &c) {
        Driver d(backend);
        Ref ref;
        int adds = 1;
        for (int l = 0; l < L; ++l) adds *= static_cast<int>(pats.size());
        for (int e = 0; e < depth; ++e) {
            // through the managers the caller passes the right offset itself: the oldest is dropped as oldest
            int drops = ref.empty() ? 0 : ref.size() == 1 || (!backend && ref.size() == 2) ? 2 : 3;
            int k = c.choose(adds + drops, "event");
            if (k < adds) {
                std::vector<int> p;
                int x = k;
                for (int l = 0; l < L; ++l) { p.push_back(pats[static_cast<size_t>(x) % pats.size()]); x /= static_cast<int>(pats.size()); }
                RFrame r;
                auto m = message(e + 1, 0.5 * (e + 1), p, r);
                if (c.recording) { std::string t; for (int q : p) t += "-0b1et"[q]; c.note(fmt("frame %d: %s", e + 1, t.c_str())); }
                d.add(m);
                ref.push_back(r);
            } else {
                int w = k - adds;
                if (drops == 2 && w == 1) w = 2;
                c.note(fmt("drop %s", w == 0 ? "oldest" : w == 1 ? "second newest" : "newest"));
                d.drop(w);
                if (w == 0) ref.pop_front();
                if (w == 1) ref.erase(ref.end() - 2);
                if (w == 2) ref.pop_back();
            }
            c.step();
            c.state(refHash(ref));
            verify(c, *d.fm, *d.fr, ref, L);
        }
        c.outcome(refHash(ref));
    };
    return s;
}

// a window of fixed size in steady state: after every arrival one frame leaves
mc::Scenario sliding(const char *name, int L, int window, int frames, std::vector<int> pats) {
    mc::Scenario s;
    s.name = name;
    s.bounds = fmt("windows of %d frames filled by %d arrivals; each arrival tracks each of %d landmarks in one of %zu patterns, each over-full window drops oldest or second-newest; through the system's own window operations",
                   window, frames, L, pats.size());
    s.body = [=](Ctx &c) {
        Driver d(true);
        Ref ref;
        for (int e = 0; e < frames; ++e) {
            std::vector<int> p;
            for (int l = 0; l < L; ++l) p.push_back(pats[static_cast<size_t>(c.choose(static_cast<int>(pats.size()), "pattern"))]);
            RFrame r;
            d.add(message(e + 1, 0.5 * (e + 1), p, r));
            ref.push_back(r);
            c.step();
            if (static_cast<int>(ref.size()) > window) {
                int w = c.choose(2, "drop");
                d.drop(w);
                if (w == 0) ref.pop_front(); else ref.erase(ref.end() - 2);
                c.step();
            }
            c.state(refHash(ref));
            verify(c, *d.fm, *d.fr, ref, L);
        }
        c.outcome(refHash(ref));
    };
    return s;
}

// ------------------------------------------------------------------ C05: key frames
struct Pool {
    FrameManager fr;
    FeatureManager fm;
    int uid = 0;
    void frame(const std::vector<std::pair<int, int>> &pats, const Vector3 &p, float shift) {
        auto f = std::make_shared<Frame>(1.0 + uid);
        fr.AddNewFrame(f);
        f->p_wb = p;
        std::vector<uint32_t> ids;
        std::vector<std::shared_ptr<FeatureObserve>> obs;
        for (auto &q : pats) {
            auto o = std::make_shared<FeatureObserve>();
            if (q.second == CAM0 || q.second == BOTH) o->norms[0] = Vector2(0.01f * q.first + shift, 0.1f);
            if (q.second == CAM1 || q.second == BOTH) o->norms[1] = Vector2(0.02f * q.first + shift, 0.2f);
            ids.push_back(static_cast<uint32_t>(q.first));
            obs.push_back(o);
        }
        std::vector<std::shared_ptr<Feature>> ch;
        fm.AddNewFeatures(ids, obs, f->id, ch);
        f->AddFeatures(ch);
        ++uid;
    }
};
// what the boundary lattice produces, with the expected answers
struct Expect { bool key; bool dontCare; };

Expect lattice(Ctx &c, Pool &P, int n, int k, uint32_t minTrack, float maxTrans) {
    int dShared = c.choose(5, "shared");                   // minTrack - 1, minTrack, minTrack + 1, 0, many
    int shared = dShared == 3 ? 0 : dShared == 4 ? 150 : static_cast<int>(minTrack) - 1 + dShared;
    int sharedCam = c.choose(3, "cams");                   // both cams, cam0 only, cam0 here and both there
    int decoy = c.choose(3, "decoy");                      // further landmarks: none, shared in camera 1 only, shared with the frame before the predecessor only
    int move = c.choose(3, "move");                        // 0, just below, just above the limit
    int dir = move ? c.choose(4, "dir") : 0;
    int par = c.choose(2, "parallax");
    P.fr.minKeyframeTrackedFeatureNum = minTrack;
    P.fr.maxKeyframeTranslation = maxTrans;
    P.fr.minKeyframeMeanParallax = 0.2f;
    Vector3 unit[4] = {Vector3(1, 0, 0), Vector3(0, -1, 0), Vector3(0, 0, 1), Vector3(0.6f, 0, -0.8f)};
    Vector3 base(3, -2, 1);
    for (int i = 0; i < n; ++i) {
        std::vector<std::pair<int, int>> p;
        bool pre = i == k - 1, it = i == k;
        if (pre || it) {
            for (int s = 0; s < shared; ++s) p.emplace_back(1000 + s, sharedCam == 1 ? CAM0 : sharedCam == 2 && it ? CAM0 : BOTH);
            if (decoy == 1) for (int s = 0; s < 5; ++s) p.emplace_back(2000 + s, s % 2 ? CAM1 : (pre ? CAM1 : BOTH));
        }
        if (decoy == 2 && (i == k - 2 || it || i == k + 1)) for (int s = 0; s < 5; ++s) p.emplace_back(3000 + s, BOTH);
        if (i > k || i < k - 1) for (int s = 0; s < 6; ++s) p.emplace_back(4000 + s, BOTH);
        Vector3 pos = base;
        if (i < k - 1) pos += Vector3(5, 5, 5) * static_cast<float>(k - 1 - i);
        if (it) pos += unit[dir] * maxTrans * (move == 0 ? 0.0f : move == 1 ? 0.98f : 1.02f);
        if (i > k) pos += Vector3(-4, 4, 0);
        P.frame(p, pos, it && par ? 0.9f : 0.0f);
    }
    Expect e{false, false};
    e.key = k == 0 || shared < static_cast<int>(minTrack) || move == 2;
    e.dontCare = !e.key && par;
    return e;
}

mc::Scenario keyframe() {
    mc::Scenario s;
    s.name = "key frame test";
    s.bounds = "windows of 1..5 frames, every frame asked; landmarks shared with the predecessor in camera 0: 0, minimum -1, minimum, minimum +1, 150, minimum of 1, 4 or 40 (also camera 1 only and non-adjacent frames), distance moved 0 / 0.98 / 1.02 of the limit in 4 directions, parallax 0 or large; two configurations";
    s.body = [](Ctx &c) {
        Pool P;
        int cfg = c.choose(3, "config");
        int n = 1 + c.choose(5, "frames");
        int k = c.choose(n, "which");
        Expect e = lattice(c, P, n, k, cfg == 2 ? 40 : cfg ? 1 : 4, cfg == 2 ? 3.0f : cfg ? 0.5f : 0.05f);
        bool got = P.fr.IsKeyFrame(P.fr.frames[static_cast<size_t>(k)]);
        c.step();
        c.compared();
        c.state(mc::mix(static_cast<mc::u64>(e.key), static_cast<mc::u64>(n * 8 + k)));
        c.outcome(got);
        if (!e.dontCare) c.check(got == e.key, "C05-key-frame", fmt("frame %d of %d is %sa key frame, expected %s", k, n, got ? "" : "not ", e.key ? "key frame" : "no key frame"));
        c.check(!P.fr.IsKeyFrame(nullptr), "C05-key-null", "no frame is a key frame");
    };
    return s;
}

mc::Scenario policy() {
    mc::Scenario s;
    s.name = "which frame an update drops";
    s.bounds = "configured window 2..5, 9 or 14, 1 frame .. window + 1 frames present, second-newest on either side of every key frame limit; the policy of a whole update without usable landmarks";
    s.body = [](Ctx &c) {
        Pool P;
        uint32_t window = (const uint32_t[]){2, 3, 4, 5, 9, 14}[c.choose(6, "window")];
        int n = 1 + c.choose(static_cast<int>(window) + 1, "frames");
        int k = n - 2;
        Expect e{false, false};
        if (k >= 0) e = lattice(c, P, n, k, 4, 0.05f);
        else P.frame({{1, BOTH}}, Vector3(0, 0, 0), 0);
        P.fr.maxWindowSize = window;
        // no calibrations: the observations cannot be used, the last frame must have none
        auto last = P.fr.frames.back();
        last->features.clear();
        PropagateQueue q;
        q.propagator = &P.fr;
        q.InitializeProcessNoiseMatrix(0.01f, 0.01f, 0.001f, 0.001f);
        q.initState = IMUMotionState(last->p_wb, Vector3(0, 0, 0), Quaternion::Identity());
        q.Propagate(Vector3(0, 0, 9.8f), Vector3(0, 0, 0), last->timeStamp);
        const int dim = 6 * (n - 1);
        q.items.front()->imuExCamCov.setZero(15, dim);
        q.exCamCov.setZero(dim, dim);
        MultiViewVisionUpdate u;
        Trianglator tri;
        PnPSolver pnp;
        u.propagator = &q;
        u.featureManager = &P.fm;
        u.frameManager = &P.fr;
        u.trianglator = &tri;
        u.pnpSolver = &pnp;
        u.measureNoise = 0.01f;
        bool ok = u.Update(last->timeStamp, 0.005);
        c.step();
        c.compared();
        c.check(ok, "C05-update-fails", "an update without observations fails");
        bool full = n > static_cast<int>(window);
        c.state(mc::mix(window * 32 + static_cast<mc::u64>(n), static_cast<mc::u64>(e.key)));
        c.outcome(static_cast<mc::u64>(u.margPolicy));
        if (!full) c.check(u.margPolicy == NO_MARG, "C05-policy-early", fmt("%d frames in a window of %u, but the update asks to drop a frame", n, window));
        else if (!e.dontCare) c.check(u.margPolicy == (e.key ? MARG_OLDEST : MARG_SUBNEW), "C05-policy",
                fmt("over-full window, second-newest frame is %sa key frame, policy is %u", e.key ? "" : "not ", static_cast<unsigned>(u.margPolicy)));
        else c.check(u.margPolicy == MARG_OLDEST || u.margPolicy == MARG_SUBNEW, "C05-policy", "over-full window, but neither the oldest nor the second-newest frame is dropped");
        c.check(P.fr.NeedMarginalize() == full, "C05-need-marg", "NeedMarginalize does not say whether the window is over-full");
    };
    return s;
}

// ---------------------------------------------------------------- which frames stay, whole system
mc::Scenario systemWindow(int window, int devs = 0) {
    mc::Scenario s;
    const int frames = window + (mc::thorough() ? 5 : 3);
    s.name = fmt("frames kept by the system, window %d", window);
    s.bounds = fmt("constant velocity, %d frames after initialization, each 0.03 m or 0.09 m after the one before (limit 0.05 m) and seeing 14 or 6 landmarks in the first camera (limit 8)%s", frames, devs ? fmt("; at most %d frames differ from the usual, which is 0.03 m or 0.09 m", devs).c_str() : "");
    s.splitDepth = devs ? 1 : 5;
    s.devBound = devs;
    s.body = [window, frames, devs](Ctx &c) {
        world::Cfg cfg;
        cfg.window = window;
        world::Truth tr(cfg.rate, cfg.g, {{0.1 + 0.09 * (frames + 3), world::V3::Zero(), world::V3::Zero()}}, world::Qd::Identity(), world::V3(0.6, 0.8, 0));
        auto lm = world::cloud(14);
        world::Sim sim(cfg);
        auto &fr = sim.b->frameManager.frames;
        struct F { int k; bool all; };
        std::vector<F> win;
        int next = 0, count = 0;
        bool far = true, all = true, usual = true;
        for (int k = 0; count < frames && k < tr.samples(); ++k) {
            sim.imu(tr, k);
            sim.drain();
            if (k != next) continue;
            // the first camera misses landmarks in sparse frames; the second still sees them
            sim.frame(tr, lm, k, 0, [&](int l) { return all || l < 6 ? 3 : 2; });
            bool was = sim.up();
            sim.drain();
            c.step();
            win.push_back({k, all});
            if (!sim.up()) { c.check(!was, "C05-update-fails", "a vision update fails"); win.erase(win.begin(), win.end() - 1); }
            else {
                ++count;
                if (static_cast<int>(win.size()) > window) {
                    const F &sub = win[win.size() - 2], &pre = win[win.size() - 3];
                    int shared = sub.all && pre.all ? 14 : 6;
                    bool key = shared < cfg.minTrack || (tr.p[static_cast<size_t>(sub.k)] - tr.p[static_cast<size_t>(pre.k)]).norm() > cfg.maxMove;
                    if (win.size() == 2) key = true;
                    win.erase(key ? win.begin() : win.end() - 2);
                    c.note(fmt("frame at %d: %s", k, key ? "drop oldest" : "drop second-newest"));
                }
                c.check(static_cast<int>(fr.size()) <= window, "C05-size", fmt("%zu frames in a window of %d", fr.size(), window));
                c.check(fr.size() == win.size(), "C05-count", fmt("%zu frames in the window, expected %zu", fr.size(), win.size()));
                for (size_t i = 0; i < win.size(); ++i)
                    c.check(std::fabs(fr[i]->timeStamp - sim.offset - sim.stamp(win[i].k)) < 1e-6, "C05-which", fmt("position %zu of the window holds the frame at %.2f s, expected %.2f s", i, fr[i]->timeStamp - sim.offset - sim.t0, 0.01 * win[i].k));
                c.compared();
                mc::u64 h = 0;
                for (auto &w : win) h = mc::mix(h, static_cast<mc::u64>(k - w.k) * 2 + w.all);
                c.state(h);
            }
            if (sim.up()) {
                if (devs) { if (count == 1) usual = c.flip("usually far"); far = usual != (c.dev(2, "other") == 1); all = c.dev(2, "sparse") == 0; }
                else { far = c.flip("far"); all = !c.flip("sparse"); }
            }
            next = k + (far ? 9 : 3);
        }
        c.check(count == frames, "C05-harness", "the system did not initialize");
        c.outcome(win.empty() ? 0 : static_cast<mc::u64>(win.front().k));
    };
    return s;
}

std::vector<mc::Scenario> make(const std::string &prop) {
    std::vector<mc::Scenario> v;
    bool T = mc::thorough();
    if (prop == "C04") {
        v.push_back(history("one landmark", true, {NONE, CAM0, BOTH, CAM1, EMPTY}, 1, T ? 9 : 7));
        v.push_back(history("one landmark, managers", false, {NONE, CAM0, BOTH, CAM1, EMPTY, TWICE}, 1, T ? 8 : 6));
        v.push_back(history("two landmarks", true, {NONE, CAM0, BOTH}, 2, T ? 7 : 5));
        v.push_back(history("two landmarks, odd messages", false, {NONE, CAM1, EMPTY, TWICE}, 2, T ? 6 : 4));
        v.push_back(history("three landmarks", true, {NONE, BOTH}, 3, T ? 7 : 5));
        v.push_back(sliding("sliding window of 3", 1, 3, T ? 9 : 7, {NONE, CAM0, BOTH}));
        v.push_back(sliding("sliding window of 4", 1, 4, T ? 11 : 9, {NONE, BOTH}));
        v.push_back(sliding("sliding window of 6", 1, 6, T ? 12 : 10, {NONE, BOTH}));
    }
    if (prop == "C05") {
        v.push_back(keyframe());
        v.push_back(policy());
        for (int w = 2; w <= 4; ++w) v.push_back(systemWindow(w));
        v.push_back(systemWindow(8, T ? 3 : 2));
        v.push_back(systemWindow(12, T ? 3 : 2));
    }
    return v;
}
}  // namespace

int main(int argc, char **argv) { return mc::run(argc, argv, make); }
