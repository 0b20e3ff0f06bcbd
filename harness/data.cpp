// C01, C02, C03: the data loader, driven event by event on the real DataLoader.
#include <explore.hpp>
#include <data_loader.hpp>
#include <memory>
using namespace ESKF_VIO_BACKEND;
using mc::Ctx;
using mc::fmt;

extern "C" int rand(void) { return 4; }

namespace {
const double TICK = 1.0 / 1024.0;      // binary exact

struct RImu { double t; Eigen::Vector3d g, a; int uid; };
struct RFeat { double t; int uid; };

std::shared_ptr<IMUMessage> mkImu(int uid, double t, RImu *r = nullptr) {
    Vector3 g(uid * 0.5f, -uid * 0.25f, 1.0f + uid), a(uid * 1.5f, 2.0f - uid, uid * 0.125f);
    if (r) { r->t = t; r->g = g.cast<double>(); r->a = a.cast<double>(); r->uid = uid; }
    return std::make_shared<IMUMessage>(g, a, t);
}
// kind: 0 good, 1 one id too many, 2 one observation too many
std::shared_ptr<FeaturesMessage> mkFeat(int uid, double t, int kind = 0) {
    std::vector<uint32_t> ids{static_cast<uint32_t>(uid), static_cast<uint32_t>(uid + 1000)};
    std::vector<std::shared_ptr<FeatureObserve>> obs;
    for (int i = 0; i < 2; ++i) {
        auto o = std::make_shared<FeatureObserve>();
        o->norms[0] = Vector2(uid * 0.5f, i);
        o->norms[1] = Vector2(uid * 0.25f, -i);
        obs.push_back(o);
    }
    if (kind == 1) ids.push_back(7);
    if (kind == 2) obs.push_back(std::make_shared<FeatureObserve>());
    if (kind == 3) obs.clear();
    // filled member by member: the constructor replaces inconsistent lists by an empty message
    auto m = std::make_shared<FeaturesMessage>();
    m->ids = ids;
    m->observes = obs;
    m->flag.assign(ids.size(), 1);
    m->timeStamp = t;
    return m;
}
bool featIs(const std::shared_ptr<FeaturesMessage> &m, int uid) {
    if (!m || m->ids.size() != 2 || m->observes.size() != 2 || m->flag.size() != 2) return false;
    if (m->ids[0] != static_cast<uint32_t>(uid) || m->ids[1] != static_cast<uint32_t>(uid + 1000)) return false;
    for (int i = 0; i < 2; ++i) {
        auto &o = m->observes[i];
        if (!o || o->norms.size() != 2 || !o->norms.count(0) || !o->norms.count(1)) return false;
        if (o->norms[0] != Vector2(uid * 0.5f, i) || o->norms[1] != Vector2(uid * 0.25f, -i) || m->flag[i] != 1) return false;
    }
    return true;
}
bool imuIs(const std::shared_ptr<IMUMessage> &m, const RImu &r, double tol = 0) {
    return m && (m->gyro.cast<double>() - r.g).cwiseAbs().maxCoeff() <= tol && (m->accel.cast<double>() - r.a).cwiseAbs().maxCoeff() <= tol;
}

// reference of one loader
struct Ref {
    std::deque<RImu> imu;
    std::deque<RFeat> feat;
    double lastI = -INFINITY, lastF = -INFINITY;
    bool haveOff = false;
    double off = 0;
    void clear() { *this = Ref(); }
    mc::u64 hash() const {
        mc::u64 h = mc::mix(1, mc::bits(lastI == -INFINITY ? -1e18 : lastI));
        h = mc::mix(h, mc::bits(lastF == -INFINITY ? -1e18 : lastF));
        for (auto &m : imu) h = mc::mix(h, mc::bits(m.t));
        h = mc::mix(h, 77);
        for (auto &m : feat) h = mc::mix(h, mc::bits(m.t));
        return h;
    }
};

struct Sys {
    DataLoader l;
    Ref r;
    std::shared_ptr<CombinedMessage> out;
};

void checkStamp(Ctx &c, Ref &r, double got, double raw, const char *id) {
    if (!r.haveOff) { r.haveOff = true; r.off = got - raw; c.check(std::isfinite(r.off), std::string(id) + "-stamp", "delivered time stamp is not finite"); }
    c.compared();
    c.check(std::fabs(got - raw - r.off) < 1e-9, std::string(id) + "-stamp",
            fmt("delivered stamp %.9f is raw stamp %.9f shifted by %.9f, earlier messages of this loader were shifted by %.9f", got, raw, got - raw, r.off));
}

// one PopOneMessage compared with the reference
bool popOne(Ctx &c, Sys &s, const char *id, bool strict, double period) {
    auto &r = s.r;
    bool expect = !r.imu.empty() || !r.feat.empty();
    bool got = s.l.PopOneMessage(s.out);
    c.step();
    c.check(got == expect, std::string(id) + "-return", fmt("delivery returned %d, %zu imu and %zu camera messages are queued", got, r.imu.size(), r.feat.size()));
    if (!got) return false;
    c.check(s.out != nullptr, std::string(id) + "-null", "delivery succeeded without output");
    bool f = false, i = false;
    if (!r.feat.empty() && (r.imu.empty() || r.feat.front().t <= r.imu.front().t)) f = true;
    if (!r.imu.empty() && (!f || (r.imu.front().t - r.feat.front().t < period))) i = true;
    bool gf = s.out->featMeas != nullptr, gi = !s.out->imuMeas.empty();
    c.check(gf == f && gi == i && s.out->imuMeas.size() == (i ? 1u : 0u), std::string(id) + "-kind",
            fmt("delivered camera=%d imu=%zu, expected camera=%d imu=%d", gf, s.out->imuMeas.size(), f, i));
    (void)strict;
    if (f) {
        c.check(featIs(s.out->featMeas, r.feat.front().uid), std::string(id) + "-camera", fmt("delivered camera message is not message %d", r.feat.front().uid));
        checkStamp(c, r, s.out->featMeas->timeStamp, r.feat.front().t, id);
        r.feat.pop_front();
    }
    if (i) {
        c.check(imuIs(s.out->imuMeas[0], r.imu.front()), std::string(id) + "-imu", fmt("delivered imu message is not message %d", r.imu.front().uid));
        checkStamp(c, r, s.out->imuMeas[0]->timeStamp, r.imu.front().t, id);
        r.imu.pop_front();
    }
    c.note(fmt("pop -> camera %d imu %d", f, i));
    return true;
}
void drain(Ctx &c, Sys &s, const char *id, double period) {
    s.out = nullptr;
    while (popOne(c, s, id, true, period)) {}
}

// ---------------------------------------------------------------- C01
void c01(Ctx &c, int nLoaders, int depth, bool small) {
    static const double bases[5] = {0.0, -3 * TICK, 1600000000.0, -1000.0, 1.0};
    int which = c.choose(small ? 5 : 1, "base");
    double base = bases[which], period = 4 * TICK;
    const double TICK = which == 4 ? 2e-7 : ::TICK;      // the last one: messages less than a microsecond apart
    std::vector<std::unique_ptr<Sys>> sys;
    for (int i = 0; i < nLoaders; ++i) { sys.emplace_back(new Sys()); sys.back()->l.imuPeriod = period; }
    int uid = 1;
    std::vector<double> times = {10, 4, 11};       // in order of choice: middle, early, late
    for (int d = 0; d < depth; ++d) {
        int k = nLoaders > 1 ? c.choose(nLoaders, "loader") : 0;
        Sys &s = *sys[static_cast<size_t>(k)];
        int ev = c.choose(small ? 12 : 10, "event");
        c.step();
        if (ev < 3) {
            double t = base + times[ev] * TICK;
            RImu r;
            auto m = mkImu(uid, t, &r);
            s.l.PushIMUMessage(m);
            if (t > s.r.lastI) { s.r.imu.push_back(r); s.r.lastI = t; }
            c.note(fmt("L%d imu #%d t=%g", k, uid, t));
            ++uid;
        } else if (ev < 6) {
            double t = base + times[ev - 3] * TICK;
            s.l.PushFeaturesMessage(mkFeat(uid, t));
            if (t > s.r.lastF) { s.r.feat.push_back({t, uid}); s.r.lastF = t; }
            c.note(fmt("L%d cam #%d t=%g", k, uid, t));
            ++uid;
        } else if (ev == 6 || ev >= 10) {
            double t = base + 12 * TICK;
            s.l.PushFeaturesMessage(mkFeat(uid, t, ev == 6 ? 1 : ev - 8));
            c.note(fmt("L%d malformed cam t=%g kind %d", k, t, ev));
            ++uid;
        } else if (ev == 7) {
            double t = base + 13 * TICK;
            s.l.PushFeaturesMessage(mkFeat(uid, t, 2));
            c.note(fmt("L%d malformed cam t=%g", k, t));
            ++uid;
        } else if (ev == 8) {
            popOne(c, s, "C01", false, period);
        } else {
            s.l.Clear();
            s.r.clear();
            c.note(fmt("L%d clear", k));
        }
        mc::u64 h = 5;
        for (auto &p : sys) h = mc::mix(h, p->r.hash());
        c.state(h);
    }
    mc::u64 h = 9;
    for (auto &p : sys) { h = mc::mix(h, p->r.hash()); drain(c, *p, "C01", period); }
    c.outcome(h);
}

// ---------------------------------------------------------------- C02
void c02(Ctx &c, int depth) {
    double period = 4 * TICK;
    Sys s;
    s.l.imuPeriod = period;
    int reuse = c.choose(3, "output");           // 0: no object, 1: object of the last delivery, 2: object filled with foreign data
    auto foreign = [&]() {
        auto o = std::make_shared<CombinedMessage>();
        o->featMeas = mkFeat(900, 1);
        o->imuMeas.push_back(mkImu(901, 1));
        o->imuMeas.push_back(mkImu(902, 1));
        return o;
    };
    const double base = c.choose(2, "base") ? 1600000000.0 : 0;
    double ti = 0, tf = 0;
    static const double di[2] = {4, 2}, df[4] = {4, 1, 3, 8};
    int uid = 1;
    for (int d = 0; d < depth; ++d) {
        int ev = c.choose(7, "event");
        c.step();
        if (ev == 0) {
            if (reuse == 0) s.out = nullptr;
            if (reuse == 2) s.out = foreign();
            popOne(c, s, "C02", true, period);
        } else if (ev < 3) {
            ti += di[ev - 1];
            RImu r;
            auto m = mkImu(uid, base + ti * TICK, &r);
            s.l.PushIMUMessage(m);
            s.r.imu.push_back(r);
            c.note(fmt("imu #%d t=%g", uid, ti));
            ++uid;
        } else {
            tf += df[ev - 3];
            s.l.PushFeaturesMessage(mkFeat(uid, base + tf * TICK));
            s.r.feat.push_back({base + tf * TICK, uid});
            c.note(fmt("cam #%d t=%g", uid, tf));
            ++uid;
        }
        c.state(s.r.hash());
    }
    c.outcome(s.r.hash());
    while (true) {
        if (reuse == 0) s.out = nullptr;
        if (reuse == 2) s.out = foreign();
        if (!popOne(c, s, "C02", true, period)) break;
    }
}
// long drains: many messages queued, long histories, boundary of one period after arithmetic on large stamps
void c02long(Ctx &c) {
    static const double periods[4] = {4 * TICK, 8 * TICK, 1 * TICK, 512 * TICK};
    double period = periods[c.choose(4, "period")];
    static const double bases[3] = {0, 1600000000.0, -50.0};
    double base = bases[c.choose(3, "base")];
    int offs = c.choose(9, "camera offset");      // camera stamps relative to the imu grid, in eighths of a period
    int every = 1 + c.choose(3, "camera every");
    int burst = c.choose(4, "deliveries after each push");
    Sys s;
    s.l.imuPeriod = period;
    int uid = 1;
    for (int k = 0; k < 24; ++k) {
        RImu r;
        double t = base + k * period;
        s.l.PushIMUMessage(mkImu(uid, t, &r));
        s.r.imu.push_back(r);
        ++uid;
        if (k % every == 0) {
            double tf = base + k * period + (offs - 4) / 8.0 * period;
            s.l.PushFeaturesMessage(mkFeat(uid, tf));
            s.r.feat.push_back({tf, uid});
            ++uid;
        }
        c.step(2);
        for (int b = 0; b < burst; ++b) popOne(c, s, "C02", true, period);
        c.state(mc::mix(s.r.hash(), mc::bits(period)));
    }
    drain(c, s, "C02", period);
    c.outcome(mc::mix(offs, every));
}

// ---------------------------------------------------------------- C03
const double U = 1.0 / 2097152.0;   // 2^-21 s = 0.477 us
bool popPacked(Ctx &c, Sys &s) {
    auto &r = s.r;
    bool expect = false, drop = false;
    if (!r.imu.empty() && !r.feat.empty() && r.imu.back().t > r.feat.front().t) {
        if (r.imu.front().t >= r.feat.front().t) drop = true;
        else expect = true;
    }
    bool got = s.l.PopPackedMessage(s.out);
    c.step();
    c.check(got == expect, "C03-return", fmt("packed delivery returned %d, expected %d (imu %zu, camera %zu queued)", got, expect, r.imu.size(), r.feat.size()));
    c.note(fmt("packed -> %d drop %d", got, drop));
    if (drop) r.feat.pop_front();
    if (!got) return false;
    RFeat f = r.feat.front();
    r.feat.pop_front();
    std::vector<RImu> want;
    while (r.imu.front().t <= f.t) { want.push_back(r.imu.front()); r.imu.pop_front(); }
    RImu close = want.back();
    bool interp = f.t - close.t > 1e-6;
    if (interp) {
        RImu n = r.imu.front();
        double k = (f.t - close.t) / (n.t - close.t);
        RImu m;
        m.t = f.t;
        m.g = close.g * (1 - k) + n.g * k;
        m.a = close.a * (1 - k) + n.a * k;
        m.uid = -1;
        close = m;
        want.push_back(m);
    }
    r.imu.push_front(close);
    c.check(s.out && featIs(s.out->featMeas, f.uid), "C03-camera", fmt("packed delivery does not carry camera message %d", f.uid));
    checkStamp(c, r, s.out->featMeas->timeStamp, f.t, "C03");
    c.check(s.out->imuMeas.size() == want.size(), "C03-count", fmt("pack holds %zu imu samples, expected %zu", s.out->imuMeas.size(), want.size()));
    for (size_t i = 0; i < want.size(); ++i) {
        c.check(imuIs(s.out->imuMeas[i], want[i], 2e-4 * (1 + want[i].a.cwiseAbs().maxCoeff() + want[i].g.cwiseAbs().maxCoeff())), "C03-sample", fmt("sample %zu of the pack is wrong (gyro %g %g %g, expected %g %g %g)", i,
                s.out->imuMeas[i]->gyro(0), s.out->imuMeas[i]->gyro(1), s.out->imuMeas[i]->gyro(2), want[i].g(0), want[i].g(1), want[i].g(2)));
        checkStamp(c, r, s.out->imuMeas[i]->timeStamp, want[i].t, "C03");
    }
    mc::u64 h = mc::mix(want.size(), interp);
    for (auto &w : want) h = mc::mix(h, mc::bits(w.t - f.t));
    c.outcome(h);
    return true;
}
void c03(Ctx &c, int depth, int nOff) {
    // camera stamps on, a sub-microsecond / super-microsecond step next to, and between imu samples
    static const double off[8] = {0, 4096, 1, 4, -1, -4, 2048, 3};
    const double P = 8192;              // 3.9 ms
    Sys s;
    s.l.imuPeriod = P * U;
    int reuse = c.choose(3, "output");
    double ti = 0, tf = -1e9;
    int kf = 0, uid = 1;
    for (int d = 0; d < depth; ++d) {
        int ev = c.choose(3 + nOff, "event");
        c.step();
        if (ev == 0) {
            if (reuse == 0) s.out = nullptr;
            if (reuse == 2) { s.out = std::make_shared<CombinedMessage>(); s.out->featMeas = mkFeat(900, 1); s.out->imuMeas.push_back(mkImu(901, 1)); }
            popPacked(c, s);
        } else if (ev < 3) {
            ti += ev == 1 ? P : 3 * P / 2;
            RImu r;
            s.l.PushIMUMessage(mkImu(uid, ti * U, &r));
            s.r.imu.push_back(r);
            c.note(fmt("imu #%d t=%gu", uid, ti));
            ++uid;
        } else {
            double t;
            do { ++kf; t = kf * P + off[ev - 3]; } while (t <= tf);
            tf = t;
            s.l.PushFeaturesMessage(mkFeat(uid, t * U));
            s.r.feat.push_back({t * U, uid});
            c.note(fmt("cam #%d t=%gu", uid, t));
            ++uid;
        }
        c.state(s.r.hash());
    }
    // take what can still be taken
    for (int i = 0; i < 12 && !s.r.feat.empty(); ++i) {
        size_t before = s.r.feat.size();
        popPacked(c, s);
        if (s.r.feat.size() == before) {
            ti += P;
            RImu r;
            s.l.PushIMUMessage(mkImu(uid, ti * U, &r));
            s.r.imu.push_back(r);
            ++uid;
        }
    }
}
// many samples per pack, two to four packs, big gaps, several bases
void c03long(Ctx &c) {
    const double P = 8192;
    static const double bases[3] = {0, 1600000000.0, -700.0};
    double base = bases[c.choose(3, "base")];
    int per = 1 + c.choose(40, "imu per frame");
    static const double off[5] = {0, 4096, 1, 4, -2048};
    double o = off[c.choose(5, "offset")];
    int lag = c.choose(3, "frames queued before delivery");
    int missing = c.choose(3, "missing imu samples");
    Sys s;
    s.l.imuPeriod = P * U;
    int uid = 1, queued = 0;
    for (int f = 0; f < 4; ++f) {
        for (int k = 0; k < per; ++k) {
            if (missing && k % (missing + 1) == 1) continue;
            RImu r;
            s.l.PushIMUMessage(mkImu(uid, base + (f * per + k + 1) * P * U, &r));
            s.r.imu.push_back(r);
            uid = uid % 50 + 1;
        }
        s.l.PushFeaturesMessage(mkFeat(uid, base + ((f + 1) * per * P + o) * U));
        s.r.feat.push_back({base + ((f + 1) * per * P + o) * U, uid});
        uid = uid % 50 + 1;
        c.step(per + 1);
        if (++queued > lag) popPacked(c, s);
        c.state(mc::mix(s.r.hash(), per));
    }
    for (int i = 0; i < 8; ++i) popPacked(c, s);
}

std::vector<mc::Scenario> make(const std::string &p) {
    std::vector<mc::Scenario> v;
    bool T = mc::thorough();
    auto add = [&](const std::string &n, const std::string &b, std::function<void(Ctx &)> f, int split) { v.push_back({n, b, std::move(f), 0, split}); };
    if (p == "C01") {
        int d1 = T ? 7 : 6, d2 = T ? 6 : 5;
        add("one loader", fmt("all sequences of %d events over {imu, camera at 3 times; 4 malformed camera messages; deliver; clear} x 5 time bases (with the last one the messages are 0.2 to 1.4 us apart), then drain", d1), [=](Ctx &c) { c01(c, 1, d1, true); }, 4);
        add("two loaders", fmt("all sequences of %d events over 2 loaders x {imu, camera at 3 times; 2 malformed; deliver; clear}, then drain both", d2), [=](Ctx &c) { c01(c, 2, d2, false); }, 5);
    } else if (p == "C02") {
        int d = T ? 9 : 7;
        add("interleavings", fmt("all sequences of %d events over {deliver; imu +4,+2; camera +4,+1,+3,+8 quarter periods} x 3 kinds of output object x 2 time bases, then drain", d), [=](Ctx &c) { c02(c, d); }, 5);
        add("long streams", "24 imu samples with cameras every 1..3 samples at 9 offsets, 4 periods, 3 time bases, 0..3 deliveries after each push", c02long, 3);
    } else if (p == "C03") {
        int d = T ? 8 : 6;
        int n = T ? 6 : 6;
        add("interleavings", fmt("all sequences of %d events over {packed delivery; imu +1,+1.5 periods; camera at %d offsets (on, 0.5us and 2us beside, between imu samples)} x 3 kinds of output object", d, n), [=](Ctx &c) { c03(c, d, n); }, 5);
        add("long packs", "4 frames with 1..40 imu samples each, 5 offsets, 3 time bases, 0..2 frames of lag, 0..2 missing samples", c03long, 3);
    }
    return v;
}
}  // namespace

int main(int argc, char **argv) { return mc::run(argc, argv, make); }
