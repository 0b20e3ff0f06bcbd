// C19: configuration files reach exactly their parameters; bad files do no harm (run under AddressSanitizer).
#include <explore.hpp>
#include <backend.hpp>
#include <memory>
using namespace ESKF_VIO_BACKEND;
using mc::Ctx;
using mc::fmt;

extern "C" int rand(void) { return 4; }

namespace {
struct File { const char *name; int rows, cols; };
const int NF = 10, NV = 17;
const File FILES[NF] = {{"imu_frequence.txt", 1, 1}, {"imu_na_ng_nwa_nwg.txt", 1, 4}, {"imu_bias_a_g_init.txt", 2, 3}, {"gravity_norm.txt", 1, 1}, {"window_size.txt", 1, 1},
                        {"vision_measure_noise.txt", 1, 1}, {"keyframe_policy.txt", 1, 3}, {"T_bc0.txt", 4, 4}, {"T_bc1.txt", 4, 4}, {"T_bc2.txt", 4, 4}};
const char *VARIANT[NV] = {"good", "missing", "other values", "surplus rows and columns", "CRLF", "tabs, no final newline", "empty", "last number missing", "text", "last number is text", "a directory",
                           "last row missing", "scientific notation", "very long line", "zero bytes", "blank line inside or only", "sign and leading blanks"};
// does the variant carry values, and which set
int valueSet(int v, int f) {
    switch (v) {
        case 0: case 3: case 4: case 5: case 12: case 13: case 16: return 0;
        case 2: return 1;
        case 15: return -1;
        default: (void)f; return -1;
    }
}
std::vector<double> values(int f, int set) {
    static std::map<std::pair<int, int>, std::vector<double>> cache;
    auto &r = cache[{f, set}];
    if (!r.empty()) return r;
    auto T = [&](double a, double x, double y, double z, double px, double py, double pz) {
        Eigen::Vector3d ax(x, y, z);
        Eigen::Matrix3d R = Eigen::AngleAxisd(a, ax.normalized()).toRotationMatrix();
        return std::vector<double>{R(0, 0), R(0, 1), R(0, 2), px, R(1, 0), R(1, 1), R(1, 2), py, R(2, 0), R(2, 1), R(2, 2), pz, 0, 0, 0, 1};
    };
    switch (f) {
        case 0: r = {set ? 100.0 : 250.0}; break;
        case 1: r = set ? std::vector<double>{0.5, 0.25, 0.125, 0.0625} : std::vector<double>{0.019, 0.015, 0.0001, 0.00001}; break;
        case 2: r = set ? std::vector<double>{-1, -2, -3, 4, 5, 6} : std::vector<double>{0.1, -0.2, 0.3, 0.01, 0.02, -0.03}; break;
        case 3: r = {set ? 9.7 : 9.81}; break;
        case 4: r = {set ? 11.0 : 5.0}; break;
        case 5: r = {set ? 0.01 : 0.0021739}; break;
        case 6: r = set ? std::vector<double>{12, 0.3, 0.4} : std::vector<double>{30, 0.2, 0.05}; break;
        case 7: r = set ? T(0.4, 1, 2, 3, 0.1, 0.2, 0.3) : T(1.2, 3, -1, 0.5, -0.4, 0.05, 0.6); break;
        case 8: r = set ? T(-2.0, 0, 1, 3, 1, -1, 0.5) : T(2.9, 1, 0, 0.2, 0.7, -0.1, 0.2); break;
        default: r = set ? T(0.1, 1, 0, 0, 3, 3, 3) : T(-0.6, 1, 1, -1, -0.3, 0.9, 0.8); break;
    }
    return r;
}
std::string content(int f, int v) {
    const File &F = FILES[f];
    auto val = values(f, v == 2 ? 1 : 0);
    std::string s, sep = v == 5 ? "\t" : " ", nl = v == 4 ? "\r\n" : "\n";
    if (v == 6) return "";
    if (v == 8) return "none\nof these\nare numbers\nat all\n";
    if (v == 14) return std::string(64, '\0');
    for (int r = 0; r < F.rows; ++r) {
        if (v == 11 && r == F.rows - 1) { if (F.rows == 1) s += "\n"; break; }
        if (v == 15 && r == F.rows / 2) s += "\n";
        for (int k = 0; k < F.cols; ++k) {
            bool last = r == F.rows - 1 && k == F.cols - 1;
            if (last && v == 7) break;
            if (last && v == 9) { s += "x1"; break; }
            s += v == 12 ? fmt("%.9e", val[static_cast<size_t>(r * F.cols + k)]) : v == 16 ? fmt("   %+.9g", val[static_cast<size_t>(r * F.cols + k)]) : fmt("%.9g", val[static_cast<size_t>(r * F.cols + k)]);
            if (k + 1 < F.cols || v == 3) s += sep;
        }
        if (v == 3) s += "77 78 79";
        if (v == 13) for (int i = 0; i < 3000; ++i) s += " 55";
        if (v == 5 && r == F.rows - 1) break;
        s += nl;
    }
    if (v == 3) s += "81 82 83 84 85\n86 87 88 89 90 91 92\n";
    return s;
}
struct Dir {
    std::string path;
    int have[NF];
    explicit Dir(const std::string &p) : path(p) { ::mkdir(p.c_str(), 0755); for (int &h : have) h = 1; }
    void put(int f, int v) {
        if (have[f] == v) return;
        std::string p = path + "/" + FILES[f].name;
        if (have[f] == 10) ::rmdir(p.c_str());
        else if (have[f] != 1) ::unlink(p.c_str());
        if (v == 10) ::mkdir(p.c_str(), 0755);
        else if (v != 1) { std::ofstream o(p, std::ios::binary); o << content(f, v); }
        have[f] = v;
    }
};
struct Expect {
    double par[7][8];
    int set[7];           // 0 / 1: values of that set, -1: the defaults
    std::vector<int> cam; // value set of each camera
    Expect() { for (int &s : set) s = -1; }
    void read(const int *v) {
        for (int f = 0; f < 7; ++f) if (valueSet(v[f], f) >= 0) set[f] = valueSet(v[f], f);
        cam.clear();
        for (int i = 0; i < 3; ++i) {
            int s = valueSet(v[7 + i], 7 + i);
            if (s < 0) break;
            cam.push_back(s);
        }
    }
};
bool near(double a, double b) { return std::fabs(a - b) <= 2e-6 * std::max(1e-3, std::fabs(b)); }

void verify(Ctx &c, const Expect &e, const Configurator &d, Backend &b, const std::string &what) {
    Configurator &k = *Configurator::GetInstance();
    auto val = [&](int f, size_t i, double def) { return e.set[f] < 0 ? def : values(f, e.set[f])[i]; };
    auto eq = [&](const char *name, double got, double want) {
        c.compared();
        c.check(near(got, want), std::string("C19-") + name, fmt("%s: %s is %.9g, must be %.9g", what.c_str(), name, got, want));
    };
    double period = e.set[0] < 0 ? static_cast<double>(d.imu.period) : 1.0 / values(0, e.set[0])[0];
    eq("imu-period", k.imu.period, period);
    eq("imu-period-loader", b.dataloader.imuPeriod, period);
    double na = val(1, 0, d.imu.sigmaBiasAccel), ng = val(1, 1, d.imu.sigmaBiasGyro), nwa = val(1, 2, d.imu.sigmaBiasAccelRandomWalk), nwg = val(1, 3, d.imu.sigmaBiasGyroRandomWalk);
    eq("noise-accel", k.imu.sigmaBiasAccel, na);
    eq("noise-gyro", k.imu.sigmaBiasGyro, ng);
    eq("walk-accel", k.imu.sigmaBiasAccelRandomWalk, nwa);
    eq("walk-gyro", k.imu.sigmaBiasGyroRandomWalk, nwg);
    for (int i = 0; i < 3; ++i) {
        eq("process-noise-accel", b.propagator.Q(INDEX_NA + i, INDEX_NA + i), na);
        eq("process-noise-gyro", b.propagator.Q(INDEX_NG + i, INDEX_NG + i), ng);
        eq("process-noise-walk-accel", b.propagator.Q(INDEX_NWA + i, INDEX_NWA + i), nwa);
        eq("process-noise-walk-gyro", b.propagator.Q(INDEX_NWG + i, INDEX_NWG + i), nwg);
        double ba = val(2, static_cast<size_t>(i), d.imu.defaultBiasAccel(i)), bg = val(2, static_cast<size_t>(3 + i), d.imu.defaultBiasGyro(i));
        eq("bias-accel", k.imu.defaultBiasAccel(i), ba);
        eq("bias-gyro", k.imu.defaultBiasGyro(i), bg);
        eq("bias-accel-propagator", b.propagator.bias_a(i), ba);
        eq("bias-gyro-propagator", b.propagator.bias_g(i), bg);
        eq("bias-accel-attitude", b.attitudeEstimator.bias_a(i), ba);
        eq("bias-gyro-attitude", b.attitudeEstimator.bias_g(i), bg);
    }
    Eigen::MatrixXd Q = b.propagator.Q.cast<double>();
    Q.diagonal().setZero();
    eq("process-noise-off-diagonal", Q.norm(), 0);
    double g = val(3, 0, d.imu.gravityNorm);
    eq("gravity", k.imu.gravityNorm, g);
    for (const Vector3 *w : {&b.propagator.gravity_w, &b.attitudeEstimator.gravity_w}) {
        eq("gravity-estimator", w->z(), g);
        eq("gravity-x", w->x(), 0);
        eq("gravity-y", w->y(), 0);
    }
    double win = val(4, 0, d.vision.maxFrameNum);
    eq("window", k.vision.maxFrameNum, win);
    eq("window-estimator", b.frameManager.maxWindowSize, win);
    double vn = val(5, 0, static_cast<double>(d.vision.sigmaVision));
    eq("vision-noise", k.vision.sigmaVision, vn);
    eq("vision-noise-estimator", b.visionUpdator.measureNoise, vn);
    double k0 = val(6, 0, d.vision.minKeyframeTrackedFeatureNum), k1 = val(6, 1, d.vision.minKeyframeMeanParallax), k2 = val(6, 2, d.vision.maxKeyframeTranslation);
    eq("keyframe-features", k.vision.minKeyframeTrackedFeatureNum, k0);
    eq("keyframe-parallax", k.vision.minKeyframeMeanParallax, k1);
    eq("keyframe-translation", k.vision.maxKeyframeTranslation, k2);
    eq("keyframe-features-estimator", b.frameManager.minKeyframeTrackedFeatureNum, k0);
    eq("keyframe-parallax-estimator", b.frameManager.minKeyframeMeanParallax, k1);
    eq("keyframe-translation-estimator", b.frameManager.maxKeyframeTranslation, k2);
    eq("features-for-update", b.visionUpdator.maxUsedFeatures, d.vision.maxFeatureNumForUpdate);
    eq("cameras", k.vision.maxCameraNum, static_cast<double>(e.cam.size()));
    eq("cameras-q", static_cast<double>(k.vision.default_q_bc.size()), static_cast<double>(e.cam.size()));
    eq("cameras-p", static_cast<double>(k.vision.default_p_bc.size()), static_cast<double>(e.cam.size()));
    eq("cameras-estimator", static_cast<double>(b.frameManager.extrinsics.size()), static_cast<double>(e.cam.size()));
    for (size_t i = 0; i < e.cam.size(); ++i) {
        auto T = values(7 + static_cast<int>(i), e.cam[i]);
        Eigen::Matrix3d R;
        R << T[0], T[1], T[2], T[4], T[5], T[6], T[8], T[9], T[10];
        const double p[3] = {T[3], T[7], T[11]};
        for (int j = 0; j < 3; ++j) {
            eq("calibration-position", k.vision.default_p_bc[i](j), p[j]);
            eq("calibration-position-estimator", b.frameManager.extrinsics[i].p_bc(j), p[j]);
        }
        c.check((k.vision.default_q_bc[i].cast<double>().toRotationMatrix() - R).norm() < 1e-5, "C19-calibration-rotation", fmt("%s: the rotation of camera %zu differs from its file", what.c_str(), i));
        c.check((b.frameManager.extrinsics[i].q_bc.cast<double>().toRotationMatrix() - R).norm() < 1e-5, "C19-calibration-rotation-estimator", fmt("%s: the rotation of camera %zu in the estimator differs from its file", what.c_str(), i));
    }
}

Dir &dir(int i) {
    static std::map<int, std::unique_ptr<Dir>> d;
    static pid_t owner = 0;
    if (owner != getpid()) { owner = getpid(); d.clear(); }
    if (!d[i]) d[i].reset(new Dir(mc::opt().outDir + fmt("/cfg-%d-%d", static_cast<int>(getpid()), i)));
    return *d[i];
}

mc::Scenario reads(int n, int faults) {
    mc::Scenario s;
    s.name = fmt("%d reading(s), %d deviation(s)", n, faults);
    s.bounds = fmt("%d reading(s) of a directory of 10 files in a row, same or new system, started from the built-in values or after reading another complete set; up to %d files replaced by any of 16 variants (missing, other values, surplus or too few numbers, text, empty, directory, CRLF, ...)", n, faults);
    s.devBound = faults;
    s.splitDepth = 3;
    s.body = [=](Ctx &c) {
        Configurator fresh;
        *Configurator::GetInstance() = fresh;
        Expect e;
        std::unique_ptr<Backend> b(new Backend());
        if (c.flip("read another set before")) {
            int v[NF];
            for (int f = 0; f < NF; ++f) { v[f] = 2; dir(0).put(f, 2); }
            b->ConfigParams(dir(0).path);
            e.read(v);
            c.step();
        }
        for (int k = 0; k < n; ++k) {
            int v[NF];
            std::string what = fmt("reading %d", k + 1);
            for (int f = 0; f < NF; ++f) {
                int def = f == 9 ? 1 : 0;
                v[f] = c.dev(NV, FILES[f].name);
                if (f == 9 && v[f] <= 1) v[f] = v[f] ? 0 : 1;
                if (v[f] != def) what += fmt(", %s: %s", FILES[f].name, VARIANT[v[f]]);
                dir(1 + k).put(f, v[f]);
            }
            if (c.flip("new system")) b.reset(new Backend());
            c.note(what);
            b->ConfigParams(dir(1 + k).path);
            e.read(v);
            c.step();
            verify(c, e, fresh, *b, what);
            mc::u64 h = e.cam.size();
            for (int f = 0; f < 7; ++f) h = mc::mix(h, static_cast<mc::u64>(e.set[f] + 1));
            c.state(h);
            c.outcome(h);
        }
    };
    return s;
}

// rigs of any size; files behind a gap in the numbering do not count
mc::Scenario rigs(int most) {
    mc::Scenario s;
    s.name = "rigs";
    s.bounds = fmt("two readings in a row, each with 0 to %d consecutive camera calibrations, with or without one more behind a gap; same or new system", most);
    s.splitDepth = 2;
    s.body = [=](Ctx &c) {
        *Configurator::GetInstance() = Configurator();
        std::unique_ptr<Backend> b(new Backend());
        for (int k = 0; k < 2; ++k) {
            const int n = c.choose(most + 1, "cameras");
            const bool behind = c.flip("one behind a gap");
            if (k && c.flip("new system")) b.reset(new Backend());
            const std::string d = mc::opt().outDir + fmt("/rig-%d", static_cast<int>(getpid()));
            ::mkdir(d.c_str(), 0755);
            auto angle = [&](int i) { return 0.1 + 0.17 * i + 0.05 * k; };
            auto file = [&](int i) { return d + fmt("/T_bc%d.txt", i); };
            for (int i = 0; i < most + 3; ++i) ::unlink(file(i).c_str());
            for (int i = 0; i < most + 3; ++i) {
                if (!(i < n || (behind && i == n + 1))) continue;
                std::ofstream o(file(i));
                o << fmt("%.9g %.9g 0 %d\n%.9g %.9g 0 %.9g\n0 0 1 %.9g\n0 0 0 1\n", std::cos(angle(i)), -std::sin(angle(i)), i, std::sin(angle(i)), std::cos(angle(i)), 0.5 - i, k * 0.25);
            }
            b->ConfigParams(d);
            for (int i = 0; i < most + 3; ++i) ::unlink(file(i).c_str());
            ::rmdir(d.c_str());
            c.step();
            Configurator &g = *Configurator::GetInstance();
            const size_t m = static_cast<size_t>(n);
            c.check(g.vision.maxCameraNum == m && g.vision.default_p_bc.size() == m && g.vision.default_q_bc.size() == m && b->frameManager.extrinsics.size() == m, "C19-cameras",
                    fmt("%d calibration files, the configuration has %d cameras, the estimator %zu", n, static_cast<int>(g.vision.maxCameraNum), b->frameManager.extrinsics.size()));
            for (int i = 0; i < n; ++i) {
                Vector3 p(static_cast<float>(i), static_cast<float>(0.5 - i), static_cast<float>(k * 0.25));
                Eigen::Quaterniond q(std::cos(angle(i) / 2), 0, 0, std::sin(angle(i) / 2));
                auto &e = b->frameManager.extrinsics[static_cast<size_t>(i)];
                c.compared(2);
                c.check((e.p_bc - p).norm() < 1e-5f && (g.vision.default_p_bc[static_cast<size_t>(i)] - p).norm() < 1e-5f, "C19-camera-position", fmt("the position of camera %d of %d is not that of its file", i, n));
                c.check(e.q_bc.cast<double>().angularDistance(q) < 1e-5 && g.vision.default_q_bc[static_cast<size_t>(i)].cast<double>().angularDistance(q) < 1e-5, "C19-camera-rotation", fmt("the orientation of camera %d of %d is not that of its file", i, n));
            }
            c.state(mc::mix(m, behind));
            c.outcome(mc::mix(m, behind));
        }
    };
    return s;
}

std::vector<mc::Scenario> make(const std::string &) {
    bool T = mc::thorough();
    std::vector<mc::Scenario> v = {reads(1, 2), reads(2, T ? 2 : 1), reads(3, 1)};
    v.push_back(rigs(T ? 24 : 12));
    if (T) v.push_back(reads(1, 3));
    return v;
}
}  // namespace

int main(int argc, char **argv) { return mc::run(argc, argv, make); }
