// Case loop, status page for crash/hang attribution, violation records, counters.
#pragma once
#include "vp_std.hpp"
#include "vp_rng.hpp"
namespace vp {

inline std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c == '\t') o += "\\t";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

struct StatusPage { // shared with the driver through an mmap'ed file
    std::uint64_t magic;
    std::uint64_t cas;      // current case
    std::uint64_t beat;     // increases on every stage change
    std::uint64_t done;     // 1 when the loop has ended normally
    char stage[160];        // what the real code is being asked to do
    char note[3800];
};

struct Options {
    std::string prop, tier = "quick", out, status, hashes, extra;
    std::uint64_t seed = 1, start = 0, step = 1, end = 0, only = ~0ULL;
    bool has_only = false, verbose = false, no_oracle = false;
    int maxviol = 12;
};

struct Runtime {
    Options opt;
    StatusPage *st = nullptr;
    StatusPage fallback;
    FILE *out = nullptr;
    std::map<std::string, std::uint64_t> counters;
    std::vector<std::uint64_t> hashes;
    std::vector<std::string> samples;
    int violations = 0;
    std::uint64_t evaluations = 0;
    std::uint64_t cur = 0;
    std::string detail; // description of the current case
    std::mutex mu;

    static Runtime& get() { static Runtime r; return r; }

    void stage(const char *s) {
        std::strncpy(st->stage, s, sizeof(st->stage) - 1);
        st->beat++;
    }
    void note(const std::string &s) {
        std::strncpy(st->note, s.c_str(), sizeof(st->note) - 1);
        st->note[sizeof(st->note) - 1] = 0;
        st->beat++;
    }
    void count(const std::string &k, std::uint64_t n = 1) { counters[k] += n; }
    void distinct(std::uint64_t h) { hashes.push_back(h); }
    void sample(const std::string &s) { if (samples.size() < 3) samples.push_back(s); }
    // key: short stable identification of what failed (entry point : kind)
    void fail(const std::string &key, const std::string &msg) {
        std::lock_guard<std::mutex> l(mu);
        if (opt.no_oracle) { counters["oracle_reports_ignored"]++; return; }
        violations++;
        if (violations > opt.maxviol) return;
        std::fprintf(out, "{\"t\":\"v\",\"key\":%s,\"case\":%llu,\"msg\":%s,\"detail\":%s}\n", jstr(key).c_str(),
                (unsigned long long) cur, jstr(msg).c_str(), jstr(detail).c_str());
        std::fflush(out);
        if (opt.verbose) std::fprintf(stderr, "VIOL case %llu %s: %s\n%s\n", (unsigned long long) cur, key.c_str(), msg.c_str(), detail.c_str());
    }
    bool too_many() const { return violations >= opt.maxviol; }

    void init(int argc, char **argv) {
        for (int i = 1; i < argc; i++) {
            std::string a = argv[i];
            auto val = [&]() -> std::string { if (i + 1 >= argc) { std::fprintf(stderr, "missing value %s\n", a.c_str()); std::exit(3);} return argv[++i]; };
            if (a == "--prop") opt.prop = val();
            else if (a == "--tier") opt.tier = val();
            else if (a == "--out") opt.out = val();
            else if (a == "--status") opt.status = val();
            else if (a == "--hashes") opt.hashes = val();
            else if (a == "--extra") opt.extra = val();
            else if (a == "--seed") opt.seed = std::strtoull(val().c_str(), 0, 10);
            else if (a == "--start") opt.start = std::strtoull(val().c_str(), 0, 10);
            else if (a == "--step") opt.step = std::strtoull(val().c_str(), 0, 10);
            else if (a == "--end") opt.end = std::strtoull(val().c_str(), 0, 10);
            else if (a == "--only") { opt.only = std::strtoull(val().c_str(), 0, 10); opt.has_only = true; }
            else if (a == "--maxviol") opt.maxviol = std::atoi(val().c_str());
            else if (a == "--no-oracle") opt.no_oracle = true; // only the sanitizers judge
            else if (a == "--verbose") opt.verbose = true;
            else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); std::exit(3); }
        }
        std::memset(&fallback, 0, sizeof fallback);
        st = &fallback;
        if (!opt.status.empty()) {
            int fd = ::open(opt.status.c_str(), O_RDWR | O_CREAT, 0644);
            if (fd >= 0 && ::ftruncate(fd, sizeof(StatusPage)) == 0) {
                void *p = ::mmap(nullptr, sizeof(StatusPage), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED) { st = (StatusPage*) p; std::memset(st, 0, sizeof *st); }
            }
            if (fd >= 0) ::close(fd);
        }
        st->magic = 0x56504d43;
        out = opt.out.empty() ? stdout : std::fopen(opt.out.c_str(), "a");
        if (!out) { std::perror("out"); std::exit(3); }
    }

    int finish() {
        std::fprintf(out, "{\"t\":\"end\",\"evaluations\":%llu,\"violations\":%d,\"counters\":{", (unsigned long long) evaluations, violations);
        bool first = true;
        for (auto &c : counters) {
            std::fprintf(out, "%s%s:%llu", first ? "" : ",", jstr(c.first).c_str(), (unsigned long long) c.second);
            first = false;
        }
        std::fprintf(out, "},\"samples\":[");
        first = true;
        for (auto &s : samples) { std::fprintf(out, "%s%s", first ? "" : ",", jstr(s).c_str()); first = false; }
        std::fprintf(out, "]}\n");
        std::fflush(out);
        if (!opt.hashes.empty()) {
            std::sort(hashes.begin(), hashes.end());
            hashes.erase(std::unique(hashes.begin(), hashes.end()), hashes.end());
            FILE *f = std::fopen(opt.hashes.c_str(), "ab");
            if (f) { if (!hashes.empty()) std::fwrite(hashes.data(), 8, hashes.size(), f); std::fclose(f); }
        }
        st->done = 1;
        return violations ? 1 : 0;
    }

    // fn(case) -> void
    template<class F> int loop(F fn) {
        std::uint64_t b = opt.start, e = opt.end, s = opt.step;
        if (opt.has_only) { b = opt.only; e = b + 1; s = 1; }
        for (std::uint64_t i = b; i < e; i += s) {
            cur = i;
            st->cas = i;
            stage("case");
            detail.clear();
            Rng rng(mix64(opt.seed * 0x1000193ULL + hash_str(opt.prop)) ^ mix64(i + 77));
            try {
                fn(i, rng);
            } catch (const std::exception &ex) {
                fail(std::string(st->stage) + ":exception", std::string("exception escaped: ") + ex.what());
            } catch (...) {
                fail(std::string(st->stage) + ":exception", "unknown exception escaped");
            }
            evaluations++;
            if (too_many()) { count("stopped_early"); break; }
        }
        return finish();
    }
};

inline Runtime& rt() { return Runtime::get(); }

template<class... A> std::string cat(const A &... a) {
    std::ostringstream o;
    o << std::setprecision(17);
    int d[] = { 0, ((void) (o << a), 0)... };
    (void) d;
    return o.str();
}

} // vp
