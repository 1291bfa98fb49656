// Case bookkeeping shared by all harnesses: sharding, single-case replay, crash and hang attribution, JSON result.
#pragma once
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <iostream>
#include <map>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace rep {
struct NullBuf : std::streambuf {
    int overflow(int c) override { return c; }
    std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};
inline NullBuf nullbuf;
struct Fail { uint64_t idx; std::string key, msg; };
struct Mark { uint64_t idx; };

struct Run {
    bool thorough = false;
    std::string prop;
    int shard = 0, nshards = 1;
    int64_t only = -1;
    double deadline = 1e9;
    std::string out, workdir = "/tmp";
    uint64_t seed = 1;

    uint64_t idx = 0, evaluations = 0, nontrivial_ = 0;
    bool capped = false, nt = false;
    size_t desc = 0;
    std::unordered_set<size_t> distinct;
    int64_t from = 0;
    std::map<std::string, uint64_t> stats;
    std::map<std::string, uint64_t> failcount;
    std::vector<Fail> fails;
    std::vector<std::string> samples;
    std::set<std::string> outcomes;
    Mark *mark = nullptr;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    int case_seconds = 20;

    static void on_alarm(int) { _exit(97); }

    void init(int argc, char **argv) {
        std::string markpath;
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string a = argv[i], v = argv[i + 1];
            if (a == "--tier") thorough = v == "thorough";
            else if (a == "--prop") prop = v;
            else if (a == "--shard") shard = std::stoi(v);
            else if (a == "--nshards") nshards = std::stoi(v);
            else if (a == "--from") from = std::stoll(v);
            else if (a == "--only") only = std::stoll(v);
            else if (a == "--deadline") deadline = std::stod(v);
            else if (a == "--out") out = v;
            else if (a == "--work") workdir = v;
            else if (a == "--mark") markpath = v;
            else if (a == "--seed") seed = std::stoull(v);
            else if (a == "--case-seconds") case_seconds = std::stoi(v);
        }
        if (!markpath.empty()) {
            int fd = open(markpath.c_str(), O_RDWR | O_CREAT, 0600);
            if (fd >= 0 && ftruncate(fd, sizeof(Mark)) == 0)
                mark = (Mark *)mmap(nullptr, sizeof(Mark), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (fd >= 0) close(fd);
        }
        signal(SIGALRM, on_alarm);
        std::cout.rdbuf(&nullbuf);
    }
    double elapsed() const {
        return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    }
    // Announces the next case of the enumeration; true if this process has to run it.
    bool take() {
        settle();
        uint64_t i = idx++;
        if (only >= 0) {
            if ((int64_t)i != only) return false;
        } else {
            if (capped || (int64_t)i < from) return false;
            if ((i * 0x9E3779B97F4A7C15ull >> 33) % nshards != (uint64_t)shard) return false;
            if (elapsed() > deadline) { capped = true; return false; }
        }
        if (mark) mark->idx = i;
        alarm(case_seconds);
        ++evaluations;
        return true;
    }
    bool done() const { return (only >= 0 && idx > (uint64_t)only) || capped; }
    void settle() { if (nt) { ++nontrivial_; nt = false; distinct.insert(desc); } }
    void nontrivial() { nt = true; }
    uint64_t cur() const { return idx - 1; }
    // key: empty for an ordinary violation, otherwise the name of the class of failure (known findings are listed by it)
    void fail(const std::string &key, const std::string &msg) {
        if (key.empty() && getenv("VERIF_FIRST")) capped = true; // for trying out the checks: the first violation is enough
        auto &n = failcount[key];
        if (++n <= 12) fails.push_back({cur(), key, msg});
    }
    // describes the current case; distinct non-trivial cases are counted by it
    void sample(const std::string &s) {
        desc = std::hash<std::string>()(s);
        if (samples.size() < 3 || (only >= 0 && samples.size() < 50)) samples.push_back(s);
    }
    static std::string esc(const std::string &s) {
        std::string r;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r;
    }
    int finish(const std::string &rule) {
        settle();
        alarm(0);
        FILE *f = out.empty() ? stdout : fopen(out.c_str(), "w");
        if (!f) return 3;
        fprintf(f, "{\"evaluations\":%llu,\"nontrivial\":%llu,\"cases\":%llu,\"capped\":%s,\"rule\":\"%s\",\"wall\":%.3f,\n\"samples\":[",
                (unsigned long long)evaluations, (unsigned long long)nontrivial_, (unsigned long long)idx, capped ? "true" : "false",
                esc(rule).c_str(), elapsed());
        for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s\"%s\"", i ? "," : "", esc(samples[i]).c_str());
        fprintf(f, "],\n\"outcomes\":[");
        size_t k = 0;
        for (auto &o : outcomes) { if (k >= 200) break; fprintf(f, "%s\"%s\"", k++ ? "," : "", esc(o).c_str()); }
        fprintf(f, "],\n\"stats\":{");
        k = 0;
        for (auto &s : stats) fprintf(f, "%s\"%s\":%llu", k++ ? "," : "", esc(s.first).c_str(), (unsigned long long)s.second);
        fprintf(f, "},\n\"failcount\":{");
        k = 0;
        for (auto &s : failcount) fprintf(f, "%s\"%s\":%llu", k++ ? "," : "", esc(s.first).c_str(), (unsigned long long)s.second);
        fprintf(f, "},\n\"fails\":[");
        for (size_t i = 0; i < fails.size(); i++)
            fprintf(f, "%s{\"idx\":%llu,\"key\":\"%s\",\"msg\":\"%s\"}", i ? ",\n" : "", (unsigned long long)fails[i].idx,
                    esc(fails[i].key).c_str(), esc(fails[i].msg).c_str());
        fprintf(f, "]}\n");
        if (f != stdout) {
            fclose(f);
            f = fopen((out + ".h").c_str(), "w");
            for (size_t h : distinct) fwrite(&h, sizeof h, 1, f);
            fclose(f);
        }
        _exit(0);
    }
};
} // namespace rep
inline rep::Run R;
