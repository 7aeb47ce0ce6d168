// Runner: executes batches of generated cases, or replays recorded ones.
#include "pbt.h"
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/mman.h>
#include <unistd.h>
#include "common.h"

namespace pbt {
Journal *journal = nullptr;
std::vector<Prop> &registry() { static std::vector<Prop> r; return r; }
}
using namespace pbt;

static std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static std::string jvec(const std::vector<uint64_t> &v) {
    std::string o = "[";
    for (size_t i = 0; i < v.size(); i++) { if (i) o += ","; o += std::to_string(v[i]); }
    return o + "]";
}
static uint64_t hashvec(const std::vector<uint64_t> &v) {
    uint64_t h = 1469598103934665603ULL;
    for (uint64_t x : v) { h ^= x + 0x9E3779B97F4A7C15ULL; h *= 1099511628211ULL; h ^= h >> 29; }
    return h;
}

struct Outcome { int kind; std::string msg, key; };   // 0 pass, 1 fail, 2 discard
static Outcome run_one(const Prop &p, Src &s) {
    reset_library();
    try { p.fn(s); return {0, "", ""}; }
    catch (Fail &f) { return {1, f.msg, f.key}; }
    catch (Discard &) { return {2, "", ""}; }
    catch (std::exception &e) { return {1, std::string("unexpected exception: ") + e.what(), "exception"}; }
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static const double slow = getenv("PBT_SLOW") ? atof(getenv("PBT_SLOW")) : 0;
static int real_out = 1;
static void emit(const std::string &l) {
    std::string s = l + "\n";
    size_t off = 0;
    while (off < s.size()) {
        ssize_t k = write(real_out, s.data() + off, s.size() - off);
        if (k <= 0) break;
        off += (size_t)k;
    }
}

int main(int argc, char **argv) {
    if (argc < 2) return 2;
    std::string mode = argv[1];
    if (mode == "list") {
        for (auto &p : registry()) printf("{\"name\":%s,\"rule\":%s}\n", jstr(p.name).c_str(), jstr(p.rule).c_str());
        return 0;
    }
    const Prop *prop = nullptr;
    for (auto &p : registry()) if (p.name == argv[2]) prop = &p;
    if (!prop) { fprintf(stderr, "no such property %s\n", argv[2]); return 2; }
    // The library may print on stdout: send that to stderr, keep the real one for results.
    real_out = dup(1);
    dup2(2, 1);
    init_library();
    if (mode == "run") {               // run SUB SEED FROM TO JOURNAL
        uint64_t seed = strtoull(argv[3], 0, 10), from = strtoull(argv[4], 0, 10), to = strtoull(argv[5], 0, 10);
        int fd = open(argv[6], O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Journal))) return 2;
        journal = (Journal *)mmap(0, sizeof(Journal), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        uint64_t ph = 77;
        for (char c : prop->name) ph = ph * 131 + (unsigned char)c;
        size_t n = 0, nd = 0, nsamp = 0;
        std::map<std::string, size_t> labels, known;
        std::string nt, samples;
        std::string failjson;
        for (uint64_t i = from; i < to; i++) {
            uint64_t st = seed * 0x9E3779B97F4A7C15ULL + ph; splitmix(st); st ^= i * 0xD6E8FEB86659FD93ULL; splitmix(st);
            journal->index = i;
            Src s(st);
            double t0 = now();
            Outcome o = run_one(*prop, s);
            if (slow > 0 && now() - t0 > slow) fprintf(stderr, "slow: case %lu took %.1f s: %s\n", (unsigned long)i, now() - t0, s.desc.str().c_str());
            n++;
            if (o.kind == 2) { nd++; continue; }
            for (auto &l : s.labels) labels[l]++;
            for (auto &l : s.known) known[l]++;
            if (s.is_nontrivial) {
                nt += (nt.empty() ? "" : ",") + std::to_string(hashvec(s.rec));
                if (nsamp < 2 && o.kind == 0) { samples += (nsamp ? "," : "") + jstr(s.desc.str()); nsamp++; }
            }
            if (o.kind == 1) {
                failjson = cat("{\"index\":", i, ",\"msg\":", jstr(o.msg), ",\"key\":", jstr(o.key), ",\"desc\":",
                               jstr(s.desc.str()), ",\"choices\":", jvec(s.rec), "}");
                break;
            }
        }
        auto map_json = [](const std::map<std::string, size_t> &m) {
            std::string j = "{";
            for (auto &l : m) j += (j.size() > 1 ? "," : "") + jstr(l.first) + ":" + std::to_string(l.second);
            return j + "}";
        };
        std::string lj = map_json(labels);
        emit(cat("{\"n\":", n, ",\"discarded\":", nd, ",\"nontrivial\":[", nt, "],\"labels\":", lj, ",\"known\":", map_json(known),
                 ",\"samples\":[", samples, "],\"fail\":", failjson.empty() ? "null" : failjson, "}"));
        _exit(0);
    }
    if (mode == "replay") {            // replay SUB FILE: one case per line; result per line, flushed
        std::ifstream in(argv[3]);
        std::string line;
        while (std::getline(in, line)) {
            std::vector<uint64_t> c;
            std::istringstream ls(line);
            uint64_t x;
            while (ls >> x) c.push_back(x);
            Src s(c);
            Outcome o = run_one(*prop, s);
            emit(cat("{\"kind\":", o.kind, ",\"msg\":", jstr(o.msg), ",\"key\":", jstr(o.key), ",\"desc\":",
                     jstr(s.desc.str()), ",\"choices\":", jvec(s.rec), "}"));
        }
        _exit(0);
    }
    return 2;
}
