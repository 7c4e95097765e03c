// Shared driver for the executable contracts: a property is a function drawing its
// inputs from a Draw; the drawn numbers are the case, written to disk before the code
// under test runs so that a crash leaves its input behind.
//   <bin> <mode> <seed> <budget seconds> <outfile>   search; a failing case goes to <outfile>, exit 1
//   <bin> <mode> --replay <file>                     run one recorded case again; exit 1 if it fails
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <random>
#include <sstream>
#include <stdexcept>
#include <string>
#include <valarray>
#include <vector>
#include "watch.hpp"
static std::string num(double x) { char b[40]; snprintf(b, 40, "%.17g", x); return b; }
struct Draw {
    std::mt19937_64* g; std::vector<double> v; size_t p; std::string out, mode, text;
    Draw(std::mt19937_64* g) : g(g), p(0) {}
    double put(double x) { if (g) { v.push_back(x); return x; } if (p >= v.size()) throw std::runtime_error("short replay file"); return v[p++]; }
    double raw() { return std::uniform_real_distribution<double>(0, 1)(*g); }
    double u(double a = 0, double b = 1) { return put(g ? a + (b - a) * raw() : 0); }
    double lu(double a, double b) { return put(g ? std::exp(std::log(a) + raw() * std::log(b / a)) : 0); }
    int i(int a, int b) { return (int)put(g ? std::uniform_int_distribution<int>(a, b)(*g) : 0); }
    bool b() { return i(0, 1); }
    bool one_in(int n) { return i(0, n - 1) == 0; }
    void note(const std::string& s) { text += " " + s; }
    // all inputs are drawn: from here on the code under test runs
    void go() { if (g) watch_case(out, mode, dump()); }
    std::string dump() { std::ostringstream o; o.precision(17); o << "#" << text << "\n" << v.size() << "\n"; for (double d : v) o << d << "\n"; return o.str(); }
};
struct Fail : std::runtime_error { Fail(const std::string& s) : std::runtime_error(s) {} };
#define CHECK(c, msg) do { if (!(c)) throw Fail(msg); } while (0)
typedef std::map<std::string, std::function<void(Draw&)> > Modes;
static int common_main(int argc, char** argv, Modes modes) {
    std::string mode = argv[1]; auto f = modes.at(mode);
    if (!strcmp(argv[2], "--replay")) {
        std::ifstream in(argv[3]); std::string l; while (in.peek() == '#') std::getline(in, l);
        Draw d(nullptr); size_t n; in >> n; for (size_t k = 0; k < n; k++) { double x; in >> x; d.v.push_back(x); }
        d.mode = mode;
        try { f(d); } catch (std::exception& e) { printf("%s\nFAILED %s\n", d.text.c_str(), e.what()); return 1; }
        puts("held"); return 0;
    }
    unsigned long seed = strtoul(argv[2], 0, 10); double budget = atof(argv[3]);
    std::mt19937_64 g(seed * 1000003 + 17); auto t0 = std::chrono::steady_clock::now(); long n = 0;
    while (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget) {
        Draw d(&g); d.out = argv[4]; d.mode = mode;
        try { n++; f(d); } catch (std::exception& e) {
            watch_fail(argv[4], mode + ": " + e.what(), d.dump());
            printf("FAILED %s:%s: %s\ncases %ld\n", mode.c_str(), d.text.c_str(), e.what(), n); return 1;
        }
        if (n <= 2) printf("sample %s:%s\n", mode.c_str(), d.text.c_str());
    }
    watch_clear(argv[4]); printf("held cases %ld\n", n); return 0;
}
