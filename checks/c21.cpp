// C21: conversion helpers against their mathematical definitions.
#include "common.hpp"
#include <filesystem>

using namespace hv;

template <typename T> static void levels (Gen& g)
{
    const bool f = sizeof (T) == 4;
    auto genDb = [&] () -> T
    {
        switch (g.draw (6))
        {
            case 0: return (T) g.range (-119, 60);
            case 1: return (T) g.real (-119.9, 60);
            case 2: return (T) g.real (-400, -120.001);
            case 3: return (T) g.real (-121, -119);
            case 4: return (T) g.real (-20, 20);
            case 5: return g.pick ({ (T) 300, (T) -300, (T) -std::numeric_limits<T>::max(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::infinity() });
            default: return (T) g.real (60, 700);
        }
    };
    const T a = genDb(), b = genDb();
    g.note ([&] (auto& s) { s << "dB " << a << " and " << b; });
    const T ra = hart::decibelsToRatio (a), rb = hart::decibelsToRatio (b);
    for (auto p : { std::make_pair (a, ra), std::make_pair (b, rb) })
    {
        if (std::isinf (p.first) && p.first > 0)
        {
            PBT_CHECK (std::isinf (p.second) && p.second > 0, "decibelsToRatio (" << p.first << ") is " << p.second);
            PBT_CHECK (std::isinf (hart::ratioToDecibels (p.second)) && hart::ratioToDecibels (p.second) > 0, "ratioToDecibels (infinity) is " << hart::ratioToDecibels (p.second));
            continue;
        }
        if (p.first < (T) -120) PBT_CHECK (p.second == (T) 0, "decibelsToRatio (" << p.first << ") is " << p.second << ", expected 0");
        else
        {
            const double want = std::pow (10.0, (double) p.first / 20.0);
            PBT_CHECK (std::abs ((double) p.second - want) <= want * (f ? 2e-5 : 1e-12), "decibelsToRatio (" << p.first << ") is " << p.second << ", expected " << want);
        }
        const T back = hart::ratioToDecibels (p.second);
        const double wantBack = std::max (-120.0, (double) p.first);
        PBT_CHECK (std::abs ((double) back - wantBack) <= (f ? 2e-3 : 1e-9) + 1e-6 * (f ? std::abs (wantBack) : 0), "ratioToDecibels (decibelsToRatio (" << p.first << ")) is " << back);
    }
    if (a <= b) PBT_CHECK (ra <= rb, "decibelsToRatio is not monotone: " << a << " -> " << ra << ", " << b << " -> " << rb);
    else PBT_CHECK (rb <= ra, "decibelsToRatio is not monotone: " << a << " -> " << ra << ", " << b << " -> " << rb);

    auto genRatio = [&] () -> T
    {
        switch (g.draw (6)) { case 0: return (T) 0; case 1: return (T) 1; case 2: return (T) g.logReal (2e-6, 1e6); case 3: return (T) g.real (0, 9.9e-7); case 4: return (T) g.real (0, 4); case 5: return (T) -g.real (0, 3); default: return std::numeric_limits<T>::denorm_min(); }
    };
    const T x = genRatio(), y = genRatio();
    g.note ([&] (auto& s) { s << "ratios " << x << " and " << y; });
    const T dx = hart::ratioToDecibels (x), dy = hart::ratioToDecibels (y);
    for (auto p : { std::make_pair (x, dx), std::make_pair (y, dy) })
    {
        if (p.first < (T) 9.99e-7) PBT_CHECK (p.second == (T) -120, "ratioToDecibels (" << p.first << ") is " << p.second << ", expected -120");
        else
        {
            const double want = 20 * std::log10 ((double) p.first);
            PBT_CHECK (std::abs ((double) p.second - want) <= (f ? 1e-4 : 1e-9), "ratioToDecibels (" << p.first << ") is " << p.second << ", expected " << want);
            const double back = (double) hart::decibelsToRatio (p.second);
            if (p.first > (T) 1.001e-6)
                PBT_CHECK (std::abs (back - (double) p.first) <= (double) p.first * (f ? 5e-5 : 1e-10), "decibelsToRatio (ratioToDecibels (" << p.first << ")) is " << back);
        }
    }
    if (x <= y) PBT_CHECK (dx <= dy, "ratioToDecibels is not monotone: " << x << " -> " << dx << ", " << y << " -> " << dy);
    else PBT_CHECK (dy <= dx, "ratioToDecibels is not monotone: " << x << " -> " << dx << ", " << y << " -> " << dy);
    g.label ("levels");
}

template <typename T> static void phases (Gen& g)
{
    const bool f = sizeof (T) == 4;
    T x;
    switch (g.draw (5))
    {
        case 0: x = (T) (hart::halfPi * (double) g.range (-64, 64)); break;
        case 1: x = (T) g.real (-20, 20); break;
        case 2: x = (T) g.real (-1e4, 1e4); break;
        case 3: x = (T) (hart::twoPi * (double) g.range (-1000, 1000) + g.real (-1e-6, 1e-6)); break;
        case 4: x = (T) (g.flip() ? 0.0 : g.real (-1e-12, 1e-12)); break;
        default: x = (T) (hart::pi * (double) g.range (-1000, 1000) + g.real (-1e-3, 1e-3)); break;
    }
    const T w = hart::wrapPhase (x);
    const double eps = f ? 1e-6 : 1e-14;
    PBT_CHECK ((double) w >= 0.0 && (double) w <= hart::twoPi + eps * 10, "wrapPhase (" << x << ") is " << w << ", outside 0..2*pi");
    const double k = std::round (((double) x - (double) w) / hart::twoPi);
    const double rest = (double) x - (double) w - k * hart::twoPi;
    PBT_CHECK (std::abs (rest) <= (f ? 2e-6 + 1e-6 * std::abs ((double) x) : 1e-9), "wrapPhase (" << x << ") is " << w << ", which differs by " << rest << " from a whole number of turns");
    g.note ([&] (auto& s) { s << "wrapPhase(" << x << ") = " << w; });
    g.label ("phase");
}

template <typename T> static void numbers (Gen& g)
{
    T a = genSample<T> (g, withLoud), b = genSample<T> (g, withLoud), v = genSample<T> (g, withLoud);
    if (g.oneIn (4)) v = g.flip() ? a : b;
    if (b < a) std::swap (a, b);
    const T c = hart::clamp (v, a, b);
    PBT_CHECK (c == (v < a ? a : v > b ? b : v), "clamp (" << v << ", " << a << ", " << b << ") is " << c);
    const int ia = (int) g.range (-5, 5), ib = ia + (int) g.range (0, 5), iv = (int) g.range (-12, 12);
    PBT_CHECK (hart::clamp (iv, ia, ib) == (iv < ia ? ia : iv > ib ? ib : iv), "clamp (" << iv << ", " << ia << ", " << ib << ") is " << hart::clamp (iv, ia, ib));

    // comparison within a tolerance
    const T base = g.mostly (2) ? genSample<T> (g, ordinary) : (T) ((g.flip() ? 1 : -1) * g.logReal (1, sizeof (T) == 4 ? 1e5 : 1e12));
    const T eps = g.mostly (3) ? g.pick ({ (T) 1e-8, (T) 0.25, (T) 1e-3, (T) 1 }) : (T) g.logReal (1e-9, 1e6);
    const T delta = (T) (g.pick ({ 0.0, 0.5, 0.9, 1.1, 2.0, -0.5, -1.1, -3.0 }) * (double) eps);
    const T other = base + delta;
    const double diff = std::abs ((double) base - (double) other);
    const bool equal = (bool) hart::floatsEqual (base, other, eps), notEqual = (bool) hart::floatsNotEqual (base, other, eps);
    if (std::abs (diff - (double) eps) > 0.01 * (double) eps)
    {
        PBT_CHECK (equal == (diff < (double) eps), "floatsEqual (" << base << ", " << other << ", " << eps << ") is " << equal);
        PBT_CHECK (notEqual == ! (diff < (double) eps), "floatsNotEqual (" << base << ", " << other << ", " << eps << ") is " << notEqual);
    }
    if (std::abs (diff - 1e-8) > 1e-10)
        PBT_CHECK ((bool) hart::floatsEqual (base, other) == (diff < 1e-8) && (bool) hart::floatsNotEqual (base, other) == (diff > 1e-8), "with the default tolerance, floatsEqual (" << base << ", " << other << ") is " << (bool) hart::floatsEqual (base, other));
    PBT_CHECK (equal != notEqual, "floatsEqual and floatsNotEqual agree for " << base << " and " << other);
    PBT_CHECK ((bool) hart::floatsEqual (other, base, eps) == equal, "floatsEqual is not symmetric");

    // rounding to a frame count
    const size_t n = g.logSize (0, sizeof (T) == 4 ? 100000 : 1000000000);
    const double frac = g.pick ({ 0.0, 0.25, 0.45, -0.25, -0.45, 0.49 });
    const T x = (T) std::max (0.0, (double) n + frac);
    if (std::abs ((double) x - (double) n) < 0.495)
        PBT_CHECK (hart::roundToSizeT (x) == n, "roundToSizeT (" << x << ") is " << hart::roundToSizeT (x) << ", expected " << n);
    g.note ([&] (auto& s) { s << "clamp(" << v << "," << a << "," << b << "), compare " << base << " with " << other << " eps " << eps << ", round " << x; });
    g.label ("numbers");
}

static void units (Gen& g)
{
    const long double v = g.flip() ? (long double) g.range (0, 100000) : (long double) g.real (0, 100000);
    const unsigned long long n = g.logSize (0, 1000000);
    auto near = [] (double a, double b) { return std::abs (a - b) <= 1e-12 * std::max (1.0, std::abs (b)) ; };
#define UNIT(suffix, factor) \
    PBT_CHECK (near (operator"" suffix (v), (double) (v * (long double) (factor))), (double) v << #suffix " is " << operator"" suffix (v)); \
    PBT_CHECK (near (operator"" suffix (n), (double) ((long double) n * (long double) (factor))), n << #suffix " is " << operator"" suffix (n));
    const long double piL = 3.14159265358979323846264338327950288L;
    UNIT (_s, 1.0L) UNIT (_ms, 1e-3L) UNIT (_us, 1e-6L) UNIT (_dB, 1.0L) UNIT (_Hz, 1.0L) UNIT (_kHz, 1e3L) UNIT (_rad, 1.0L) UNIT (_deg, piL / 180.0L)
    PBT_CHECK (near (hart::pi, (double) piL) && near (hart::twoPi, (double) (2 * piL)) && near (hart::halfPi, (double) (piL / 2)), "pi constants");
    PBT_CHECK (near (pi_rad, (double) piL) && near (twoPi_rad, (double) (2 * piL)) && near (halfPi_rad, (double) (piL / 2)), "pi unit constants");
    PBT_CHECK (std::isinf (inf_dB) && inf_dB > 0 && std::isinf (oo_dB) && oo_dB > 0 && std::isinf (hart::oo) && hart::decibelsToRatio (-oo_dB) == 0.0, "infinities");
    g.note ([&] (auto& s) { s << "units of " << (double) v << " and " << n; });
    g.label ("units");
}

static void paths (Gen& g)
{
    namespace fs = std::filesystem;
    auto word = [&] { std::string w; const size_t n = g.size (1, 6); for (size_t i = 0; i < n; ++i) w += "abz.:-_ 9C"[g.draw (9)]; return w; };
    auto path = [&] { std::string p; const size_t n = g.size (1, 4); for (size_t i = 0; i < n; ++i) { if (i) p += "/"; p += word(); } return p; };
    Cli cli;
    const int rootKind = (int) g.draw (4);
    cli.dataRoot = rootKind == 0 ? "." : rootKind == 1 ? "/" + path() : rootKind == 2 ? path() : rootKind == 3 ? path() + "/" : "";
    if (! cli.dataRoot.empty() && cli.dataRoot[0] == '-') cli.dataRoot = "x" + cli.dataRoot;
    // An empty root is exercised through the CLI only where the parser accepts an empty value
    if (cli.dataRoot.empty()) cli.dataRoot = ".";
    if (cli.dataRoot.find_first_of (" ") != std::string::npos) std::replace (cli.dataRoot.begin(), cli.dataRoot.end(), ' ', '_');
    setCli (cli);
    PBT_CHECK (hart::CLIConfig::getInstance().getDataRootPath() == cli.dataRoot, "data root is \"" << hart::CLIConfig::getInstance().getDataRootPath() << "\", \"" << cli.dataRoot << "\" was given");

    const bool absolute = g.flip();
    const std::string p = absolute ? (g.mostly (4) ? "/" : "\\") + path() : path();
    const std::string got = hart::toAbsolutePath (p);
    g.note ([&] (auto& s) { s << "root \"" << cli.dataRoot << "\" path \"" << p << "\" -> \"" << got << "\""; });
    PBT_CHECK (hart::isAbsolutePath (p) == absolute, "isAbsolutePath (\"" << p << "\") is " << hart::isAbsolutePath (p));
    PBT_CHECK (! hart::isAbsolutePath (""), "the empty path counts as absolute");
    if (absolute) PBT_CHECK (got == p, "absolute path \"" << p << "\" became \"" << got << "\"");
    else
    {
        const auto want = (fs::path (cli.dataRoot) / p).lexically_normal();
        PBT_CHECK (fs::path (got).lexically_normal() == want, "relative path \"" << p << "\" under root \"" << cli.dataRoot << "\" became \"" << got << "\"");
    }
    g.label (absolute ? "absolute path" : "relative path");
}

static void property (Gen& g)
{
    g.nontrivial();
    const int kind = (int) g.draw (4);
    const bool d = g.flip();
    switch (kind)
    {
        case 0: d ? levels<double> (g) : levels<float> (g); break;
        case 1: d ? phases<double> (g) : phases<float> (g); break;
        case 2: d ? numbers<double> (g) : numbers<float> (g); break;
        case 3: units (g); break;
        default: paths (g); break;
    }
}

PBT_MAIN ("C21", "random levels, ratios, phases, numbers, unit values and paths compared with their definitions; every distinct case counts", property)
