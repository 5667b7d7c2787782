#ifndef HARNESS_COMMON_HPP
#define HARNESS_COMMON_HPP
#include "core/sim.hpp"
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <pion/config.hpp>
#include <pion/logger.hpp>

namespace hx {
/// library log output goes nowhere (and formats as little as possible)
inline void quiet_logging() {
    static std::streambuf *nul = 0; (void)nul;
    std::cout.rdbuf(0); std::cerr.rdbuf(0); std::cout.clear(std::ios::badbit); std::cerr.clear(std::ios::badbit);
    pion::logger::m_priority = pion::logger::LOG_LEVEL_FATAL;
}
#define CHECK(cond, cls, ...) do { if (!(cond)) ::sim::violation(cls, __VA_ARGS__); } while (0)
/// a library call made by a harness that may run without (LITE) or with the thread simulation
#ifdef SIM_LITE
#define LIB(expr) (expr)
#else
#define LIB(expr) ::sim::loud([&]() -> decltype(auto) { return (expr); })
#endif
const uint64_t SEC = 1000000, MS = 1000;
}
#endif
