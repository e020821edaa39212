#pragma once
#include "scenario.hpp"
#include <functional>
#include <map>
struct ProgStats { sim::u64 runs = 0, probes = 0, sizes = 0, shares = 0, loads = 0, prints = 0, resumed = 0; };
void prog_init(HOp *h, int *hn);
void prog_begin_scenario(const SutApi *api);
void prog_begin_era(const Era *e, int ei);
void prog_output(const char *s, size_t n);
std::vector<std::pair<int, int>> prog_segments(int hn);
void prog_judge(const Scenario &sc, int ei, int rc, bool persistent, bool exact, ProgStats &ps, const std::function<void(const std::string &, const std::string &)> &bad);
