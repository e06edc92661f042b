// Property registration and explorer interface for drivers.
#pragma once
#include "sim.h"
struct Scenario { str name; std::function<void()> run; };
struct Property { const char* id; std::function<void(std::vector<Scenario>&, bool thorough)> build; std::vector<str> assumptions; };
std::vector<Property>& properties();
struct Reg { Reg(const char* id, std::function<void(std::vector<Scenario>&, bool)> b, std::vector<str> as = {}) { 
	for (auto& p : properties()) if (str(p.id) == id) { auto one = p.build; p.build = [one, b](std::vector<Scenario>& v, bool th) { one(v, th); b(v, th); }; p.assumptions.insert(p.assumptions.end(), as.begin(), as.end()); return; } // several drivers can have scenarios of one property
	properties().push_back({id, b, as}); } };
void count_steps(uint64_t n);
extern bool g_thorough;
const str& cur_scenario();
