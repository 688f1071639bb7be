#pragma once
#include "sim.h"
struct Scenario {
  const char *prop; const char *level; const char *rule;
  std::function<u64(bool)> count;
  std::function<Plan(Rng &, u64, bool)> gen;
  std::function<void(const Plan &)> exec;
  const char *const *counters;
};
const Scenario *findScenario(const str &id);
struct Sample { str name; ILenum type; str ext; Bytes data; bool typed; };
extern std::vector<Sample> SAMPLES;
void loadSamples(const str &dir);
void prepare(const Scenario &);
