#include "lib.h"
#define L(X) X(C01) X(C02) X(C03) X(C04) X(C05) X(C06) X(C07) X(C08) X(C09) X(C10) X(C11) X(C12) X(C13) X(C14) X(C15) X(C16) X(C17) X(C18) X(C19) X(C20) X(C21) X(C24) X(C25) X(C26)
#define D(p) Scenario sc##p();
L(D)
#define E(p) sc##p(),
static std::vector<Scenario> &all() { static std::vector<Scenario> v = {L(E)}; return v; }
const Scenario *findScenario(const str &id) { for (auto &s : all()) if (id == s.prop) return &s; return nullptr; }
void prepare(const Scenario &) {}
