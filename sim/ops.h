// A small language of client operations used by the history scenarios.
#pragma once
#include "lib.h"
extern str curProp;
void applyCfgStep(const Step &s);
struct Ctx {
  ILuint slot[8] = {0};
  int cur = -1;
  bool ow = true;       // what the client believes about overwriting
};
// runs one step; faults in s.kv["f"] apply to it. op classes: slot del img load save set probe savepal loadpal savedata push pop active + pixel operations
Res runOp(const Step &s, Ctx &c);
bool isPixelOp(const str &op);
struct GenOpt {
  int slots = 3; int faultNum = 1, faultDen = 2; // chance of a fault per faultable operation
  bool allocFaults = true, ioFaults = true, settings = true, attrib = true, bindings = true, sub = true, loads = true, saves = true, pixels = true, probes = true;
};
Step genOp(Rng &r, const GenOpt &o, int &curSlot);
Step genImage(Rng &r, bool small = true);
str randFaultFor(Rng &r, const Step &s, bool alloc, bool io);
Step genLoad(Rng &r); Step genSave(Rng &r);
bool opMayFault(const str &op);
const char *errName(int e);
str imgKey(const Step &s);
