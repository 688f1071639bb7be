#pragma once
#include "scen.h"
// --- observation of the library through its interface ---
str imgDesc(ILimage *im);                       // size, format, palette, chain counts in words
u64 imgHash(ILimage *im, int what = 0);         // everything incl. pixels and chains; what=1: without chains
str imgProblem(ILimage *im, int depth = 0);     // first inconsistency, "" if none
struct NameState { ILuint name; ILimage *img; };
std::vector<NameState> liveNames(ILuint upto);  // images by name, binding restored
str snapshotImages(ILuint upto);                // binding + all images
str snapshotSettings();
std::vector<int> drainErrors();
str errText(const std::vector<int> &e);
bool hasErr(const std::vector<int> &e, int code);
void libStart(int io);                          // allocator, ilInit, iluInit, I/O
void libEnd();
void checkAllImages(ILuint upto, const str &prop, const str &after);

// --- operations ---
struct Res { long ret = 0; std::vector<int> err; str out; bool skipped = false; };  // out: digest of delivered data
const Sample *sampleBy(const str &name);
extern const std::vector<str> ALL_TYPES;
ILenum typeByExt(const str &ext);
void makeImage(long seed, long w, long h, long d, ILenum fmt, ILenum type, int style, int origin); // current image
void makeImageFrom(const Step &s);
struct ImgSpec { const char *name; ILenum fmt; ILenum type; };
extern const std::vector<ImgSpec> SPECS;
const ImgSpec *specBy(const str &name);
Res doLoad(const Step &s);
Res doSave(const Step &s);
Res doPixelOp(const Step &s);
extern const std::vector<str> PIXEL_OPS;
extern const std::vector<str> SAVE_EXTS;        // formats that can be written
extern const std::vector<str> LOAD_SOURCES;
void randPixelArgs(Rng &r, Step &s);
void randSettings(Rng &r, Plan &p, bool any);
void focusSettings(Rng &r, Plan &p);
Res doSetting(const Step &s);
str battery();                                  // uses the current image in several ways; digest
bool simFault();                                // some fault of the current step has taken effect
str faultSpecRead(Rng &r, const Sample &sm, const str &src, bool thorough);
