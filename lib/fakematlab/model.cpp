#include "model.hpp"
#include <cstdlib>
#include <cstring>
struct engine { char* buf; int n; };
namespace fakematlab {
World& world() { static World w; return w; }
size_t elementSize(mxClassID c) {
  switch (c) {
    case mxLOGICAL_CLASS: case mxINT8_CLASS: case mxUINT8_CLASS: return 1;
    case mxCHAR_CLASS: case mxINT16_CLASS: case mxUINT16_CLASS: return 2;
    case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4;
    default: return 8;
  }
}
mxArray make(mxClassID c, const std::vector<mwSize>& dims) {
  mxArray a;
  a.cls = c;
  a.dims = dims;
  size_t n = 1;
  for (mwSize d : dims) n *= d;
  a.data.resize(n * elementSize(c));
  return a;
}
static void wrong(const std::string& s) { if (world().misuse.empty()) world().misuse = s; }
static const mxArray* own(const mxArray* a, const char* f) {
  static const mxArray empty = make(mxDOUBLE_CLASS, {0, 0});
  if (!world().alive.count(a)) { wrong(std::string(f) + (a ? " of an array that was destroyed or never made" : " of no array")); return &empty; }
  return a;
}
static mxArray* give(const mxArray& v) { mxArray* a = new mxArray(v); world().alive.insert(a); return a; }
static size_t count(const mxArray* a) { size_t n = 1; for (mwSize d : a->dims) n *= d; return n; }
static bool open(Engine* e, const char* f) { if (!world().engines.count(e)) { wrong(std::string(f) + " without an open engine"); return false; } return true; }
static bool name(const std::string& n) {
  if (n.empty() || !(std::isalpha((unsigned char)n[0]))) return false;
  for (char c : n) if (!std::isalnum((unsigned char)c) && c != '_') return false;
  return true;
}
}  // namespace fakematlab
using namespace fakematlab;
extern "C" {
Engine* engOpen(const char*) {
  if (world().failOpen) return nullptr;
  ++world().opened;
  Engine* e = new Engine{nullptr, 0};
  world().engines.insert(e);
  return e;
}
int engClose(Engine* e) {
  if (!open(e, "engClose")) return 1;
  world().engines.erase(e);
  delete e;
  return world().failClose;
}
int engOutputBuffer(Engine* e, char* p, int n) {
  if (!e) return 1;
  if (!open(e, "engOutputBuffer")) return 1;
  e->buf = p;
  e->n = n;
  return 0;
}
int engEvalString(Engine* e, const char* s) {
  if (!open(e, "engEvalString")) return 1;
  if (world().failEval) return 1;
  world().commands.push_back(s);
  std::string a = world().answer;
  const std::string d = "disp('";
  if (std::string(s).compare(0, d.size(), d) == 0) { a = s + d.size(); a = ">> " + a.substr(0, a.find("')")) + "\n"; }
  if (e->buf) {  // as documented: at most n characters, terminated where there is room
    const size_t k = std::min(a.size(), size_t(e->n));
    std::memcpy(e->buf, a.data(), k);
    if (k < size_t(e->n)) e->buf[k] = 0;
  }
  return 0;
}
int engPutVariable(Engine* e, const char* n, const mxArray* a) {
  if (!open(e, "engPutVariable") || world().failPut || !name(n)) return 1;
  world().vars[n] = *own(a, "engPutVariable");
  return 0;
}
mxArray* engGetVariable(Engine* e, const char* n) {
  if (!open(e, "engGetVariable")) return nullptr;
  auto i = world().vars.find(n);
  return i == world().vars.end() ? nullptr : give(i->second);
}
mxArray* mxCreateNumericArray(mwSize k, const mwSize* d, mxClassID c, mxComplexity) { return give(make(c, std::vector<mwSize>(d, d + k))); }
mxArray* mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity) { return give(make(c, {m, n})); }
mxArray* mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity) { return give(make(mxDOUBLE_CLASS, {m, n})); }
mxArray* mxCreateDoubleScalar(double v) { mxArray a = make(mxDOUBLE_CLASS, {1, 1}); std::memcpy(a.data.data(), &v, 8); return give(a); }
mxArray* mxCreateString(const char* s) {
  const size_t n = std::strlen(s);
  mxArray a = make(mxCHAR_CLASS, {n ? size_t(1) : 0, n});
  for (size_t i = 0; i < n; ++i) { mxChar c = (unsigned char)s[i]; std::memcpy(&a.data[2 * i], &c, 2); }
  return give(a);
}
mxArray* mxCreateLogicalMatrix(mwSize m, mwSize n) { return give(make(mxLOGICAL_CLASS, {m, n})); }
mxArray* mxCreateLogicalScalar(mxLogical v) { mxArray a = make(mxLOGICAL_CLASS, {1, 1}); a.data[0] = v; return give(a); }
mxArray* mxCreateCharArray(mwSize k, const mwSize* d) { return give(make(mxCHAR_CLASS, std::vector<mwSize>(d, d + k))); }
mxArray* mxDuplicateArray(const mxArray* a) { return give(*own(a, "mxDuplicateArray")); }
void mxDestroyArray(mxArray* a) {
  if (!a) return;
  if (!world().alive.erase(a)) { wrong("an array is destroyed twice"); return; }
  delete a;
}
void* mxGetData(const mxArray* a) { return const_cast<unsigned char*>(own(a, "mxGetData")->data.data()); }
double* mxGetPr(const mxArray* a) { return static_cast<double*>(mxGetData(a)); }
mxDouble* mxGetDoubles(const mxArray* a) { return mxIsDouble(a) ? static_cast<double*>(mxGetData(a)) : nullptr; }
mxLogical* mxGetLogicals(const mxArray* a) { return mxIsLogical(a) ? static_cast<mxLogical*>(mxGetData(a)) : nullptr; }
mxChar* mxGetChars(const mxArray* a) { return mxIsChar(a) ? static_cast<mxChar*>(mxGetData(a)) : nullptr; }
size_t mxGetElementSize(const mxArray* a) { return elementSize(own(a, "mxGetElementSize")->cls); }
size_t mxGetM(const mxArray* a) { return own(a, "mxGetM")->dims[0]; }
size_t mxGetN(const mxArray* a) { const mxArray* b = own(a, "mxGetN"); size_t n = 1; for (size_t i = 1; i < b->dims.size(); ++i) n *= b->dims[i]; return n; }
size_t mxGetNumberOfElements(const mxArray* a) { return count(own(a, "mxGetNumberOfElements")); }
mwSize mxGetNumberOfDimensions(const mxArray* a) { return own(a, "mxGetNumberOfDimensions")->dims.size(); }
const mwSize* mxGetDimensions(const mxArray* a) { return own(a, "mxGetDimensions")->dims.data(); }
mxClassID mxGetClassID(const mxArray* a) { return own(a, "mxGetClassID")->cls; }
const char* mxGetClassName(const mxArray* a) {
  static const char* const n[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function_handle"};
  return n[mxGetClassID(a)];
}
double mxGetScalar(const mxArray* a) {
  const mxArray* b = own(a, "mxGetScalar");
  if (b->data.empty()) { wrong("mxGetScalar of an empty array"); return 0; }
  const unsigned char* p = b->data.data();
  auto rd = [&](auto v) { std::memcpy(&v, p, sizeof v); return double(v); };
  switch (b->cls) {
    case mxDOUBLE_CLASS: return rd(double());
    case mxSINGLE_CLASS: return rd(float());
    case mxINT8_CLASS: return rd(int8_t());
    case mxUINT8_CLASS: case mxLOGICAL_CLASS: return rd(uint8_t());
    case mxINT16_CLASS: return rd(int16_t());
    case mxUINT16_CLASS: case mxCHAR_CLASS: return rd(uint16_t());
    case mxINT32_CLASS: return rd(int32_t());
    case mxUINT32_CLASS: return rd(uint32_t());
    case mxINT64_CLASS: return rd(int64_t());
    case mxUINT64_CLASS: return rd(uint64_t());
    default: wrong("mxGetScalar of a cell or struct"); return 0;
  }
}
int mxGetString(const mxArray* a, char* p, mwSize n) {
  const mxArray* b = own(a, "mxGetString");
  if (b->cls != mxCHAR_CLASS || n == 0) return 1;
  const size_t k = std::min<size_t>(count(b), n - 1);
  for (size_t i = 0; i < k; ++i) p[i] = char(b->data[2 * i]);
  p[k] = 0;
  return k < count(b);
}
char* mxArrayToString(const mxArray* a) {
  const mxArray* b = own(a, "mxArrayToString");
  if (b->cls != mxCHAR_CLASS) return nullptr;
  char* p = static_cast<char*>(std::malloc(count(b) + 1));
  mxGetString(a, p, count(b) + 1);
  return p;
}
void mxFree(void* p) { std::free(p); }
void* mxMalloc(size_t n) { return std::malloc(n); }
void* mxCalloc(size_t n, size_t k) { return std::calloc(n, k); }
bool mxIsNumeric(const mxArray* a) { const mxClassID c = own(a, "mxIsNumeric")->cls; return c >= mxDOUBLE_CLASS && c <= mxUINT64_CLASS; }
bool mxIsDouble(const mxArray* a) { return own(a, "mxIsDouble")->cls == mxDOUBLE_CLASS; }
bool mxIsSingle(const mxArray* a) { return own(a, "mxIsSingle")->cls == mxSINGLE_CLASS; }
bool mxIsComplex(const mxArray* a) { own(a, "mxIsComplex"); return false; }
bool mxIsChar(const mxArray* a) { return own(a, "mxIsChar")->cls == mxCHAR_CLASS; }
bool mxIsLogical(const mxArray* a) { return own(a, "mxIsLogical")->cls == mxLOGICAL_CLASS; }
bool mxIsLogicalScalar(const mxArray* a) { return mxIsLogical(a) && count(own(a, "mxIsLogicalScalar")) == 1; }
bool mxIsLogicalScalarTrue(const mxArray* a) { return mxIsLogicalScalar(a) && own(a, "mxIsLogicalScalarTrue")->data[0] != 0; }
bool mxIsScalar(const mxArray* a) { return count(own(a, "mxIsScalar")) == 1; }
bool mxIsEmpty(const mxArray* a) { return count(own(a, "mxIsEmpty")) == 0; }
bool mxIsCell(const mxArray* a) { return own(a, "mxIsCell")->cls == mxCELL_CLASS; }
bool mxIsStruct(const mxArray* a) { return own(a, "mxIsStruct")->cls == mxSTRUCT_CLASS; }
bool mxIsClass(const mxArray* a, const char* n) { return std::string(mxGetClassName(a)) == n; }
}
