// Minimal stand-in for MATLAB's mex.h: just enough of the C matrix API to run the
// MATLAB interface files of the repository inside a test program.
#pragma once
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cmath>
#include <string>
#include <vector>
#include <deque>
typedef size_t mwSize; typedef size_t mwIndex; typedef ptrdiff_t mwSignedIndex;
enum mxClassID { mxUNKNOWN_CLASS, mxCHAR_CLASS = 4, mxDOUBLE_CLASS = 6, mxSINGLE_CLASS = 7, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS };
enum mxComplexity { mxREAL, mxCOMPLEX };
struct mxArray {
  mxClassID cls = mxDOUBLE_CLASS; std::vector<mwSize> dims; std::vector<unsigned char> mem; size_t bytes = 0; // 64 guard bytes on both sides
  enum { GUARD = 64 };
  static size_t elem(mxClassID c) { switch (c) { case mxDOUBLE_CLASS: case mxINT64_CLASS: case mxUINT64_CLASS: return 8; case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4; case mxINT16_CLASS: case mxUINT16_CLASS: case mxCHAR_CLASS: return 2; default: return 1; } }
  void alloc(mxClassID c, const std::vector<mwSize>& d) { cls = c; dims = d; while (dims.size() > 2 && dims.back() == 1) dims.pop_back(); while (dims.size() < 2) dims.push_back(1); bytes = count() * elem(c); mem.assign(bytes + 2 * GUARD, 0); for (int i = 0; i < GUARD; i++) mem[i] = mem[GUARD + bytes + i] = 0xA5; }
  size_t count() const { size_t n = 1; for (auto d : dims) n *= d; return n; }
  void* data() const { return (void*)(mem.data() + GUARD); }
  bool intact() const { for (int i = 0; i < GUARD; i++) if (mem[i] != 0xA5 || mem[GUARD + bytes + i] != 0xA5) return false; return true; }
};
namespace mexstub { inline std::deque<mxArray>& heap() { static std::deque<mxArray> h; return h; } inline int& printed() { static int n = 0; return n; } struct Error { std::string what; }; }
inline mxArray* mxCreateNumericArray(mwSize n, const mwSize* d, mxClassID c, mxComplexity = mxREAL) { mexstub::heap().emplace_back(); mexstub::heap().back().alloc(c, std::vector<mwSize>(d, d + n)); return &mexstub::heap().back(); }
inline mxArray* mxCreateNumericArray(mwSize n, const int* d, mxClassID c, mxComplexity x = mxREAL) { std::vector<mwSize> v(d, d + n); return mxCreateNumericArray(n, v.data(), c, x); } // -compatibleArrayDims
inline mxArray* mxCreateNumericMatrix(mwSize m, mwSize n, mxClassID c, mxComplexity x = mxREAL) { mwSize d[2] = {m, n}; return mxCreateNumericArray(2, d, c, x); }
inline mxArray* mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity x = mxREAL) { return mxCreateNumericMatrix(m, n, mxDOUBLE_CLASS, x); }
inline void mxDestroyArray(mxArray*) {}
inline void* mxGetData(const mxArray* a) { return a->data(); }
inline double* mxGetPr(const mxArray* a) { return (double*)a->data(); }
inline double* mxGetDoubles(const mxArray* a) { return (double*)a->data(); }
inline double mxGetScalar(const mxArray* a) { return *(double*)a->data(); }
inline const mwSize* mxGetDimensions(const mxArray* a) { return a->dims.data(); }
inline mwSize mxGetNumberOfDimensions(const mxArray* a) { return a->dims.size(); }
inline size_t mxGetNumberOfElements(const mxArray* a) { return a->count(); }
inline size_t mxGetM(const mxArray* a) { return a->dims[0]; }
inline size_t mxGetN(const mxArray* a) { size_t n = 1; for (size_t i = 1; i < a->dims.size(); i++) n *= a->dims[i]; return n; }
inline mxClassID mxGetClassID(const mxArray* a) { return a->cls; }
inline bool mxIsChar(const mxArray* a) { return a->cls == mxCHAR_CLASS; }
inline bool mxIsDouble(const mxArray* a) { return a->cls == mxDOUBLE_CLASS; }
inline bool mxIsNumeric(const mxArray* a) { return a->cls >= mxDOUBLE_CLASS; }
inline bool mxIsComplex(const mxArray*) { return false; }
inline bool mxIsEmpty(const mxArray* a) { return a->count() == 0; }
inline int mxGetString(const mxArray* a, char* buf, mwSize n) { if (!mxIsChar(a) || !n) return 1; const uint16_t* p = (const uint16_t*)a->data(); size_t k = a->count(), m = k < n - 1 ? k : n - 1; for (size_t i = 0; i < m; i++) buf[i] = (char)p[i]; buf[m] = 0; return k > n - 1; }
inline char* mxArrayToString(const mxArray* a) { size_t k = a->count(); char* b = (char*)malloc(k + 1); mxGetString(a, b, k + 1); return b; }
inline void mxFree(void* p) { free(p); }
inline void* mxMalloc(size_t n) { return malloc(n); }
inline void* mxCalloc(size_t n, size_t m) { return calloc(n, m); }
inline int mexPrintf(const char*, ...) { mexstub::printed()++; return 0; }
inline void mexWarnMsgTxt(const char*) { mexstub::printed()++; }
inline void mexErrMsgTxt(const char* m) { mexstub::printed()++; throw mexstub::Error{m}; }
inline void mexErrMsgIdAndTxt(const char*, const char* m, ...) { mexstub::printed()++; throw mexstub::Error{m}; }
