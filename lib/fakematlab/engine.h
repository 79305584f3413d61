/* A stand-in for MATLAB's engine library: a workspace in memory that keeps account of every array, and fails on demand. */
#ifndef VERIF_FAKE_ENGINE_H
#define VERIF_FAKE_ENGINE_H
#include <stddef.h>
#include <stdint.h>
typedef size_t mwSize;
typedef size_t mwIndex;
typedef ptrdiff_t mwSignedIndex;
typedef bool mxLogical;
typedef uint16_t mxChar;
typedef double mxDouble;
typedef struct engine Engine;
typedef struct mxArray_tag mxArray;
typedef enum { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS,
               mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS } mxClassID;
typedef enum { mxREAL = 0, mxCOMPLEX } mxComplexity;
extern "C" {
Engine* engOpen(const char*);
int engClose(Engine*);
int engEvalString(Engine*, const char*);
int engOutputBuffer(Engine*, char*, int);
int engPutVariable(Engine*, const char*, const mxArray*);
mxArray* engGetVariable(Engine*, const char*);
mxArray* mxCreateDoubleMatrix(mwSize, mwSize, mxComplexity);
mxArray* mxCreateNumericMatrix(mwSize, mwSize, mxClassID, mxComplexity);
mxArray* mxCreateNumericArray(mwSize, const mwSize*, mxClassID, mxComplexity);
mxArray* mxCreateDoubleScalar(double);
mxArray* mxCreateString(const char*);
mxArray* mxCreateLogicalScalar(mxLogical);
mxArray* mxCreateLogicalMatrix(mwSize, mwSize);
mxArray* mxCreateCharArray(mwSize, const mwSize*);
mxArray* mxDuplicateArray(const mxArray*);
void mxDestroyArray(mxArray*);
double* mxGetPr(const mxArray*);
mxDouble* mxGetDoubles(const mxArray*);
void* mxGetData(const mxArray*);
mxLogical* mxGetLogicals(const mxArray*);
mxChar* mxGetChars(const mxArray*);
size_t mxGetElementSize(const mxArray*);
size_t mxGetM(const mxArray*);
size_t mxGetN(const mxArray*);
size_t mxGetNumberOfElements(const mxArray*);
mwSize mxGetNumberOfDimensions(const mxArray*);
const mwSize* mxGetDimensions(const mxArray*);
mxClassID mxGetClassID(const mxArray*);
const char* mxGetClassName(const mxArray*);
double mxGetScalar(const mxArray*);
int mxGetString(const mxArray*, char*, mwSize);
char* mxArrayToString(const mxArray*);
void mxFree(void*);
void* mxMalloc(size_t);
void* mxCalloc(size_t, size_t);
bool mxIsNumeric(const mxArray*);
bool mxIsDouble(const mxArray*);
bool mxIsSingle(const mxArray*);
bool mxIsComplex(const mxArray*);
bool mxIsChar(const mxArray*);
bool mxIsLogical(const mxArray*);
bool mxIsLogicalScalar(const mxArray*);
bool mxIsLogicalScalarTrue(const mxArray*);
bool mxIsScalar(const mxArray*);
bool mxIsEmpty(const mxArray*);
bool mxIsCell(const mxArray*);
bool mxIsStruct(const mxArray*);
bool mxIsClass(const mxArray*, const char*);
}
#endif
