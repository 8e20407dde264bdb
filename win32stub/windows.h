/* Stand-in for the Windows SDK headers, as far as win32/memstream.c and plausible
 * edits of it need them: type widths of Windows (LONG, ULONG, DWORD: 32 bits),
 * constants with their SDK values, and declarations.  The functions behind the
 * declarations are defined by the includer. */
#ifndef STUB_WINDOWS_H
#define STUB_WINDOWS_H
#include <stddef.h>
#include <stdint.h>
#include <string.h>
#include <stdlib.h>
typedef int32_t LONG, HRESULT, BOOL, INT; typedef uint32_t ULONG, DWORD, UINT; typedef uint8_t BYTE; typedef uint16_t WORD, USHORT;
typedef int64_t LONGLONG, LONG64, INT64; typedef uint64_t ULONGLONG, ULONG64, UINT64, DWORD64; typedef size_t SIZE_T; typedef uint16_t WCHAR; typedef char CHAR;
typedef uint32_t UINT32, DWORD32; typedef int32_t INT32;
typedef uintptr_t ULONG_PTR, UINT_PTR, DWORD_PTR; typedef intptr_t LONG_PTR, INT_PTR;
typedef void *HANDLE, *HINSTANCE, *HMODULE, *HRSRC, *HGLOBAL, *PVOID, *LPVOID; typedef const void* LPCVOID;
typedef WCHAR *LPWSTR, *LPOLESTR; typedef const WCHAR* LPCWSTR; typedef BYTE* LPBYTE; typedef ULONG* PULONG;
#define VOID void
#define CONST const
#define TRUE 1
#define FALSE 0
#define WINAPI
#define CALLBACK
#define STDMETHODCALLTYPE
#define STDAPICALLTYPE
#define STDMETHODIMP HRESULT STDMETHODCALLTYPE
#define STDMETHODIMP_(t) t STDMETHODCALLTYPE
#define FORCEINLINE static inline
#define UNREFERENCED_PARAMETER(x) (void)(x)
typedef union { struct { DWORD LowPart; LONG HighPart; }; struct { DWORD LowPart; LONG HighPart; } u; LONGLONG QuadPart; } LARGE_INTEGER;
typedef union { struct { DWORD LowPart; DWORD HighPart; }; struct { DWORD LowPart; DWORD HighPart; } u; ULONGLONG QuadPart; } ULARGE_INTEGER;
typedef struct { DWORD dwLowDateTime, dwHighDateTime; } FILETIME;
typedef struct { uint32_t Data1; uint16_t Data2, Data3; uint8_t Data4[8]; } GUID, IID, CLSID;
typedef const IID* REFIID; typedef const GUID* REFGUID; typedef const CLSID* REFCLSID;
static inline int IsEqualGUID(REFGUID a, REFGUID b) { if(a->Data1 != b->Data1 || a->Data2 != b->Data2 || a->Data3 != b->Data3) return 0;
    for(int i = 0; i < 8; i++) if(a->Data4[i] != b->Data4[i]) return 0; return 1; }
#define IsEqualIID(a, b) IsEqualGUID(a, b)
#define S_OK ((HRESULT)0)
#define S_FALSE ((HRESULT)1)
#define NOERROR 0
#define E_NOTIMPL ((HRESULT)0x80004001)
#define E_NOINTERFACE ((HRESULT)0x80004002)
#define E_POINTER ((HRESULT)0x80004003)
#define E_FAIL ((HRESULT)0x80004005)
#define E_UNEXPECTED ((HRESULT)0x8000FFFF)
#define E_ACCESSDENIED ((HRESULT)0x80070005)
#define E_OUTOFMEMORY ((HRESULT)0x8007000E)
#define E_INVALIDARG ((HRESULT)0x80070057)
#define STG_E_INVALIDFUNCTION ((HRESULT)0x80030001)
#define STG_E_ACCESSDENIED ((HRESULT)0x80030005)
#define STG_E_INVALIDPOINTER ((HRESULT)0x80030009)
#define STG_E_INSUFFICIENTMEMORY ((HRESULT)0x80030008)
#define STG_E_SEEKERROR ((HRESULT)0x80030019)
#define STG_E_WRITEFAULT ((HRESULT)0x8003001D)
#define STG_E_READFAULT ((HRESULT)0x8003001E)
#define STG_E_INVALIDPARAMETER ((HRESULT)0x80030057)
#define STG_E_MEDIUMFULL ((HRESULT)0x80030070)
#define FAILED(hr) (((HRESULT)(hr)) < 0)
#define SUCCEEDED(hr) (((HRESULT)(hr)) >= 0)
#define FACILITY_WIN32 7
#define HRESULT_FROM_WIN32(x) ((HRESULT)(x) <= 0 ? (HRESULT)(x) : (HRESULT)(((x) & 0xFFFF) | (FACILITY_WIN32 << 16) | 0x80000000))
#define ERROR_NOT_ENOUGH_MEMORY 8
#define ERROR_OUTOFMEMORY 14
#define MAXDWORD 0xffffffffu
#define ULONG_MAX_ 0xffffffffu
#define MAXLONGLONG INT64_MAX
#define ZeroMemory(p, n) memset((p), 0, (n))
#define CopyMemory(d, s, n) memcpy((d), (s), (n))
#define MoveMemory(d, s, n) memmove((d), (s), (n))
#define FillMemory(d, n, c) memset((d), (c), (n))
#ifndef min
#define min(a, b) (((a) < (b)) ? (a) : (b))
#define max(a, b) (((a) > (b)) ? (a) : (b))
#endif
static inline LONG InterlockedIncrement(volatile LONG* p) { *p = (LONG)((ULONG)*p + 1); return *p; }
static inline LONG InterlockedDecrement(volatile LONG* p) { *p = (LONG)((ULONG)*p - 1); return *p; }
static inline LONG InterlockedExchangeAdd(volatile LONG* p, LONG v) { LONG o = *p; *p = (LONG)((ULONG)o + (ULONG)v); return o; }
static inline LONG InterlockedExchange(volatile LONG* p, LONG v) { LONG o = *p; *p = v; return o; }
static inline LONG InterlockedCompareExchange(volatile LONG* p, LONG x, LONG c) { LONG o = *p; if(o == c) *p = x; return o; }
HRSRC FindResourceW(HMODULE m, LPCWSTR name, LPCWSTR type);
DWORD SizeofResource(HMODULE m, HRSRC r);
HGLOBAL LoadResource(HMODULE m, HRSRC r);
LPVOID LockResource(HGLOBAL g);
DWORD GetLastError(void);
#endif
