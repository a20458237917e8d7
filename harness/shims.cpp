// Interposes on kernel32 imports: a settable clock, tracking of handles per
// simulated process, and simulated death at a chosen mutating call.
#include "vdrv.h"
#include <setjmp.h>
#include <map>
#include <set>
#include <time.h>

namespace shim
{
bool use_clock = false;
long long clock_now = 1000000000;
int owner = 0;
int calls = 0;
bool log_enabled = false;
std::vector<std::string> log;
static int s_die_at = 0;
static jmp_buf s_jmp;
static std::map<HANDLE, int> s_handles;

static void mutating(const char* name)
{
    if (!owner) return;
    ++calls;
    if (log_enabled) log.push_back(name);
    if (s_die_at && calls == s_die_at)
    {
        s_die_at = 0;
        longjmp(s_jmp, 1);
    }
}

bool run_until(int n, const std::function<void()>& fn)
{
    calls = 0;
    s_die_at = n;
    if (setjmp(s_jmp))
        return false;
    fn();
    s_die_at = 0;
    return true;
}

static FARPROC real(const char* name)
{
    static HMODULE k = GetModuleHandleA("kernel32.dll");
    return GetProcAddress(k, name);
}
#define REAL(fn) static auto r = (decltype(&fn))real(#fn)

static HANDLE WINAPI my_CreateFileW(LPCWSTR a, DWORD b, DWORD c, LPSECURITY_ATTRIBUTES d, DWORD e, DWORD f, HANDLE g)
{
    REAL(CreateFileW);
    if (e == CREATE_ALWAYS || e == CREATE_NEW || e == OPEN_ALWAYS) mutating("CreateFileW");
    HANDLE h = r(a, b, c, d, e, f, g);
    if (owner && h != INVALID_HANDLE_VALUE) s_handles[h] = owner;
    return h;
}
static BOOL WINAPI my_CloseHandle(HANDLE h)
{
    REAL(CloseHandle);
    if (owner) s_handles.erase(h);
    return r(h);
}
static BOOL WINAPI my_WriteFile(HANDLE a, LPCVOID b, DWORD c, LPDWORD d, LPOVERLAPPED e)
{
    REAL(WriteFile);
    mutating("WriteFile");
    return r(a, b, c, d, e);
}
static BOOL WINAPI my_SetEndOfFile(HANDLE a)
{
    REAL(SetEndOfFile);
    mutating("SetEndOfFile");
    return r(a);
}
static BOOL WINAPI my_DeleteFileW(LPCWSTR a)
{
    REAL(DeleteFileW);
    mutating("DeleteFileW");
    return r(a);
}

void close_owner(int o)
{
    REAL(CloseHandle);
    for (auto it = s_handles.begin(); it != s_handles.end();)
    {
        if (it->second == o) { r(it->first); it = s_handles.erase(it); }
        else ++it;
    }
}

static __time64_t my_time64(__time64_t* p)
{
    __time64_t t;
    if (use_clock) t = clock_now;
    else
    {
        FILETIME ft; GetSystemTimeAsFileTime(&ft);
        t = ((__time64_t(ft.dwHighDateTime) << 32 | ft.dwLowDateTime) - 116444736000000000LL) / 10000000;
    }
    if (p) *p = t;
    return t;
}
}

extern "C" {
void* __imp_CreateFileW = (void*)shim::my_CreateFileW;
void* __imp_CloseHandle = (void*)shim::my_CloseHandle;
void* __imp_WriteFile = (void*)shim::my_WriteFile;
void* __imp_SetEndOfFile = (void*)shim::my_SetEndOfFile;
void* __imp_DeleteFileW = (void*)shim::my_DeleteFileW;
__time64_t __cdecl my_c_time64(__time64_t* p) { return shim::my_time64(p); }
void* __imp__time64 = (void*)my_c_time64;
}

// Console aliases (Wine lacks them): names are case-insensitive.
#include <string>
namespace shim
{
static std::map<std::wstring, std::wstring> s_aliases;
static std::wstring lower(const wchar_t* s) { std::wstring r(s); for (auto& c : r) c = towlower(c); return r; }
void clear_aliases() { s_aliases.clear(); }
static DWORD WINAPI my_GetConsoleAliasW(LPWSTR name, LPWSTR buf, DWORD len, LPWSTR exe)
{
    auto it = s_aliases.find(lower(name));
    if (it == s_aliases.end()) { SetLastError(ERROR_GEN_FAILURE); return 0; }
    DWORD need = DWORD((it->second.size() + 1) * sizeof(wchar_t));
    if (need > len) { SetLastError(ERROR_INSUFFICIENT_BUFFER); return 0; }
    memcpy(buf, it->second.c_str(), need);
    return need;
}
static BOOL WINAPI my_AddConsoleAliasW(LPWSTR name, LPWSTR text, LPWSTR exe)
{
    if (text && *text) s_aliases[lower(name)] = text;
    else s_aliases.erase(lower(name));
    return TRUE;
}
static DWORD WINAPI my_GetConsoleAliasesLengthW(LPWSTR exe)
{
    DWORD n = 0;
    for (auto& i : s_aliases) n += DWORD((i.first.size() + i.second.size() + 2) * sizeof(wchar_t));
    return n;
}
static DWORD WINAPI my_GetConsoleAliasesW(LPWSTR buf, DWORD len, LPWSTR exe)
{
    std::wstring all;
    for (auto& i : s_aliases) { all += i.first; all += L'='; all += i.second; all += L'\0'; }
    if (all.size() * sizeof(wchar_t) > len) return 0;
    memcpy(buf, all.data(), all.size() * sizeof(wchar_t));
    return DWORD(all.size() * sizeof(wchar_t));
}
}
// Windows 10, which applications without a manifest are not told.
namespace shim { static BOOL WINAPI my_GetVersionExA(LPOSVERSIONINFOA v)
{
    v->dwMajorVersion = 10; v->dwMinorVersion = 0; v->dwBuildNumber = 19045; v->dwPlatformId = VER_PLATFORM_WIN32_NT; v->szCSDVersion[0] = 0;
    return TRUE;
}
static BOOL WINAPI my_GetVersionExW(LPOSVERSIONINFOW v)
{
    v->dwMajorVersion = 10; v->dwMinorVersion = 0; v->dwBuildNumber = 19045; v->dwPlatformId = VER_PLATFORM_WIN32_NT; v->szCSDVersion[0] = 0;
    return TRUE;
}}
extern "C" {
void* __imp_GetVersionExA = (void*)shim::my_GetVersionExA;
void* __imp_GetVersionExW = (void*)shim::my_GetVersionExW;
void* __imp_GetConsoleAliasW = (void*)shim::my_GetConsoleAliasW;
void* __imp_AddConsoleAliasW = (void*)shim::my_AddConsoleAliasW;
void* __imp_GetConsoleAliasesLengthW = (void*)shim::my_GetConsoleAliasesLengthW;
void* __imp_GetConsoleAliasesW = (void*)shim::my_GetConsoleAliasesW;
}

// The C runtime clink is built with on Windows converts UTF-8 here, whatever
// the locale; MinGW's goes by the locale ("C": single bytes).
extern "C" size_t mbrtoc32(char32_t* out, const char* s, size_t n, mbstate_t*)
{
    if (!s) return 0;
    if (!n) return size_t(-2);
    const unsigned char* p = (const unsigned char*)s;
    if (*p < 0x80) { if (out) *out = *p; return *p ? 1 : 0; }
    int len = (*p >= 0xc2 && *p < 0xe0) ? 2 : (*p >= 0xe0 && *p < 0xf0) ? 3 : (*p >= 0xf0 && *p < 0xf5) ? 4 : 0;
    if (!len) return size_t(-1);
    char32_t c = *p & (0x7f >> len);
    for (int i = 1; i < len; ++i)
    {
        if (size_t(i) >= n) return size_t(-2);
        if ((p[i] & 0xc0) != 0x80) return size_t(-1);
        c = (c << 6) | (p[i] & 0x3f);
    }
    if ((len == 3 && (c < 0x800 || (c >= 0xd800 && c < 0xe000))) || (len == 4 && (c < 0x10000 || c > 0x10ffff))) return size_t(-1);
    if (out) *out = c;
    return len;
}
extern "C" size_t c32rtomb(char* s, char32_t c, mbstate_t*)
{
    if (!s) return 1;
    if (c < 0x80) { s[0] = char(c); return 1; }
    if (c < 0x800) { s[0] = char(0xc0 | (c >> 6)); s[1] = char(0x80 | (c & 0x3f)); return 2; }
    if (c < 0x10000) { s[0] = char(0xe0 | (c >> 12)); s[1] = char(0x80 | ((c >> 6) & 0x3f)); s[2] = char(0x80 | (c & 0x3f)); return 3; }
    s[0] = char(0xf0 | (c >> 18)); s[1] = char(0x80 | ((c >> 12) & 0x3f)); s[2] = char(0x80 | ((c >> 6) & 0x3f)); s[3] = char(0x80 | (c & 0x3f));
    return 4;
}
