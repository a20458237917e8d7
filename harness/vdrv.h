// Conformance driver: executes operation scripts on the real clink code and
// records what it observes as ndjson, for validation against the TLA+ specs.
#pragma once
#include <core/bldopts.h>
#include <core/base.h>
#include <windows.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <functional>

typedef std::vector<std::string> fields;    // One line of a script.

// Reads the script: tab separated fields, %XX escapes; empty line skipped.
std::vector<fields> read_script(const char* file);

// JSON output, one object per line.
class jout
{
public:
    jout& obj()                     { sep(); b += '{'; first = true; return *this; }
    jout& end()                     { b += '}'; first = false; return *this; }
    jout& arr()                     { sep(); b += '['; first = true; return *this; }
    jout& aend()                    { b += ']'; first = false; return *this; }
    jout& k(const char* key)        { sep(); str(key); b += ':'; first = true; return *this; }
    jout& s(const char* v, int len=-1) { sep(); str(v, len); return *this; }
    jout& s(const std::string& v)   { sep(); str(v.c_str(), int(v.size())); return *this; }
    jout& i(long long v)            { sep(); char t[32]; snprintf(t, sizeof(t), "%lld", v); b += t; return *this; }
    jout& t(bool v)                 { sep(); b += v ? "true" : "false"; return *this; }
    jout& ks(const char* key, const char* v) { return k(key).s(v); }
    jout& ks(const char* key, const std::string& v) { return k(key).s(v); }
    jout& ki(const char* key, long long v) { return k(key).i(v); }
    jout& kt(const char* key, bool v) { return k(key).t(v); }
    void flush();                   // Ends the line and writes it out.
private:
    void sep()                      { if (!first) b += ','; first = false; }
    void str(const char* v, int len=-1);
    std::string b;
    bool first = true;
};
extern FILE* g_out;

// Modules.
typedef int (*module_fn)(const std::vector<fields>& script);
struct module_reg { module_reg(const char* name, module_fn fn); };
#define VMODULE(name) static int run_##name(const std::vector<fields>& script); \
    static module_reg s_reg_##name(#name, run_##name); \
    static int run_##name(const std::vector<fields>& script)

// Kernel shims (shims.cpp).
namespace shim
{
    // Clock seen by time().
    extern bool use_clock;
    extern long long clock_now;
    // Handles opened by the current owner (>0) are tracked.
    extern int owner;
    void close_owner(int owner);    // What the kernel does when a process dies.
    // Runs fn; the process "dies" at the n-th (from 1) mutating kernel call in
    // it (before the call takes effect).  Returns false when it died.  The
    // number of mutating calls made is left in `calls`.
    extern int calls;
    bool run_until(int n, const std::function<void()>& fn);
    extern std::vector<std::string> log;    // Mutating calls made, when enabled.
    extern bool log_enabled;
    void clear_aliases();           // Console aliases.
}

std::string work_dir();             // Scratch directory for the run (cwd).
