#include "vdrv.h"
#include <core/str.h>
#include <core/settings.h>
#include <core/os.h>
#include <lib/recognizer.h>
#include <lua/lua_task_manager.h>
#include <rl/rl_commands.h>
#include <terminal/terminal_helpers.h>
#include <map>
#include <string.h>
extern "C" {
#include <readline/readline.h>
#include <readline/rldefs.h>
#include <readline/rlprivate.h>
}

FILE* g_out;
void set_noasync_recognizer();
void set_test_harness();

static std::map<std::string, module_fn>& registry() { static std::map<std::string, module_fn> m; return m; }
module_reg::module_reg(const char* name, module_fn fn) { registry()[name] = fn; }

static int hexv(char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}

std::vector<fields> read_script(const char* file)
{
    std::vector<fields> ret;
    FILE* f = fopen(file, "rb");
    if (!f) { fprintf(stderr, "cannot open script %s\n", file); exit(77); }
    std::string all;
    char buf[65536];
    while (size_t n = fread(buf, 1, sizeof(buf), f)) all.append(buf, n);
    fclose(f);
    fields cur; std::string fld; bool any = false;
    for (size_t i = 0; i < all.size(); ++i)
    {
        char c = all[i];
        if (c == '\r') continue;
        if (c == '\t') { cur.push_back(fld); fld.clear(); any = true; }
        else if (c == '\n')
        {
            if (any || !fld.empty()) { cur.push_back(fld); ret.push_back(cur); }
            cur.clear(); fld.clear(); any = false;
        }
        else if (c == '%' && i + 2 < all.size() && hexv(all[i+1]) >= 0 && hexv(all[i+2]) >= 0)
        {
            fld += char(hexv(all[i+1]) * 16 + hexv(all[i+2]));
            i += 2; any = true;
        }
        else { fld += c; any = true; }
    }
    if (any || !fld.empty()) { cur.push_back(fld); ret.push_back(cur); }
    return ret;
}

void jout::str(const char* v, int len)
{
    // Bytes outside printable ASCII are written as \u00XX (one per byte), so
    // that the reader sees exact bytes as latin-1 code points.
    b += '"';
    if (len < 0) len = v ? int(strlen(v)) : 0;
    for (int i = 0; i < len; ++i)
    {
        unsigned char c = v[i];
        if (c == '"' || c == '\\') { b += '\\'; b += char(c); }
        else if (c < 0x20 || c > 0x7e) { char t[8]; snprintf(t, sizeof(t), "\\u%04x", c); b += t; }
        else b += char(c);
    }
    b += '"';
}

void jout::flush()
{
    b += '\n';
    fwrite(b.c_str(), 1, b.size(), g_out);
    fflush(g_out);
    b.clear();
    first = true;
}

std::string work_dir()
{
    char buf[MAX_PATH];
    GetCurrentDirectoryA(MAX_PATH, buf);
    return buf;
}

struct lua_saved_console_mode;

int main(int argc, char** argv)
{
    // vdrv <module> <script> <out>
    if (argc < 4) { fprintf(stderr, "usage: vdrv module script out\n"); return 77; }
    SetErrorMode(SEM_FAILCRITICALERRORS|SEM_NOGPFAULTERRORBOX|SEM_NOOPENFILEERRORBOX);
    setvbuf(stdout, nullptr, _IONBF, 0);
    auto it = registry().find(argv[1]);
    if (it == registry().end()) { fprintf(stderr, "no module %s\n", argv[1]); return 77; }
    std::vector<fields> script = read_script(argv[2]);
    g_out = fopen(argv[3], "wb");
    if (!g_out) { fprintf(stderr, "cannot open output\n"); return 77; }

    install_crt_invalid_parameter_handler();
#ifdef DEBUG
    settings::TEST_set_ever_loaded();
#endif
    os::set_shellname(L"clink_test_harness");
    set_noasync_recognizer();
    set_test_harness();
    extern bool g_direct_lua_fwrite;
    g_direct_lua_fwrite = true;
    _rl_bell_preference = NO_BELL;
    init_readline_funmap();

    int rc = it->second(script);
    {
        jout j; j.obj().ks("e", "END").ki("rc", rc).end().flush();
    }
    fclose(g_out);
    fflush(stdout);
    fflush(stderr);
    TerminateProcess(GetCurrentProcess(), rc);
    return rc;
}
