// Argument matchers: what they complete and how they color each word.
#include "vdrv.h"
#include <core/str.h>
#include <core/settings.h>
#include <core/os.h>
#include <lib/line_editor.h>
#include <lib/line_buffer.h>
#include <lib/editor_module.h>
#include <lib/matches.h>
#include <lib/cmd_tokenisers.h>
#include <lib/word_classifications.h>
#include <lib/rl_integration.h>
#include <lua/lua_match_generator.h>
#include <lua/lua_word_classifier.h>
#include <lua/lua_state.h>
#include <terminal/terminal_in.h>
#include <terminal/terminal_out.h>
#include <terminal/printer.h>
#include <terminal/terminal_helpers.h>
#include "vterm.h"
#include <lib/display_readline.h>
#include <algorithm>
#include <set>
extern "C" {
#include <lua.h>
#include <lauxlib.h>
#include <readline/readline.h>
}
struct args_module : public editor_module
{
    void bind_input(binder&) override {}
    void on_begin_line(const context& c) override { m = &c.matches; k = &c.classifications; }
    void on_end_line() override {}
    void on_need_input(int32&) override {}
    void on_input(const input&, result&, const context&) override {}
    void on_matches_changed(const context&, const line_state&, const char*) override {}
    void on_terminal_resize(int32, int32, const context&) override {}
    void on_signal(int32) override {}
    const matches* m = nullptr;
    const word_classifications* k = nullptr;
};
extern void initialise_readline(const char* shell_name, const char* state_dir, const char* default_inputrc, bool no_user=false);
static std::string q(const std::string& s)
{
    std::string r = "\"";
    for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; }
    return r + "\"";
}
// word | word..ID (a link: "ID=word") | files
static std::string entries(const fields& f, size_t from)
{
    std::string r;
    for (size_t i = from; i < f.size(); ++i)
    {
        if (i > from) r += ",";
        if (f[i] == "*") r += "clink.filematches";
        else { size_t p = f[i].find('>'); r += p == std::string::npos ? q(f[i]) : q(f[i].substr(p + 1)) + "..M[" + f[i].substr(0, p) + "]"; }
    }
    return r;
}
VMODULE(args)
{
    SetEnvironmentVariableA("PATH", "");
    lua_state lua;
    lua_match_generator generator(lua);
    lua_word_classifier classifier(lua);
    v_terminal_in in;
    v_terminal_out out;
    printer prn(out);
    printer_context pc(&out, &prn);
    cmd_command_tokeniser ct; cmd_word_tokeniser wt;
    line_editor::desc desc(nullptr, nullptr, nullptr, nullptr);
    desc.input = &in; desc.output = &out; desc.printer = &prn;
    desc.command_tokeniser = &ct; desc.word_tokeniser = &wt;
    initialise_readline("clink", ".", "", true);
    settings::find("clink.colorize_input")->set("true");
    settings::find("autosuggest.strategy")->set("");
    settings::find("match.translate_slashes")->set("system");
    settings::find("color.unrecognized")->set("");
    settings::find("color.executable")->set("");
    line_editor* ed = line_editor_create(desc);
    args_module am;
    ed->add_module(am);
    ed->set_generator(generator);
    ed->set_classifier(classifier);
    lua_State* L = lua.get_state();
    auto run = [&](const std::string& s) -> std::string {
        if (luaL_dostring(L, s.c_str())) { std::string e = lua_tostring(L, -1) ? lua_tostring(L, -1) : "?"; lua_settop(L, 0); return e; }
        return "";
    };
    std::set<std::string> ids;
    bool begun = false, placed = false;
    for (const auto& f : script)
    {
        jout j;
        j.obj().ks("op", f[0]);
        const std::string& op = f[0];
        auto arg = [&](size_t i) { return i < f.size() ? f[i] : std::string(); };
        std::string lua_text, id = "M[" + arg(1) + "]";
        auto list = [&](size_t from) { j.k("es").arr(); for (size_t i = from; i < f.size(); ++i) j.s(f[i]); j.aend(); };
        if (op == "reset") ids.clear();
        else if (op == "new") ids.insert(arg(1));
        else if (op != "line")
        {
            bool bad = !ids.count(arg(1));
            for (size_t i = 2; i < f.size(); ++i) if (f[i].find('>') != std::string::npos && !ids.count(f[i].substr(0, f[i].find('>')))) bad = true;
            if (bad) { fprintf(stderr, "unknown matcher\n"); return 77; }
        }
        if (op == "reset")
        {
            // reset FILE...: what the current directory holds
            if (!placed) { placed = true; CreateDirectoryA("args", nullptr); SetCurrentDirectoryA("args"); for (size_t i = 1; i < f.size(); ++i) if (f[i].back() == '\\') CreateDirectoryA(f[i].c_str(), nullptr); else { FILE* h = fopen(f[i].c_str(), "w"); if (h) fclose(h); } }
            lua_text = "M = {}";
            list(1);
        }
        else if (op == "new") { lua_text = id + " = clink.argmatcher(" + (f.size() > 2 ? q(f[2]) : "") + ")"; j.ki("m", atoi(arg(1).c_str())).ks("cmd", arg(2)); }
        else if (op == "arg" || op == "argu" || op == "flags" || op == "flagsu" || op == "hide")
        {
            static const std::vector<std::pair<std::string, std::string>> fn = {{"arg", "addarg"}, {"argu", "addargunsorted"}, {"flags", "addflags"}, {"flagsu", "addflagsunsorted"}, {"hide", "hideflags"}};
            for (auto& p : fn) if (p.first == op) lua_text = id + ":" + p.second + "(" + entries(f, 2) + ")";
            j.ki("m", atoi(arg(1).c_str())); list(2);
        }
        else if (op == "loop") { lua_text = id + ":loop(" + (arg(2) == "0" ? "" : arg(2)) + ")"; j.ki("m", atoi(arg(1).c_str())).ki("n", atoi(arg(2).c_str())); }
        else if (op == "nofiles") { lua_text = id + ":nofiles()"; j.ki("m", atoi(arg(1).c_str())); }
        else if (op == "anywhere") { lua_text = id + ":setflagsanywhere(" + arg(2) + ")"; j.ki("m", atoi(arg(1).c_str())).kt("on", arg(2) == "true"); }
        else if (op == "endflags") { lua_text = id + ":setendofflags(" + (arg(2).empty() ? "false" : q(arg(2))) + ")"; j.ki("m", atoi(arg(1).c_str())).ks("s", arg(2)); }
        else if (op == "prefix") { lua_text = id + ":setflagprefix(" + q(arg(2)) + ")"; j.ki("m", atoi(arg(1).c_str())).ks("s", arg(2)); }
        else if (op == "clear") { lua_text = id + ":reset()"; j.ki("m", atoi(arg(1).c_str())); }
        else if (op == "chain") { lua_text = id + ":chaincommand(" + q(arg(2)) + ")"; j.ki("m", atoi(arg(1).c_str())).ks("s", arg(2)); }
        else if (op == "line") {}
        else { fprintf(stderr, "bad op\n"); return 77; }
        if (op != "line")
        {
            std::string e = run(lua_text);
            if (!e.empty() && getenv("VERIF_LUAERR")) fprintf(stderr, "%s: %s\n", lua_text.c_str(), e.c_str());
            j.kt("ok", e.empty());
        }
        else
        {
            // line TEXT: typed, cursor at its end
            if (!begun) { ed->update(); begun = true; }
            out.text.clear();
            in.set(f[1]);
            do { if (!ed->update()) break; } while (rl_has_queued_input() || in.available(0));
            ed->update_matches();
            j.ks("t", f[1]).k("matches").arr();
            std::vector<std::string> ms;
            for (matches_iter it = am.m->get_iter(); it.next();) ms.push_back(it.get_match());
            std::sort(ms.begin(), ms.end());
            ms.erase(std::unique(ms.begin(), ms.end()), ms.end());
            for (auto& s : ms) j.s(s);
            j.aend();
            std::string faces;
            for (size_t i = 0; i < f[1].size(); ++i)
            {
                char c = am.k->get_face(uint32(i));
                faces += c > 32 && c < 127 ? c : ' ';
            }
            j.ks("faces", faces).ks("out", out.text.find("error") != std::string::npos || out.text.find("traceback") != std::string::npos ? out.text : "");
            in.set("\r");
            do { if (!ed->update()) { str<> l; ed->get_line(l); if (!ed->update()) break; } } while (rl_has_queued_input() || in.available(0));
        }
        j.end().flush();
    }
    return 0;
}
