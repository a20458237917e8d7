// settings: typed values and the settings file.
#include "vdrv.h"
#include <core/str.h>
#include <core/settings.h>
#include <memory>
#include <map>
#include <string.h>
static std::string slurp(const char* f, bool& found)
{
    std::string s;
    FILE* in = fopen(f, "rb");
    found = !!in;
    if (in)
    {
        char b[4096]; size_t n;
        while ((n = fread(b, 1, sizeof(b), in)) > 0) s.append(b, n);
        fclose(in);
    }
    std::string r;
    for (char c : s) if (c != '\r') r += c;
    return r;
}
static const char* type_name(const setting* s)
{
    switch (s->get_type())
    {
    case setting::type_bool: return "bool";
    case setting::type_int: return "int";
    case setting::type_enum: return "enum";
    case setting::type_color: return "color";
    default: return "string";
    }
}
VMODULE(settings)
{
    static const char* const files[][2] = { { "settings", "clink_settings" }, { "defaults", "default_settings" }, { "old", "settings" } };
    char cwd[MAX_PATH];
    GetCurrentDirectoryA(MAX_PATH, cwd);
    const std::string dir = std::string(cwd) + "\\set";
    CreateDirectoryA(dir.c_str(), nullptr);
    auto path_of = [&](const std::string& which) {
        for (auto& f : files) if (which == f[0]) return dir + "\\" + f[1];
        return std::string();
    };
    std::map<std::string, std::unique_ptr<setting>> mine;
    std::vector<std::string> watched;
    auto changes = [](const fields& f, size_t k, jout& j) {
        std::vector<settings::setting_name_value> v;
        j.k("changes").arr();
        for (; k + 2 < f.size(); k += 3)
        {
            const bool set = f[k + 1] == "set";
            v.emplace_back(f[k].c_str(), set ? f[k + 2].c_str() : nullptr, set ? settings::section::set : settings::section::clear);
            j.obj().ks("n", f[k]).kt("set", set).ks("v", set ? f[k + 2] : "").end();
        }
        j.aend();
        return v;
    };
    for (const auto& f : script)
    {
        jout j;
        j.obj().ks("op", f[0]);
        const std::string& op = f[0];
        if ((op == "set" || op == "clear" || op == "lua.set" || op == "lua.clear") && !settings::find(f[1].c_str())) { fprintf(stderr, "no such setting\n"); return 77; }
        if (op == "reset")
        {
            mine.clear();
            watched.clear();
            for (auto& x : files) DeleteFileA((dir + "\\" + x[1]).c_str());
            settings::load(nullptr, nullptr);
            settings::load(path_of("settings").c_str(), path_of("defaults").c_str());
        }
        else if (op == "reg")
        {
            const char* n = f[1].c_str(); const char* def = f[4].c_str(); const char* desc = f[5].c_str();
            auto add = [&](auto* s) { mine[f[1]].reset(s); s->deferred_load(); watched.push_back(s->get_name()); };
            if (f[2] == "bool") add(new setting_bool(n, desc, "long", f[4] == "True"));
            else if (f[2] == "int") add(new setting_int(n, desc, "long", atoi(def)));
            else if (f[2] == "string") add(new setting_str(n, desc, "long", def));
            else if (f[2] == "color") add(new setting_color(n, desc, "long", def));
            else
            {
                // Find the default's index.
                int idx = 0;
                std::string opt;
                for (const char* p = f[3].c_str();; ++p)
                {
                    if (*p && *p != ',') { opt += *p; continue; }
                    if (opt == f[4] || !*p) break;
                    ++idx; opt.clear();
                }
                add(new setting_enum(n, desc, "long", f[3].c_str(), idx));
            }
            j.ks("n", f[1]).ks("type", f[2]).ks("opts", f[3]).ks("def", f[4]).ks("desc", f[5]);
        }
        else if (op == "adopt")
        {
            setting* s = settings::find(f[1].c_str());
            j.ks("n", f[1]).kt("found", !!s);
            str<> def;
            if (s)
            {
                s->set();
                s->get(def);
                watched.push_back(f[1]);
            }
            j.ks("type", s ? type_name(s) : "").ks("opts", s && s->get_type() == setting::type_enum ? static_cast<setting_enum*>(s)->get_options() : "");
            j.ks("def", def.c_str()).ks("desc", s ? s->get_short_desc() : "");
        }
        else if (op == "unreg")
        {
            auto it = mine.find(f[1]);
            if (it == mine.end()) { fprintf(stderr, "not registered\n"); return 77; }
            const std::string nm = it->second->get_name();
            mine.erase(it);
            for (size_t k = 0; k < watched.size(); ++k) if (watched[k] == nm) { watched.erase(watched.begin() + k); break; }
            j.ks("n", nm);
        }
        else if (op == "write")
        {
            FILE* out = fopen(path_of(f[1]).c_str(), "wb");
            fwrite(f[2].data(), 1, f[2].size(), out);
            fclose(out);
            std::string t;
            for (char c : f[2]) if (c != '\r') t += c;
            j.ks("f", f[1]).ks("t", t);
        }
        else if (op == "del") { DeleteFileA(path_of(f[1]).c_str()); j.ks("f", f[1]); }
        else if (op == "load" || op == "reload") settings::load(path_of("settings").c_str(), path_of("defaults").c_str());
        else if (op == "save") settings::save(path_of("settings").c_str());
        else if (op == "set") j.ks("n", f[1]).ks("t", f[2]).kt("ok", settings::find(f[1].c_str())->set(f[2].c_str()));
        else if (op == "clear") { settings::find(f[1].c_str())->set(); j.ks("n", f[1]); }
        else if (op == "overlay") settings::overlay(changes(f, 1, j));
        else if (op == "file.overlay") j.kt("ok", settings::sandboxed_overlay(changes(f, 1, j)));
        else if (op == "lua.set")
        {
            // As the Lua function does.
            bool ok = settings::find(f[1].c_str())->set(f[2].c_str());
            if (ok) ok = settings::sandboxed_set_setting(f[1].c_str(), f[2].c_str());
            j.ks("n", f[1]).ks("t", f[2]).kt("ok", ok);
        }
        else if (op == "lua.clear")
        {
            settings::find(f[1].c_str())->set();
            settings::sandboxed_set_setting(f[1].c_str(), nullptr);
            j.ks("n", f[1]);
        }
        else if (op == "ini")
        {
            const std::string p = dir + "\\x.ini";
            FILE* out = fopen(p.c_str(), "wb");
            fwrite(f[1].data(), 1, f[1].size(), out);
            fclose(out);
            std::vector<settings::setting_name_value> v;
            const bool ok = settings::parse_ini(p.c_str(), v);
            j.ks("t", f[1]).kt("ok", ok).k("out").arr();
            for (auto& x : v)
                j.obj().ks("n", x.name.c_str()).ks("v", x.value.c_str()).ks("s", x.section == settings::section::set ? "set" : x.section == settings::section::clear ? "clear" : "preferred").end();
            j.aend();
        }
        else if (op == "color")
        {
            str<> code, words, compat;
            const bool ok = settings::parse_color(f[1].c_str(), code);
            if (ok) { settings::format_color(code.c_str(), words, false); settings::format_color(code.c_str(), compat, true); }
            j.ks("t", f[1]).kt("ok", ok).ks("code", code.c_str()).ks("words", words.c_str()).ks("compat", compat.c_str());
        }
        else { fprintf(stderr, "bad op\n"); return 77; }
        if (op != "reset" && op != "ini" && op != "color")
        {
            bool found;
            const std::string text = slurp(path_of("settings").c_str(), found);
            if (found) j.ks("file", text); else j.k("file").arr().s("no file").aend();
            j.k("view").arr();
            for (const auto& n : watched)
            {
                setting* s = settings::find(n.c_str());
                str<> v, d;
                s->get(v);
                s->get_descriptive(d, false);
                j.obj().ks("n", n).ks("v", v.c_str()).ks("d", d.c_str()).kt("s", s->is_saveable()).end();
            }
            j.aend();
        }
        j.end().flush();
    }
    mine.clear();
    return 0;
}
