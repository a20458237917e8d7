// Path arithmetic.
#include "vdrv.h"
#include <core/str.h>
#include <core/path.h>
#include <core/os.h>

static std::string narrow(const wchar_t* w)
{
    str<> s;
    to_utf8(s, w);
    return s.c_str();
}

VMODULE(path)
{
    for (const auto& f : script)
    {
        jout j;
        const std::string& op = f[0];
        j.obj().ks("op", op);
        const char* p = f.size() > 1 ? f[1].c_str() : "";
        if (op == "reset")
            SetEnvironmentVariableW(L"HOME", L"c:\\users\\me");
        else if (op == "path")
        {
            j.ks("p", p);
            wstr<> w(p);
            j.kt("rooted", path::is_rooted(p)).kt("root", path::is_root(p));
            const char* past = p;
            const wchar_t* pastw = w.c_str();
            const bool unc = path::is_unc(p, &past);
            j.kt("unc", unc && path::is_unc(p)).kt("uncw", path::is_unc(w.c_str(), &pastw));
            j.ks("uncend", std::string(p, past - p)).ks("uncendw", narrow(std::wstring(w.c_str(), pastw - w.c_str()).c_str()));
            j.kt("incomplete", path::is_incomplete_unc(p)).kt("device", path::is_device(p));
            j.kt("hidden", path::is_unix_hidden(p)).kt("hiddent", path::is_unix_hidden(p, true));
            str<> s, t;
            path::get_name(p, s); j.ks("name", s.c_str()).ks("namep", path::get_name(p));
            wstr<> ws;
            path::get_name(w.c_str(), ws); j.ks("namew", narrow(ws.c_str()));
            path::get_base_name(p, s); j.ks("base", s.c_str());
            s.clear();
            path::get_extension(p, s); j.ks("ext", s.c_str());
            j.ks("extp", path::get_extension(p) ? path::get_extension(p) : "");
            s.clear();
            path::get_drive(p, s); j.ks("drive", s.c_str());
            path::get_directory(p, s); j.ks("dir", s.c_str());
            path::join(s.c_str(), path::get_name(p), t); j.ks("rejoin", t.c_str());
            s = p; path::get_directory(s); j.ks("dir2", s.c_str());
            s = p; path::maybe_strip_last_separator(s); j.ks("strip", s.c_str());
            ws = w.c_str(); path::maybe_strip_last_separator(ws); j.ks("stripw", narrow(ws.c_str()));
            s = p; j.kt("moved", path::to_parent(s, &t)).ks("parent", s.c_str()).ks("child", t.c_str());
            if (t.length()) path::append(s, t.c_str());
            j.ks("reparent", s.c_str());
            s = p; path::normalise(s); j.ks("norm", s.c_str());
            path::normalise(s); j.ks("again", s.c_str());
            s = p; path::normalise(s, '/'); j.ks("norm2", s.c_str());
            s = p; path::normalise_separators(s); j.ks("seps", s.c_str());
            s = p; path::normalise_separators(s, '/'); j.ks("seps2", s.c_str());
        }
        else if (op == "join")
        {
            str<> s, t;
            path::join(p, f[2].c_str(), s);
            t = p; path::append(t, f[2].c_str());
            j.ks("l", p).ks("r", f[2]).ks("out", s.c_str()).ks("out2", t.c_str());
        }
        else if (op == "up")
        {
            j.ks("p", p).k("out").arr();
            str<> s(p);
            for (int n = 0; n < 30 && path::to_parent(s, nullptr); ++n)
                j.s(s.c_str());
            j.aend();
        }
        else if (op == "tilde")
        {
            str<> home, s;
            os::get_env("HOME", home);
            const bool ok = path::tilde_expand(p, s);
            j.ks("p", p).ks("home", home.c_str()).kt("ok", ok).ks("out", s.c_str());
            str_moveable m; m = p;
            if (path::tilde_expand(m) != ok || (!s.equals(m.c_str()))) j.kt("differs", true);
        }
        else
            return 77;
        j.end().flush();
    }
    return 0;
}
