// Directory shortcuts: lines that stand for changes of directory.
#include "vdrv.h"
#include <core/str.h>
#include <core/os.h>
#include <core/path.h>
#include <core/settings.h>
#include <lib/intercept.h>
#ifdef CLINK_VERIF_HOOKS
extern void verif_dir_history(int op, str_base* out);
#endif
VMODULE(intercept)
{
    char root[MAX_PATH]; GetCurrentDirectoryA(sizeof root, root);
    CreateDirectoryA("ic", nullptr); SetCurrentDirectoryA("ic");
    GetCurrentDirectoryA(sizeof root, root);
    for (const auto& f : script)
    {
        jout j;
        const std::string& op = f[0];
        auto arg = [&](size_t i) -> std::string { return i < f.size() ? f[i] : std::string(); };
        j.obj().ks("op", op);
        if (op == "reset")
        {
            // The directories are known to the specification.
            SetCurrentDirectoryA(root);
            const char* dirs[] = { "a", "a\\b", "a\\b\\c d", "c d", "md", "md\\a", "e,f", "p%q", "x.y", "home", "home\\a", "g^h", "k+" };
            for (const char* d : dirs) CreateDirectoryA(d, nullptr);
            FILE* h = fopen("file", "w"); fclose(h);
            SetEnvironmentVariableA("HOME", (std::string(root) + "\\home").c_str());
            SetEnvironmentVariableA("VV", "a"); SetEnvironmentVariableA("WW", "c d"); SetEnvironmentVariableA("NOPE", nullptr);
            settings::find("directories.dupe_mode")->set(arg(1).empty() ? "add" : arg(1).c_str());
            j.ks("root", root).ks("mode", arg(1));
#ifdef CLINK_VERIF_HOOKS
            verif_dir_history(0, nullptr);
#endif
        }
        else if (op == "cwd")
        {
            std::string d = std::string(root) + "\\" + arg(1);
            if (!SetCurrentDirectoryA(d.c_str())) return 77;
            char cwd[MAX_PATH]; GetCurrentDirectoryA(sizeof cwd, cwd);
            j.ks("dir", arg(1)).ks("cwd", cwd);
        }
        else if (op == "line")
        {
            // line MODE TEXT
            str<> out; out = "none";
            const int mode = atoi(arg(1).c_str());
            std::string in = arg(2);
            const size_t at = in.find("@ROOT@");
            if (at != std::string::npos) in.replace(at, 6, root);
            const auto r = intercept_directory(in.c_str(), mode == 2 ? nullptr : &out, mode == 1 ? intercept_mode::only_cd_chdir : mode == 2 ? intercept_mode::no_remote : intercept_mode::normal);
            j.ki("mode", mode).ks("in", in).ki("r", int(r)).ks("out", out.c_str());
        }
        else if (op == "make")
        {
            str<> out;
            make_cd_command(arg(1).c_str(), out);
            j.ks("dir", arg(1)).ks("out", out.c_str());
        }
#ifdef CLINK_VERIF_HOOKS
        else if (op == "prompt") verif_dir_history(1, nullptr);
        else if (op == "prev" || op == "dirs")
        {
            str<> out; out = "?";
            verif_dir_history(op == "prev" ? 2 : 3, &out);
            j.ks("out", out.c_str());
        }
#endif
        else return 77;
        j.end(); j.flush();
    }
    return 0;
}
