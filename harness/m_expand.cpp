// History expansion: what an input line becomes, given the remembered lines.
#include "vdrv.h"
#include <memory>
#include <core/settings.h>
#include <core/str.h>
#include <lib/history_db.h>
extern "C" {
#include <readline/readline.h>
#include <readline/history.h>
extern int history_host_backslash_escape;
}
VMODULE(expand)
{
    bool off = false;
    std::unique_ptr<history_database> db;
    for (const auto& f : script)
    {
        jout j;
        j.obj().ks("op", f[0]);
        const std::string& op = f[0];
        if (op == "reset")
        {
            if (!db)
            {
                history_host_backslash_escape = 0;
                rl_backslash_path_sep = 1;
                db.reset(new history_database("nul", 1, false));
            }
            // A known previous substitution: x for x.
            settings::find("history.expand_mode")->set("on");
            rl_clear_history();
            add_history("x");
            str<> out;
            history_db::expand("!!:s/x/x/", out);
            rl_clear_history();
            using_history();
            settings::find("history.expand_mode")->set(f[1].c_str());
            off = f[1] == "off";
            j.ks("mode", f[1]);
        }
        else if (op == "mode") { off = f[1] == "off"; settings::find("history.expand_mode")->set(f[1].c_str()); j.ks("mode", f[1]); }
        else if (op == "add") { add_history(f[1].c_str()); using_history(); j.ks("t", f[1]); }
        else if (op == "remove" || op == "replace")
        {
            const int n = atoi(f[1].c_str());
            HIST_ENTRY* e = op == "remove" ? remove_history(n) : replace_history_entry(n, f[2].c_str(), nullptr);
            j.ki("n", n).kt("did", !!e);
            if (op == "replace") j.ks("t", f[2]);
            if (e) free_history_entry(e);
            using_history();
        }
        else if (op == "pos") { j.ki("n", atoi(f[1].c_str())); history_set_pos(atoi(f[1].c_str())); }
        else if (op == "expand")
        {
            j.ks("t", f[1]);
            str<> out(f[1].c_str());
            int was = where_history();
            auto r = history_db::expand(out.c_str(), out);
            j.ki("r", int(r)).ks("out", out.c_str()).kt("stayed", where_history() == was);
            j.k("lines").arr();
            for (HIST_ENTRY** h = history_list(); h && *h; ++h) j.s((*h)->line);
            j.aend();
        }
        else if (op == "show")
        {
            // The preview: the same, while the line is being edited.
            j.ks("t", f[1]);
            if (off)
            {
                // (The line editor doesn't try.)
                j.ki("r", 0).ks("out", f[1]).k("list").arr().aend().end().flush();
                continue;
            }
            save_history_expansion_state();
            using_history();
            char* out = nullptr;
            history_return_expansions = true;
            int r = history_expand(f[1].c_str(), &out);
            restore_history_expansion_state();
            j.ki("r", r).ks("out", r >= 0 && out ? out : "").k("list").arr();
            free(out);
            for (history_expansion* e = history_expansions; e; e = e->next)
            {
                j.obj().ki("at", e->start).ki("len", e->len).ks("t", e->result ? e->result : ""); j.end();
            }
            j.aend();
            history_free_expansions(&history_expansions);
        }
        else if (op == "words")
        {
            j.ks("t", f[1]).k("words").arr();
            char** w = history_tokenize(f[1].c_str());
            for (char** p = w; p && *p; ++p) { j.s(*p); free(*p); }
            free(w);
            j.aend();
        }
        else { fprintf(stderr, "bad op\n"); return 77; }
        j.end().flush();
    }
    return 0;
}
