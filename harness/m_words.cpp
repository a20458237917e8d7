// word_collector: commands and words of a command line.
#include "vdrv.h"
#include <core/str.h>
#include <core/settings.h>
#include <core/os.h>
#include <lib/cmd_tokenisers.h>
#include <lib/word_collector.h>
#include <lib/line_state.h>
#include <lib/doskey.h>
VMODULE(words)
{
    doskey dk("clink_test_harness");
    for (const auto& f : script)
    {
        jout j;
        j.obj().ks("op", f[0]);
        const std::string& op = f[0];
        if (op == "reset")
        {
            shim::clear_aliases();
            settings::find("doskey.enhanced")->set(f[1].c_str());
            settings::find("match.translate_slashes")->set(f[2].c_str());
            j.kt("enh", f[1] == "true").kt("sl", f[2] == "system" || f[2] == "backslash");
        }
        else if (op == "alias") { dk.add_alias(f[1].c_str(), f[2].c_str()); j.ks("n", f[1]).ks("t", f[2]); }
        else if (op == "words")
        {
            cmd_command_tokeniser ct;
            cmd_word_tokeniser wt;
            word_collector wc(&ct, &wt);
            ct.begin_line();
            const std::string& t = f[1];
            const uint32 cur = atoi(f[2].c_str());
            const bool stop = f[3] == "true";
            words ws; commands cs;
            const collect_words_mode mode = stop ? collect_words_mode::stop_at_cursor : collect_words_mode::whole_command;
            const uint32 off = wc.collect_words(t.c_str(), uint32(t.size()), cur, ws, mode, &cs);
            j.ks("t", t).ki("cur", cur).kt("stop", stop).ki("off", off);
            j.k("words").arr();
            for (const auto& w : ws)
                j.obj().ki("o", w.offset).ki("n", w.length).kt("cmd", w.command_word).kt("alias", w.is_alias).kt("redir", w.is_redir_arg).kt("q", w.quoted).end();
            j.aend().k("commands").arr();
            for (const auto& c : cs) j.obj().ki("o", c.offset).ki("n", c.length).kt("a", c.is_alias_allowed).end();
            j.aend().k("states").arr();
            command_line_states cls;
            cls.set(t.c_str(), uint32(t.size()), cur, ws, mode, cs);
            for (const auto& s : cls.get_linestates(t.c_str(), uint32(t.size())))
            {
                int b = 0;
                for (uint32 k = 0; k < s.get_words().size(); ++k) if (s.get_words()[k].is_cmd_command) b = b ? -1 : int(k) + 1;
                j.obj().ki("o", s.get_command_offset()).ki("ro", s.get_range_offset()).ki("rn", s.get_range_length()).ki("n", s.get_word_count()).ki("builtin", b).end();
            }
            j.aend();
        }
        else { fprintf(stderr, "bad op\n"); return 77; }
        j.end().flush();
    }
    return 0;
}
