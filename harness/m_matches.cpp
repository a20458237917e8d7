// Match pipeline: generate, select, restrict, sort, iterate.
#include "vdrv.h"
#include <core/str.h>
#include <core/settings.h>
#include <core/str_compare.h>
#include <core/os.h>
#include <lib/matches.h>
#include <lib/match_generator.h>
#include <lib/line_state.h>
#include <lib/cmd_tokenisers.h>
#include <lib/word_collector.h>
#include <matches_impl.h>
#include <match_pipeline.h>
#include <slash_translation.h>
#include <memory>
extern "C" {
#include <readline/readline.h>
extern int _rl_match_hidden_files;
extern int rl_backslash_path_sep;
extern char rl_preferred_path_separator;
}
struct item { std::string m; int type; std::string d, desc; };
struct list_generator : public match_generator
{
    std::vector<item> items;
    bool nosort = false; int files = -1; bool deprecated = false;
    std::string accepted;
    void fill(match_builder& b)
    {
        accepted.clear();
        if (deprecated) b.set_deprecated_mode();
        if (files >= 0) b.set_matches_are_files(files == 1);
        for (const auto& i : items)
        {
            match_desc d(i.m.c_str(), i.d.c_str(), i.desc.c_str(), match_type(i.type));
            accepted += b.add_match(d) ? '1' : '0';
        }
        if (nosort) b.set_no_sort();
    }
    bool generate(const line_states&, match_builder& b, bool) override { fill(b); return true; }
    void get_word_break_info(const line_state&, word_break_info& i) const override { i.clear(); }
};
static void show(jout& j, const matches_impl& m)
{
    const matches& x = m;
    j.ki("count", x.get_match_count()).ki("infos", m.get_iter().next() ? 1 : 0);
    j.k("vis").arr();
    for (matches_iter it = m.get_iter(); it.next(); )
        j.obj().ks("m", it.get_match() ? it.get_match() : "?").ki("t", int(it.get_match_type()))
         .ks("d", it.get_match_display() ? it.get_match_display() : "").ks("e", it.get_match_description() ? it.get_match_description() : "").end();
    j.aend();
    j.kt("fc", x.is_filename_completion_desired().get()).kt("fd", x.is_filename_display_desired().get());
}
VMODULE(matches)
{
    rl_completion_type = 9;
    rl_backslash_path_sep = 1; rl_preferred_path_separator = PATH_SEP[0]; // as rl_module does
    std::unique_ptr<matches_impl> m;
    std::unique_ptr<match_pipeline> p;
    std::unique_ptr<str_compare_scope> scope;
    list_generator g;
    for (const auto& f : script)
    {
        jout j;
        j.obj().ks("op", f[0]);
        const std::string& op = f[0];
        if (op == "reset")
        {
            // wild substring sort_dirs rl_hidden hidden system mode fuzzy translate
            settings::find("match.wild")->set(f[1].c_str());
            settings::find("match.substring")->set(f[2].c_str());
            settings::find("match.sort_dirs")->set(f[3].c_str());
            _rl_match_hidden_files = f[4] == "true";
            settings::find("files.hidden")->set(f[5].c_str());
            settings::find("files.system")->set(f[6].c_str());
            scope.reset();
            scope = std::make_unique<str_compare_scope>(atoi(f[7].c_str()), f[8] == "true");
            settings::find("match.translate_slashes")->set(f[9].c_str());
            m = std::make_unique<matches_impl>();
            p = std::make_unique<match_pipeline>(*m);
            p->reset();
            g = list_generator();
            // what exists on disk (Matches.tla: DiskDirs, DiskFiles)
            for (const char* d : { "sub", "sub\\in", "dd" }) os::make_dir(d);
            for (const char* d : { "ff", "sub\\gg" }) if (FILE* q = fopen(d, "wb")) fclose(q);
            j.kt("wild", f[1] == "true").kt("sub", f[2] == "true").ks("sort", f[3]).kt("rlh", f[4] == "true").kt("hid", f[5] == "true").kt("sys", f[6] == "true")
             .ki("mode", atoi(f[7].c_str())).kt("fuzzy", f[8] == "true").ks("tr", f[9]);
        }
        else if (op == "item") { g.items.push_back({ f[1], int(strtol(f[2].c_str(), nullptr, 10)), f[3], f[4] }); j.ks("m", f[1]).ki("t", g.items.back().type).ks("d", f[3]).ks("e", f[4]); }
        else if (op == "gopt") { g.nosort = f[1] == "true"; g.files = atoi(f[2].c_str()); g.deprecated = f[3] == "true"; j.kt("nosort", g.nosort).ki("files", g.files).kt("dep", g.deprecated); }
        else if (op == "gen")
        {
            // gen WORD async: generate for a line ending with WORD
            const std::string& w = f[1];
            const bool async = f[2] == "true";
            if (async)
            {
                // What a match generator running in a coroutine leads to.
                p->reset();
                auto tk = make_match_builder_toolkit(1, 0);
                g.fill(*tk->get_builder());
                m->transfer(static_cast<matches_impl&>(*tk->get_matches()));
                m->done_building();
            }
            else
            {
                cmd_command_tokeniser ct; cmd_word_tokeniser wt;
                word_collector wc(&ct, &wt);
                words ws; commands cs;
                wc.collect_words(w.c_str(), uint32(w.size()), uint32(w.size()), ws, collect_words_mode::stop_at_cursor, &cs);
                command_line_states cls;
                cls.set(w.c_str(), uint32(w.size()), uint32(w.size()), ws, collect_words_mode::stop_at_cursor, cs);
                p->reset();
                p->generate(cls.get_linestates(w.c_str(), uint32(w.size())), &g);
            }
            j.ks("w", w).kt("async", async).ks("acc", g.accepted);
            show(j, *m);
        }
        else if (op == "select") { p->select(f[1].c_str()); j.ks("needle", f[1]); show(j, *m); }
        else if (op == "restrict") { str<> n(f[1].c_str()); p->restrict(n); j.ks("needle", f[1]).ks("left", n.c_str()); show(j, *m); }
        else if (op == "keep")
        {
            std::vector<char*> v; v.push_back((char*)"lcd");
            j.k("list").arr();
            for (size_t i = 1; i < f.size(); ++i) { v.push_back((char*)f[i].c_str()); j.s(f[i]); }
            j.aend();
            v.push_back(nullptr);
            p->restrict(v.data());
            show(j, *m);
        }
        else if (op == "sort") { p->sort(); show(j, *m); }
        else if (op == "lcd") { str<> s; m->get_lcd(s); j.ks("lcd", s.c_str()); show(j, *m); }
        else if (op == "iter")
        {
            j.ks("pat", f[1]).k("res").arr();
            bool fc = false, fd = false;
            { matches_iter it = m->get_iter(f[1].c_str()); while (it.next()) j.s(it.get_match() ? it.get_match() : "?");
              fc = it.is_filename_completion_desired().get(); fd = it.is_filename_display_desired().get(); }
            j.aend().kt("ifc", fc).kt("ifd", fd);
            show(j, *m);
        }
        else if (op == "copy") { auto n = std::make_unique<matches_impl>(); n->copy(*m); m = std::move(n); p = std::make_unique<match_pipeline>(*m); show(j, *m); }
        else if (op == "bulk")
        {
            // many candidates: how many are there, and how many does a word select
            const int n = atoi(f[1].c_str());
            matches_impl big; match_pipeline bp(big); bp.reset();
            { match_builder b(big); for (int i = 0; i < n; ++i) { char t[16]; sprintf(t, "%c%d", i & 1 ? 'p' : 'q', i); b.add_match(t, match_type::word); } }
            big.done_building();
            j.ki("n", n).ki("all", static_cast<matches&>(big).get_match_count());
            bp.select(""); bp.sort(); j.ki("sel", static_cast<matches&>(big).get_match_count());
            bp.select("p"); bp.sort(); j.ki("p", static_cast<matches&>(big).get_match_count());
        }
        else if (op == "late") { match_builder b(*m); const bool ok = b.add_match(f[1].c_str(), match_type::word); j.ks("m", f[1]).kt("ok", ok); show(j, *m); }
        else { fprintf(stderr, "bad op\n"); return 77; }
        j.end().flush();
    }
    return 0;
}
