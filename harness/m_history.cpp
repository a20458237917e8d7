// history_db: several sessions on one profile directory.
#include "vdrv.h"
#include "utils/app_context.h"
#include <core/base.h>
#include <core/settings.h>
#include <core/str.h>
#include <core/path.h>
#include <core/os.h>
#include <core/str_compare.h>
#include <lib/history_db.h>
#include <map>
#include <memory>
extern "C" {
#include <readline/history.h>
#include <readline/readline.h>
}

struct test_history_db : public history_db
{
    test_history_db(const char* path, int id, bool master) : history_db(path, id, master) {}
    void set_thr(size_t t) { m_min_compact_threshold = t; }
};

struct session
{
    test_history_db* db = nullptr;
    int id = 0;
    std::string shared, save, dupe, ts, igns, limit, thr;
};

static void set(const char* k, const std::string& v) { setting* s = settings::find(k); if (!s || !s->set(v.c_str())) { fprintf(stderr, "cannot set %s=%s\n", k, v.c_str()); exit(77); } }
static void apply(const session& s)
{
    set("history.shared", s.shared);
    set("history.dupe_mode", s.dupe);
    set("history.time_stamp", s.ts == "1" ? "save" : "off");
    set("history.ignore_space", s.igns);
    set("history.max_lines", s.limit);
}

// "~N~text" stands for text followed by N '='.
static std::string grow(const std::string& s)
{
    size_t p;
    if (s.size() > 2 && s[0] == '~' && (p = s.find('~', 1)) != std::string::npos)
        return s.substr(p + 1) + std::string(atoi(s.c_str() + 1), '=');
    return s;
}
static std::string shrink(const std::string& s)
{
    size_t n = s.size();
    while (n && s[n - 1] == '=') --n;
    return s.size() - n < 100 ? s : "~" + std::to_string(s.size() - n) + "~" + s.substr(0, n);
}

static char s_big[70000];
static void emit_view(jout& j, test_history_db* db)
{
    j.arr();
    history_db::iter it = db->read_lines(s_big, sizeof(s_big));
    str_iter out;
    str<> ts;
    while (it.next(out, &ts))
    {
        const std::string v = shrink(std::string(out.get_pointer(), out.length()));
        j.obj().k("v").s(v.c_str(), int(v.size())).ks("ts", ts.c_str()).ki("b", it.get_bank()).end();
    }
    j.aend();
}

VMODULE(history)
{
    std::map<int, session> ss;
    std::string dir, path;
    shim::use_clock = true;
    int n_dir = 0;

    for (const auto& f : script)
    {
        const std::string& op = f[0];
        jout j;
        j.obj().ks("op", op);
        auto finish_all = [&] { for (auto& x : ss) { shim::close_owner(x.first); } ss.clear(); };

        if (op == "reset")
        {
            finish_all();
            char t[64]; snprintf(t, sizeof(t), "hist_%d", n_dir++);
            dir = work_dir() + "\\" + t;
            CreateDirectoryA(dir.c_str(), nullptr);
            path = dir + "\\clink_history";
            if (f.size() > 1) {}
        }
        else if (op == "peek")
        {
            // A fresh reader of the master that leaves no trace.
            session s; s.shared = "true"; s.dupe = "add"; s.ts = "0"; s.igns = "false"; s.limit = "0";
            apply(s);
            shim::owner = 99;
            test_history_db* db = new test_history_db(path.c_str(), 99, true);
            db->initialise();
            emit_view(j.k("view"), db);
            shim::close_owner(99);
            shim::owner = 0;
        }
        else if (op == "ls")
        {
            // Which files exist.
            j.k("files").arr();
            WIN32_FIND_DATAA fd;
            HANDLE h = FindFirstFileA((dir + "\\*").c_str(), &fd);
            if (h != INVALID_HANDLE_VALUE)
            {
                do if (fd.cFileName[0] != '.') j.s(fd.cFileName); while (FindNextFileA(h, &fd));
                FindClose(h);
            }
            j.aend();
        }
        else
        {
            const int id = atoi(f[1].c_str());
            const int die = atoi(f[2].c_str()); // 0: no; n: at n-th mutating call
            j.ki("s", id).ki("die", die);
            // Operations on a session that is not running (or starting one that
            // is) are skipped, so that any subset of a script is a script.
            if ((op == "start") == (ss.find(id) != ss.end()))
                continue;
            j.k("a").arr();
            for (size_t n = 3; n < f.size(); ++n) j.s(f[n].c_str(), int(f[n].size()));
            j.aend();
            session& s = ss[id];
            if (op == "start")
            {
                s = session();
                s.id = id;
                s.shared = f[3]; s.save = f[4]; s.dupe = f[5]; s.ts = f[6]; s.igns = f[7]; s.limit = f[8]; s.thr = f[9];
            }
            apply(s);
            shim::owner = id;
            bool lived = true;
            long long r = 0;
            int want_r = 0;
            str<280> sp(path.c_str());
            if (op == "start")
            {
                lived = shim::run_until(die, [&] {
                    s.db = new test_history_db(path.c_str(), id, s.save == "true");
                    s.db->set_thr(atoi(s.thr.c_str()));
                    s.db->initialise();
                });
            }
            else if (op == "add")
            {
                shim::clock_now = atoll(f[4].c_str());
                lived = shim::run_until(die, [&] { r = s.db->add(grow(f[3]).c_str()); }); want_r = 1;
            }
            else if (op == "rm")
            {
                lived = shim::run_until(die, [&] { r = s.db->remove(grow(f[3]).c_str()); }); want_r = 2;
            }
            else if (op == "rmidx")
            {
                lived = shim::run_until(die, [&] { r = s.db->remove(atoi(f[3].c_str()) - 1, ""); }); want_r = 1;
            }
            else if (op == "rmfound")
            {
                // By id, as `clink history delete` does: the n-th line read now.
                lived = shim::run_until(die, [&] {
                    history_db::line_id id = 0;
                    {
                        int n = atoi(f[3].c_str());
                        history_db::iter it = s.db->read_lines(s_big, sizeof(s_big));
                        str_iter out;
                        while (n--) { id = it.next(out); if (!id) break; }
                    }
                    if (id) r = s.db->remove(id);
                }); want_r = 1;
            }
            else if (op == "find")
            {
                lived = shim::run_until(die, [&] { r = s.db->find(grow(f[3]).c_str()) != 0; }); want_r = 1;
            }
            else if (op == "clear")
            {
                lived = shim::run_until(die, [&] { s.db->clear(); });
            }
            else if (op == "compact")
            {
                lived = shim::run_until(die, [&] {
                    r = s.db->compact(true, f[3] == "1", atoi(f[4].c_str()));
                    s.db->load_rl_history(false);
                }); want_r = 1;
            }
            else if (op == "load")
            {
                lived = shim::run_until(die, [&] { s.db->load_rl_history(true); });
                if (lived)
                {
                    j.k("rl").arr();
                    for (int i = 0; i < history_length; ++i)
                    {
                        HIST_ENTRY* e = history_get(history_base + i);
                        j.obj().ks("v", shrink(e->line)).ks("ts", e->timestamp ? (e->timestamp[0] == history_comment_char ? e->timestamp + 1 : e->timestamp) : "").end();
                    }
                    j.aend();
                }
            }
            else if (op == "exit")
            {
                lived = shim::run_until(die, [&] { delete s.db; });
                s.db = nullptr;
            }
            else if (op == "kill")
            {
                lived = false;
            }
            else { fprintf(stderr, "bad op %s\n", op.c_str()); return 77; }
            if (want_r == 1) j.kt("r", !!r);
            if (want_r == 2) j.ki("r", r);
            j.kt("lived", lived).ki("calls", shim::calls);
            if (!lived || op == "exit")
            {
                shim::close_owner(id);
                ss.erase(id);
            }
            shim::owner = 0;
            // What every running session sees now.
            j.k("views").arr();
            for (auto& x : ss)
            {
                apply(x.second);
                shim::owner = x.first;
                j.obj().ki("s", x.first);
                emit_view(j.k("view"), x.second.db);
                j.end();
                shim::owner = 0;
            }
            j.aend();
        }
        j.end().flush();
    }
    for (auto& x : ss) shim::close_owner(x.first);
    return 0;
}
