// line_queue: lines and characters queued for CMD to read.
#include "vdrv.h"
#include <core/base.h>
#include <core/str.h>
#include <core/os.h>
#include <lib/doskey.h>
#include <lib/line_queue.h>
#include <memory>
VMODULE(queue)
{
    std::unique_ptr<line_queue> q;
    for (const auto& f : script)
    {
        jout j;
        j.obj().ks("op", f[0]);
        const std::string& op = f[0];
        if (op == "reset") { shim::clear_aliases(); q.reset(); q.reset(new line_queue()); }
        else if (op == "alias")
        {
            std::string t;
            j.k("n").s(f[1].c_str()).k("l").arr();
            for (size_t i = 2; i < f.size(); ++i) { if (i > 2) t += "$T"; t += f[i]; j.s(f[i].c_str()); }
            j.aend();
            doskey(os::get_shellname()).add_alias(f[1].c_str(), t.c_str());
        }
        else if (op == "back")
        {
            q->enqueue_back(f[1].c_str());
            j.k("a").s(f[1].c_str(), int(f[1].size()));
        }
        else if (op == "front")
        {
            std::list<queued_line> l;
            j.k("a").arr();
            for (size_t i = 1; i + 1 < f.size(); i += 2)
            {
                l.emplace_back(str_moveable(f[i].c_str()), dequeue_flags(atoi(f[i + 1].c_str())));
                j.obj().ks("v", f[i]).ki("f", atoi(f[i + 1].c_str())).end();
            }
            j.aend();
            q->enqueue_front(l);
            j.kt("left", !l.empty());
        }
        else if (op == "line")
        {
            str<> out;
            dequeue_flags fl = dequeue_flags::none;
            bool r = q->dequeue_line(out, fl);
            j.kt("r", r).ki("f", int(fl)).k("v").s(r ? out.c_str() : "", r ? int(out.length()) : 0);
        }
        else if (op == "char")
        {
            wchar_t c = 0; bool nl = false;
            bool r = q->dequeue_char(&c, nl);
            j.kt("r", r).kt("nl", nl).ki("c", r ? c : 0);
        }
        else if (op == "clear") q->clear();
        else { fprintf(stderr, "bad op\n"); return 77; }
        j.kt("empty", q->empty()).kt("inc", q->incomplete());
        j.end().flush();
    }
    return 0;
}
