// doskey: expansion of macros in input lines.
#include "vdrv.h"
#include <core/str.h>
#include <core/settings.h>
#include <lib/doskey.h>
VMODULE(doskey)
{
    doskey dk("clink_test_harness");
    for (const auto& f : script)
    {
        jout j;
        j.obj().ks("op", f[0]);
        const std::string& op = f[0];
        if (op == "reset")
        {
            shim::clear_aliases();
            settings::find("doskey.enhanced")->set(f[1].c_str());
            j.kt("enh", f[1] == "true");
        }
        else if (op == "alias") { dk.add_alias(f[1].c_str(), f[2].c_str()); j.ks("n", f[1]).ks("t", f[2]); }
        else if (op == "unalias") { dk.remove_alias(f[1].c_str()); j.ks("n", f[1]); }
        else if (op == "resolve")
        {
            doskey_alias out;
            int32 point = atoi(f[2].c_str());
            j.ks("t", f[1]).ki("from", point);
            dk.resolve(f[1].c_str(), out, &point);
            const bool any = !!out;
            str<> line;
            j.kt("any", any).k("out").arr();
            while (out.next(line)) j.s(line.c_str());
            j.aend().ki("point", point);
            // Without a cursor the result is the same.
            doskey_alias out2;
            dk.resolve(f[1].c_str(), out2);
            j.k("out2").arr();
            while (out2.next(line)) j.s(line.c_str());
            j.aend();
        }
        else { fprintf(stderr, "bad op\n"); return 77; }
        j.end().flush();
    }
    return 0;
}
