// binder, bind_resolver: key sequences to bindings.
#include "vdrv.h"
#include <core/base.h>
#include <core/str.h>
#include <core/settings.h>
#include <editor_module.h>
#include <binder.h>
#include <bind_resolver.h>
#include <memory>
VMODULE(binder)
{
    settings::load("Z:\\nonexistent\\settings");
    struct nop : public editor_module
    {
        void bind_input(binder&) override {}
        void on_begin_line(const context&) override {}
        void on_end_line() override {}
        void on_need_input(int32&) override {}
        void on_input(const input&, result&, const context&) override {}
        void on_matches_changed(const context&, const line_state&, const char*) override {}
        void on_terminal_resize(int32, int32, const context&) override {}
        void on_signal(int32) override {}
    };
    static nop mods[8];
    std::unique_ptr<binder> b;
    std::unique_ptr<bind_resolver> r;
    std::unique_ptr<bind_resolver::binding> cur;
    // "drain" is what line_editor_impl::update_input does with what is bound
    // when a sequence is complete: each binding is offered and claimed (c),
    // or passed (p); the group may change first (g).
    bool complete = false;
    std::function<void(const fields&)> run;
    int bad = 0;
    auto drain = [&](std::string how, const std::string& group) {
        if (!complete) return;
        complete = false;
        for (int n = 0; n < 200; ++n)
        {
            run({ "next" });
            if (!*cur) return;
            while (!how.empty() && how[0] == 'g') { run({ "setgroup", group }); how = how.substr(1); }
            if (how.empty() || how[0] == 'c') run({ "claim" });
            if (how.size()) how = how.substr(1);
        }
    };
    run = [&](const fields& f)
    {
        const std::string& op = f[0];
        if (op == "drain") { drain(f[1], f[2]); return; }
        jout j;
        j.obj().ks("op", f[0]);
        auto bytes = [&](const char* key, const std::string& s) { j.k(key).arr(); for (char c : s) j.i(uint8(c)); j.aend(); };
        if (op == "reset") { cur.reset(); r.reset(); b.reset(new binder); r.reset(new bind_resolver(*b)); }
        else if (op == "group") bytes("n", f[1]), j.ki("r", b->create_group(f[1].c_str()));
        else if (op == "find") bytes("n", f[1]), j.ki("r", b->get_group(f[1].c_str()));
        else if (op == "bind")
        {
            bytes("t", f[2]);
            j.ki("g", atoi(f[1].c_str())).ki("m", atoi(f[3].c_str())).ki("id", atoi(f[4].c_str())).kt("p", f[5] == "1");
            j.kt("r", b->bind(atoi(f[1].c_str()), f[2].c_str(), mods[atoi(f[3].c_str())], uint8(atoi(f[4].c_str())), f[5] == "1"));
        }
        else if (op == "setgroup") { r->set_group(atoi(f[1].c_str())); j.ki("g", atoi(f[1].c_str())); }
        else if (op == "step") { cur.reset(); complete = r->step(uint8(f[1][0])); j.ki("k", uint8(f[1][0])); j.kt("r", complete); }
        else if (op == "next")
        {
            cur.reset(new bind_resolver::binding(r->next()));
            const bool ok = !!*cur;
            j.kt("r", ok);
            if (ok)
            {
                str<64> chord;
                cur->get_chord(chord);
                bytes("c", std::string(chord.c_str(), chord.length()));
                int32 m = -1;
                for (int32 i = 0; i < 8; ++i) if (cur->get_module() == mods + i) m = i;
                j.ki("m", m).ki("id", cur->get_id()).kt("more", r->more_than(chord.length()));
                j.k("ps").arr();
                for (uint32 i = 0; i < cur->get_params().count(); ++i) { uint32 v; cur->get_params().get(i, v); j.i(v); }
                j.aend();
            }
        }
        else if (op == "claim") { const bool ok = cur && !!*cur; j.kt("r", ok); if (ok) cur->claim(); }
        else if (op == "isbound") { bytes("t", f[1]); j.ki("r", r->is_bound(f[1].c_str(), int32(f[1].size()))); }
        else { fprintf(stderr, "bad op %s\n", op.c_str()); bad = 77; return; }
        j.ki("group", r->get_group()).kt("done", r->is_done());
        j.end().flush();
    };
    for (const auto& f : script) { run(f); if (bad) return bad; }
    return 0;
}
