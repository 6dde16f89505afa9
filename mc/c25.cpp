// C25: style and name changes take effect for everything logged afterwards, in every schedule.
#include "scn_logger.h"
using namespace loggerops;
namespace {
struct Two {
    std::unique_ptr<xtr::logger> log; std::unique_ptr<xtr::sink> a, b;
    Two()
    {
        mc::quiet(true);
        log = std::make_unique<xtr::logger>(std::make_unique<mem_storage>(&rec), fixed_clock(), xtr::null_command_path);
        a = std::make_unique<xtr::sink>(log->get_sink("A")); b = std::make_unique<xtr::sink>(log->get_sink("B")); a->sync(); b->sync();
        mc::quiet(false);
    }
    void end() { a.reset(); b.reset(); log.reset(); }
};
// the prefix of the message with the given text
std::string prefix_of(const char* text)
{
    std::string w = std::string(": ") + text;
    for (auto& l : split_lines(rec.data)) if (l.size() > w.size() && l.compare(l.size() - w.size(), w.size(), w) == 0) return l.substr(0, 2);
    mc::fail("message '%s' is missing", text); return "";
}
void want(const char* text, std::initializer_list<const char*> ok)
{
    std::string p = prefix_of(text); mc::outcome(p);
    for (auto o : ok) if (p == o) return;
    mc::fail("message '%s' has prefix '%s'", text, p.c_str());
}
// sinks that exist already, one of them with a message under way
void style_log()
{
    { Two t; XTR_LOG(*t.b, "before"); t.log->set_log_level_style(custom_style); XTR_LOG(*t.a, "a1"); XTR_LOG(*t.b, "b1"); t.end(); }
    want("before", {"I ", "Z "}); want("a1", {"Z "}); want("b1", {"Z "});
}
void style_twice()
{
    { Two t; t.log->set_log_level_style(custom_style); XTR_LOG(*t.b, "one"); t.log->set_log_level_style(custom_style2); XTR_LOG(*t.a, "two"); t.end(); }
    want("one", {"Z ", "Y "}); want("two", {"Y "});
}
// another thread logs meanwhile
void style_other()
{
    { Two t; std::thread u([&] { XTR_LOG(*t.b, "any1"); XTR_LOG(*t.b, "any2"); }); t.log->set_log_level_style(custom_style); XTR_LOG(*t.a, "a1"); u.join(); XTR_LOG(*t.b, "b1"); t.end(); }
    want("any1", {"I ", "Z "}); want("any2", {"I ", "Z "}); want("a1", {"Z "}); want("b1", {"Z "});
    if (prefix_of("any1") == "Z " && prefix_of("any2") == "I ") mc::fail("the old style reappears");
}
// the change is made by one thread and the message logged by another that was told about it
void style_handover()
{
    { Two t; std::atomic<bool> done{false}; std::thread u([&] { t.log->set_log_level_style(custom_style); done.store(true, std::memory_order_release); }); XTR_LOG(*t.a, "any"); u.join(); XTR_LOG(*t.b, "b1"); t.end(); }
    want("any", {"I ", "Z "}); want("b1", {"Z "});
}
// a sink obtained after the change and one registered before it
void style_new()
{
    { Two t; xtr::sink c = t.log->get_sink("C"); XTR_LOG(c, "any"); t.log->set_log_level_style(custom_style); XTR_LOG(c, "c1"); xtr::sink d = *t.a; XTR_LOG(d, "d1"); c.close(); d.close(); t.end(); }
    want("any", {"I ", "Z "}); want("c1", {"Z "}); want("d1", {"Z "});
}
// a drop warning after the change has the new style too (closing reports it)
void style_rename()
{
    { Two t; XTR_LOG(*t.a, "n0"); t.a->set_name("A1"); t.log->set_log_level_style(custom_style); XTR_LOG(*t.a, "n1"); t.a->set_name("A2"); XTR_LOG(*t.a, "n2"); t.end(); }
    want("n0", {"I ", "Z "}); want("n1", {"Z "}); want("n2", {"Z "});
    expect_lines({{"A", {"n0"}}, {"A1", {"n1"}}, {"A2", {"n2"}}}, 3);
}
}
int main(int argc, char** argv)
{
    mc::warmup(warm);
    return mc::main_(argc, argv, "C25",
        "every schedule with at most the stated number of preemptions of style changes against log calls on existing, new and copied sinks",
        {
            {"style_log", style_log, 3, 5, 20, 300},
            {"style_twice", style_twice, 2, 4, 20, 300},
            {"style_other", style_other, 2, 3, 20, 300},
            {"style_handover", style_handover, 2, 4, 20, 300},
            {"style_new", style_new, 2, 3, 20, 300},
            {"style_rename", style_rename, 3, 5, 20, 300},
        }, {});
}
