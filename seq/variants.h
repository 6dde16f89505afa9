// Every log macro, by kind, as a function: V(kind, level) with a side-effecting argument.
#pragma once
#include "lg.h"
namespace var {
inline int evals; inline int ts_evals; inline int last_line;
inline int arg() { return ++evals; }
inline xtr::timespec stamp() { ++ts_evals; std::timespec t{946688523, 123456789}; return t; }
enum Kind { LOG, TRY, TS, TRYTS, RTC, TRYRTC, TSC, TRYTSC, NK };
inline const char* kname(int k) { static const char* n[] = {"LOG", "TRY_LOG", "LOG_TS", "TRY_LOG_TS", "LOG_RTC", "TRY_LOG_RTC", "LOG_TSC", "TRY_LOG_TSC"}; return n[k]; }
// levelled statements; text is "v <n>"
#define VAR_L(LV) \
    inline void l_##LV(int k, xtr::sink& s) \
    { \
        switch (k) { \
        case LOG: XTR_LOGL(LV, s, "v {}", arg()); break; \
        case TRY: XTR_TRY_LOGL(LV, s, "v {}", arg()); break; \
        case TS: XTR_LOGL_TS(LV, s, stamp(), "v {}", arg()); break; \
        case TRYTS: XTR_TRY_LOGL_TS(LV, s, stamp(), "v {}", arg()); break; \
        case RTC: XTR_LOGL_RTC(LV, s, "v {}", arg()); break; \
        case TRYRTC: XTR_TRY_LOGL_RTC(LV, s, "v {}", arg()); break; \
        case TSC: XTR_LOGL_TSC(LV, s, "v {}", arg()); break; \
        case TRYTSC: XTR_TRY_LOGL_TSC(LV, s, "v {}", arg()); break; \
        } \
    } \
    inline void n_##LV(int k, xtr::sink& s) \
    { \
        switch (k) { \
        case LOG: XTR_LOGL(LV, s, "plain"); break; \
        case TRY: XTR_TRY_LOGL(LV, s, "plain"); break; \
        case TS: XTR_LOGL_TS(LV, s, stamp(), "plain"); break; \
        case TRYTS: XTR_TRY_LOGL_TS(LV, s, stamp(), "plain"); break; \
        case RTC: XTR_LOGL_RTC(LV, s, "plain"); break; \
        case TRYRTC: XTR_TRY_LOGL_RTC(LV, s, "plain"); break; \
        case TSC: XTR_LOGL_TSC(LV, s, "plain"); break; \
        case TRYTSC: XTR_TRY_LOGL_TSC(LV, s, "plain"); break; \
        } \
    }
constexpr int fatal_line = __LINE__ + 1;
VAR_L(fatal)
constexpr int error_line = __LINE__ + 1;
VAR_L(error)
constexpr int warning_line = __LINE__ + 1;
VAR_L(warning)
constexpr int info_line = __LINE__ + 1;
VAR_L(info)
constexpr int debug_line = __LINE__ + 1;
VAR_L(debug)
// with arguments (args) or without; level index as in xtr::log_level_t
inline void levelled(int lv, int k, xtr::sink& s, bool args)
{
    switch (lv) {
    case 1: last_line = fatal_line; args ? l_fatal(k, s) : n_fatal(k, s); break;
    case 2: last_line = error_line; args ? l_error(k, s) : n_error(k, s); break;
    case 3: last_line = warning_line; args ? l_warning(k, s) : n_warning(k, s); break;
    case 4: last_line = info_line; args ? l_info(k, s) : n_info(k, s); break;
    case 5: last_line = debug_line; args ? l_debug(k, s) : n_debug(k, s); break;
    }
}
inline void unlevelled(int k, xtr::sink& s, bool args)
{
    if (args) switch (k) {
        case LOG: last_line = __LINE__; XTR_LOG(s, "v {}", arg()); break;
        case TRY: last_line = __LINE__; XTR_TRY_LOG(s, "v {}", arg()); break;
        case TS: last_line = __LINE__; XTR_LOG_TS(s, stamp(), "v {}", arg()); break;
        case TRYTS: last_line = __LINE__; XTR_TRY_LOG_TS(s, stamp(), "v {}", arg()); break;
        case RTC: last_line = __LINE__; XTR_LOG_RTC(s, "v {}", arg()); break;
        case TRYRTC: last_line = __LINE__; XTR_TRY_LOG_RTC(s, "v {}", arg()); break;
        case TSC: last_line = __LINE__; XTR_LOG_TSC(s, "v {}", arg()); break;
        case TRYTSC: last_line = __LINE__; XTR_TRY_LOG_TSC(s, "v {}", arg()); break;
        }
    else switch (k) {
        case LOG: last_line = __LINE__; XTR_LOG(s, "plain"); break;
        case TRY: last_line = __LINE__; XTR_TRY_LOG(s, "plain"); break;
        case TS: last_line = __LINE__; XTR_LOG_TS(s, stamp(), "plain"); break;
        case TRYTS: last_line = __LINE__; XTR_TRY_LOG_TS(s, stamp(), "plain"); break;
        case RTC: last_line = __LINE__; XTR_LOG_RTC(s, "plain"); break;
        case TRYRTC: last_line = __LINE__; XTR_TRY_LOG_RTC(s, "plain"); break;
        case TSC: last_line = __LINE__; XTR_LOG_TSC(s, "plain"); break;
        case TRYTSC: last_line = __LINE__; XTR_TRY_LOG_TSC(s, "plain"); break;
        }
}
// replaces the 26 characters of a time in a line by TS when the statement reads its own clock
inline std::string norm(std::string o, int k, size_t prefix)
{
    if (k < RTC) return o;
    const std::string d = "dddd-dd-dd dd:dd:dd.dddddd";
    if (o.size() < prefix + d.size()) return o;
    for (size_t i = 0; i < d.size(); ++i) if (d[i] == 'd' ? !isdigit((unsigned char)o[prefix + i]) : o[prefix + i] != d[i]) return o;
    return o.replace(prefix, d.size(), lg::TS);
}
}
