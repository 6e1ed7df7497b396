
// appended to the scratch copy of logger.h for the symbolic build only:
// the text of log lines and error traces is not part of any property
#undef LOG_AS
#undef LOG_ERROR
#undef LOG_WARN
#undef LOG_INFO
#undef LOG_DEBUG
#undef LOG_FATAL
#undef TRACE
#undef TRACE_ORIG
#undef ORIG
#undef ORIG_GO
#define LOG_AS(lvl, ...) ((void)(lvl), 0)
#define LOG_ERROR(...) ((void)0, 0)
#define LOG_WARN(...) ((void)0, 0)
#define LOG_INFO(...) ((void)0, 0)
#define LOG_DEBUG(...) ((void)0, 0)
#define LOG_FATAL(...) pvt_do_log_fatal("", NULL, 0)
#define TRACE(e, ...) ((void)(e), (derr_type_t)E_NONE)
#define TRACE_ORIG(e, code, ...) ((e)->type = (code))
#define ORIG(e, code, ...) do { (e)->type = (code); return *(e); } while(0)
#define ORIG_GO(e, code, fstr, label, ...) do { (e)->type = (code); goto label; } while(0)
