// forced include: logging produces no text, fatal messages carry no stack trace; every condition is kept
#pragma once
#include "utils/Macros.hh"
#undef ___log
#define ___log(message) { (void)0; if(false){ std::cerr << message; } }
#undef qdb_fatal
#define qdb_fatal(message) { std::quick_exit(1); }
#undef qdb_throw
#define qdb_throw(message) { if(false){ (void)SSTR(message); } throw quarkdb::FatalException(std::string()); }
#undef qdb_assert
#define qdb_assert(condition) if(QDB_UNLIKELY(!((condition)))) throw quarkdb::FatalException(std::string())
