#pragma once
#include <ostream>
#include <sstream>
namespace backward { struct StackTrace { void load_here(int){} }; namespace ColorMode { enum type { automatic, never, always }; } struct Printer { bool object=false,address=false,snippet=false; ColorMode::type color_mode=ColorMode::never; template<class S> void print(S&,std::ostream&){} }; }
