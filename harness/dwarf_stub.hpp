// Stands in for the DWARF reader of the libdwarf back-end: no debug information for any object.
#ifndef DWARF_STUB_HPP
#define DWARF_STUB_HPP
#include "symbols/dwarf/resolver.hpp"
CPPTRACE_BEGIN_NAMESPACE
namespace detail { namespace libdwarf {
    std::unique_ptr<symbol_resolver> make_dwarf_resolver(cstring_view) { return std::unique_ptr<symbol_resolver>(new null_resolver()); }
} }
CPPTRACE_END_NAMESPACE
#endif
