// Call sites that know where they are.
#ifndef C02_SITES_HPP
#define C02_SITES_HPP
#include <cstdlib>
struct ctx;
typedef void (*stepfn)(ctx*);
struct site { const char* name; const char* file; unsigned line; const char* inlined; unsigned inlined_line; bool exported; };
struct ctx { stepfn* plan; unsigned pos; site shadow[64]; unsigned depth; };
// pushes the site, makes the call in this very line, pops
#define GO(c, nm) do { (c)->shadow[(c)->depth++] = site{nm, __FILE__, __LINE__, nullptr, 0, false}; (c)->plan[(c)->pos++](c); (c)->depth--; } while(0)
#define GOX(c, nm) do { (c)->shadow[(c)->depth++] = site{nm, __FILE__, __LINE__, nullptr, 0, true}; (c)->plan[(c)->pos++](c); (c)->depth--; } while(0)
struct step_table { const stepfn* fns; unsigned n; };
#endif
