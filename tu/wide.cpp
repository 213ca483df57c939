// the whole interface with long double and no other numerical type
#include "headers.inc"
#define VP_REAL long double
#define VP_ALT long double
#define VP_NS val1
#include "api1.inc"
#undef VP_NS
#define VP_NS vale
#define VP_PROP Prop::est
#define VP_OTHER Prop::mean
#include "api2.inc"
#undef VP_NS
#undef VP_PROP
#undef VP_OTHER
#define VP_NS valm
#define VP_PROP Prop::mean
#define VP_OTHER Prop::est
#include "api2.inc"
#undef VP_NS
#undef VP_PROP
#undef VP_OTHER
#undef VP_REAL
#undef VP_ALT
