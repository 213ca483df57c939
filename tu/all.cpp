// the whole interface with double and float
#include "headers.inc"
#define VP_REAL double
#define VP_ALT long double
#define VP_NS vad1
#include "api1.inc"
#undef VP_NS
#define VP_NS vade
#define VP_PROP Prop::est
#define VP_OTHER Prop::mean
#include "api2.inc"
#undef VP_NS
#undef VP_PROP
#undef VP_OTHER
#define VP_NS vadm
#define VP_PROP Prop::mean
#define VP_OTHER Prop::est
#include "api2.inc"
#undef VP_NS
#undef VP_PROP
#undef VP_OTHER
#undef VP_REAL
#undef VP_ALT
#define VP_REAL float
#define VP_ALT double
#define VP_NS vaf1
#include "api1.inc"
#undef VP_NS
#define VP_NS vafe
#define VP_PROP Prop::est
#define VP_OTHER Prop::mean
#include "api2.inc"
#undef VP_NS
#undef VP_PROP
#undef VP_OTHER
#define VP_NS vafm
#define VP_PROP Prop::mean
#define VP_OTHER Prop::est
#include "api2.inc"
#undef VP_NS
#undef VP_PROP
#undef VP_OTHER
#undef VP_REAL
#undef VP_ALT
