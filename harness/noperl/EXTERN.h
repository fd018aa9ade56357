// stand-ins for the few Perl types named by the pipe runner
#ifndef NOPERL_EXTERN_H
#define NOPERL_EXTERN_H
struct SV {};
struct AV {};
inline AV* newAV() { return 0; }
inline SV* newRV_inc(SV*) { return 0; }
#endif
