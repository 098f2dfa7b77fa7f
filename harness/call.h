/* Uniform calling convention between the driver and the library builds under test. */
#ifndef VERIF_CALL_H
#define VERIF_CALL_H
#ifdef __cplusplus          /* the headers used from C++: an argument converts to whatever pointer is asked for */
struct Ptr { void *q; template <class T> operator T *() const { return (T *)q; } };
#define VOIDP
#define ALIGNOF(t) alignof(t)
#else
typedef void *Ptr;
#define VOIDP (void*)
#define ALIGNOF(t) _Alignof(t)
#endif
typedef struct Call { Ptr p[16]; float f[16]; int i[16]; float rf; int ri; } Call;
typedef struct WEntry { const char *name; void (*fn)(Call *); } WEntry;
#endif
