/* The C side of check C25, compiled as C. */
#include "ExSeisDat/Flow.h"
#include "ExSeisDat/PIOL.h"
#include "ExSeisDat/utils/signal_processing/AGC.h"
#include "ExSeisDat/utils/signal_processing/taper.h"
#include <string.h>
void c25_log(const void*, size_t);
void c25_probe(void*);
#define API(x) PIOL_##x
#define API2(x) exseis_##x
#define H(x) x
#define NAME(x) c25_c_##x
#define C25_DEC struct exseis_Contiguous_decomposition
#include "c25_script.h"
