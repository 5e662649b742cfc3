/* Reference definitions.  They are never run: the analyser extracts their memory relation exactly as it
   extracts the library's, and compares the two.  REQUIRE states a precondition (the library must reject
   the complement), LET an assumption about the world that is not checked by the library. */
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include "c_include/hypercv_core.h"
#include "c_include/hypercv_process.h"
#include "highgui/hypercv_gui.h"
#include "algorithm/hypercv_algorithm.h"
#define REQUIRE(c) do { if (!(c)) abort(); } while (0)
#define U8(m) ((unsigned char *)(m)->data)
#define F32(m) ((float *)(m)->data)
typedef unsigned char u8;
typedef signed char s8;
typedef unsigned short u16;
typedef unsigned int u32;
#define FOR(i, n) for (int i = 0; i < (n); i++)
