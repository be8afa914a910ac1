/* the program's main under another name */
#define main ccalc_main
#include "client/main.c"
