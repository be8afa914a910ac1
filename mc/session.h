/* A session of the real program, in-process: init_commands, lines through exec_command, unload. */
#pragma once
#include "ref.h"
#include <math.h>
#include "client/commands/commands.h"
#include "client/core/arith_context.h"
#include "client/core/history.h"
#include "client/simplification/simplification.h"
#include "util/console_util.h"

#ifndef SHIPPED_RULES
#define SHIPPED_RULES REPO "/simplification.ruleset"
#endif

static bool ses_line_ok;
static char *ses_buf;
static void ses_exec_(void *a) { ses_line_ok = exec_command(a); }
/* runs one line; output in mc_out / mc_err. An exit of the program fails the case. */
static bool ses_line(const char *s)
{
    size_t n = strlen(s) + 1;
    free(ses_buf);
    ses_buf = malloc(n);
    memcpy(ses_buf, s, n);
    mc_capture_begin();
    int st = mc_catch_exit(ses_exec_, ses_buf);
    mc_capture_end();
    free(ses_buf);
    ses_buf = NULL;
    mc_trans(1);
    if (st != -1) { mc_fail("'%s' ends the program with status %d: %s", s, st, mc_err); return false; }
    return ses_line_ok;
}
/* starts a session without rules (nothing is found at the startup path) or with the shipped ones */
static void ses_begin(bool rules)
{
    mc_capture_begin();
    init_commands();
    mc_capture_end();
    unload_simplification();
    if (rules && !ses_line("load simplification " SHIPPED_RULES)) mc_fail("shipped rules are not loaded: %s", mc_err);
}
static void ses_end(void)
{
    mc_capture_begin();
    unload_commands();
    mc_capture_end();
}
static int ses_history_count(void)
{
    double d;
    int n = 0;
    while (history_get((size_t)n, &d)) n++;
    return n;
}
/* the number a line of output consists of; negative numbers are printed with a minus */
static bool ses_number(const char *out, double *v)
{
    char *e;
    if (*out == '\0') return false;
    *v = strtod(out, &e);
    return e != out && !strcmp(e, "\n");
}
static bool ses_close(double a, double b)      /* to the digits shown */
{
    if (isnan(a) || isnan(b)) return isnan(a) && isnan(b);
    if (isinf(a) || isinf(b)) return a == b;
    return fabs(a - b) <= 1e-9 * fmax(fabs(a), fabs(b)) + 1e-300;
}
