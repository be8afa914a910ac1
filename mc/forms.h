/* One operator, function or constant applied to operand texts; used by C04 and C05. */
#pragma once
#include "ref.h"

static const char *V[] = { "0", "1", "2", "3", "0.5", "(-1)", "(-2.5)", "7.9", "12", "100", "(-3)", "0.001" };
#define NV ((int)(sizeof V / sizeof *V))
static const char *F1[] = { "exp", "sqrt", "ln", "ld", "lg", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh",
    "abs", "ceil", "floor", "round", "trunc", "frac", "sgn", "fib", "gamma" };
#define N1 ((int)(sizeof F1 / sizeof *F1))
static const char *F2[] = { "root", "log", "gcd", "lcm" };
static const char *FN[] = { "max", "min", "sum", "prod", "avg", "var" };
static const char *IN[] = { "+", "-", "*", "/", "^", "C", "mod" };
static const char *PRE[] = { "$", "+", "-" };
static const char *POST[] = { "!", "%" };
static const char *K[] = { "pi", "e", "phi", "clight", "csound" };

/* forms: one operator applied to operands */
static int nforms;
enum { A1 = 1, A2 = 2, A3 = 3 };
static int form_arity(int f)
{
    if (f < N1) return 1;
    f -= N1;
    if (f < 4) return 2;
    f -= 4;
    if (f < 6 * 5) return f % 5;          /* 0..4 operands */
    f -= 30;
    if (f < 7) return 2;
    f -= 7;
    if (f < 5) return 1;
    return 0;
}
static char *form(int f, const char *const *a)
{
    if (f < N1) return ref_printf("%s(%s)", F1[f], a[0]);
    f -= N1;
    if (f < 4) return ref_printf("%s(%s,%s)", F2[f], a[0], a[1]);
    f -= 4;
    if (f < 30)
    {
        char *s = ref_printf("%s(", FN[f / 5]);
        for (int i = 0; i < f % 5; i++) s = ref_printf("%s%s%s", s, i ? ", " : "", a[i]);
        return ref_printf("%s)", s);
    }
    f -= 30;
    if (f < 7) return ref_printf("(%s %s %s)", a[0], IN[f], a[1]);
    f -= 7;
    if (f < 3) return ref_printf("(%s%s)", PRE[f], a[0]);
    f -= 3;
    if (f < 2) return ref_printf("(%s%s)", a[0], POST[f]);
    return ref_printf("%s", K[f - 2]);
}

/* operand texts for grids of two operands: small integers, fractions, very small and large numbers */
static const char *GX[] = { "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "16", "17", "20", "24", "25", "27", "31", "32", "33", "60", "63", "64", "65", "99", "127", "128", "170", "171", "255", "256", "300", "400",
    "500", "999", "1000", "1023", "1024", "4095", "4096", "65535", "65536", "1000003", "16777217", "2147483647", "2147483648", "4294967295", "4294967296", "1000000000000", "9007199254740991",
    "0.5", "1.5", "2.5", "3.5", "0.25", "0.1", "0.2", "0.3", "0.9", "1.1", "7.75", "12.125", "99.99", "1000.5", "(1/3)", "(2/3)", "(5/7)",
    "0.01", "0.001", "0.0001", "0.00001", "0.000001", "0.0000001", "0.00000001", "0.000000001", "0.0000000001", "0.00000000001", "0.000000000001", "0.0000000000001", "0.00000000000001", "0.000000000000001", "0.00000000000000000001",
    "(-1)", "(-2)", "(-3)", "(-4)", "(-5)", "(-6)", "(-7)", "(-8)", "(-9)", "(-10)", "(-17)", "(-27)", "(-64)", "(-100)", "(-1000)", "(-65536)", "(-4294967296)",
    "(-0.5)", "(-1.5)", "(-2.5)", "(-3.5)", "(-0.25)", "(-0.1)", "(-0.3)", "(-7.75)", "(-1/3)", "(-2/3)",
    "(-0.01)", "(-0.0001)", "(-0.0000001)", "(-0.0000000001)", "(-0.0000000000001)", "(-0.000000000000001)", "(-0.00000000000000000001)" };
#define NGX ((int)(sizeof GX / sizeof *GX))
/* a call of one of FN with n operands, operand pos replaced by inner (pos < 0: none) */
static char *wide(int fn, int n, int pos, int v, const char *inner)
{
    char *s = ref_printf("%s(", FN[fn]);
    for (int i = 0; i < n; i++)
    {
        if (i == pos) s = ref_printf("%s%s%s", s, i ? ", " : "", inner);
        else s = ref_printf("%s%s%s", s, i ? ", " : "", v % 3 == 0 ? ref_printf("%d", 1 + (i * 7 + v) % 11) : v % 3 == 1 ? ref_printf("%d.%d", (i * 5 + v) % 7, 1 + i % 9) : ref_printf("(-%d)", 2 + (i * 3 + v) % 5));
    }
    return ref_printf("%s)", s);
}
