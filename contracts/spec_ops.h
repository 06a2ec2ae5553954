/* What the operators and functions of WLA DX expressions mean (doc/arithmetics.rst, functions.rst).
   Used for the assembler's and for the linker's evaluator. */
#ifndef SPEC_OPS_H
#define SPEC_OPS_H

/* transcendental functions are uninterpreted: the evaluator must apply the right one, once,
   to the right operands */
#ifdef VCBMC
double __CPROVER_uninterpreted_m1(int f, double x);
double __CPROVER_uninterpreted_m2(int f, double x, double y);
#define M1(f, x) __CPROVER_uninterpreted_m1(f, x)
#define M2(f, x, y) __CPROVER_uninterpreted_m2(f, x, y)
#else
static double vc_m1(int f, double x) {
  switch (f) {
  case SI_OP_COS: return cos(x); case SI_OP_SIN: return sin(x); case SI_OP_TAN: return tan(x);
  case SI_OP_ACOS: return acos(x); case SI_OP_ASIN: return asin(x); case SI_OP_ATAN: return atan(x);
  case SI_OP_COSH: return cosh(x); case SI_OP_SINH: return sinh(x); case SI_OP_TANH: return tanh(x);
  case SI_OP_LOG: return log(x); case SI_OP_LOG10: return log10(x); case SI_OP_SQRT: return sqrt(x);
  }
  return 0;
}
static double vc_m2(int f, double x, double y) { return f == SI_OP_ATAN2 ? atan2(x, y) : pow(x, y); }
#define M1(f, x) vc_m1(f, x)
#define M2(f, x, y) vc_m2(f, x, y)
#endif

#if defined(SPEC_UNINTERPRETED_ROUND) && defined(VCBMC)
#define ceil(x) M1(SI_OP_CEIL, x)
#define floor(x) M1(SI_OP_FLOOR, x)
#endif

#define SPEC_ARITY(op) ((op) == SI_OP_CLAMP ? 3 : \
  (op) == SI_OP_LOW_BYTE || (op) == SI_OP_HIGH_BYTE || (op) == SI_OP_NOT || (op) == SI_OP_BANK || (op) == SI_OP_LOW_WORD || \
  (op) == SI_OP_HIGH_WORD || (op) == SI_OP_BANK_BYTE || (op) == SI_OP_ROUND || (op) == SI_OP_CEIL || (op) == SI_OP_FLOOR || \
  ((op) >= SI_OP_SQRT && (op) <= SI_OP_NEGATE) || ((op) >= SI_OP_COSH && (op) <= SI_OP_LOG10) || (op) == SI_OP_SIGN ? 1 : 2)

/* operators that work on integers: their operands must be representable as int */
#define SPEC_INT(op) ((op) == SI_OP_OR || (op) == SI_OP_AND || (op) == SI_OP_XOR || (op) == SI_OP_SHIFT_LEFT || (op) == SI_OP_SHIFT_RIGHT || \
  (op) == SI_OP_MODULO || (op) == SI_OP_LOW_BYTE || (op) == SI_OP_HIGH_BYTE || (op) == SI_OP_NOT || (op) == SI_OP_BANK || \
  (op) == SI_OP_LOW_WORD || (op) == SI_OP_HIGH_WORD || (op) == SI_OP_BANK_BYTE || (op) == SI_OP_ROUND)

/* a function may carry the sign of "-f(x)" */
#define SPEC_SIGNED(op) (((op) >= SI_OP_LOW_WORD && (op) != SI_OP_NEGATE) || (op) == SI_OP_LOW_BYTE || (op) == SI_OP_HIGH_BYTE || (op) == SI_OP_BANK)

/* SQRT/ASIN/ACOS of a value outside the domain, division or modulo by zero: an error */
static int spec_fails(int op, double a, double b) {
  if (op == SI_OP_DIVIDE && b == 0.0) return 1;
  if (op == SI_OP_MODULO && (int)b == 0) return 1;
  if (op == SI_OP_SQRT && a < 0.0) return 1;
  if ((op == SI_OP_ASIN || op == SI_OP_ACOS) && (a < -1.0 || a > 1.0)) return 1;
  return 0;
}

/* x OP y, f(x), f(x, y), f(x, y, z) */
static double spec_op(int op, double x, double y, double z) {
  int i;
  switch (op) {
  case SI_OP_ADD: return x + y;
  case SI_OP_SUB: return x - y;
  case SI_OP_MULTIPLY: return x * y;
  case SI_OP_DIVIDE: return x / y;
  case SI_OP_OR: return (double)((int)x | (int)y);
  case SI_OP_AND: return (double)((int)x & (int)y);
  case SI_OP_XOR: return (double)((int)x ^ (int)y);
  case SI_OP_SHIFT_LEFT: return (double)(int)((unsigned int)(int)x << (int)y);
  case SI_OP_SHIFT_RIGHT: return (double)((int)x >> (int)y);
  case SI_OP_MODULO: return (double)((int)x % (int)y);
  case SI_OP_LOW_BYTE: return (double)((int)x & 0xFF);
  case SI_OP_HIGH_BYTE: return (double)(((int)x >> 8) & 0xFF);
  case SI_OP_LOW_WORD: return (double)((int)x & 0xFFFF);
  case SI_OP_HIGH_WORD: return (double)(((int)x >> 16) & 0xFFFF);
  case SI_OP_BANK_BYTE: return (double)(((int)x >> 16) & 0xFF);
  case SI_OP_NEGATE: return -x;
  case SI_OP_COMPARE_LT: return x < y;
  case SI_OP_COMPARE_GT: return x > y;
  case SI_OP_COMPARE_EQ: return x == y;
  case SI_OP_COMPARE_NEQ: return x != y;
  case SI_OP_COMPARE_LTE: return x <= y;
  case SI_OP_COMPARE_GTE: return x >= y;
  case SI_OP_LOGICAL_OR: return x != 0 || y != 0;
  case SI_OP_LOGICAL_AND: return x != 0 && y != 0;
  case SI_OP_MIN: return y < x ? y : x;
  case SI_OP_MAX: return y > x ? y : x;
  case SI_OP_CLAMP: return x < y ? y : x > z ? z : x;
  case SI_OP_ABS: return x < 0 ? -x : x;
  case SI_OP_SIGN: return x < 0 ? -1.0 : x > 0 ? 1.0 : 0.0;
  case SI_OP_ROUND:                       /* halves are rounded away from zero */
    i = (int)x;
    if (x - i >= 0.5) return i + 1;
    if (i - x >= 0.5) return i - 1;
    return i;
  case SI_OP_CEIL: return ceil(x);
  case SI_OP_FLOOR: return floor(x);
#ifdef SPEC_POWER_LOOP
  case SI_OP_POWER: { double q = 1; for (i = 0; i < y; i++) q *= x; return q; }
#else
  case SI_OP_POWER: return M2(SI_OP_POW, x, y);
#endif
  case SI_OP_ATAN2: case SI_OP_POW: return M2(op, x, y);
  default: return M1(op, x);
  }
}

#ifdef VCBMC
#define cos(x) M1(SI_OP_COS, x)
#define sin(x) M1(SI_OP_SIN, x)
#define tan(x) M1(SI_OP_TAN, x)
#define acos(x) M1(SI_OP_ACOS, x)
#define asin(x) M1(SI_OP_ASIN, x)
#define atan(x) M1(SI_OP_ATAN, x)
#define cosh(x) M1(SI_OP_COSH, x)
#define sinh(x) M1(SI_OP_SINH, x)
#define tanh(x) M1(SI_OP_TANH, x)
#define log(x) M1(SI_OP_LOG, x)
#define log10(x) M1(SI_OP_LOG10, x)
#define sqrt(x) M1(SI_OP_SQRT, x)
#define atan2(x, y) M2(SI_OP_ATAN2, x, y)
#define pow(x, y) M2(SI_OP_POW, x, y)
#endif

/* operands an operator is specified for */
static void assume_operand(int op, double v) {
  ASSUME(v == v);
  if (SPEC_INT(op)) ASSUME(v > -2147483647.0 && v < 2147483647.0);
}

#endif
