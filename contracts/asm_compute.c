/* compute_stack() of the assembler: the value of an expression the assembler can solve. */
#ifdef INTREAL
typedef long long vc_ll;
/* integer-valued operands: see link_compute.c */
#include "vc.h"
#include <math.h>
#define double INTREAL
#undef IN_DOUBLE
#define IN_DOUBLE(t) ((INTREAL)IN_INT(t))
#endif
#include "asm_env.h"
#ifdef H_TEXT
#define SPEC_UNINTERPRETED_ROUND
#endif
#include "spec_ops.h"

#ifdef H_TEXT
/* symbols and allocation: the operands A, B, C, D are defined numbers; calloc() hands out
   typed arrays; names pass unchanged */
#include "hashmap.h"
#include "parse.h"
#include "phase_3.h"
#include "stack.h"
#include "mersenne.h"
static struct definition gh_def[4];
static double gh_sym[4];
static int gh_get(const char *name, void **out) {
  if (name[0] >= 'A' && name[0] <= 'D' && name[1] == 0) { *out = &gh_def[name[0] - 'A']; return 0; }
  *out = NULL; return 0;
}
#define hashmap_get(m, n, o) gh_get(n, (void **)(o))
static struct stack_item gh_si0[MAX_STACK_CALCULATOR_ITEMS], gh_si1[MAX_STACK_CALCULATOR_ITEMS];
static int gh_allocs;
#define calloc(a, b) ((void *)(gh_allocs++ == 0 ? gh_si0 : gh_si1))
#define expand_variables_inside_string(a, b, c) SUCCEEDED
#define add_namespace_to_a_label(a, b, c) SUCCEEDED
#define process_special_labels(a) ((void)0)
static int gh_casecmpn(char *a, char *b, int n) {
  int i;
  for (i = 0; i < n; i++) {
    int x = a[i], y = b[i];
    if (x >= 'A' && x <= 'Z') x += 32;
    if (y >= 'A' && y <= 'Z') y += 32;
    if (x != y) return 1;
    if (x == 0) return 0;
  }
  return 0;
}
#define strcaselesscmpn(a, b, n) gh_casecmpn(a, b, n)
/* an argument of a function: the symbols again */
static int gh_input_number(void);
#define input_number() gh_input_number()
#define is_string_ending_with(a, b) (-1)    /* the operands have no suffix */
static struct active_file_info gh_afi;
#endif
#include "stack.c"
#undef calloc

static struct stack gh_sta;
static struct stack_item gh_item[6];

static double operand(struct stack_item *si) {
  int neg = IN_INT("operand_sign") != 0;
  si->type = STACK_ITEM_TYPE_VALUE;
  si->sign = neg ? SI_SIGN_NEGATIVE : SI_SIGN_POSITIVE;
#ifdef SMALLINT
  { int i = IN_INT("operand");
    ASSUME(IN_RANGE(i, -SMALLINT, SMALLINT));
    si->value = (double)i; }
#else
  si->value = IN_DOUBLE("operand");
#endif
  assume_operand(OP, si->value);
  return neg ? -si->value : si->value;
}

static int same(double a, double b) { return a == b || (a != a && b != b); }

static void setup(void) {
  gh_sta.has_been_calculated = NO;
  gh_sta.type = IN_INT("type");
  gh_sta.stack_items = gh_item;
}

#ifdef H_OP
void harness(void) {
  double c, v[3], r, w;
  int ret, i, n = SPEC_ARITY(OP), neg, fails;

  setup();
  c = operand(&gh_item[0]);
  for (i = 0; i < n; i++)
    v[i] = operand(&gh_item[1 + i]);
#if OP == SI_OP_SHIFT_LEFT || OP == SI_OP_SHIFT_RIGHT
  ASSUME(v[1] >= 0 && v[1] <= 31);
#endif
  gh_item[n + 1].type = STACK_ITEM_TYPE_OPERATOR;
  gh_item[n + 1].value = OP;
  neg = SPEC_SIGNED(OP) ? IN_INT("sign") != 0 : 0;
  gh_item[n + 1].sign = neg ? SI_SIGN_NEGATIVE : SI_SIGN_POSITIVE;
#ifdef NEST
  gh_item[n + 2].type = STACK_ITEM_TYPE_OPERATOR;
  gh_item[n + 2].value = SI_OP_MAX;
  gh_item[n + 2].sign = SI_SIGN_POSITIVE;
  n = n + 3;
#else
  gh_sta.stack_items = &gh_item[1];
  n = n + 1;
#endif
  ret = compute_stack(&gh_sta, n, &r);

  fails = spec_fails(OP, v[0], v[1]);
  CHECK((ret == FAILED) == fails, "an expression fails exactly when it is undefined");
  if (!fails) {
    w = spec_op(OP, v[0], v[1], v[2]);
    if (neg) w = -w;
#ifdef NEST
    w = w > c ? w : c;
#endif
    CHECK(same(r, w), "the value is what the operator means");
  }
  REACH("end");
}
#endif

#ifdef H_NOT
void harness(void) {
  double a, r;
  int ret;
  setup();
  a = operand(&gh_item[0]);
  gh_item[1].type = STACK_ITEM_TYPE_OPERATOR;
  gh_item[1].value = SI_OP_NOT;
  ret = compute_stack(&gh_sta, 2, &r);
  CHECK(ret == SUCCEEDED && r == (double)((int)a == 0), "! in a condition is true for zero only");
  REACH("end");
}
#endif

#ifdef H_STRCMP
/* comparing two texts, and refusing to compare a text with a number */
void harness(void) {
  double r;
  int ret, i, c, t0 = T0, t1 = T1;
  setup();
  operand(&gh_item[0]);
  operand(&gh_item[1]);
  if (t0) gh_item[0].type = STACK_ITEM_TYPE_STRING;
  if (t1) gh_item[1].type = STACK_ITEM_TYPE_LABEL;
  for (i = 0; i < 2; i++) { gh_item[0].string[i] = (char)IN_INT("c0"); gh_item[1].string[i] = (char)IN_INT("c1"); }
  gh_item[0].string[2] = 0; gh_item[1].string[2] = 0;
  gh_item[2].type = STACK_ITEM_TYPE_OPERATOR;
  gh_item[2].value = OP;
  ret = compute_stack(&gh_sta, 3, &r);
  CHECK((ret == FAILED) == (t0 != t1), "a text cannot be compared with a number");
  if (t0 && t1) {
    c = strcmp(gh_item[0].string, gh_item[1].string);
    CHECK(r == spec_op(OP, c, 0, 0), "strings are compared as text");
  }
  REACH("end");
}
#endif

#ifdef H_DONE
/* a calculation that has been solved keeps its value */
void harness(void) {
  double r;
  int ret;
  setup();
  gh_sta.has_been_calculated = YES;
  gh_sta.value = IN_DOUBLE("value");
  ret = compute_stack(&gh_sta, IN_INT("n"), &r);
  CHECK(ret == SUCCEEDED && same(r, gh_sta.value), "a solved calculation keeps its value");
  REACH("end");
}
#endif

#ifdef H_TEXT
/* an expression, from its text to its value: which operator binds tighter, left to right,
   parentheses, signs.  The operands are symbols with arbitrary values. */
static int gh_fail;
static int gh_input_number(void) {
  while (g_buffer[g_source_index] == ' ' || g_buffer[g_source_index] == ',') g_source_index++;
  if (g_buffer[g_source_index] < 'A' || g_buffer[g_source_index] > 'D') return FAILED;
  g_parsed_double = gh_sym[g_buffer[g_source_index++] - 'A'];
  return INPUT_NUMBER_FLOAT;
}
/* op applied to x and y (and z) */
static double so(int op, double x, double y, double z) {
  if (op == SI_OP_SHIFT_LEFT || op == SI_OP_SHIFT_RIGHT) { if (!gh_fail) ASSUME(y >= 0 && y <= 15); else return 0; }
  if (op == SI_OP_NOT) return x == 0;
  if (spec_fails(op, x, y)) { gh_fail = 1; return 0; }
  return spec_op(op, x, y, z);
}
#define A gh_sym[0]
#define B gh_sym[1]
#define C gh_sym[2]
#define D gh_sym[3]
#define CASE(t, w) { \
    int value = 0, parsed = 0, ret; double want; char text[] = t "\n"; \
    g_buffer = text; g_source_index = 0; gh_fail = 0; want = w; g_parsed_double = 12345; \
    ret = stack_calculate(text, &value, &parsed, NO); \
    CHECK((ret == FAILED) == gh_fail && IMPLIES(!gh_fail, ret == INPUT_NUMBER_FLOAT && same(g_parsed_double, want) && parsed == sizeof(t) - 2), \
          "the value of " t " is what its text denotes"); \
  }
void harness(void) {
  int i;
  for (i = 0; i < 4; i++) {
    gh_sym[i] = IN_DOUBLE("sym");
    ASSUME(gh_sym[i] >= -SYMCAP && gh_sym[i] <= SYMCAP);
    gh_def[i].type = DEFINITION_TYPE_VALUE;
    gh_def[i].value = gh_sym[i];
  }
  g_macro_active = 0; g_is_file_isolated_counter = 0; g_force_add_namespace = NO; g_can_calculate_a_minus_b = NO;
  g_parse_floats = YES; g_asciitable_defined = 0; g_operand_hint = HINT_NONE; g_operand_hint_type = HINT_TYPE_NONE;
  g_global_label_hint = HINT_NONE; g_expect_calculations = YES; g_bankheader_status = OFF; g_section_status = OFF;
  g_input_number_error_msg = YES; g_is_data_stream_parser_enabled = NO;
  g_active_file_info_last = &gh_afi;
  g_input_float_mode = ON;
  g_input_parse_if = IFMODE;
  g_resolve_stack_calculations = YES;
#include "gh_cases.h"
  REACH("end");
}
#endif
