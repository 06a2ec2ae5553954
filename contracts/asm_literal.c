/* input_number(): the value, the size hint and the extent of a literal.

   Specification: a literal is a sequence of digits in base 16 ($, 0x, trailing h), 2 (%, 0b) or
   10, optionally followed by a size suffix (.b .w .l .d), and ends at a space, a comma or the
   end of the line.  Its value is the positional value of its digits; the reader stands right
   behind it; the size hint is the suffix, or the smallest size that holds the value.  Too many
   digits are rejected. */
#ifdef INTREAL
/* reals restricted to integers: see link_compute.c */
typedef long long vc_ll;
#include "vc.h"
#include <math.h>
#define double INTREAL
#undef IN_DOUBLE
#define IN_DOUBLE(t) ((INTREAL)IN_INT(t))
#endif
#include "asm_env.h"
#include "parse.c"

#define N_BUF 44
static char gh_buf[N_BUF];
static struct active_file_info gh_afi;

static void setup(void) {
  int i;
  for (i = 0; i < N_BUF; i++) gh_buf[i] = 0xA;
  g_macro_active = 0; g_input_allow_leading_hashtag = NO; g_input_allow_leading_ampersand = NO;
  g_parse_floats = YES; g_operand_hint = HINT_NONE; g_operand_hint_type = HINT_TYPE_NONE;
  g_expect_calculations = CALC;
  g_input_number_error_msg = YES; g_input_float_mode = IN_INT("floats") ? ON : OFF;
  g_input_number_turn_values_into_strings = NO;
  g_active_file_info_last = &gh_afi;
  g_buffer = gh_buf;
  g_source_index = 0;
}

/* what follows the literal, at position p; returns the hint it gives */
static int gh_extent;
static int put_end(int p, int suffix) {
  int e, h = HINT_NONE;
  gh_extent = p;
  if (suffix) {
    e = IN_INT_R("suffix", 0, 7);
    gh_buf[p++] = '.';
    gh_buf[p++] = "bBwWlLdD"[e];
    gh_extent += 2;
    h = e <= 1 ? HINT_8BIT : e <= 3 ? HINT_16BIT : e <= 5 ? HINT_24BIT : HINT_32BIT;
  }
  e = IN_INT_R("end", 0, 2);
  gh_buf[p] = e == 0 ? 0xA : e == 1 ? ' ' : ',';
  return h;
}
static int deduced(unsigned v) {
  return v > 0xFFFFFF ? HINT_32BIT : v > 0xFFFF ? HINT_24BIT : v > 0xFF ? HINT_16BIT : HINT_8BIT;
}

#ifdef H_HEX
/* FORM 0: $   1: 0x   2: 0X   3: ...h   4: ...H */
static void one(int n, int suffix, int first) {
  int i, p = 0, h, ret;
  unsigned v = 0;
  setup();
  if (FORM == 0) gh_buf[p++] = '$';
  if (FORM == 1 || FORM == 2) { gh_buf[p++] = '0'; gh_buf[p++] = FORM == 1 ? 'x' : 'X'; }
  for (i = 0; i < n; i++) {
    int d, up = 0;
    if (FORM >= 3 && i == 0) d = first;
    else { d = IN_INT_R("digit", 0, 15); up = IN_INT_R("upper", 0, 1); }
    gh_buf[p++] = d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10;
    v = v * 16 + d;
  }
  /* 0b1h and the like are binary */
  if (FORM >= 3) gh_buf[p++] = FORM == 3 ? 'h' : 'H';
  h = put_end(p, suffix);
  ret = input_number();
  if (n > 8)
    CHECK(ret == FAILED, "a hexadecimal literal of more than 8 digits is rejected");
  else {
    CHECK(ret == SUCCEEDED && g_parsed_int == (int)v, "a hexadecimal literal has the value of its digits");
    CHECK(g_parsed_double == (double)(int)v, "a hexadecimal literal has the value of its digits (as a real)");
    CHECK(g_source_index == gh_extent, "the reader stands behind the literal");
    if (h != HINT_NONE)
      CHECK(g_operand_hint == h && g_operand_hint_type == HINT_TYPE_GIVEN, "a size suffix gives the size");
    else if (v <= 0x7FFFFFFF)
      CHECK(g_operand_hint == deduced(v) && g_operand_hint_type == HINT_TYPE_DEDUCED, "the size is the smallest that holds the value");
  }
}
void harness(void) {
  int d;
  for (d = LO; d <= HI; d++) {
    one(ND, 0, d);
    one(ND, 1, d);
  }
  REACH("end");
}
#endif

#ifdef H_BINARY
static void one(int n, int suffix, int first) {
  int i, p = 0, h, ret;
  unsigned v = 0;
  setup();
  if (FORM == 0) gh_buf[p++] = '%';
  else { gh_buf[p++] = '0'; gh_buf[p++] = FORM == 1 ? 'b' : 'B'; }
  for (i = 0; i < n; i++) {
    int d = IN_INT_R("digit", 0, 1);
    gh_buf[p++] = '0' + d;
    v = v * 2 + d;
  }
  h = put_end(p, suffix);
  ret = input_number();
  if (n > 32)
    CHECK(ret == FAILED, "a binary literal of more than 32 digits is rejected");
  else {
    CHECK(ret == SUCCEEDED && g_parsed_int == (int)v, "a binary literal has the value of its digits");
    CHECK(g_parsed_double == (double)(int)v, "a binary literal has the value of its digits (as a real)");
    CHECK(g_source_index == gh_extent, "the reader stands behind the literal");
    if (h != HINT_NONE)
      CHECK(g_operand_hint == h && g_operand_hint_type == HINT_TYPE_GIVEN, "a size suffix gives the size");
  }
}
void harness(void) {
  int d;
  for (d = LO; d <= HI; d++) {
    one(ND, 0, d);
    one(ND, 1, d);
  }
  REACH("end");
}
#endif

#ifdef H_DECIMAL
static void one(int n, int suffix, int first) {
  int i, p = 0, h, ret;
  unsigned long long v = 0;
  setup();
  for (i = 0; i < n; i++) {
    int d = i == 0 ? first : IN_INT_R("digit", 0, 9);
    gh_buf[p++] = '0' + d;
    v = v * 10 + d;
  }
  h = put_end(p, suffix);
  ret = input_number();
  if (n > 10)
    CHECK(ret == FAILED, "a decimal literal of more than 10 digits is rejected");
  else {
    CHECK(ret == SUCCEEDED && IMPLIES(v <= 0xFFFFFFFFu, g_parsed_int == (int)(unsigned)v), "a decimal literal has the value of its digits");
    CHECK(g_parsed_double == (double)v, "a decimal literal has the value of its digits (as a real)");
    CHECK(g_source_index == gh_extent, "the reader stands behind the literal");
    if (h != HINT_NONE)
      CHECK(g_operand_hint == h && g_operand_hint_type == HINT_TYPE_GIVEN, "a size suffix gives the size");
    else if (v <= 0x7FFFFFFF)
      CHECK(g_operand_hint == deduced((unsigned)v) && g_operand_hint_type == HINT_TYPE_DEDUCED, "the size is the smallest that holds the value");
  }
}
void harness(void) {
  int d;
  for (d = LO; d <= HI; d++) {
    one(ND, 0, d);
    one(ND, 1, d);
  }
  REACH("end");
}
#endif

#ifdef H_CHAR
void harness(void) {
  int c, ret, want, p = 0;
  setup();
  c = IN_INT_R("char", 1, 127);
  ASSUME(c != 0xA);
  gh_buf[p++] = '\'';
  if (IN_INT("escape")) {
    gh_buf[p++] = '\\';
    want = c == 't' ? 9 : c == 'r' ? 13 : c == 'n' ? 10 : 0;
    ASSUME(c == 't' || c == 'r' || c == 'n' || c == '0');
  }
  else {
    want = c;
    /* an operator in quotes makes input_number() ask the stack calculator */
    ASSUME(c != '\'');
    g_expect_calculations = NO;
  }
  gh_buf[p++] = (char)c;
  gh_buf[p++] = '\'';
  gh_buf[p] = IN_INT("end") ? ' ' : ',';
  ret = input_number();
  CHECK(ret == SUCCEEDED && g_parsed_int == want && g_parsed_double == (double)want, "a character literal is the code of the character");
  CHECK(g_source_index == p, "the reader stands behind the literal");
  REACH("end");
}
#endif

#ifdef H_STRING
/* "...": the text between the quotes, \" is a quote */
void harness(void) {
  int n, i, p = 0, k = 0, ret;
  char want[16];
  setup();
  g_expect_calculations = NO;
  g_input_parse_special_chars = NO;
  n = IN_INT_R("length", 0, 6);
  gh_buf[p++] = '"';
  for (i = 0; i < n; i++) {
    int c = IN_INT_R("char", 1, 255);
    ASSUME(c != 0xA && c != '\\');
    if (c == '"') gh_buf[p++] = '\\';
    gh_buf[p++] = (char)c;
    want[k++] = (char)c;
  }
  gh_buf[p++] = '"';
  gh_buf[p] = IN_INT("end") ? ' ' : ',';
  ret = input_number();
  CHECK(ret == INPUT_NUMBER_STRING && g_string_size == k, "a string has the characters between its quotes");
  i = IN_INT_R("i", 0, 6);
  CHECK(IMPLIES(i < k, g_label[i] == want[i]) && g_label[k] == 0, "a string has the characters between its quotes");
  CHECK(g_source_index == p, "the reader stands behind the literal");
  REACH("end");
}
#endif
