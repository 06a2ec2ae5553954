/* compute_stack() of the linker: what a calculation's value is. */
#ifdef INTREAL
typedef long long vc_ll;
/* Integer-valued operands below 2^53: there IEEE + - * comparison and conversion to int are exact,
   so the evaluator's "double" is verified as a 64-bit integer. */
#include "vc.h"
#include <math.h>
#define double INTREAL
#undef IN_DOUBLE
#define IN_DOUBLE(t) ((INTREAL)IN_INT(t))
#define SAME_KIND_OF_NUMBER
#endif
#include "link_env.h"

static struct object_file gh_file, gh_files[2];
static struct stack *gh_fstacks[2][8];
static struct label gh_lab;
struct pointer_array **g_section_table_table;
int g_section_table_table_max;

struct object_file *get_file(int id) {
#ifdef H_NESTED
  return &gh_files[id == 1];
#endif
  (void)id; return &gh_file;
}
char *get_file_name(int id) { (void)id; return "f"; }
char *get_source_file_name(int a, int b) { (void)a; (void)b; return "s"; }
int find_label(char *str, struct section *s, struct label **out) { (void)str; (void)s; *out = NULL; return FAILED; }
int add_label(struct label *l) { (void)l; return FAILED; }
int parse_context_from_name(char *name, char *context) { (void)name; context[0] = 0; return SUCCEEDED; }

#define SPEC_POWER_LOOP
#include "spec_ops.h"
#include "wlalink/memory.c"
#include "wlalink/write.c"

static struct stack gh_sta, gh_sub;
static struct stack_item gh_item[6], gh_subitem[1];

/* operands: ROM and RAM value, and where they come from */
struct val { double ram, rom; int slot, base, bank; };

static void operand(struct stack_item *si, struct val *v) {
  int neg = IN_INT("operand_sign") != 0;
  si->type = STACK_ITEM_TYPE_VALUE;
  si->sign = neg ? SI_SIGN_NEGATIVE : SI_SIGN_POSITIVE;
#ifdef SMALLINT
  { int i = IN_INT("operand_ram"), j = IN_INT("operand_rom");
    ASSUME(IN_RANGE(i, -SMALLINT, SMALLINT) && IN_RANGE(j, -SMALLINT, SMALLINT));
    si->value_ram = (double)i; si->value_rom = (double)j; }
#else
  si->value_ram = IN_DOUBLE("operand_ram");
  si->value_rom = IN_DOUBLE("operand_rom");
#endif
  assume_operand(OP, si->value_ram);
  assume_operand(OP, si->value_rom);
  si->slot = IN_INT("operand_slot"); si->base = IN_INT("operand_base"); si->bank = IN_INT("operand_bank");
  ASSUME(IN_RANGE(si->slot, -1, 255) && IN_RANGE(si->base, -1, 255) && IN_RANGE(si->bank, -1, 255));
  v->ram = neg ? -si->value_ram : si->value_ram;
  v->rom = neg ? -si->value_rom : si->value_rom;
  v->slot = si->slot; v->base = si->base; v->bank = si->bank;
}

static int same(double a, double b) { return a == b || (a != a && b != b); }

/* arithmetic passes the slot, base and bank of its operands on: the right one's when it has one */
#define PASSES_ON(op) ((op) == SI_OP_ADD || (op) == SI_OP_SUB || (op) == SI_OP_MULTIPLY || (op) == SI_OP_DIVIDE || (op) == SI_OP_OR || (op) == SI_OP_AND || \
   (op) == SI_OP_XOR || (op) == SI_OP_MODULO || (op) == SI_OP_POWER || (op) == SI_OP_SHIFT_LEFT || (op) == SI_OP_SHIFT_RIGHT)

static void setup(void) {
  gh_sta.under_work = NO;
  gh_sta.type = IN_INT("type");
  gh_sta.position = IN_INT("position");
  gh_sta.result_slot = IN_INT("stale_slot"); gh_sta.result_base = IN_INT("stale_base"); gh_sta.result_bank = IN_INT("stale_bank");
  gh_sta.stack_items = gh_item;
}

#ifndef INTREAL
#define INTREAL 0
#endif
#ifdef H_OP
/* one operator applied to arbitrary operands, with an operand of an outer operation below them */
void harness(void) {
  struct val c, v[3];
  double ram, rom, wr, wo, wc;
  int ret, i, n = SPEC_ARITY(OP), rs, rb, rk, neg, s, b, k, fails;

  setup();
  operand(&gh_item[0], &c);
  for (i = 0; i < n; i++)
    operand(&gh_item[1 + i], &v[i]);
#if OP == SI_OP_SHIFT_LEFT || OP == SI_OP_SHIFT_RIGHT
  ASSUME(v[1].ram >= 0 && v[1].ram <= 31 && v[1].rom >= 0 && v[1].rom <= 31);
#endif
#if OP == SI_OP_POWER
  ASSUME(v[1].ram >= -1 && v[1].ram <= 4 && v[1].rom >= -1 && v[1].rom <= 4);
#endif
  gh_item[n + 1].type = STACK_ITEM_TYPE_OPERATOR;
  gh_item[n + 1].value_ram = gh_item[n + 1].value_rom = OP;
  neg = SPEC_SIGNED(OP) ? IN_INT("sign") != 0 : 0;
  gh_item[n + 1].sign = neg ? SI_SIGN_NEGATIVE : SI_SIGN_POSITIVE;
#ifdef NEST
  /* ... and the result is the right operand of a comparison, so that nothing else is disturbed */
  gh_item[n + 2].type = STACK_ITEM_TYPE_OPERATOR;
  gh_item[n + 2].value_ram = gh_item[n + 2].value_rom = SI_OP_MAX;
  gh_item[n + 2].sign = SI_SIGN_POSITIVE;
  gh_sta.stacksize = n + 3;
#else
  gh_sta.stack_items = &gh_item[1];
  gh_sta.stacksize = n + 1;
#endif

  ret = compute_stack(&gh_sta, &ram, &rom, &rs, &rb, &rk);

  fails = spec_fails(OP, v[0].ram, v[1].ram) || spec_fails(OP, v[0].rom, v[1].rom);
  CHECK((ret == FAILED) == fails, "a calculation fails exactly when it is undefined");
  if (!fails) {
    wr = spec_op(OP, v[0].ram, v[1].ram, v[2].ram);
    wo = spec_op(OP, v[0].rom, v[1].rom, v[2].rom);
    s = v[0].slot; b = v[0].base; k = v[0].bank;
#if OP == SI_OP_BANK_BYTE
    /* the bank byte of an address below 64KB is the bank (and base) the operand is in */
    if (((int)v[0].ram >> 16) == 0) wr = ((k > 0 ? k : 0) + (b > 0 ? b : 0)) & 0xFF;
    if (((int)v[0].rom >> 16) == 0) wo = ((k > 0 ? k : 0) + (b > 0 ? b : 0)) & 0xFF;
#endif
    if (PASSES_ON(OP)) {
      if (v[1].slot >= 0) s = v[1].slot;
      if (v[1].base >= 0) b = v[1].base;
      if (v[1].bank >= 0) k = v[1].bank;
    }
    if (neg) { wr = -wr; wo = -wo; }
#ifdef NEST
    wr = wr > c.ram ? wr : c.ram; wo = wo > c.rom ? wo : c.rom;
    s = c.slot; b = c.base; k = c.bank;
#endif
    CHECK(same(ram, wr), "the value is what the operator means");
    CHECK(same(rom, wo), "the ROM value is what the operator means");
    CHECK(rs == s && rb == b && rk == k, "slot, base and bank are passed on");
    CHECK(same(gh_sta.result_ram, ram) && gh_sta.under_work == NO && gh_sta.computed == YES, "the result is remembered");
  }
  REACH("end");
}
#endif

#ifdef H_NOT
/* bitwise NOT, as wide as the field */
void harness(void) {
  struct val a;
  double ram, rom;
  int ret, m;
  setup();
  operand(&gh_item[0], &a);
  ASSUME(IN_RANGE(gh_sta.type, 0, 7));
  gh_item[1].type = STACK_ITEM_TYPE_OPERATOR;
  gh_item[1].value_ram = gh_item[1].value_rom = SI_OP_NOT;
  gh_sta.stacksize = 2;
  ret = compute_stack(&gh_sta, &ram, &rom, NULL, NULL, NULL);
  m = gh_sta.type == STACK_TYPE_8BIT ? 0xFF : gh_sta.type == STACK_TYPE_9BIT_SHORT ? 0x1FF : gh_sta.type == STACK_TYPE_13BIT ? 0x1FFF :
    gh_sta.type == STACK_TYPE_16BIT ? 0xFFFF : gh_sta.type == STACK_TYPE_24BIT ? 0xFFFFFF : -1;
  CHECK((ret == FAILED) == (gh_sta.type == STACK_TYPE_UNKNOWN || gh_sta.type == STACK_TYPE_BITS), "NOT needs a field width");
  CHECK(IMPLIES(ret == SUCCEEDED, ram == (double)((int)a.ram ^ m) && rom == (double)((int)a.rom ^ m)), "NOT flips the bits of the field");
  REACH("end");
}
#endif

#ifdef H_BANKOP
/* :label - the bank a ROM address is in */
void harness(void) {
  struct val a;
  double ram, rom, w;
  int ret, neg, sz, z;
  setup();
  operand(&gh_item[0], &a);
  gh_item[1].type = STACK_ITEM_TYPE_OPERATOR;
  gh_item[1].value_ram = gh_item[1].value_rom = SI_OP_BANK;
  neg = IN_INT("sign") != 0;
  gh_item[1].sign = neg ? SI_SIGN_NEGATIVE : SI_SIGN_POSITIVE;
  gh_sta.stacksize = 2;
  g_banksize = IN_INT("banksize");
  sz = g_banksize;
  ASSUME(IN_RANGE(g_banksize, 1, 0x1000000));
  if (a.slot >= 0) {
    sz = IN_INT("slotsize");
    ASSUME(IN_RANGE(sz, 1, 0x1000000));
    g_slots[a.slot].size = sz;
  }
  z = (int)a.rom;
  ASSUME(z < 0 || z / sz < BANKCAP);
  ret = compute_stack(&gh_sta, &ram, &rom, NULL, NULL, NULL);
  CHECK((ret == FAILED) == (z < 0), "only a negative address has no bank");
  w = (z / sz + (a.base > 0 ? a.base : 0)) & 0xFF;
  if (neg) w = -w;
  CHECK(IMPLIES(ret == SUCCEEDED, ram == w && rom == w), ":label is the bank (and base) its ROM address is in");
  REACH("end");
}
#endif

#ifdef H_STRCMP
/* comparing two string items, and refusing to compare a string with a number */
void harness(void) {
  double ram, rom;
  int ret, i, c, t0 = T0, t1 = T1;
  struct val v0, v1;
  setup();
  operand(&gh_item[0], &v0);
  operand(&gh_item[1], &v1);
  if (t0) gh_item[0].type = STACK_ITEM_TYPE_STRING;
  if (t1) gh_item[1].type = STACK_ITEM_TYPE_STRING;
  for (i = 0; i < 2; i++) { gh_item[0].string[i] = (char)IN_INT("c0"); gh_item[1].string[i] = (char)IN_INT("c1"); }
  gh_item[0].string[2] = 0; gh_item[1].string[2] = 0;
  gh_item[2].type = STACK_ITEM_TYPE_OPERATOR;
  gh_item[2].value_ram = gh_item[2].value_rom = OP;
  gh_sta.stacksize = 3;
  ret = compute_stack(&gh_sta, &ram, &rom, NULL, NULL, NULL);
  CHECK((ret == FAILED) == (t0 != t1), "a string cannot be compared with a number");
  if (t0 && t1) {
    c = strcmp(gh_item[0].string, gh_item[1].string);
    CHECK(ram == spec_op(OP, c, 0, 0) && rom == ram, "strings are compared as text");
  }
  REACH("end");
}
#endif

#ifdef H_NESTED
/* a calculation inside a calculation; sign; and a calculation that refers to itself */
static struct pointer_array *gh_none[1];
void harness(void) {
  double ram, rom, w;
  struct val a;
  int ret, rs, rb, rk, neg, self = CASE == 1, work = CASE == 2;
  setup();
  gh_sta.id = 5; gh_sta.file_id = 0;
  gh_sub.id = 6; gh_sub.file_id = CASE == 3 ? 2 : CASE == 4 ? 1 : 0;
  gh_sub.position = CASE & 1 ? STACK_POSITION_CODE : STACK_POSITION_DEFINITION;
  gh_sta.position = STACK_POSITION_CODE;
  operand(gh_subitem, &a);
  gh_sub.stack_items = gh_subitem; gh_sub.stacksize = 1; gh_sub.under_work = NO;
  gh_sub.result_slot = IN_INT("stale"); gh_sub.result_bank = IN_INT("stale"); gh_sub.result_base = IN_INT("stale");
  gh_files[0].id = 0; gh_files[1].id = 1;
  gh_files[0].stacks = gh_fstacks[0]; gh_files[1].stacks = gh_fstacks[1];
  gh_fstacks[0][5] = &gh_sta;
  if (gh_sub.file_id < 2) gh_fstacks[gh_sub.file_id][6] = &gh_sub;
  find_stack(6, CASE != 4);   /* something else was looked up before */
  gh_item[0].type = STACK_ITEM_TYPE_STACK;
  gh_item[0].value_ram = gh_item[0].value_rom = self ? 5 : 6;
  gh_item[0].stack_file_id = CASE == 4 ? 1 : CASE == 5 ? 0 : -1;
  gh_sta.type = STACK_TYPE_16BIT;
  neg = IN_INT("sign") != 0;
  gh_item[0].sign = neg ? SI_SIGN_NEGATIVE : SI_SIGN_POSITIVE;
  gh_sta.stacksize = 1;
  if (work) gh_sta.under_work = YES;
  gh_none[0] = NULL; g_section_table_table = gh_none;
  gh_sta.section_status = gh_sub.section_status = OFF;
  { int f = gh_item[0].stack_file_id >= 0 ? gh_item[0].stack_file_id : gh_sta.file_id;
    int there = self ? f == gh_sta.file_id : f == gh_sub.file_id;
    if (self) ASSUME(gh_sub.position == STACK_POSITION_CODE && gh_sta.position != STACK_POSITION_DEFINITION);
    ret = compute_stack(&gh_sta, &ram, &rom, &rs, &rb, &rk);
    CHECK((ret == FAILED) == (work || self || !there), "a calculation that refers to itself, or to one that does not exist, fails");
    CHECK(IMPLIES(ret == SUCCEEDED, same(ram, neg ? -a.ram : a.ram) && same(rom, neg ? -a.rom : a.rom) && rs == a.slot && rb == a.base && rk == a.bank),
          "the value, slot, base and bank of the inner calculation are used");
  }
  REACH("end");
}
#endif
