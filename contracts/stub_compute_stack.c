/* contract of compute_stack() for a calculation of one item, established by the units of C03 */
#include <stddef.h>
#include <stdio.h>
#include "wlalink/defines.h"
int compute_stack(struct stack *sta, double *result_ram, double *result_rom, int *result_slot, int *result_base, int *result_bank) {
  struct stack_item *s = sta->stack_items;
  __CPROVER_assert(sta->stacksize == 1, "CHECK callee contract applies");
  if (result_ram != NULL) *result_ram = s->sign == SI_SIGN_NEGATIVE ? -s->value_ram : s->value_ram;
  if (result_rom != NULL) *result_rom = s->sign == SI_SIGN_NEGATIVE ? -s->value_rom : s->value_rom;
  if (result_slot != NULL) *result_slot = s->slot;
  if (result_base != NULL) *result_base = s->base;
  if (result_bank != NULL) *result_bank = s->bank;
  return SUCCEEDED;
}
