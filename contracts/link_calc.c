/* compute_pending_calculations() / write_bank_header_calculations() /
   write_bank_header_references(): what the linker writes for one pending calculation, and
   for one reference inside a BANKHEADER section.

   Contract: the link either fails because the value does not fit its field, or exactly the
   bytes that encode the value are written at the calculation's own place. */
#include "link_env.h"

static struct object_file gh_file;
static struct label gh_lab;
static struct label gh_lab2;
static int gh_found, gh_find_calls, gh_chain;
struct pointer_array **g_section_table_table;
int g_section_table_table_max;

struct object_file *get_file(int id) { (void)id; return &gh_file; }
char *get_file_name(int id) { (void)id; return "f"; }
char *get_source_file_name(int a, int b) { (void)a; (void)b; return "s"; }
int find_label(char *str, struct section *s, struct label **out) {
  (void)str; (void)s;
  gh_find_calls++;
  if (gh_find_calls > 1 && gh_chain == 0) { *out = NULL; return FAILED; }
  *out = gh_found ? (gh_find_calls > 1 ? &gh_lab2 : &gh_lab) : NULL;
  return gh_found ? SUCCEEDED : FAILED;
}
int add_label(struct label *l) { (void)l; return FAILED; }
int parse_context_from_name(char *name, char *context) { (void)name; context[0] = 0; return SUCCEEDED; }

#include "wlalink/memory.c"
#include "wlalink/write.c"

#define ROMCAP 0x1000000
static struct section gh_sec;
static struct pointer_array gh_pa, *gh_pat[1];
static void *gh_pp[1];
static int gh_bankaddr[256];
static struct stack gh_sta;
static struct stack_item gh_item[2];
static double gh_v;
static int gh_k, gh_x, gh_pc; static unsigned char gh_rom_k;
static unsigned char gh_old[6];

static unsigned char spec_bits_byte(int at, unsigned char old, int a, int data, int pos, int n) {
  unsigned int v = old;
  int b;
  for (b = 0; b < 8; b++) {
    int j = (at - a) * 8 + b - pos;
    if (j >= 0 && j < n) {
      unsigned int bit = (((unsigned int)data) >> (n - 1 - j)) & 1u;
      v = (v & ~(1u << (7 - b))) | (bit << (7 - b));
    }
  }
  return (unsigned char)v;
}

/* the RST encodings: Z80/GB-Z80 (1), 8008 (2), 8080 (3) */
static int spec_rst(int special, int v, int *out) {
  if (special == 1) { if (v & ~0x38) return 0; *out = 0xC7 | v; return 1; }
  if (special == 2) { if (v & ~7) return 0; *out = 0x05 | (v << 3); return 1; }
  if (special == 3) { if (v & ~7) return 0; *out = 0xC7 | (v << 3); return 1; }
  *out = v;
  return 1;
}

/* bytes of a field of type t that must hold v; -1: the value does not fit.  (STACK_TYPE_*) */
static int spec_field(int t, int v, int le, int special, int relative, int pos, int bits, unsigned char *e) {
  int n, i;
  switch (t) {
  case STACK_TYPE_8BIT:
    if (v < -128 || v > 255) return -1;
    if (relative && v > 127) return -1;
    if (special > 0 && !spec_rst(special, v, &v)) return -1;
    n = 1; break;
  case STACK_TYPE_9BIT_SHORT:
    if (v < 0 || v > 510 || (v & 1)) return -1;
    v >>= 1; n = 1; break;
  case STACK_TYPE_16BIT:
    if (v < -32768 || v > 65535) return -1;
    if (special == 4) le = !le;
    n = 2; break;
  case STACK_TYPE_13BIT:
    if (v < 0 || v > 8191) return -1;
    e[0] = (unsigned char)v; e[1] = (unsigned char)((gh_old[1] & 0xE0) | (v >> 8));
    return 2;
  case STACK_TYPE_24BIT:
    if (v < -8388608 || v > 16777215) return -1;
    n = 3; break;
  case STACK_TYPE_32BIT: n = 4; break;
  default:
    if (bits < 32 && ((unsigned int)v >> bits) != 0) return -1;
    for (i = 0; i < 5; i++) e[i] = spec_bits_byte(i, gh_old[i], 0, v, pos, bits);
    return 5;
  }
  for (i = 0; i < n; i++) e[i] = (unsigned char)(v >> (8 * (le ? i : n - 1 - i)));
  return n;
}

static int field_size(int t, int pos, int bits) {
  switch (t) {
  case STACK_TYPE_8BIT: case STACK_TYPE_9BIT_SHORT: return 1;
  case STACK_TYPE_16BIT: case STACK_TYPE_13BIT: return 2;
  case STACK_TYPE_24BIT: return 3;
  case STACK_TYPE_32BIT: return 4;
  default: return (pos + bits + 7) / 8;
  }
}

#define TOINT(v) ((v) >= 2147483648.0 ? (int)(unsigned int)(v) : (int)(v))

static void setup_common(void) {
  g_memory_line_number = IN_INT("memory_line_number");
  g_mem_insert_action[0] = IN_UCHAR("action");
  g_section_overwrite = IN_INT("section_overwrite") != 0;
  gh_file.little_endian = IN_INT("little_endian") != 0 ? YES : NO;
  gh_file.cpu_65816 = IN_INT("cpu_65816") != 0 ? YES : NO;
  gh_file.cpu_65ce02 = IN_INT("cpu_65ce02") != 0 ? YES : NO;
  g_snes_mode = IN_INT("snes_mode") != 0;
  g_snes_rom_mode = IN_INT("snes_rom_mode");
  gh_pa.ptr = gh_pp; gh_pat[0] = &gh_pa; g_section_table_table = gh_pat;

  gh_sta.type = T_FIXED;
  gh_sta.position = STACK_POSITION_CODE;
  gh_sta.special_id = IN_INT("special_id");
  ASSUME(IN_RANGE(gh_sta.special_id, 0, 4));
  gh_sta.relative_references = IN_INT("relative") != 0 ? YES : NO;
  gh_sta.bits_position = IN_INT("bits_position");
  gh_sta.bits_to_define = IN_INT("bits_to_define");
  ASSUME(IN_RANGE(gh_sta.bits_position, 0, 7) && IN_RANGE(gh_sta.bits_to_define, 1, 32));
  gh_sta.under_work = NO;
  gh_sta.stacksize = 1;
  gh_sta.stack_items = gh_item;
  gh_item[0].type = STACK_ITEM_TYPE_VALUE;
  gh_item[0].sign = SI_SIGN_POSITIVE;
  gh_v = IN_DOUBLE("value");
  /* a 32-bit field takes the signed and the unsigned 32-bit values */
  ASSUME(gh_v > -2147483649.0 && gh_v < (T_FIXED == STACK_TYPE_32BIT ? 4294967296.0 : 2147483648.0));
  gh_item[0].value_ram = gh_v;
  gh_item[0].value_rom = gh_v;
  g_stacks_first = &gh_sta;
}

#ifdef H_PENDING
static void setup(void) {
  int i, on;

  setup_common();
  g_bankaddress = gh_bankaddr;
  gh_pp[0] = &gh_sec;
  gh_sta.address = IN_INT("address");
  gh_sta.bank = IN_INT("bank");
  gh_sta.slot = IN_INT("slot");
  gh_sta.memory_address = IN_INT("memory_address");
  ASSUME(IN_RANGE(gh_sta.address, 0, 0xFFFFFF) && IN_RANGE(gh_sta.bank, 0, 255) && IN_RANGE(gh_sta.slot, 0, 255));
  on = IN_INT("in_section") != 0;
  gh_sta.section_status = on ? ON : OFF;
  gh_sec.bank = IN_INT("sec_bank");
  gh_sec.slot = IN_INT("sec_slot");
  gh_sec.address = IN_INT("sec_address");
  gh_sec.status = IN_INT("sec_status");
  gh_sec.alive = IN_INT("sec_alive") != 0 ? YES : NO;
  ASSUME(IN_RANGE(gh_sec.bank, 0, 255) && IN_RANGE(gh_sec.slot, 0, 255) && IN_RANGE(gh_sec.address, 0, 0xFFFFFF) && IN_RANGE(gh_sec.status, 0, 12));
  { int bank = on ? gh_sec.bank : gh_sta.bank, slot = on ? gh_sec.slot : gh_sta.slot;
    int ba = IN_INT("bank_address"), sa = IN_INT("slot_address");
    ASSUME(IN_RANGE(ba, 0, 0xFFFFFF) && IN_RANGE(sa, 0, 0xFFFFFF));
    gh_bankaddr[bank] = ba;
    g_slots[slot].address = sa;
    gh_x = gh_sta.address + (on ? gh_sec.address : 0);
    gh_pc = gh_x + sa;
    if (!(on && gh_sec.status == SECTION_STATUS_ABSOLUTE)) gh_x += ba;
  }
  g_romsize = IN_INT("romsize");
  ASSUME(IN_RANGE(g_romsize, 1, ROMCAP));
  g_rom = malloc(g_romsize);
  g_rom_usage = malloc(g_romsize);
  ASSUME(g_rom != NULL && g_rom_usage != NULL);
  ASSUME(gh_x >= 0 && gh_x + 5 <= g_romsize);
  for (i = 0; i < 5; i++) {
    gh_old[i] = IN_UCHAR("old");
    g_rom[gh_x + i] = gh_old[i];
  }
  gh_k = IN_INT("k");
  ASSUME(IN_RANGE(gh_k, 0, g_romsize - 1) && (gh_k < gh_x || gh_k >= gh_x + 5));
  gh_rom_k = IN_UCHAR("rom_k");
  g_rom[gh_k] = gh_rom_k;
}

void harness(void) {
  unsigned char e[5];
  int ret, n, i, ok = 1;

  setup();
#if T_FIXED == 6
  for (i = 0; i < 5; i++)
    ASSUME((gh_old[i] & ~spec_bits_byte(i, gh_old[i], 0, 0, gh_sta.bits_position, gh_sta.bits_to_define)) == 0);
#endif
#ifdef K_CADDR
  gh_item[0].type = STACK_ITEM_TYPE_LABEL;
  strcpy(gh_item[0].string, "CADDR");
  gh_sta.relative_references = NO;
#endif
#ifdef K_LABEL
  gh_item[0].type = STACK_ITEM_TYPE_LABEL;
  gh_item[0].string[0] = 'x'; gh_item[0].string[1] = 0;
  gh_found = IN_INT("found") != 0;
  gh_lab.status = IN_INT("lab_status");
  ASSUME(gh_lab.status == LABEL_STATUS_DEFINE);
  gh_lab.address = (double)IN_INT("lab_address");
  gh_lab.rom_address = (double)IN_INT("lab_rom_address");
  ASSUME(gh_lab.address >= -65536 && gh_lab.address <= 0xFFFFFF && gh_lab.rom_address >= 0 && gh_lab.rom_address <= 0xFFFFFF);
#endif
  ret = compute_pending_calculations();

  if (gh_sta.section_status == ON && gh_sec.alive == NO)
    n = 0;
  else {
    double v = gh_v;
#ifdef K_CADDR
    v = gh_pc;
#endif
#ifdef K_LABEL
    /* displacement from the end of the operand (65CE02 16-bit branches: one byte before it) */
    v = gh_lab.address;
    if (gh_sta.relative_references == YES)
      v = v - gh_pc - (T_FIXED == STACK_TYPE_16BIT ? (gh_file.cpu_65ce02 == YES ? 1 : 2) : 1);
#endif
    n = spec_field(T_FIXED, TOINT(v), gh_file.little_endian == YES, gh_sta.special_id, gh_sta.relative_references == YES,
                   gh_sta.bits_position, gh_sta.bits_to_define, e);
#ifdef K_LABEL
    if (!gh_found) n = -1;
#endif
  }
  if ((n < 0) != (ret == FAILED)) ok = 0;
  for (i = 0; i < 5; i++)
    if (g_rom[gh_x + i] != (i < n ? e[i] : gh_old[i])) ok = 0;

  CHECK(ok, "exactly the bytes that encode the value are written, or the link fails when it does not fit");
  CHECK(g_rom[gh_k] == gh_rom_k, "no other ROM byte changes");
  REACH("end");
}
#endif

#if defined(H_BHCALC) || defined(H_BHREF)
static struct section gh_other;
static struct reference gh_ref;

/* calculation / reference inside a BANKHEADER section: its bytes live in the section's data */
void harness(void) {
  unsigned char e[5];
  int ret, n, i, ok = 1, size, addr, fs, st;

  setup_common();
  gh_other.id = IN_INT("other_id");
  gh_sec.id = IN_INT("sec_id");
  ASSUME(gh_other.id != gh_sec.id);
  if (IN_INT("order") != 0) { g_sec_bankhd_first = &gh_other; gh_other.next = &gh_sec; gh_sec.next = NULL; }
  else { g_sec_bankhd_first = &gh_sec; gh_sec.next = &gh_other; gh_other.next = NULL; }
  size = IN_INT("size");
  ASSUME(IN_RANGE(size, 1, ROMCAP));
  gh_sec.size = size;
  gh_sec.data = malloc(size);
  ASSUME(gh_sec.data != NULL);
  st = T_FIXED;
  fs = field_size(st, gh_sta.bits_position, gh_sta.bits_to_define);
  addr = IN_INT("address");
  ASSUME(addr >= 0 && addr <= ROMCAP && addr + fs <= size);
  for (i = 0; i < fs; i++) { gh_old[i] = IN_UCHAR("old"); gh_sec.data[addr + i] = gh_old[i]; }
#if T_FIXED == 6
  for (i = 0; i < 5; i++)
    ASSUME((gh_old[i] & ~spec_bits_byte(i, gh_old[i], 0, 0, gh_sta.bits_position, gh_sta.bits_to_define)) == 0);
#endif
  gh_k = IN_INT("k");
  ASSUME(IN_RANGE(gh_k, 0, size - 1) && (gh_k < addr || gh_k >= addr + fs));
  gh_rom_k = IN_UCHAR("rom_k");
  gh_sec.data[gh_k] = gh_rom_k;

#ifdef H_BHCALC
  gh_sta.section = gh_sec.id;
  gh_sta.section_status = OFF;   /* parse_stack(): no section context is needed for a plain value */
  gh_sta.address = addr;
  gh_sta.special_id = 0;
  gh_sta.relative_references = NO;
  ret = write_bank_header_calculations(&gh_sta);
  n = spec_field(st, TOINT(gh_v), gh_file.little_endian == YES, 0, 0, gh_sta.bits_position, gh_sta.bits_to_define, e);
#else
  gh_ref.section = gh_sec.id;
  gh_ref.address = addr;
  gh_ref.type = RT_FIXED;
  gh_ref.bits_position = gh_sta.bits_position;
  gh_ref.bits_to_define = gh_sta.bits_to_define;
  gh_ref.name[0] = 'x'; gh_ref.name[1] = 0;
  gh_found = IN_INT("found") != 0;
  gh_lab.status = IN_INT("lab_status");
  ASSUME(gh_lab.status == LABEL_STATUS_LABEL || gh_lab.status == LABEL_STATUS_DEFINE);
  { int la = IN_INT("lab_address"); gh_lab.address = (double)la;
  gh_lab.rom_address = (double)IN_INT("lab_rom_address");
  ASSUME(gh_lab.rom_address >= 0 && gh_lab.rom_address <= 0xFFFFFF);
  gh_lab.bank = IN_INT("lab_bank");
  gh_lab.base = IN_INT("lab_base");
  ASSUME(IN_RANGE(gh_lab.bank, 0, 255) && IN_RANGE(gh_lab.base, 0, 255));
  gh_lab.section_status = OFF;
  ret = write_bank_header_references(&gh_ref);
  if (RT_FIXED == REFERENCE_TYPE_DIRECT_24BIT) {
    if (gh_lab.status == LABEL_STATUS_LABEL) la += get_snes_pc_bank(&gh_lab);
    e[0] = la; e[1] = la >> 8; e[2] = la >> 16; n = 3;
    if (gh_file.little_endian != YES) { e[0] = la >> 16; e[2] = la; }
  }
  else if (RT_FIXED == REFERENCE_TYPE_DIRECT_16BIT) {
    e[0] = la; e[1] = la >> 8; n = 2;
    if (gh_file.little_endian != YES) { e[0] = la >> 8; e[1] = la; }
  }
  else
    n = spec_field(st, la, gh_file.little_endian == YES, 0, 0, gh_sta.bits_position, gh_sta.bits_to_define, e);
  }
  if (!gh_found) n = -1;
#endif
  if ((n < 0) != (ret == FAILED)) ok = 0;
  for (i = 0; i < fs; i++)
    if (gh_sec.data[addr + i] != (i < n ? e[i] : gh_old[i])) ok = 0;
  CHECK(ok, "exactly the bytes that encode the value are written, or the link fails when it does not fit");
  CHECK(gh_sec.data[gh_k] == gh_rom_k, "no other byte of the section changes");
  REACH("end");
}
#endif

#ifdef H_PARSE
/* parse_stack(): the value every label item of a calculation stands for */
static void any_label(struct label *l) {
  l->status = IN_INT("lab_status");
  l->address = (double)IN_INT("lab_address");
  l->rom_address = (double)IN_INT("lab_rom_address");
  ASSUME(l->address >= -65536 && l->address <= 0xFFFFFF && l->rom_address >= 0 && l->rom_address <= 0xFFFFFF);
  l->bank = IN_INT("lab_bank"); l->slot = IN_INT("lab_slot"); l->base = IN_INT("lab_base"); l->file_id = IN_INT("lab_file");
  ASSUME(IN_RANGE(l->bank, 0, 255) && IN_RANGE(l->base, 0, 255));
  l->section_status = OFF;
  l->string[0] = 's'; l->string[1] = 0;
}

void harness(void) {
  int ret, kind = KIND, ed;
  struct label *l = &gh_lab;
  struct stack_item before, *si = &gh_item[1];

  setup_common();
  gh_sta.type = IN_INT("type");
  ASSUME(IN_RANGE(gh_sta.type, 0, 7) && gh_sta.type != STACK_TYPE_UNKNOWN);
#if REL
  gh_sta.type = T_FIXED;
#endif
  gh_pp[0] = &gh_sec;
#ifdef REL
  gh_sta.relative_references = REL;
#endif
  gh_sta.section_status = IN_INT("in_section") != 0 ? ON : OFF;
  gh_sta.address = IN_INT("address");
  gh_sta.memory_address = IN_INT("memory_address");
  gh_sta.bank = IN_INT("bank"); gh_sta.slot = IN_INT("slot"); gh_sta.base = IN_INT("base");
  ASSUME(IN_RANGE(gh_sta.address, 0, 0xFFFFFF) && IN_RANGE(gh_sta.memory_address, 0, 0xFFFFFF));
  gh_sta.stacksize = 2;
  /* first some other item, then the item we look at */
  gh_found = IN_INT("found") != 0;
#if REL
  gh_chain = 0;
#else
  gh_chain = IN_INT("chain") != 0;
#endif
  any_label(&gh_lab);
  any_label(&gh_lab2);
  ASSUME(gh_lab2.status != LABEL_STATUS_LABEL);
  si->type = kind != 0 ? STACK_ITEM_TYPE_LABEL : (IN_INT("operator") != 0 ? STACK_ITEM_TYPE_OPERATOR : STACK_ITEM_TYPE_VALUE);
  si->sign = IN_INT("sign") != 0;
  si->slot = IN_INT("item_slot"); si->bank = IN_INT("item_bank"); si->base = IN_INT("item_base");
  si->value_ram = si->value_rom = (double)IN_INT("item_value");
  si->string[0] = 'x'; si->string[1] = 0;
  if (kind == 2) strcpy(si->string, "cAdDr");
  before = *si;

  ret = parse_stack(&gh_sta);

  ed = gh_sta.type == STACK_TYPE_16BIT ? (gh_file.cpu_65ce02 == YES ? 1 : 2) : gh_sta.type == STACK_TYPE_24BIT ? 3 : gh_sta.type == STACK_TYPE_32BIT ? 4 : 1;
  if (kind == 0) {
    CHECK(ret == SUCCEEDED && si->type == before.type && si->value_ram == before.value_ram && si->value_rom == before.value_rom &&
          si->slot == before.slot && si->bank == before.bank && si->base == before.base, "values and operators are left alone");
  }
  else if (kind == 2) {
    CHECK(ret == SUCCEEDED && si->value_ram == gh_sta.memory_address && si->value_rom == gh_sta.address &&
          si->slot == gh_sta.slot && si->bank == gh_sta.bank && si->base == gh_sta.base && si->sign == before.sign,
          "CADDR is the address of the calculation itself");
  }
  else if (!gh_found) {
    CHECK(ret == FAILED, "an unresolved label fails the link");
  }
  else {
    double ram, rom;
    if (l->status == LABEL_STATUS_LABEL && gh_chain) l = &gh_lab2;
    ram = l->address; rom = l->rom_address;
    if (gh_sta.relative_references == YES) { ram = ram - gh_sta.memory_address - ed; rom = rom - gh_sta.address - ed; }
    CHECK(ret == SUCCEEDED && si->slot == l->slot && si->bank == l->bank && si->base == l->base && si->sign == before.sign, "slot, bank and base are the label's");
    if (l->status == LABEL_STATUS_STACK) {
      CHECK(si->type == STACK_ITEM_TYPE_STACK && si->value_ram == l->address && si->stack_file_id == l->file_id, "a calculation definition is referred to by its id");
    }
    else if (l->status == LABEL_STATUS_STRING) {
      CHECK(si->type == STACK_ITEM_TYPE_STRING && si->string[0] == 's' && si->string[1] == 0, "a string definition is its text");
    }
    else if (gh_sta.type == STACK_TYPE_24BIT && l->status == LABEL_STATUS_LABEL) {
      CHECK(si->type == STACK_ITEM_TYPE_LABEL && si->value_ram == ram + get_snes_pc_bank(l) && si->value_rom == rom + get_snes_pc_bank(l), "24-bit: the bank is added to the address");
    }
    else {
      CHECK(si->type == STACK_ITEM_TYPE_LABEL && si->value_ram == ram && si->value_rom == rom, "a label item is the label's address, minus the end of the operand when relative");
    }
  }
  REACH("end");
}
#endif
