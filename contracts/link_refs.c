/* fix_references() / write_bank_header_references(): what the linker writes for one reference.

   Contract: for an arbitrary reference (any type, endianness, CPU, location, section
   state) to an arbitrary target, the link either fails, or exactly the bytes that encode
   the target's value are written at the reference's location, and nothing else changes. */
#include "link_env.h"

/* ---- environment: contracts of the functions of the other files ---- */
static struct object_file gh_file;
static struct label gh_lab;
static struct reference gh_ref;
static int gh_found;                 /* does the name resolve? */
static int gh_anon_x, gh_anon_calls, gh_find_calls;
static struct section *gh_find_section;
struct pointer_array **g_section_table_table;
int g_section_table_table_max;

struct object_file *get_file(int id) { (void)id; return &gh_file; }
char *get_file_name(int id) { (void)id; return "f"; }
char *get_source_file_name(int a, int b) { (void)a; (void)b; return "s"; }
int find_label(char *str, struct section *s, struct label **out) {
  (void)str; gh_find_section = s; gh_find_calls++;
  *out = gh_found ? &gh_lab : NULL;
  return gh_found ? SUCCEEDED : FAILED;
}
int add_label(struct label *l) { (void)l; return FAILED; }
int parse_context_from_name(char *name, char *context) { (void)name; context[0] = 0; return SUCCEEDED; }

/* ---- the real code ---- */
#include "wlalink/memory.c"
#include "wlalink/write.c"

/* ---- ghost state ---- */
#define ROMCAP 0x1000000
static struct section gh_sec;
static struct pointer_array gh_pa, *gh_pat[1];
static void *gh_pp[1];
static int gh_bankaddr[256];
static int gh_k; static unsigned char gh_rom_k;
static int gh_x;                      /* expected ROM position */
static int gh_pc;                     /* expected address of the reference in the target's memory */
static unsigned char gh_old[6];

static unsigned char spec_bits_byte(int at, unsigned char old, int a, int data, int pos, int n) {
  unsigned int v = old;
  int b;
  for (b = 0; b < 8; b++) {
    int j = (at - a) * 8 + b - pos;
    if (j >= 0 && j < n) {
      unsigned int bit = (((unsigned int)data) >> (n - 1 - j)) & 1u;
      v = (v & ~(1u << (7 - b))) | (bit << (7 - b));
    }
  }
  return (unsigned char)v;
}

/* value of bank of a label, as ":label" and the 24-bit forms see it */
static int spec_label_bank(int ram_section) {
  int x;
  if (g_snes_mode == 0 || ram_section) x = gh_lab.bank;
  else if (g_snes_rom_mode == SNES_ROM_MODE_HIROM || g_snes_rom_mode == SNES_ROM_MODE_EXHIROM) x = (int)gh_lab.rom_address / 0x10000;
  else x = (int)gh_lab.rom_address / 0x8000;
  return x + gh_lab.base;
}

static int spec_rst(int special, int v, int *out) {
  if (special == 1) { if (v & ~0x38) return 0; *out = 0xC7 | v; return 1; }
  if (special == 2) { if (v & ~7) return 0; *out = 0x05 | (v << 3); return 1; }
  if (special == 3) { if (v & ~7) return 0; *out = 0xC7 | (v << 3); return 1; }
  return 0;
}

/* expected effect of the reference: n bytes e[] at gh_x, or -1 when the link must fail,
   or 0 when nothing may be written */
static int spec_effect(int le, unsigned char *e, int is_bank, int ram_section) {
  int status = gh_lab.status, v, t = gh_ref.type, n, i;

  if (!gh_found || status == LABEL_STATUS_SYMBOL || status == LABEL_STATUS_BREAKPOINT) return -1;
  v = (int)gh_lab.address;
  if (is_bank) {
    v = gh_file.cpu_65816 == YES ? spec_label_bank(ram_section) : gh_lab.base + gh_lab.bank;
    if (status == LABEL_STATUS_DEFINE && t != REFERENCE_TYPE_DIRECT_16BIT && t != REFERENCE_TYPE_RELATIVE_16BIT && t != REFERENCE_TYPE_DIRECT_13BIT) return -1;
  }

  switch (t) {
  case REFERENCE_TYPE_DIRECT_16BIT: n = 2; if (gh_ref.special_id == 4) le = !le; break;
  case REFERENCE_TYPE_DIRECT_24BIT: n = 3; if (!is_bank && status == LABEL_STATUS_LABEL) v += spec_label_bank(ram_section) << 16; break;
  case REFERENCE_TYPE_DIRECT_32BIT: n = 4; break;
  case REFERENCE_TYPE_DIRECT_13BIT:
    if (!is_bank && (v < 0 || v > 8191)) return -1;
    e[0] = (unsigned char)v; e[1] = (unsigned char)((gh_old[1] & 0xE0) | ((v >> 8) & 0x1F));
    return 2;
  case REFERENCE_TYPE_BITS:
    n = gh_ref.bits_to_define;
    if (n < 32 && ((unsigned int)v >> n) != 0) return -1;
    for (i = 0; i < 5; i++) e[i] = spec_bits_byte(gh_x + i, gh_old[i], gh_x, v, gh_ref.bits_position, n);
    return 5;
  case REFERENCE_TYPE_DIRECT_9BIT_SHORT:
    if (is_bank) { e[0] = (unsigned char)v; return 1; }
    if (v < 0 || v > 510 || (v & 1)) return -1;
    e[0] = (unsigned char)(v >> 1);
    return 1;
  case REFERENCE_TYPE_RELATIVE_16BIT:
    n = 2;
    if (is_bank) { if (gh_ref.special_id == 4) le = !le; break; }
    v = (v & 0xFFFF) - gh_pc - (gh_file.cpu_65ce02 == YES ? 1 : 2);
    if (v < -32768 || v > 32767) return -1;
    break;
  case REFERENCE_TYPE_RELATIVE_8BIT:
    n = 1;
    if (is_bank) break;
    if (status != LABEL_STATUS_DEFINE) {
      v = (v & 0xFFFF) - gh_pc - 1;
      if (v < -128 || v > 127) return -1;
    }
    else { v &= 0xFFFF; if (v > 255) return -1; }
    break;
  default:                             /* direct 8-bit */
    n = 1;
    if (is_bank) break;
    v &= 0xFFFF;
    if (v > 255) return -1;
    if (status != LABEL_STATUS_DEFINE && gh_ref.special_id > 0 && gh_ref.special_id != 4)
      if (!spec_rst(gh_ref.special_id, v, &v)) return -1;
  }

  for (i = 0; i < n; i++)
    e[i] = (unsigned char)(v >> (8 * (le ? i : n - 1 - i)));
  return n;
}

static void setup(void) {
  int i, on;

  /* left over from whatever was handled before */
  g_memory_line_number = IN_INT("memory_line_number");
  g_mem_insert_action[0] = IN_UCHAR("action");
  g_section_overwrite = IN_INT("section_overwrite") != 0;

  gh_file.little_endian = IN_INT("little_endian") != 0 ? YES : NO;
  gh_file.cpu_65816 = IN_INT("cpu_65816") != 0 ? YES : NO;
  gh_file.cpu_65ce02 = IN_INT("cpu_65ce02") != 0 ? YES : NO;
  g_snes_mode = IN_INT("snes_mode") != 0;
  g_snes_rom_mode = IN_INT("snes_rom_mode");

  g_bankaddress = gh_bankaddr;
  gh_pp[0] = &gh_sec; gh_pa.ptr = gh_pp; gh_pat[0] = &gh_pa; g_section_table_table = gh_pat;

  /* the case split over the nine reference types is complete */
  gh_ref.type = T_FIXED;
  gh_ref.address = IN_INT("ref_address");
  gh_ref.bank = IN_INT("ref_bank");
  gh_ref.slot = IN_INT("ref_slot");
  gh_ref.base = IN_INT("ref_base");
  ASSUME(IN_RANGE(gh_ref.address, 0, 0xFFFFFF) && IN_RANGE(gh_ref.bank, 0, 255) && IN_RANGE(gh_ref.slot, 0, 255) && IN_RANGE(gh_ref.base, 0, 255));
  gh_ref.special_id = IN_INT("special_id");
  ASSUME(IN_RANGE(gh_ref.special_id, 0, 4));
  gh_ref.bits_position = IN_INT("bits_position");
  gh_ref.bits_to_define = IN_INT("bits_to_define");
  ASSUME(IN_RANGE(gh_ref.bits_position, 0, 7) && IN_RANGE(gh_ref.bits_to_define, 1, 32));
  on = IN_INT("in_section") != 0;
  gh_ref.section_status = on ? ON : OFF;
  gh_ref.section = 0;

  gh_sec.bank = IN_INT("sec_bank");
  gh_sec.slot = IN_INT("sec_slot");
  gh_sec.address = IN_INT("sec_address");
  gh_sec.status = IN_INT("sec_status");
  gh_sec.alive = IN_INT("sec_alive") != 0 ? YES : NO;
  ASSUME(IN_RANGE(gh_sec.bank, 0, 255) && IN_RANGE(gh_sec.slot, 0, 255) && IN_RANGE(gh_sec.address, 0, 0xFFFFFF) && IN_RANGE(gh_sec.status, 0, 12));

  /* where the reference is */
  { int bank = on ? gh_sec.bank : gh_ref.bank, slot = on ? gh_sec.slot : gh_ref.slot;
    int ba = IN_INT("bank_address"), sa = IN_INT("slot_address");
    ASSUME(IN_RANGE(ba, 0, 0xFFFFFF) && IN_RANGE(sa, 0, 0xFFFFFF));
    gh_bankaddr[bank] = ba;
    g_slots[slot].address = sa;
    gh_x = gh_ref.address + (on ? gh_sec.address : 0);
    gh_pc = gh_x;
    if (!(on && gh_sec.status == SECTION_STATUS_ABSOLUTE)) { gh_x += ba; gh_pc += sa; }
  }

  g_romsize = IN_INT("romsize");
  ASSUME(IN_RANGE(g_romsize, 1, ROMCAP));
  g_rom = malloc(g_romsize);
  g_rom_usage = malloc(g_romsize);
  ASSUME(g_rom != NULL && g_rom_usage != NULL);
  /* the reference's bytes are inside the ROM: guaranteed by the placement of code and sections */
  ASSUME(gh_x >= 0 && gh_x + 5 <= g_romsize);
  for (i = 0; i < 5; i++) {
    gh_old[i] = IN_UCHAR("old");
    g_rom[gh_x + i] = gh_old[i];
  }
  gh_k = IN_INT("k");
  ASSUME(IN_RANGE(gh_k, 0, g_romsize - 1) && (gh_k < gh_x || gh_k >= gh_x + 5));
  gh_rom_k = IN_UCHAR("rom_k");
  g_rom[gh_k] = gh_rom_k;
  if (gh_ref.type == REFERENCE_TYPE_BITS)          /* .BITS fields are emitted as zeroes */
    for (i = 0; i < 5; i++)
      ASSUME((gh_old[i] & ~spec_bits_byte(gh_x + i, gh_old[i], gh_x, 0, gh_ref.bits_position, gh_ref.bits_to_define)) == 0);

  gh_found = IN_INT("found") != 0;
  gh_lab.status = IN_INT("lab_status");
  ASSUME(IN_RANGE(gh_lab.status, 0, 5));
  gh_lab.address = (double)IN_INT("lab_address");
  gh_lab.rom_address = (double)IN_INT("lab_rom_address");
  ASSUME(gh_lab.rom_address >= 0 && gh_lab.rom_address <= 0xFFFFFF);
  gh_lab.bank = IN_INT("lab_bank");
  gh_lab.base = IN_INT("lab_base");
  ASSUME(IN_RANGE(gh_lab.bank, 0, 255) && IN_RANGE(gh_lab.base, 0, 255));
  gh_lab.section_status = OFF;
  gh_ref.next = NULL;
}

static int is_bank_ref(void) {
#ifdef K_BANK
  return 1;
#else
  return 0;
#endif
}

/* is the outcome `ret` of handling the reference what the contract demands? */
static int post_reference(int ret) {
  unsigned char e[5];
  int n, i;

#if defined(K_CADDR)
  /* CADDR stands for the address of the reference itself */
  gh_found = 1; gh_lab.status = LABEL_STATUS_DEFINE; gh_lab.address = (double)gh_pc;
#endif
  if (gh_ref.section_status == ON && gh_sec.alive == NO)
    n = 0;                               /* inside a discarded section: nothing is written */
  else
    n = spec_effect(gh_file.little_endian == YES, e, is_bank_ref(), 0);

  if ((n < 0) != (ret == FAILED)) return 0;
  for (i = 0; i < 5; i++)
    if (g_rom[gh_x + i] != (i < n ? e[i] : gh_old[i])) return 0;
  return 1;
}

static void set_name(void) {
  /* the label is called "x" */
#if defined(K_BANK)
  gh_ref.name[0] = ':'; gh_ref.name[1] = 'x'; gh_ref.name[2] = 0;
#elif defined(K_CADDR)
  strcpy(gh_ref.name, "CADDR");
#else
  gh_ref.name[0] = 'x'; gh_ref.name[1] = 0;
#endif
}

#ifdef PAIR
static struct reference gh_ref1;
static void first_reference(void) {
  gh_ref1.name[0] = 'y'; gh_ref1.name[1] = 0;
  gh_ref1.type = IN_INT("first_type") != 0 ? REFERENCE_TYPE_DIRECT_16BIT : REFERENCE_TYPE_DIRECT_8BIT;
  gh_ref1.section_status = IN_INT("first_in_section") != 0 ? ON : OFF;
  gh_ref1.section = 0;
  gh_ref1.bank = gh_ref1.section_status == ON ? gh_sec.bank : gh_ref.bank;
  gh_ref1.slot = gh_ref1.section_status == ON ? gh_sec.slot : gh_ref.slot;
  gh_ref1.address = IN_INT("first_address");
  ASSUME(IN_RANGE(gh_ref1.address, 0, 0xFFFFFF));
  { int x1 = gh_ref1.address + (gh_ref1.section_status == ON ? gh_sec.address : 0) +
      (gh_ref1.section_status == ON && gh_sec.status == SECTION_STATUS_ABSOLUTE ? 0 : gh_bankaddr[gh_ref1.bank]);
    ASSUME(x1 >= 0 && x1 + 2 <= g_romsize && (x1 + 2 <= gh_x || x1 >= gh_x + 5) && (gh_k < x1 || gh_k > x1 + 1)); }
  /* the first one is resolvable and fits */
  ASSUME(gh_found && gh_lab.status != LABEL_STATUS_SYMBOL && gh_lab.status != LABEL_STATUS_BREAKPOINT && gh_lab.address >= 0 && gh_lab.address <= 255);
  g_reference_first = &gh_ref1;
  gh_ref1.next = &gh_ref;
}
#endif

void harness(void) {
  int ret;

  setup();
  set_name();
  g_reference_first = &gh_ref;
  gh_ref.next = NULL;
#ifdef PAIR
  /* another reference is resolved first; its bytes lie elsewhere */
  first_reference();
#endif

  ret = fix_references();

  CHECK(post_reference(ret), "exactly the bytes that encode the target's value are written, or the link fails when it does not fit");
  CHECK(g_rom[gh_k] == gh_rom_k, "no other ROM byte changes");
  REACH("end");
}
