/* wlalink/memory.c: contracts of the ROM write primitives. */
#include "vc.h"
#include "wlalink/defines.h"
#include "wlalink/main.h"

#ifdef VCBMC
#define ROMCAP 0x1000000
#else
#define ROMCAP 0x1000000
#endif

/* --- environment of wlalink/memory.c --- */
unsigned char *g_rom, *g_rom_usage;
int g_romsize, g_banksize, g_section_overwrite;
int g_pc_bank, g_pc_full, g_pc_slot, g_pc_slot_max;
struct object_file *g_obj_tmp;

/* --- ghost state --- */
int gh_prints;                        /* number of diagnostics printed */
int gh_k;                             /* an arbitrary ROM index: universally quantified */
unsigned char gh_rom_k, gh_use_k;     /* its pre-state */
unsigned char gh_rom_a, gh_use_a;     /* pre-state at the written address */
int gh_pc_full, gh_pc_bank, gh_pc_slot;

static void gh_print(void) { gh_prints++; }
#define print_text(...) gh_print()      /* diagnostics are counted, not formatted */
char *get_file_name(int id) { (void)id; return "f"; }
char *get_source_file_name(int a, int b) { (void)a; (void)b; return "s"; }

#define ROM_OK (g_rom != NULL && g_rom_usage != NULL && g_romsize >= 1 && g_romsize <= ROMCAP)
#define IN_ROM(a) ((a) >= 0 && (a) < g_romsize)
#define SNAP_K (IN_ROM(gh_k) && g_rom[gh_k] == gh_rom_k && g_rom_usage[gh_k] == gh_use_k)
#define SNAP_A(a) (!IN_ROM(a) || (g_rom[a] == gh_rom_a && g_rom_usage[a] == gh_use_a && gh_use_a < 255))
#define SAME_K (g_rom[gh_k] == gh_rom_k && g_rom_usage[gh_k] == gh_use_k)
#define SAME_A(a) (g_rom[a] == gh_rom_a && g_rom_usage[a] == gh_use_a)

/* ---------------- postconditions (shared by both modes) ---------------- */

static int post_ref(int ret, int a, int d, int prints) {
  if (!IN_ROM(a)) return ret == FAILED && SAME_K && prints >= 1;
  return ret == SUCCEEDED && g_rom[a] == (unsigned char)d && g_rom_usage[a] == gh_use_a + 1 &&
    IMPLIES(gh_k != a, SAME_K) && (prints >= 1) == (gh_use_a > 1 && gh_rom_a != (unsigned char)d);
}

static int post_ref13(int ret, int a, int d, int prints) {
  if (!IN_ROM(a)) return ret == FAILED && SAME_K && prints >= 1;
  return ret == SUCCEEDED && (g_rom[a] & 0x1F) == d && (g_rom[a] & 0xE0) == (gh_rom_a & 0xE0) &&
    g_rom_usage[a] == gh_use_a + 1 && IMPLIES(gh_k != a, SAME_K) &&
    (prints >= 1) == (gh_use_a > 1 && (gh_rom_a & 0x1F) != d);
}

static int post_insert(int ret, int a, int d, int prints) {
  return ret == SUCCEEDED && g_rom[a] == (unsigned char)d && g_rom_usage[a] == gh_use_a + 1 &&
    IMPLIES(gh_k != a, SAME_K) && (prints >= 1) == (gh_use_a != 0 && gh_rom_a != (unsigned char)d);
}

static int post_allow(int ret, int a, int d, unsigned int allowed, int prints) {
  return ret == SUCCEEDED && g_rom[a] == (unsigned char)d && g_rom_usage[a] == gh_use_a + 1 &&
    IMPLIES(gh_k != a, SAME_K) &&
    (prints >= 1) == (gh_use_a > allowed && gh_rom_a != (unsigned char)d);
}

static int post_pc(int ret, int d, int prints) {
  int a = gh_pc_full;
  if (gh_pc_slot >= g_pc_slot_max || gh_pc_bank >= g_banksize)
    return ret == FAILED && prints >= 1 && SAME_K && g_pc_full == gh_pc_full && g_pc_bank == gh_pc_bank && g_pc_slot == gh_pc_slot;
  return ret == SUCCEEDED && g_rom[a] == (unsigned char)d &&
    g_rom_usage[a] == (g_section_overwrite == OFF ? gh_use_a + 1 : 1) &&
    g_pc_full == gh_pc_full + 1 && g_pc_bank == gh_pc_bank + 1 && g_pc_slot == gh_pc_slot + 1 &&
    IMPLIES(gh_k != a, SAME_K) &&
    (prints >= 1) == (gh_use_a != 0 && gh_rom_a != (unsigned char)d && g_section_overwrite == OFF);
}

/* a bit field of n bits, most significant bit first, starts at bit `pos` (0 = msb) of byte `a` */
#define BITS_LAST(a, pos, n) ((a) + ((pos) + (n) - 1) / 8)

/* expected value of byte `at` once the field is in place, given its old value */
static unsigned char spec_bits_byte(int at, unsigned char old, int a, int data, int pos, int n) {
  unsigned int v = old;
  int b;
  for (b = 0; b < 8; b++) {
    int j = (at - a) * 8 + b - pos;              /* index of this bit in the field */
    if (j >= 0 && j < n) {
      unsigned int bit = (((unsigned int)data) >> (n - 1 - j)) & 1u;
      v = (v & ~(1u << (7 - b))) | (bit << (7 - b));
    }
  }
  return (unsigned char)v;
}

/* the field may only be or-ed into bits that are still zero: .BITS never revisits a bit */
static int bits_clear(int at, unsigned char old, int a, int pos, int n) {
  int b;
  for (b = 0; b < 8; b++) {
    int j = (at - a) * 8 + b - pos;
    if (j >= 0 && j < n && (old & (1 << (7 - b))) != 0) return 0;
  }
  return 1;
}

static int post_bits(int ret, int a, int data, int pos, int n, int prints) {
  if (!IN_ROM(a) || !IN_ROM(BITS_LAST(a, pos, n)))
    return ret == FAILED && prints >= 1 && g_rom[gh_k] == gh_rom_k;
  if (ret != SUCCEEDED) return 0;
  if (gh_k < a || gh_k > BITS_LAST(a, pos, n)) return g_rom[gh_k] == gh_rom_k;
  return g_rom[gh_k] == spec_bits_byte(gh_k, gh_rom_k, a, data, pos, n);
}

/* ---------------- contracts on the real functions ---------------- */

int mem_insert(int address, unsigned char data)
REQUIRES(ROM_OK && IN_ROM(address) && SNAP_K && SNAP_A(address))
ASSIGNS(g_rom[address], g_rom_usage[address], gh_prints)
ENSURES(post_insert(RET, address, data, gh_prints - OLD(gh_prints)));

int mem_insert_allow_overwrite(int address, unsigned char data, unsigned int allowed_overwrites)
REQUIRES(ROM_OK && IN_ROM(address) && SNAP_K && SNAP_A(address))
ASSIGNS(g_rom[address], g_rom_usage[address], gh_prints)
ENSURES(post_allow(RET, address, data, allowed_overwrites, gh_prints - OLD(gh_prints)));

int mem_insert_ref(int address, unsigned char data)
REQUIRES(ROM_OK && SNAP_K && SNAP_A(address))
ASSIGNS(IN_ROM(address): g_rom[address], g_rom_usage[address]; gh_prints)
ENSURES(post_ref(RET, address, data, gh_prints - OLD(gh_prints)));

int mem_insert_ref_13bit_high(int address, unsigned char data)
REQUIRES(ROM_OK && data <= 0x1F && SNAP_K && SNAP_A(address))
ASSIGNS(IN_ROM(address): g_rom[address], g_rom_usage[address]; gh_prints)
ENSURES(post_ref13(RET, address, data, gh_prints - OLD(gh_prints)));

#define PC_OK (gh_pc_full == g_pc_full && gh_pc_bank == g_pc_bank && gh_pc_slot == g_pc_slot && g_pc_bank >= 0 && g_pc_slot >= 0 && \
  IMPLIES(g_pc_bank < g_banksize && g_pc_slot < g_pc_slot_max, IN_ROM(g_pc_full)))
int mem_insert_pc(unsigned char d, int slot_current, int bank_current)
REQUIRES(ROM_OK && SNAP_K && PC_OK && SNAP_A(g_pc_full))
ASSIGNS(IN_ROM(g_pc_full): g_rom[g_pc_full], g_rom_usage[g_pc_full]; g_pc_full, g_pc_bank, g_pc_slot, gh_prints)
ENSURES(post_pc(RET, d, gh_prints - OLD(gh_prints)));

#define BITS_OK(pos, n) ((pos) >= 0 && (pos) <= 7 && (n) >= 1 && (n) <= 32)
int mem_insert_bits(int address, int data, int bits_position, int bits_to_define)
REQUIRES(ROM_OK && SNAP_K && BITS_OK(bits_position, bits_to_define) && bits_clear(gh_k, gh_rom_k, address, bits_position, bits_to_define))
ASSIGNS(__CPROVER_object_whole(g_rom), gh_prints)
ENSURES(post_bits(RET, address, data, bits_position, bits_to_define, gh_prints - OLD(gh_prints)));

/* ---------------- the real code ---------------- */
#include "wlalink/memory.c"

/* ---------------- harnesses ---------------- */

static int h_addr;

static void arbitrary_rom(int min_a) {
  g_romsize = IN_INT("romsize");
  ASSUME(g_romsize >= 1 && g_romsize <= ROMCAP);
  g_rom = malloc(g_romsize);
  g_rom_usage = malloc(g_romsize);
  ASSUME(g_rom != NULL && g_rom_usage != NULL);
  gh_k = IN_INT("k");
  ASSUME(IN_ROM(gh_k));
  gh_rom_k = IN_UCHAR("rom_k");
  gh_use_k = IN_UCHAR("use_k");
  g_rom[gh_k] = gh_rom_k;
  g_rom_usage[gh_k] = gh_use_k;
  (void)min_a;
}

static void arbitrary_address(void) {
  h_addr = IN_INT("address");
  ASSUME(h_addr > -0x10000000 && h_addr < 0x10000000);
  if (IN_ROM(h_addr)) {
    gh_rom_a = IN_UCHAR("rom_a");
    gh_use_a = IN_UCHAR("use_a");
    if (h_addr == gh_k) { ASSUME(gh_rom_a == gh_rom_k && gh_use_a == gh_use_k); }
    ASSUME(gh_use_a < 255);
    g_rom[h_addr] = gh_rom_a;
    g_rom_usage[h_addr] = gh_use_a;
  }
}

void harness(void) {
  int ret, p0;

  g_mem_insert_action[0] = IN_UCHAR("action");
  g_memory_line_number = IN_INT("line");
  g_section_overwrite = IN_INT("overwrite") != 0 ? ON : OFF;
  gh_prints = 0;
  p0 = gh_prints;
  arbitrary_rom(0);

#if defined(H_INSERT)
  { unsigned char d = IN_UCHAR("data");
    arbitrary_address();
    ASSUME(IN_ROM(h_addr));
    ret = mem_insert(h_addr, d);
    CHECK(post_insert(ret, h_addr, d, gh_prints - p0), "mem_insert stores the byte at the address and nowhere else, reporting a conflicting overwrite"); }
#elif defined(H_ALLOW)
  { unsigned char d = IN_UCHAR("data"); unsigned int al = IN_UINT("allowed");
    arbitrary_address();
    ASSUME(IN_ROM(h_addr));
    ret = mem_insert_allow_overwrite(h_addr, d, al);
    CHECK(post_allow(ret, h_addr, d, al, gh_prints - p0), "mem_insert_allow_overwrite stores the byte at the address and nowhere else"); }
#elif defined(H_REF)
  { unsigned char d = IN_UCHAR("data");
    arbitrary_address();
    ret = mem_insert_ref(h_addr, d);
    CHECK(post_ref(ret, h_addr, d, gh_prints - p0), "mem_insert_ref writes in range, refuses out of range, reports conflicting overwrite"); }
#elif defined(H_REF13)
  { unsigned char d = IN_UCHAR("data");
    ASSUME(d <= 0x1F);
    arbitrary_address();
    ret = mem_insert_ref_13bit_high(h_addr, d);
    CHECK(post_ref13(ret, h_addr, d, gh_prints - p0), "mem_insert_ref_13bit_high replaces exactly the low five bits"); }
#elif defined(H_PC)
  { unsigned char d = IN_UCHAR("data");
    g_banksize = IN_INT("banksize");
    g_pc_bank = IN_INT("pc_bank");
    g_pc_slot = IN_INT("pc_slot");
    g_pc_slot_max = IN_INT("pc_slot_max");
    ASSUME(g_pc_bank >= 0 && g_pc_slot >= 0);
    arbitrary_address();
    g_pc_full = h_addr;
    gh_pc_full = g_pc_full; gh_pc_bank = g_pc_bank; gh_pc_slot = g_pc_slot;
    ASSUME(PC_OK);
    ret = mem_insert_pc(d, 0, 0);
    CHECK(post_pc(ret, d, gh_prints - p0), "mem_insert_pc writes at the program counter, advances it, and refuses to leave the bank or the slot"); }
#elif defined(H_BITS)
  { int data = IN_INT("data"), pos = IN_INT("pos"), n = IN_INT("n");
    h_addr = IN_INT("address");
    ASSUME(h_addr > -0x10000000 && h_addr < 0x10000000);
    ASSUME(BITS_OK(pos, n));
    ASSUME(bits_clear(gh_k, gh_rom_k, h_addr, pos, n));
    ret = mem_insert_bits(h_addr, data, pos, n);
    CHECK(post_bits(ret, h_addr, data, pos, n, gh_prints - p0), "mem_insert_bits writes exactly the given bit field"); }
#endif
  REACH("end");
}
