/* Section placement (wlalink/write.c).

   Contract of placing one section: the link fails, or the section ends up at a place that
   its type, bank, alignment, offset and window allow, the ROM holds exactly its data there,
   every byte it covers is marked used, and no other byte or mark changes; the sections that
   search for room take only unused bytes, and fail only when no allowed place exists. */
#include "link_env.h"

static struct object_file gh_file;
struct pointer_array **g_section_table_table;
int g_section_table_table_max;
int g_section_write_order[SECTION_TYPES_COUNT - 2], g_ramsection_write_order[RAMSECTION_TYPES_COUNT];

struct object_file *get_file(int id) { (void)id; return &gh_file; }
char *get_file_name(int id) { (void)id; return "f"; }
char *get_source_file_name(int a, int b) { (void)a; (void)b; return "s"; }
int find_label(char *str, struct section *s, struct label **out) { (void)str; (void)s; *out = NULL; return FAILED; }
int add_label(struct label *l) { (void)l; return FAILED; }
int parse_context_from_name(char *name, char *context) { (void)name; context[0] = 0; return SUCCEEDED; }

#ifdef VCBMC
/* qsort is not modelled by the verifier */
#define qsort(base, n, sz, cmp) do { \
  struct section **gh_a = (struct section **)(base), *gh_x; int gh_i, gh_j; \
  for (gh_i = 1; gh_i < (int)(n); gh_i++) \
    for (gh_j = gh_i; gh_j > 0 && cmp(&gh_a[gh_j - 1], &gh_a[gh_j]) > 0; gh_j--) { \
      gh_x = gh_a[gh_j]; gh_a[gh_j] = gh_a[gh_j - 1]; gh_a[gh_j - 1] = gh_x; } \
  } while (0)
#ifdef H_SORT
static struct section *gh_sorted[4];
#define calloc(a, b) ((void *)gh_sorted)
#define free(p) ((void)0)
#endif
#endif

#include "wlalink/memory.c"
#include "wlalink/write.c"

#ifndef NB
#define NB 2                          /* ROM banks */
#endif
#ifndef BCAP
#define BCAP 6                        /* largest bank */
#endif
#define RCAP (NB * BCAP)
#ifndef ALIGNMENT
#define ALIGNMENT 1
#endif
#ifndef SCAP
#define SCAP 3                        /* largest section */
#endif

static struct section gh_s, gh_after, gh_s2;
static unsigned char gh_rom[RCAP], gh_use[RCAP], gh_old[RCAP], gh_oldu[RCAP], gh_data[SCAP], gh_data2[SCAP];
static int gh_bs[NB], gh_ba[NB];

static void setup_rom(void) {
  int i, a = 0;
  for (i = 0; i < NB; i++) {
    gh_bs[i] = IN_INT("banksize"); ASSUME(gh_bs[i] >= 1 && gh_bs[i] <= BCAP);
    gh_ba[i] = a; a += gh_bs[i];
  }
  g_banksizes = gh_bs; g_bankaddress = gh_ba; g_rombanks = NB; g_romsize = a;
  g_rom = gh_rom; g_rom_usage = gh_use;
  for (i = 0; i < RCAP; i++) {
    gh_rom[i] = gh_old[i] = IN_UCHAR("rom");
    gh_use[i] = gh_oldu[i] = IN_UCHAR("usage"); ASSUME(gh_use[i] <= 2);
  }
  g_section_overwrite = IN_INT("overwrite_before"); ASSUME(g_section_overwrite == ON || g_section_overwrite == OFF);
  g_memory_file_id = 0;
}

static void setup_section(struct section *s, int slot, unsigned char *data) {
  int i;
  s->data = data;
  for (i = 0; i < SCAP; i++) data[i] = IN_UCHAR("data");
  s->size = IN_INT("size"); ASSUME(s->size >= 1 && s->size <= SCAP);
  s->address = IN_INT("address"); ASSUME(s->address >= 0 && s->address <= BCAP);
#ifdef BANK
  s->bank = BANK;
#else
  s->bank = IN_INT("bank"); ASSUME(s->bank >= 0 && s->bank < NB);
#endif
  s->slot = slot; s->alive = YES; s->placed = NO; s->id = 0;
  s->alignment = ALIGNMENT;
  s->offset = IN_INT("offset"); ASSUME(s->offset >= 0 && s->offset <= 2);
  s->window_start = s->window_end = -1; s->bitwindow = 0;
#ifdef WINDOW
#if WINDOW == 1
  s->window_start = IN_INT("window_start"); s->window_end = IN_INT("window_end");
  ASSUME(s->window_start >= -1 && s->window_start <= 31 && s->window_end >= -1 && s->window_end <= 31);
#else
  s->bitwindow = IN_INT("bitwindow"); ASSUME(s->bitwindow >= 0 && s->bitwindow <= 3);
#endif
#endif
  g_slots[slot].address = IN_INT("slot_address"); ASSUME(g_slots[slot].address >= 0 && g_slots[slot].address <= 15);
  g_slots[slot].size = IN_INT("slot_size"); ASSUME(g_slots[slot].size >= 1 && g_slots[slot].size <= BCAP + 2);
}

/* doc: WINDOW - the section lies inside [start, end]; BITWINDOW n - all its bytes agree above the lowest n bits */
static int spec_window(struct section *s, int mem) {
  int i;
  if (s->window_start >= 0 && s->window_end >= 0)
    if (mem < s->window_start || mem + s->size > s->window_end || mem > s->window_end || mem + s->size < s->window_start) return 0;
  if (s->bitwindow != 0)
    for (i = 0; i < s->size; i++)
      if (((mem + i) >> s->bitwindow) != (mem >> s->bitwindow)) return 0;
  return 1;
}

/* may the section begin at bank offset a (before OFFSET is added)? lo <= a, and it ends by hi */
static int allowed(struct section *s, int bank, int a, int lo, int hi) {
  int i, p = a + s->offset;
  if (a < lo || p + s->size > hi || p + s->size > gh_bs[bank]) return 0;
  if ((a + gh_ba[bank]) % s->alignment != 0) return 0;
  for (i = 0; i < s->size; i++)
    if (gh_oldu[gh_ba[bank] + p + i] != 0) return 0;
  return spec_window(s, g_slots[s->slot].address + p);
}
static int fits_slot(struct section *s, int a) { return a + s->offset + s->size <= g_slots[s->slot].size; }

/* the lowest allowed place in a bank, or -1 */
static int first_place(struct section *s, int bank, int lo, int hi) {
  int a;
  for (a = 0; a <= BCAP; a++)
    if (allowed(s, bank, a, lo, hi)) return a;
  return -1;
}

/* the ROM after placing s at ROM address p */
static void check_rom(struct section *s, int p, int marks) {
  int i;
  for (i = 0; i < RCAP; i++) {
    if (i >= p && i < p + s->size) {
      CHECK(gh_rom[i] == s->data[i - p], "the section's bytes are in the ROM at its place");
      CHECK(gh_use[i] != 0, "the section's bytes are marked used");
    }
    else {
      CHECK(gh_rom[i] == gh_old[i], "no other ROM byte changes");
      CHECK(gh_use[i] == gh_oldu[i], "no other byte is marked");
    }
  }
  (void)marks;
}

#if defined(H_FREE) || defined(H_SUBFREE)
void harness(void) {
  int ret, lo, hi, bank, a, org, first;
  setup_rom();
  setup_section(&gh_s, 1, gh_data);
  org = gh_s.address; bank = gh_s.bank;
#ifdef H_FREE
  gh_s.status = SECTION_STATUS_SEMIFREE; lo = org; hi = gh_bs[bank];
  first = first_place(&gh_s, bank, lo, hi);
  ret = _write_section_free_and_semifree(&gh_s);
#else
  ASSUME(org <= gh_bs[bank]);        /* the assembler refuses .ORG beyond the bank */
  gh_s.status = SECTION_STATUS_SEMISUBFREE; lo = 0; hi = org;
  first = first_place(&gh_s, bank, lo, hi);
  ret = _write_section_semisubfree(&gh_s);
#endif
  if (ret == SUCCEEDED) {
    a = gh_s.address - gh_s.offset;
    CHECK(gh_s.bank == bank, "the section stays in its bank");
    CHECK(allowed(&gh_s, bank, a, lo, hi) && fits_slot(&gh_s, a), "the place is allowed and was unused");
    CHECK(gh_s.output_address == gh_s.address + gh_ba[bank] && gh_s.placed == YES, "the ROM address is recorded");
    check_rom(&gh_s, gh_s.output_address, 1);
  }
  else
    CHECK(first < 0 || !fits_slot(&gh_s, first), "placing fails only when there is no room");
  REACH("end");
}
#endif

#ifdef H_SUPERFREE
void harness(void) {
  int ret, q, a = -1, bank = -1;
  setup_rom();
  setup_section(&gh_s, 1, gh_data);
  for (q = 0; q < NB; q++) {
    if (bank < 0 && gh_bs[q] == g_slots[1].size && first_place(&gh_s, q, 0, gh_bs[q]) >= 0) {
      bank = q; a = first_place(&gh_s, q, 0, gh_bs[q]);
    }
  }
  gh_s.status = SECTION_STATUS_SUPERFREE;
  ret = _write_section_superfree(&gh_s);
  CHECK((ret == SUCCEEDED) == (bank >= 0), "placing fails only when there is no room");
  if (ret == SUCCEEDED) {
    CHECK(gh_s.bank == bank && gh_s.address == a + gh_s.offset, "the section is in the first suitable place of the first suitable bank");
    CHECK(gh_s.output_address == gh_s.address + gh_ba[bank] && gh_s.placed == YES, "the ROM address is recorded");
    check_rom(&gh_s, gh_s.output_address, 1);
  }
  REACH("end");
}
#endif

#ifdef H_SEMISUPER
static const int gh_list[] = LIST;
void harness(void) {
  int ret, i, a = -1, bank = -1, org, bad = 0;
  setup_rom();
  setup_section(&gh_s, 1, gh_data);
  strcpy(gh_s.banks, TEXT);
  org = gh_s.address;
  for (i = 0; i < (int)(sizeof(gh_list) / sizeof(int)); i++) {
    int q = gh_list[i];
    if (bank < 0 && q >= NB) bad = 1;
    if (bank < 0 && !bad && first_place(&gh_s, q, org, gh_bs[q]) >= 0) {
      a = first_place(&gh_s, q, org, gh_bs[q]);
      if (fits_slot(&gh_s, a)) bank = q;
    }
  }
  /* the slot is as large as the banks */
  for (i = 0; i < NB; i++) ASSUME(g_slots[1].size >= gh_bs[i]);
  gh_s.status = SECTION_STATUS_SEMISUPERFREE;
  ret = _write_section_semisuperfree(&gh_s);
  CHECK((ret == SUCCEEDED) == (bank >= 0), "placing fails only when no listed bank has room");
  if (ret == SUCCEEDED) {
    CHECK(gh_s.bank == bank, "the section is in the first listed bank with room");
    a = gh_s.address - gh_s.offset;
    CHECK(allowed(&gh_s, bank, a, org, gh_bs[bank]) && fits_slot(&gh_s, a), "the place is allowed and was unused");
    CHECK(gh_s.output_address == gh_s.address + gh_ba[bank] && gh_s.placed == YES, "the ROM address is recorded");
    check_rom(&gh_s, gh_s.output_address, 1);
  }
  REACH("end");
}
#endif

#if defined(H_FIXED)
/* KIND: 0 FORCE, 1 OVERWRITE, 2 ABSOLUTE; AFTER: the section follows another one
   3: FREE/SEMIFREE, 4: SEMISUBFREE, 5: SUPERFREE, 6: SEMISUPERFREE after another section */
void harness(void) {
  int ret, i, p, bank, at, room = 1, collide = 0;
  setup_rom();
  setup_section(&gh_s, 1, gh_data);
  bank = gh_s.bank; at = gh_s.address;
#ifdef AFTER
  gh_after.bank = bank; gh_after.placed = YES;
  gh_after.address = IN_INT("after_address"); gh_after.size = IN_INT("after_size");
  ASSUME(gh_after.address >= 0 && gh_after.address <= BCAP && gh_after.size >= 0 && gh_after.size <= BCAP);
  at = gh_after.address + gh_after.size + gh_s.offset;
  gh_s.after = &gh_after;
#if KIND >= 5
  gh_s.bank = IN_INT("old_bank"); ASSUME(gh_s.bank >= 0 && gh_s.bank < NB);
#endif
#endif
#if KIND == 2
  p = at; room = p + gh_s.size <= g_romsize;
#else
  p = at + gh_ba[bank];
  room = at + gh_s.size <= gh_bs[bank] && at + gh_s.size <= g_slots[1].size;
#endif
#if KIND != 1 && KIND != 2
  if (room)
    for (i = 0; i < gh_s.size; i++)
      if (gh_oldu[p + i] != 0 && gh_old[p + i] != gh_data[i]) collide = 1;
#endif
#if KIND == 0
  gh_s.status = SECTION_STATUS_FORCE; ret = _write_section_force(&gh_s);
#elif KIND == 1
  gh_s.status = SECTION_STATUS_OVERWRITE; ret = _write_section_overwrite(&gh_s);
#elif KIND == 2
  gh_s.status = SECTION_STATUS_ABSOLUTE; ret = _write_section_absolute(&gh_s);
#elif KIND == 3
  gh_s.status = SECTION_STATUS_FREE; ret = _write_section_free_and_semifree(&gh_s);
#elif KIND == 4
  gh_s.status = SECTION_STATUS_SEMISUBFREE; ret = _write_section_semisubfree(&gh_s);
#elif KIND == 5
  gh_s.status = SECTION_STATUS_SUPERFREE; ret = _write_section_superfree(&gh_s);
#else
  gh_s.status = SECTION_STATUS_SEMISUPERFREE; strcpy(gh_s.banks, "0"); ret = _write_section_semisuperfree(&gh_s);
#endif
  CHECK((ret == SUCCEEDED) == (room && !collide), "a section at a fixed place goes there or the link fails");
  if (ret == SUCCEEDED) {
    CHECK(gh_s.bank == bank && gh_s.address == at && gh_s.output_address == p && gh_s.placed == YES, "the section is where it was ordered to be");
    check_rom(&gh_s, p, 0);
  }
  REACH("end");
}
#endif

#ifdef H_UNROLL
static const int gh_list[] = LIST;
void harness(void) {
  int banks[1024], n = -1, i, ret;
  strcpy(gh_s.banks, TEXT);
  ret = _unroll_banks(&gh_s, banks, &n);
  if (gh_list[0] == -1)
    CHECK(ret == FAILED, "a malformed bank list is refused");
  else {
    CHECK(ret == SUCCEEDED && n == (int)(sizeof(gh_list) / sizeof(int)), "the bank list has the documented length");
    for (i = 0; i < n; i++)
      CHECK(banks[i] == gh_list[i], "the bank list is unrolled in order");
  }
  REACH("end");
}
#endif

#ifdef H_SORT
/* doc: sections with a higher PRIORITY go first, and the larger of equally important ones */
void harness(void) {
  static struct section s[3];
  struct section *p, *in[3];
  int i, n = 0;
  for (i = 0; i < 3; i++) {
    s[i].priority = IN_INT("priority"); s[i].size = IN_INT("size"); s[i].id = i;
    ASSUME(s[i].priority >= -100 && s[i].priority <= 0x10000 && s[i].size >= 0 && s[i].size <= 0x1000000);
    s[i].next = i < 2 ? &s[i + 1] : NULL; s[i].prev = i > 0 ? &s[i - 1] : NULL;
    in[i] = NULL;
  }
  g_sec_first = &s[0]; g_sec_last = &s[2]; g_sort_sections = IN_INT("sort") != 0 ? YES : NO;
  CHECK(sort_sections() == SUCCEEDED, "sorting works");
  for (p = g_sec_first; p != NULL && n < 3; p = p->next) {
    in[n++] = p;
    CHECK(p->next == NULL || p->next->prev == p, "the list is linked both ways");
  }
  CHECK(n == 3 && p == NULL && in[0] != in[1] && in[1] != in[2] && in[0] != in[2], "no section is lost or repeated");
  CHECK(g_sec_first->prev == NULL && g_sec_last == in[2], "the ends of the list are right");
  for (i = 0; i < 2 && g_sort_sections == YES; i++) {
    CHECK(in[i]->priority >= in[i + 1]->priority, "the more important section is first");
    CHECK(in[i]->priority != in[i + 1]->priority || in[i]->size >= in[i + 1]->size, "the larger section is first");
  }
  for (i = 0; i < 3 && g_sort_sections == NO; i++)
    CHECK(in[i] == &s[i], "unsorted sections keep their order");
  REACH("end");
}
#endif

#ifdef H_TWO
/* insert_sections(): two sections in the order the types (or the priorities) give */
static void spec_one(struct section *s, int status, int org) {
  int i, a, lo = 0, hi = gh_bs[0], p = s->address;
  if (status == SECTION_STATUS_SEMIFREE || status == SECTION_STATUS_FREE) lo = org;
  if (status == SECTION_STATUS_SEMISUBFREE) hi = org;
  a = s->address - s->offset;
  CHECK(s->placed == YES && s->output_address == s->address, "a live section is placed");
  if (status == SECTION_STATUS_FORCE || status == SECTION_STATUS_OVERWRITE || status == SECTION_STATUS_ABSOLUTE) {
    CHECK(s->address == org, "a section at a fixed place goes there");
    if (status == SECTION_STATUS_FORCE)
      for (i = 0; i < SCAP; i++)
        if (i < s->size) CHECK(gh_oldu[p + i] == 0 || gh_old[p + i] == s->data[i], "a FORCE section overwrites nothing");
  }
  else
    CHECK(allowed(s, 0, a, lo, hi) && fits_slot(s, a), "the place is allowed and was unused");
  for (i = 0; i < SCAP; i++)
    if (i < s->size) { gh_oldu[p + i] = 1; gh_old[p + i] = s->data[i]; }
}
void harness(void) {
  int ret, i, r1 = 0, r2 = 0, o1, o2;
  static const int order[] = { SECTION_STATUS_FORCE, SECTION_STATUS_SEMISUPERFREE, SECTION_STATUS_SEMISUBFREE, SECTION_STATUS_SEMIFREE, SECTION_STATUS_FREE, SECTION_STATUS_SUPERFREE, SECTION_STATUS_OVERWRITE };
  for (i = 0; i < SECTION_TYPES_COUNT - 2; i++) g_section_write_order[i] = order[i];
  g_ramsection_write_order[0] = SECTION_STATUS_RAM_FORCE; g_ramsection_write_order[1] = SECTION_STATUS_RAM_SEMISUBFREE;
  g_ramsection_write_order[2] = SECTION_STATUS_RAM_SEMIFREE; g_ramsection_write_order[3] = SECTION_STATUS_RAM_FREE;
  setup_rom();
  setup_section(&gh_s2, 1, gh_data2);
  setup_section(&gh_s, 1, gh_data);
  strcpy(gh_s.banks, "0"); strcpy(gh_s2.banks, "0");
  gh_s.status = ST1; gh_s2.status = ST2;
  ASSUME(ST1 != SECTION_STATUS_FREE || gh_s.address == 0); ASSUME(ST2 != SECTION_STATUS_FREE || gh_s2.address == 0);
  ASSUME(gh_s.address <= gh_bs[0] && gh_s2.address <= gh_bs[0]);
  ASSUME(g_slots[1].size == gh_bs[0]);
  gh_s.alive = IN_INT("alive1") != 0 ? YES : NO; gh_s2.alive = IN_INT("alive2") != 0 ? YES : NO;
  gh_s.next = &gh_s2; gh_s2.prev = &gh_s; g_sec_first = &gh_s; g_sec_last = &gh_s2;
  g_use_priority_only_writing_sections = PRIO;
  o1 = gh_s.address; o2 = gh_s2.address;
  for (i = 0; i < SECTION_TYPES_COUNT - 2; i++) {
    if (order[i] == ST1) r1 = i + 1;
    if (order[i] == ST2) r2 = i + 1;
  }
  ret = insert_sections();
  if (ret == SUCCEEDED) {
    /* the first section in the list wins a tie; absolute sections (rank 0) come before all others */
    if ((PRIO == YES && r1 != 0 && r2 != 0) || r1 <= r2) {
      if (gh_s.alive == YES) spec_one(&gh_s, ST1, o1);
      if (gh_s2.alive == YES) spec_one(&gh_s2, ST2, o2);
    }
    else {
      if (gh_s2.alive == YES) spec_one(&gh_s2, ST2, o2);
      if (gh_s.alive == YES) spec_one(&gh_s, ST1, o1);
    }
    for (i = 0; i < RCAP; i++) {
      CHECK(gh_rom[i] == gh_old[i], "the ROM holds the sections' bytes and nothing else changed");
      CHECK((gh_use[i] != 0) == (gh_oldu[i] != 0), "exactly the sections' bytes are marked");
    }
    CHECK(gh_s.alive == YES || gh_s.placed == NO, "a discarded section is not placed");
    CHECK(gh_s2.alive == YES || gh_s2.placed == NO, "a discarded section is not placed");
  }
  REACH("end");
}
#endif

/* ---------------- RAM ---------------- */
#if defined(H_RAM)
#define MCAP 8
static char gh_ram[MCAP + 1], gh_oldr[MCAP + 1], *gh_slots_of_bank[256];
static int ram_allowed(int a, int lo, int hi) {
  int i, p = a + gh_s.offset;
  if (a < lo || p + gh_s.size > hi || p + gh_s.size > g_slots[1].size) return 0;
  if ((a + g_slots[1].address) % gh_s.alignment != 0) return 0;
  for (i = 0; i < gh_s.size; i++)
    if (gh_oldr[p + i] != 0) return 0;
  return spec_window(&gh_s, g_slots[1].address + p);
}
/* KIND: 0 FREE/SEMIFREE, 1 SEMISUBFREE, 2 FORCE */
void harness(void) {
  int ret, i, lo, hi, a, first = -1, org, at = 0;
  setup_section(&gh_s, 1, gh_data);
  gh_s.bank = 1;
  g_slots[1].size = IN_INT("ram_size"); ASSUME(g_slots[1].size >= 1 && g_slots[1].size <= MCAP);
  for (i = 0; i <= MCAP; i++) { gh_ram[i] = gh_oldr[i] = (char)IN_UCHAR("ram"); ASSUME(gh_ram[i] == 0 || gh_ram[i] == 1); }
  g_ram_slots[1] = gh_slots_of_bank; gh_slots_of_bank[1] = gh_ram;
  org = gh_s.address;
  lo = org; hi = g_slots[1].size;
#if KIND == 1
  ASSUME(org <= g_slots[1].size);
  lo = 0; hi = org;
#endif
#ifdef AFTER
  gh_after.bank = 1; gh_after.slot = 1; gh_after.placed = YES;
  gh_after.address = IN_INT("after_address"); gh_after.size = IN_INT("after_size");
  ASSUME(gh_after.address >= 0 && gh_after.address <= MCAP && gh_after.size >= 0 && gh_after.size <= MCAP);
  gh_s.after = &gh_after;
  at = gh_after.address + gh_after.size + gh_s.offset;
#endif
  for (a = 0; a <= MCAP + 4; a++)
    if (first < 0 && ram_allowed(a, lo, hi)) first = a;
#if KIND == 0
  gh_s.status = SECTION_STATUS_RAM_SEMIFREE; ret = _write_ramsection_free_and_semifree(&gh_s);
#elif KIND == 1
  gh_s.status = SECTION_STATUS_RAM_SEMISUBFREE; ret = _write_ramsection_semisubfree(&gh_s);
#else
  gh_s.status = SECTION_STATUS_RAM_FORCE; ret = _write_ramsection_force(&gh_s);
  for (a = org; (a + g_slots[1].address) % gh_s.alignment != 0; a++) ;
  gh_s.window_start = gh_s.window_end = -1; gh_s.bitwindow = 0;
  first = ram_allowed(a, lo, hi) ? a : -1;
#endif
#ifdef AFTER
  {
    int ok = at + gh_s.size <= hi;
    if (ok)
      for (i = 0; i < gh_s.size; i++)
        if (gh_oldr[at + i] != 0) ok = 0;
    CHECK((ret == SUCCEEDED) == ok, "a RAMSECTION after another one goes there or the link fails");
    if (ret == SUCCEEDED) CHECK(gh_s.address == at, "the RAMSECTION follows the other one");
  }
#else
  CHECK((ret == SUCCEEDED) == (first >= 0), "placing fails only when there is no room");
  if (ret == SUCCEEDED)
    CHECK(ram_allowed(gh_s.address - gh_s.offset, lo, hi), "the place is allowed and was unused");
#if KIND == 2
  if (ret == SUCCEEDED)
    CHECK(gh_s.address - gh_s.offset == first, "a FORCE RAMSECTION is at its address, rounded up to the alignment");
#endif
#endif
  if (ret == SUCCEEDED) {
    CHECK(gh_s.output_address == gh_s.address && gh_s.placed == YES && gh_s.bank == 1, "the address is recorded");
    for (i = 0; i <= MCAP; i++)
      CHECK(gh_ram[i] == ((i >= gh_s.address && i < gh_s.address + gh_s.size) ? 1 : gh_oldr[i]), "exactly the section's bytes are reserved");
  }
  REACH("end");
}
#endif
