/* Labels, discarding and the output file (wlalink/write.c, analyze.c, discard.c). */
#ifdef INTREAL
/* addresses are whole numbers below 2^53, on which IEEE addition is exact: the label's "double"
   is verified as a 64-bit integer */
typedef long long vc_ll;
#include "vc.h"
#include <math.h>
#define double INTREAL
#undef IN_DOUBLE
#define IN_DOUBLE(t) ((INTREAL)IN_INT(t))
#endif
#include "link_env.h"

#ifdef H_ROMFILE
/* the output file, as a byte sequence */
#define OCAP 640
static unsigned char gh_out[OCAP];
static int gh_len, gh_open, gh_oob;
static const unsigned char *gh_lo[4]; static int gh_cap[4];     /* the buffers that may be read */
static void gh_put(int c) { if (gh_len < OCAP) gh_out[gh_len] = (unsigned char)c; gh_len++; }
#define SECOND(a, b, ...) b
#define fopen(n, m) ((FILE *)(gh_open++, (void *)&gh_open))
#define fclose(f) (gh_open--)
#define fprintf(f, fmt, ...) gh_put((int)(long)(SECOND(0, ##__VA_ARGS__, 0, 0)))
#define fwrite(p, sz, n, f) gh_write((const unsigned char *)(p), (size_t)(sz) * (size_t)(n))
static size_t gh_write(const unsigned char *p, size_t n);
#endif

static struct object_file gh_file;
int g_section_write_order[SECTION_TYPES_COUNT - 2], g_ramsection_write_order[RAMSECTION_TYPES_COUNT];
char *get_source_file_name(int a, int b) { (void)a; (void)b; return "s"; }
struct object_file *get_file(int id) { (void)id; return &gh_file; }
char *get_file_name(int id) { (void)id; return "f"; }

#if defined(H_SCOPE)
/* contract of hashmap.c: a finite map (established by property C12) */
#include "hashmap.h"
#include "wlalink/defines.h"
struct gh_map { int used[3]; char *nskey; void *ns; };      /* slot k: label k */
static struct gh_map gh_maps[5];
static struct label gh_l[3];
static int gh_get(map_t in, char *key, any_t *arg) {
  struct gh_map *m = (struct gh_map *)in;
  int i;
  if (arg != NULL) *arg = NULL;
  if (m->ns != NULL && strcmp(m->nskey, key) == 0) { if (arg != NULL) *arg = m->ns; return MAP_OK; }
  for (i = 0; i < 3; i++)
    if (m->used[i] && strcmp(gh_l[i].name, key) == 0) { if (arg != NULL) *arg = &gh_l[i]; return MAP_OK; }
  return MAP_MISSING;
}
static int gh_mput(map_t in, char *key, any_t v) {
  struct gh_map *m = (struct gh_map *)in;
  int i;
  for (i = 0; i < 3; i++)
    if (v != (any_t)&gh_l[i] && m->used[i] && strcmp(gh_l[i].name, key) == 0) m->used[i] = 0;
  for (i = 0; i < 3; i++)
    if (v == (any_t)&gh_l[i]) m->used[i] = 1;
  return MAP_OK;
}
#define hashmap_get gh_get
#define hashmap_put gh_mput
#endif

#if defined(H_SCOPE) || defined(H_CONTEXT)
#define g_sec_bankhd_last gh_sec_bankhd_last    /* declared with another type there; neither file uses it here */
#include "wlalink/write.c"
#undef g_sec_bankhd_last
#define _find_section _find_section_by_name
struct namespace_def *g_namespace_first, *g_namespace_last;
struct source_file_name *g_source_file_names;
#include "wlalink/analyze.c"
#elif defined(H_DISCARD)
struct pointer_array **g_section_table_table;
int g_section_table_table_max;
#include "wlalink/defines.h"
/* separate objects, so that the verifier does not see one big array */
static struct section gh_sec0, gh_sec1, gh_sec2, gh_bh;
static struct label gh_lab0, gh_lab1, gh_lab2, gh_lab3;
static struct section *const gh_sec[3] = { &gh_sec0, &gh_sec1, &gh_sec2 };
static struct label *const gh_lab[4] = { &gh_lab0, &gh_lab1, &gh_lab2, &gh_lab3 };
/* contract of find_label (property C13): the label of that name, or none */
int find_label(char *str, struct section *s, struct label **out) {
  (void)s;
  *out = NULL;
  if (str[0] == 'a') *out = &gh_lab0;
  else if (str[0] == 'b') *out = &gh_lab1;
  else if (str[0] == 'c') *out = &gh_lab2;
  else if (str[0] == 'd') *out = &gh_lab3;
  return *out ? SUCCEEDED : FAILED;
}
struct section *find_section(int id) { return id == 0 ? &gh_sec0 : id == 1 ? &gh_sec1 : id == 2 ? &gh_sec2 : NULL; }
int is_label_anonymous(char *name) { return (name[0] == '-' || name[0] == '+') ? YES : NO; }
#include "wlalink/discard.c"
#else
struct pointer_array **g_section_table_table;
int g_section_table_table_max;
static struct label gh_found; static int gh_has;
int find_label(char *str, struct section *s, struct label **out) { (void)str; (void)s; *out = gh_has ? &gh_found : NULL; return gh_has ? SUCCEEDED : FAILED; }
int add_label(struct label *l) { (void)l; return FAILED; }
int parse_context_from_name(char *name, char *context) { (void)name; context[0] = 0; return SUCCEEDED; }
#include "wlalink/memory.c"
#include "wlalink/write.c"
#endif

#ifdef H_ADDR
/* fix_label_addresses(): every live label gets the address its section's place gives */
static int is_ram(int st) { return st == SECTION_STATUS_RAM_FREE || st == SECTION_STATUS_RAM_FORCE || st == SECTION_STATUS_RAM_SEMIFREE || st == SECTION_STATUS_RAM_SEMISUBFREE; }
void harness(void) {
  static struct label l[2];
  static struct section s;
  static int ba[4];
  int i, off[2], bank[2], slot[2], adr[4];
  for (i = 0; i < 4; i++) { adr[i] = ba[i] = IN_INT("bankaddress"); ASSUME(ba[i] >= 0 && ba[i] <= 0x1000000); }
  g_bankaddress = ba;
  for (i = 0; i < 4; i++) {
    g_slots[i].address = IN_INT("slotaddress"); g_slots[i].size = IN_INT("slotsize");
    ASSUME(g_slots[i].address >= 0 && g_slots[i].address <= 0xFFFFFF && g_slots[i].size >= 0 && g_slots[i].size <= 0x100000);
  }
  s.id = IN_INT("id"); s.bank = IN_INT("sbank"); s.slot = IN_INT("sslot"); s.address = IN_INT("saddr"); s.status = IN_INT("sstatus");
  ASSUME(s.bank >= 0 && s.bank < 4 && s.slot >= 0 && s.slot < 4 && s.address >= 0 && s.address <= 0x1000000);
  for (i = 0; i < 2; i++) {
    off[i] = IN_INT("offset"); ASSUME(off[i] >= 0 && off[i] <= 0x1000000);
    l[i].address = off[i]; l[i].rom_address = 12345;
    l[i].alive = IN_INT("alive") ? YES : NO; l[i].status = IN_INT("status");
    l[i].section_status = IN_INT("insection") ? ON : OFF;
    l[i].bank = bank[i] = IN_INT("bank"); l[i].slot = slot[i] = IN_INT("slot");
    ASSUME(bank[i] >= 0 && bank[i] < 4 && slot[i] >= 0 && slot[i] < 4);
    l[i].section = s.id; l[i].section_struct = &s;
  }
  l[0].next = &l[1]; l[1].next = NULL; g_labels_first = &l[0];
  CHECK(fix_label_addresses() == SUCCEEDED, "label addresses are computed");
  for (i = 0; i < 2; i++) {
    int mov = l[i].alive == YES && (l[i].status == LABEL_STATUS_LABEL || l[i].status == LABEL_STATUS_SYMBOL || l[i].status == LABEL_STATUS_BREAKPOINT);
    if (!mov)
      CHECK(l[i].address == off[i] && l[i].rom_address == 12345 && l[i].bank == bank[i] && l[i].slot == slot[i], "other symbols are left alone");
    else if (l[i].section_status == OFF) {
      CHECK(l[i].bank == bank[i] && l[i].slot == slot[i], "the bank and slot are the label's own");
      CHECK(l[i].address == off[i] + g_slots[slot[i]].address, "the address is slot address + offset");
      CHECK(l[i].rom_address == off[i] + adr[bank[i]], "the ROM address is bank address + offset");
      CHECK(l[i].address_in_section == off[i], "the offset is kept");
    }
    else {
      CHECK(l[i].bank == s.bank && l[i].slot == s.slot, "the bank and slot are the section's");
      CHECK(l[i].address == (double)off[i] + s.address + (s.status == SECTION_STATUS_ABSOLUTE ? 0 : g_slots[s.slot].address), "the address is slot address + section address + offset");
      CHECK(l[i].rom_address == (double)off[i] + s.address + (is_ram(s.status) ? (double)g_slots[s.slot].size * s.bank : adr[s.bank]), "the ROM address is bank address + section address + offset");
      CHECK(l[i].address_in_section == off[i], "the offset is kept");
    }
  }
  REACH("end");
}
#endif

#ifdef H_SNESBANK
void harness(void) {
  static struct label l; static struct section s;
  int r, ram, bank, rom, x;
  s.status = IN_INT("status");
  l.section_status = IN_INT("insection") ? ON : OFF;
  l.section_struct = IN_INT("struct") ? &s : NULL;
  l.bank = bank = IN_INT("bank"); l.base = IN_INT("base"); rom = IN_INT("rom"); l.rom_address = rom;
  ASSUME(bank >= 0 && bank <= 255 && l.base >= 0 && l.base <= 255 && rom >= 0 && rom <= 0x1000000);
  g_snes_mode = IN_INT("snesmode"); g_snes_rom_mode = IN_INT("rommode");
  ASSUME(g_snes_rom_mode == SNES_ROM_MODE_LOROM || g_snes_rom_mode == SNES_ROM_MODE_HIROM || g_snes_rom_mode == SNES_ROM_MODE_EXHIROM || g_snes_rom_mode == SNES_ROM_MODE_EXLOROM);
  ram = l.section_status == ON && l.section_struct != NULL && (s.status == SECTION_STATUS_RAM_FREE || s.status == SECTION_STATUS_RAM_FORCE || s.status == SECTION_STATUS_RAM_SEMIFREE || s.status == SECTION_STATUS_RAM_SEMISUBFREE);
  r = get_snes_pc_bank(&l);
  if (g_snes_mode == 0 || ram) x = bank;
  else x = (g_snes_rom_mode == SNES_ROM_MODE_HIROM || g_snes_rom_mode == SNES_ROM_MODE_EXHIROM) ? rom >> 16 : rom >> 15;
  CHECK(r == (x + l.base) * 65536, "the 65816 bank byte is the mapped ROM bank plus the base");
  REACH("end");
}
#endif

#ifdef H_LIBBASE
void harness(void) {
  static struct label l[2]; static struct section s[2];
  int i, b[2], exp;
  for (i = 0; i < 2; i++) {
    s[i].id = i + 5; s[i].library_status = IN_INT("lib") ? ON : OFF; s[i].base_defined = IN_INT("def") ? YES : NO; s[i].base = IN_INT("sbase");
    l[i].section_status = IN_INT("on") ? ON : OFF; l[i].section = IN_INT("sec"); l[i].base = b[i] = IN_INT("base");
  }
  s[0].next = &s[1]; s[1].next = NULL; l[0].next = &l[1]; l[1].next = NULL;
  g_sec_first = &s[0]; g_labels_first = &l[0];
  correct_65816_library_sections();
  for (i = 0; i < 2; i++) {
    exp = b[i];
    if (l[i].section_status == ON && (l[i].section == 5 || l[i].section == 6) && s[l[i].section - 5].library_status == ON && s[l[i].section - 5].base_defined == YES)
      exp = s[l[i].section - 5].base;
    CHECK(l[i].base == exp, "labels of library sections take the section's base, others keep theirs");
  }
  REACH("end");
}
#endif

#ifdef H_ANON
static const char *const gh_names[] = { "-", "--", "+", "++", "__" };
static const char *const gh_query[] = { "-", "--", "+", "++", "_b", "_B", "_f", "_F" };
/* get_closest_anonymous_label(): the nearest matching label in the right direction */
void harness(void) {
  static struct label l[3];
  static struct label *tab[3];
  struct label *r;
  static char ctx[2];
  int i, rom = IN_INT("rom"), file = IN_INT("file"), on = IN_INT("on") ? ON : OFF, sec = IN_INT("section"), n = IN_INT("n");
  int best = -1, bd = 0;
  ASSUME(n >= 0 && n <= 3 && rom >= 0 && rom <= 0xFFFFFF);
  ctx[0] = IN_INT("context") ? 'x' : 0; ctx[1] = 0;
  for (i = 0; i < 3; i++) {
    int k = IN_INT("name"), a = IN_INT("address");
    ASSUME(k >= 0 && k < 5 && a >= 0 && a <= 0xFFFFFF);
    strcpy(l[i].name, k == 0 ? "-" : k == 1 ? "--" : k == 2 ? "+" : k == 3 ? "++" : "__");
    l[i].context[0] = IN_INT("lcontext") ? 'x' : 0; l[i].context[1] = 0;
    l[i].rom_address = a; l[i].file_id = IN_INT("lfile"); l[i].section_status = IN_INT("lon") ? ON : OFF; l[i].section = IN_INT("lsection");
    tab[i] = &l[i];
    if (i < n && k == (QUERY < 4 ? QUERY : 4) && l[i].context[0] == ctx[0] && l[i].file_id == file && l[i].section_status == on && (on == OFF || l[i].section == sec)) {
      int d = (QUERY < 2 || QUERY == 4 || QUERY == 5) ? rom - a : a - rom;
      int ok = (QUERY < 2 || QUERY == 4 || QUERY == 5) ? d >= 0 : d > 0;
      if (ok && (best < 0 || d < bd)) { best = i; bd = d; }
    }
  }
  g_sorted_anonymous_labels = tab; g_num_sorted_anonymous_labels = n;
  r = get_closest_anonymous_label((char *)gh_query[QUERY], ctx, rom, file, on, sec);
  if (best < 0)
    CHECK(r == NULL, "no label in that direction");
  else {
    CHECK(r != NULL && r->rom_address == l[best].rom_address, "the nearest anonymous label is taken");
    CHECK(r != NULL && strcmp(r->name, l[best].name) == 0 && r->context[0] == ctx[0] && r->file_id == file && r->section_status == on && (on == OFF || r->section == sec), "the label is one of the same name, context, file and section");
  }
  REACH("end");
}
#endif

#ifdef H_ISANON
/* is_label_anonymous(): +..., -..., _f/_b/__ (with an optional :context) */
void harness(void) {
  static char t[6];
  int i, n = 0, spec;
  for (i = 0; i < 5; i++) t[i] = (char)IN_UCHAR("c");
  t[5] = 0;
  while (t[n] != 0) n++;
  spec = 0;
  if (t[0] == '-' || t[0] == '+') {
    for (i = 0; t[i] == t[0]; i++) ;
    spec = t[i] == 0 || t[i] == ':';
  }
  else if (t[0] == '_' && (t[1] == 'f' || t[1] == 'F' || t[1] == 'b' || t[1] == 'B' || t[1] == '_'))
    spec = t[2] == 0 || t[2] == ':';
  CHECK((is_label_anonymous(t) == YES) == spec, "anonymous labels are recognised");
  REACH("end");
}
#endif

#ifdef H_CONTEXT
void harness(void) {
  static char t[7], o[7], ctx[7];
  int i, p = -1;
  for (i = 0; i < 6; i++) t[i] = o[i] = (char)IN_UCHAR("c");
  ctx[0] = 'Q'; ctx[1] = 0;
  for (i = 0; i < 6 && p < 0 && o[i] != 0; i++)
    if (o[i] == ':') p = i;
  parse_context_from_name(t, ctx);
  if (p < 0)
    CHECK(strcmp(t, o) == 0 && ctx[0] == 'Q', "a name without a context is left alone");
  else {
    CHECK(strcmp(ctx, o + p + 1) == 0, "the context is the text after the first colon");
    o[p] = 0;
    CHECK(strcmp(t, o) == 0, "the name is the text before the colon");
  }
  REACH("end");
}
#endif

#ifdef H_SCOPE
/* insert_label_into_maps() + find_label(): the scoping rules */
static struct section gh_sec[2];
static struct namespace_def gh_ns;
static const char *gh_n[3] = { NAME0, NAME1, NAME2 };
static int in_sec(int i, int k) { return gh_l[i].status == LABEL_STATUS_LABEL && is_label_anonymous(gh_l[i].name) == NO && gh_l[i].section_status == ON && gh_l[i].section_struct == &gh_sec[k]; }
static int in_ns(int i) { return gh_l[i].status == LABEL_STATUS_LABEL && is_label_anonymous(gh_l[i].name) == NO && gh_l[i].section_status == ON && gh_l[i].section_struct->nspace != NULL && gh_l[i].name[0] != '_'; }
static int in_global(int i) {
  if (gh_l[i].status != LABEL_STATUS_LABEL || is_label_anonymous(gh_l[i].name) == YES) return 0;
  return gh_l[i].section_status == OFF || (gh_l[i].section_struct->nspace == NULL && gh_l[i].name[0] != '_');
}
void harness(void) {
  int i, j, fail = 0, ok = 1, q, best = -1;
  struct label *out = &gh_l[0];
  struct section *from;
  char *dot;
  for (i = 0; i < 2; i++) { gh_sec[i].id = i; gh_sec[i].label_map = (struct map_t *)&gh_maps[1 + i]; gh_sec[i].nspace = IN_INT("namespace") ? &gh_ns : NULL; }
  gh_ns.label_map = (struct map_t *)&gh_maps[3]; strcpy(gh_ns.name, "N");
  g_global_unique_label_map = (struct map_t *)&gh_maps[0]; g_namespace_map = (struct map_t *)&gh_maps[4];
  gh_maps[4].nskey = "N"; gh_maps[4].ns = &gh_ns;
  g_allow_duplicate_labels_and_definitions = NO;
  for (i = 0; i < 3; i++) {
    strcpy(gh_l[i].name, gh_n[i]);
    gh_l[i].status = IN_INT("symbol") ? LABEL_STATUS_SYMBOL : LABEL_STATUS_LABEL;
    gh_l[i].section_status = IN_INT("insection") ? ON : OFF;
    gh_l[i].section = IN_INT("section") ? 1 : 0;
    gh_l[i].section_struct = gh_l[i].section_status == ON ? &gh_sec[gh_l[i].section] : NULL;
  }
  for (i = 0; i < 3; i++)
    for (j = 0; j < i; j++)
      if (strcmp(gh_n[i], gh_n[j]) == 0 && ((in_sec(i, 0) && in_sec(j, 0)) || (in_sec(i, 1) && in_sec(j, 1)) || (in_ns(i) && in_ns(j)) || (in_global(i) && in_global(j))))
        fail = 1;
  for (i = 0; i < 3 && ok; i++)
    if (insert_label_into_maps(&gh_l[i], 0) == FAILED) ok = 0;
  CHECK(ok == !fail, "a name defined twice in one scope is an error, and nothing else is");
  if (ok) {
    q = IN_INT("from"); ASSUME(q >= 0 && q <= 2);
    from = q == 2 ? NULL : &gh_sec[q];
    dot = strchr(QUERY, '.');
    if (dot != NULL && dot[-1] == 'N' && dot == (char *)QUERY + 1)
      for (i = 0; i < 3; i++) if (best < 0 && in_ns(i) && strcmp(gh_n[i], dot + 1) == 0) best = i;
    if (best < 0 && from != NULL && from->nspace != NULL)
      for (i = 0; i < 3; i++) if (best < 0 && in_ns(i) && strcmp(gh_n[i], QUERY) == 0) best = i;
    if (best < 0 && from != NULL)
      for (i = 0; i < 3; i++) if (best < 0 && in_sec(i, q) && strcmp(gh_n[i], QUERY) == 0) best = i;
    if (best < 0)
      for (i = 0; i < 3; i++) if (best < 0 && in_global(i) && strcmp(gh_n[i], QUERY) == 0) best = i;
    CHECK((find_label((char *)QUERY, from, &out) == SUCCEEDED) == (best >= 0), "a name is found exactly when it is visible");
    CHECK(out == (best >= 0 ? &gh_l[best] : NULL), "the name means the innermost visible label");
  }
  REACH("end");
}
#endif

#ifdef H_DISCARD
/* discard_unused_sections(): exactly the sections that are neither kept nor reached from live code are dropped */
static int is_root(int i) {
  int st = gh_sec[i]->status;
  return gh_sec[i]->keep == YES || gh_sec[i]->name[0] == '!' ||
    !(st == SECTION_STATUS_FREE || st == SECTION_STATUS_SEMIFREE || st == SECTION_STATUS_SEMISUBFREE || st == SECTION_STATUS_SUPERFREE || st == SECTION_STATUS_RAM_FREE || st == SECTION_STATUS_RAM_SEMIFREE || st == SECTION_STATUS_RAM_SEMISUBFREE);
}
static struct reference gh_r[NREF + 1];
static struct stack gh_st[NCALC + 1];
static struct stack_item gh_it[NCALC + 1][2];
static int gh_from[NREF + NCALC + 1], gh_to[NREF + NCALC + 1], gh_to2[NREF + NCALC + 1];  /* section ids; -1: outside sections / no section; 3: bank header */
void harness(void) {
  int i, k, n = NREF + NCALC, alive[3], again;
  for (i = 0; i < 3; i++) {
    gh_sec[i]->id = i; gh_sec[i]->alive = YES; gh_sec[i]->name[0] = IN_INT("bang") ? '!' : 's'; gh_sec[i]->name[1] = 0;
    gh_sec[i]->keep = IN_INT("keep") ? YES : NO; gh_sec[i]->status = IN_INT("status");
    gh_sec[i]->referenced = IN_INT("stale"); ASSUME(gh_sec[i]->referenced >= 0 && gh_sec[i]->referenced <= 3);
    gh_sec[i]->next = i < 2 ? gh_sec[i + 1] : NULL;
    gh_lab[i]->alive = YES; gh_lab[i]->next = gh_lab[i + 1];
    gh_lab[i]->section_status = ON; gh_lab[i]->section_struct = gh_sec[i]; gh_lab[i]->section = i;
  }
  gh_lab[3]->section_status = OFF; gh_lab[3]->section_struct = NULL; gh_lab[3]->alive = YES; gh_lab[3]->next = NULL; g_labels_first = gh_lab[0];
  gh_bh.id = 7; gh_bh.alive = YES; g_sec_bankhd_first = &gh_bh;
  g_sec_first = gh_sec[0];
  g_reference_first = NREF ? &gh_r[0] : NULL; g_stacks_first = NCALC ? &gh_st[0] : NULL;
  for (k = 0; k < n; k++) {
    int f = IN_INT("from"), t = IN_INT("to");
    ASSUME(f >= -1 && f <= 3 && t >= 0 && t <= 4);
    gh_from[k] = f; gh_to[k] = t;
    if (k < NREF) {
      gh_r[k].name[0] = (char)('a' + t); gh_r[k].name[1] = 0;
      gh_r[k].section_status = f == -1 ? OFF : ON; gh_r[k].section = f == 3 ? 7 : f;
      gh_r[k].next = k + 1 < NREF ? &gh_r[k + 1] : NULL;
    }
    else {
      struct stack *s = &gh_st[k - NREF];
      s->section_status = f == -1 ? OFF : ON; s->section = f == 3 ? 7 : f;
      s->stack_items = gh_it[k - NREF]; s->stacksize = 2;
      /* the first item is a value or another label */
      gh_to2[k] = IN_INT("to2"); ASSUME(gh_to2[k] >= -1 && gh_to2[k] <= 4);
      gh_it[k - NREF][0].type = gh_to2[k] >= 0 ? STACK_ITEM_TYPE_LABEL : STACK_ITEM_TYPE_VALUE;
      gh_it[k - NREF][0].string[0] = (char)('a' + (gh_to2[k] >= 0 ? gh_to2[k] : 0)); gh_it[k - NREF][0].string[1] = 0;
      gh_it[k - NREF][1].type = STACK_ITEM_TYPE_LABEL; gh_it[k - NREF][1].string[0] = (char)('a' + t); gh_it[k - NREF][1].string[1] = 0;
      s->next = k + 1 < n ? &gh_st[k - NREF + 1] : NULL;
    }
  }
  /* greatest set closed under: a section stays if it is a root or something live outside it refers to it */
  for (i = 0; i < 3; i++) alive[i] = 1;
  for (again = 0; again < 4; again++)
    for (i = 0; i < 3; i++) {
      int ref = is_root(i);
      for (k = 0; k < n; k++)
        if ((gh_to[k] == i || (k >= NREF && gh_to2[k] == i)) && gh_from[k] != i && (gh_from[k] == -1 || gh_from[k] == 3 || alive[gh_from[k]])) ref = 1;
      if (!ref) alive[i] = 0;
    }
  CHECK(discard_unused_sections() == SUCCEEDED, "discarding works");
  for (i = 0; i < 3; i++) {
    CHECK(!alive[i] || gh_sec[i]->alive == YES, "no section that is kept or used by live code is discarded");
    CHECK(alive[i] || gh_sec[i]->alive == NO, "a section that nothing live uses is discarded");
  }
  discard_dropped_labels();
  for (i = 0; i < 4; i++)
    CHECK(gh_lab[i]->alive == (i == 3 || alive[i] ? YES : NO), "exactly the labels of discarded sections are dropped");
  REACH("end");
}
#endif

#ifdef H_ROMFILE
#define NB 2
#define BCAP 3
static unsigned char gh_rom[NB * BCAP], gh_use[NB * BCAP], gh_hd[2], gh_ft[2], gh_bh[2][2];
static unsigned char gh_exp[OCAP]; static int gh_n;
static void ex(int c) { gh_exp[gh_n++] = (unsigned char)c; }
static size_t gh_write(const unsigned char *p, size_t n) {
  size_t i;
  CHECK(n <= NB * BCAP, "no more bytes are written than the program has");
  for (i = 0; i < n && n <= NB * BCAP; i++) gh_put(p[i]);
  return n;
}
void harness(void) {
  static struct section s[2];
  static int ba[NB], bs[NB];
  int i, j, ret, b = -1, e = -1, sa = 0, ea = 0, prg = 0, bad = 0;
  g_romsize = 0;
  for (i = 0; i < NB; i++) { bs[i] = IN_INT("banksize"); ASSUME(bs[i] >= 1 && bs[i] <= BCAP); ba[i] = g_romsize; g_romsize += bs[i]; }
  g_banksizes = bs; g_bankaddress = ba; g_rombanks = NB; g_rom = gh_rom; g_rom_usage = gh_use;
  for (i = 0; i < NB * BCAP; i++) { gh_rom[i] = IN_UCHAR("rom"); gh_use[i] = IN_UCHAR("use"); ASSUME(gh_use[i] <= 1); }
  for (i = 0; i < 2; i++) {
    gh_hd[i] = IN_UCHAR("header"); gh_ft[i] = IN_UCHAR("footer");
    gh_bh[i][0] = IN_UCHAR("bh"); gh_bh[i][1] = IN_UCHAR("bh");
    s[i].data = gh_bh[i]; s[i].size = 1 + i; s[i].bank = IN_INT("bhbank"); ASSUME(s[i].bank >= 0 && s[i].bank <= NB);
  }
  ASSUME(s[0].bank != s[1].bank);
  s[0].next = &s[1]; s[1].next = NULL;
  g_sec_bankhd_first = IN_INT("bankheaders") ? &s[0] : NULL;
  g_file_header_size = 2; g_file_header = IN_INT("hasheader") ? gh_hd : NULL;
#if SMC
  g_file_header = NULL;      /* keeps the 512 header bytes at constant places for the verifier */
#endif
  g_file_footer_size = 2; g_file_footer = IN_INT("hasfooter") ? gh_ft : NULL;
  g_smc_status = SMC; g_snes_rom_mode = IN_INT("rommode"); g_snes_sramsize = IN_INT("sram"); ASSUME(g_snes_sramsize >= 0 && g_snes_sramsize <= 3);
  g_output_mode = MODE;
  g_program_address_start_type = LOAD_ADDRESS_TYPE_VALUE; g_program_address_end_type = LOAD_ADDRESS_TYPE_VALUE;
  g_program_address_start = IN_INT("bS"); g_program_address_end = IN_INT("bE");
  ASSUME(g_program_address_start >= -1 && g_program_address_start <= 20 && g_program_address_end >= -1 && g_program_address_end <= 20);
#if MODE == OUTPUT_ROM
  ASSUME(g_program_address_start == -1 && g_program_address_end == -1);
#endif
  g_output_type = OUTPUT_TYPE_UNDEFINED;
#ifdef PRG
  g_output_type = OUTPUT_TYPE_CBM_PRG;
  g_load_address_type = PRG;
  g_load_address = IN_INT("load"); ASSUME(g_load_address >= 0 && g_load_address <= 0xFFFF);
  prg = g_load_address;
#if PRG == LOAD_ADDRESS_TYPE_LABEL
  {
    static struct section ls; int a = IN_INT("labeladdress");
    ASSUME(a >= 0 && a <= 0xFFFFFF);
    gh_has = IN_INT("has") != 0; gh_found.address = a; gh_found.status = IN_INT("lstatus"); gh_found.section_struct = IN_INT("lsec") ? &ls : NULL;
    ls.status = IN_INT("lsstatus"); ls.alive = IN_INT("lalive") ? YES : NO;
    prg = a;
    if (!gh_has || gh_found.status != LABEL_STATUS_LABEL) bad = 1;
    else if (gh_found.section_struct != NULL && (ls.alive == NO || ls.status == SECTION_STATUS_RAM_FREE || ls.status == SECTION_STATUS_RAM_FORCE || ls.status == SECTION_STATUS_RAM_SEMIFREE || ls.status == SECTION_STATUS_RAM_SEMISUBFREE)) bad = 1;
  }
#endif
#if PRG == LOAD_ADDRESS_TYPE_UNDEFINED
  {
    static struct label l[2]; static struct section ls; int best = -1;
    ls.status = IN_INT("lsstatus"); ls.alive = IN_INT("lalive") ? YES : NO;
    for (i = 0; i < 2; i++) {
      int a = IN_INT("labeladdress"), ok;
      ASSUME(a >= 0 && a <= 0xFFFFFF);
      l[i].address = a; l[i].status = IN_INT("lstatus"); l[i].section_struct = IN_INT("lsec") ? &ls : NULL; l[i].file_id = IN_INT("lfile") ? 0 : -1;
      ok = l[i].status == LABEL_STATUS_LABEL && l[i].file_id >= 0;
      if (l[i].section_struct != NULL && (ls.alive == NO || ls.status == SECTION_STATUS_RAM_FREE || ls.status == SECTION_STATUS_RAM_FORCE || ls.status == SECTION_STATUS_RAM_SEMIFREE || ls.status == SECTION_STATUS_RAM_SEMISUBFREE)) ok = 0;
      if (ok && (best < 0 || a < best)) best = a;
    }
    l[0].next = &l[1]; l[1].next = NULL; g_labels_first = &l[0];
    prg = best; bad = best < 0;
  }
#endif
#endif
  if (g_program_address_start >= g_romsize || g_program_address_end >= g_romsize) bad = 1;
  if (g_program_address_start >= 0 && g_program_address_end >= 0 && g_program_address_start > g_program_address_end) bad = 1;
  /* the expected file */
  if (g_file_header != NULL) { ex(gh_hd[0]); ex(gh_hd[1]); }
#if SMC
  if (MODE == OUTPUT_ROM) {
    int m = (g_snes_sramsize ^ 3) << 2;
    if (g_snes_rom_mode == SNES_ROM_MODE_HIROM || g_snes_rom_mode == SNES_ROM_MODE_EXHIROM) m |= 0x30;
    ex(g_romsize / 8192); ex(g_romsize / 8192 / 256); ex(m);
    for (i = 3; i < 8; i++) ex(0);
    ex(0xAA); ex(0xBB); ex(4);
    for (i = 11; i < 512; i++) ex(0);
  }
#endif
#ifdef PRG
  ex(prg); ex(prg >> 8);
#endif
#if MODE == OUTPUT_ROM
  for (i = 0; i < NB; i++) {
    if (g_sec_bankhd_first != NULL)
      for (j = 0; j < 2; j++)
        if (s[j].bank == i) { ex(gh_bh[j][0]); if (j == 1) ex(gh_bh[j][1]); }
    for (j = 0; j < bs[i]; j++) ex(gh_rom[ba[i] + j]);
  }
#else
  for (i = 0; i < g_romsize; i++) if (gh_use[i] != 0) { if (b < 0) b = i; e = i; }
  if (b < 0) { b = g_romsize; e = g_romsize - 1; }     /* nothing was written: an empty program */
  if (g_program_address_start >= 0) b = g_program_address_start;
  if (g_program_address_end >= 0) e = g_program_address_end;
  if ((g_program_address_start >= 0 || g_program_address_end >= 0) && b > e) bad = 1;
  if (g_sec_bankhd_first != NULL)
    for (j = 0; j < 2; j++)
      if (s[j].bank == 0) { ex(gh_bh[j][0]); if (j == 1) ex(gh_bh[j][1]); }
  for (i = b; i <= e && i < g_romsize; i++) ex(gh_rom[i]);
#endif
  if (g_file_footer != NULL) { ex(gh_ft[0]); ex(gh_ft[1]); }
  ret = write_rom_file("o");
  CHECK((ret == SUCCEEDED) == !bad, "writing fails exactly when the requested range or load address is not usable");
  if (ret == SUCCEEDED) {
    CHECK(gh_open == 0, "the file is closed");
    CHECK(gh_len == gh_n, "the file has the right length");
    for (i = 0; i < gh_n && i < OCAP; i++)
      CHECK(gh_out[i] == gh_exp[i], "the file holds header, banks with their bank headers, and footer");
#if MODE != OUTPUT_ROM
    CHECK(g_program_start == b, "the program start is recorded");
#endif
  }
  REACH("end");
}
#endif
