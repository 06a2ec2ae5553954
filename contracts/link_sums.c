/* Checksums and headers (wlalink/compute.c).

   A checksum loop over an arbitrary ROM is proved with a loop contract: S(n) is the sum the
   specification asks for over the first n steps, a function (an unbounded array of unknown contents) whose defining equation
   S(n+1) = S(n) + (the byte that step n adds) is assumed for the step at hand in every iteration
   (STEP, injected at the start of the loop body).  The invariant is "the checksum so far is S(n)". */
#include "link_env.h"
#include "wlalink/memory.c"

#define CAP 0x900000
static unsigned char *gh_rom, *gh_use;
char *get_file_name(int id) { (void)id; return "f"; }
char *get_source_file_name(int a, int b) { (void)a; (void)b; return "s"; }
static int gh_snes_mode(void) {
  int m = IN_INT_R("mode", 0, 3);
  return m == 0 ? SNES_ROM_MODE_LOROM : m == 1 ? SNES_ROM_MODE_HIROM : m == 2 ? SNES_ROM_MODE_EXHIROM : SNES_ROM_MODE_EXLOROM;
}

/* what step n of the sum adds; -1: nothing */
static int gh_mode, gh_len;
#ifdef H_GB
#define ADDS(n) ((n) == 0x14E || (n) == 0x14F ? 0u : (unsigned)g_rom[n])
#endif
#ifdef H_SMD
#define ADDS(n) ((unsigned)g_rom[2 * (n)] * 256u + g_rom[2 * (n) + 1])
#endif
#ifdef H_SMS
static int gh_tag;
#define ADDS(n) ((n) >= gh_tag && (n) < gh_tag + 16 ? 0u : (unsigned)g_rom[n])
#endif
#ifdef H_SNES
static int gh_head, gh_mb;      /* address of the checksum bytes; where the mirrored part starts */
#define LOWER(n) ((n) >= gh_head && (n) < gh_head + 4 ? 0u : (unsigned)g_rom[n])
/* the part behind the largest power of two in the image, repeated */
#define UPPER(n, mb) ((unsigned)g_rom[((n) - (mb)) % (g_romsize - (mb)) + (mb)])
#define ADDS(n) ((n) < gh_mb ? LOWER(n) : UPPER(n, gh_mb))
#endif
#ifdef H_EXHI
/* step n >= 4 MB adds byte A(n) of the upper part, which is repeated to fill 4 MB */
#define M4 0x400000
#define LOWER(n) ((n) >= 0xFFDC && (n) <= 0xFFDF ? 0u : (unsigned)g_rom[n])
#define UPPER(n, mb) (A(n) >= 0x40FFDD && A(n) <= 0x40FFDF ? 0u : A(n) == 0x40FFDC ? 510u : (unsigned)g_rom[A(n)])
#define ADDS(n) ((n) < M4 ? LOWER(n) : UPPER(n, 0))
#endif

#ifdef ADDS
#ifdef VCBMC
/* a function of the step, as an unbounded array of arbitrary contents */
extern unsigned gh_S[__CPROVER_constant_infinity_uint]; extern int gh_A[__CPROVER_constant_infinity_uint];
#define S(n) gh_S[n]
#define A(n) gh_A[n]
#define STEP(n) __CPROVER_assume(S((n) + 1) == S(n) + ADDS(n))
#define STEPL(n) __CPROVER_assume(S((n) + 1) == S(n) + LOWER(n))
#define STEPU(n, mb) __CPROVER_assume(S((n) + 1) == S(n) + UPPER(n, mb))
#define ASTEP(n) __CPROVER_assume(A((n) + 1) == (A(n) + 1 == g_romsize ? M4 : A(n) + 1))
#else
static unsigned *gh_S; static int *gh_A;
#define S(n) gh_S[n]
#define A(n) gh_A[n]
#endif
static void gh_sum(int from, int to) {
#ifdef VCBMC
  ASSUME(S(from) == 0);
#else
  int i;
  gh_S = calloc(sizeof(unsigned), to + 2);
#ifdef H_EXHI
  gh_A = calloc(sizeof(int), to + 2);
  A(M4) = M4;
  for (i = M4; i < to; i++) A(i + 1) = A(i) + 1 == g_romsize ? M4 : A(i) + 1;
#endif
  for (i = from; i < to; i++) S(i + 1) = S(i) + ADDS(i);
#endif
  (void)from; (void)to;
}
#endif

static int gh_w;
static unsigned char gh_hi, gh_lo;

#include "wlalink/compute.c"

/* an arbitrary image; the result is the address of an arbitrary byte in it */
static int gh_setup(int lo, int hi) {
  int f, q;
  g_romsize = IN_INT_R("romsize", lo, hi);
  f = IN_INT_R("fill", 0, 0x7FFFFFFF);
  /* exactly the image, so that any access outside it is an error */
  gh_rom = malloc(g_romsize); gh_use = malloc(g_romsize);
  g_rom = gh_rom; g_rom_usage = gh_use;
#ifdef VCBMC
  (void)q;
#else
  for (q = 0; q < g_romsize; q++) { f = (int)((unsigned)f * 1103515245u + 12345u); gh_rom[q] = (unsigned char)(f >> 16); gh_use[q] = (f >> 8) & 3 ? 0 : 1; }
#endif
  return IN_INT_R("watch", 0, g_romsize - 1);
}

#ifdef ADDS
/* the two (GB, SMD), or four (SNES) checksum bytes at their place; every other byte as it was */
void harness(void) {
  int r, w, hit = 0;
  unsigned char old;
  unsigned sum = 0;
#ifdef H_GB
  w = gh_setup(1, CAP);
  gh_sum(0, g_romsize);
  old = gh_rom[w];
#ifdef VCBMC
  STEP(0x14E); STEP(0x14F);
#endif
  r = compute_gb_checksum();
  CHECK((r == SUCCEEDED) == (g_romsize >= 0x8000), "the checksum needs 32 KB");
  if (r == SUCCEEDED) {
    sum = S(g_romsize);
    CHECK(gh_rom[0x14E] == ((sum >> 8) & 255) && gh_rom[0x14F] == (sum & 255), "the Game Boy checksum is the sum of all other bytes, high byte first");
    hit = w == 0x14E || w == 0x14F;
  }
#endif
#ifdef H_SMD
  w = gh_setup(1, CAP);
  gh_sum(0x100, g_romsize / 2);
  old = gh_rom[w];
  r = compute_smd_checksum();
  CHECK((r == SUCCEEDED) == (g_romsize >= 0x1000), "the checksum needs 4 KB");
  if (r == SUCCEEDED) {
    sum = S(g_romsize / 2);
    CHECK(gh_rom[0x18E] == ((sum >> 8) & 255) && gh_rom[0x18F] == (sum & 255), "the Mega Drive checksum is the sum of the words from $200 on, high byte first");
    hit = w == 0x18E || w == 0x18F;
  }
#endif
#ifdef H_SMS
  int max = 0, bad = 0, code;
  static const int kb[16] = { 256, 512, 1024, 0, 0, 0, 0, 0, 0, 0, 8, 16, 32, 48, 64, 128 };
  w = gh_setup(1, CAP);
  g_sms_checksum_already_written = IN_INT_R("forced", 0, 1);
  g_romheader_baseaddress = IN_INT_R("base", -0x10000, 0x7FFFFF);
  g_sms_checksum_size_defined = IN_INT_R("sized", 0, 1);
  g_sms_checksum_size = IN_INT_R("size", 0, 0x10000);
  gh_tag = g_romheader_baseaddress != -1 ? g_romheader_baseaddress : g_romsize < 0x4000 ? 0x1FF0 : g_romsize < 0x8000 ? 0x3FF0 : 0x7FF0;
  if (g_romsize < 0x2000 || gh_tag < 0 || gh_tag + 16 > g_romsize) bad = 1;
  if (!bad) {
    if (gh_use[gh_tag + 15] > 0) {
      code = gh_rom[gh_tag + 15] & 15;
      max = kb[code] * 1024;
      if (g_romheader_baseaddress == -1) gh_tag = code == 10 ? 0x1FF0 : code == 11 ? 0x3FF0 : 0x7FF0;
      if (max == 0) bad = 2;
      else if (max > g_romsize) bad = 1;
    }
    else
      max = gh_tag;
    if (!bad && g_sms_checksum_size_defined) { max = g_sms_checksum_size; if (max > g_romsize) bad = 1; }
  }
  gh_len = bad ? 0 : max;
  gh_sum(0, gh_len);
  old = gh_rom[w];
  r = compute_sms_checksum();
  if (g_sms_checksum_already_written)
    CHECK(r == SUCCEEDED, "a forced checksum is left alone");
  else {
    CHECK((r == SUCCEEDED) == (bad != 1), "the checksum needs 8 KB, a header inside the ROM and a size that fits");
    if (!bad) {
      sum = S(gh_len);
      CHECK(gh_rom[gh_tag + 10] == (sum & 255) && gh_rom[gh_tag + 11] == ((sum >> 8) & 255), "the SMS checksum is the sum of the bytes of the ROM size outside the header, low byte first");
      hit = w == gh_tag + 10 || w == gh_tag + 11;
    }
  }
#endif
#ifdef H_SNES
  int lo, p = 1, i;
  w = gh_setup(1, CAP);
  g_snes_rom_mode = MODE;
  ASSUME(g_snes_rom_mode != SNES_ROM_MODE_EXHIROM || g_romsize < 0x410000);
  lo = g_snes_rom_mode == SNES_ROM_MODE_LOROM || g_snes_rom_mode == SNES_ROM_MODE_EXLOROM;
  gh_head = lo ? 0x7FDC : 0xFFDC;
  for (i = 0; i < 24; i++) if (p < g_romsize) p *= 2;      /* 2^24 > CAP */
  gh_mb = p == g_romsize ? p : p / 2;
  gh_len = p;
  if (g_romsize >= 0x8000) gh_sum(0, p);
  old = gh_rom[w];
  r = compute_snes_checksum();
  CHECK((r == SUCCEEDED) == (g_romsize >= (lo ? 0x8000 : 0x10000)), "the checksum needs 32 or 64 KB");
  if (r == SUCCEEDED) {
    sum = S(p) + 510;
    CHECK(gh_rom[gh_head + 2] == (sum & 255) && gh_rom[gh_head + 3] == ((sum >> 8) & 255), "the SNES checksum is the sum of the ROM mirrored to a power of two, its own bytes counting as 0 0 255 255");
    CHECK(gh_rom[gh_head] == (255 - (sum & 255)) && gh_rom[gh_head + 1] == (255 - ((sum >> 8) & 255)), "the complement is stored before it");
    hit = w >= gh_head && w < gh_head + 4;
  }
#endif
#ifdef H_EXHI
  w = gh_setup(0x410000, CAP);
  ASSUME(g_romsize <= 0x800000);
  g_snes_rom_mode = SNES_ROM_MODE_EXHIROM;
#ifdef VCBMC
  ASSUME(A(M4) == M4);
#endif
  gh_sum(0, 2 * M4);
  old = gh_rom[w];
  r = compute_snes_checksum();
  CHECK(r == SUCCEEDED, "the checksum is computed");
  sum = S(2 * M4) + 510;
  CHECK(gh_rom[0x40FFDE] == (sum & 255) && gh_rom[0x40FFDF] == ((sum >> 8) & 255) && gh_rom[0x40FFDC] == (255 - (sum & 255)) && gh_rom[0x40FFDD] == (255 - ((sum >> 8) & 255)), "the ExHiROM checksum is the sum of the lower 4 MB and the upper part repeated to 4 MB");
  CHECK(gh_rom[0xFFDE] == (sum & 255) && gh_rom[0xFFDF] == ((sum >> 8) & 255) && gh_rom[0xFFDC] == (255 - (sum & 255)) && gh_rom[0xFFDD] == (255 - ((sum >> 8) & 255)), "and is mirrored in the lower header");
  hit = (w >= 0x40FFDC && w <= 0x40FFDF) || (w >= 0xFFDC && w <= 0xFFDF);
#endif
  if (!hit) CHECK(gh_rom[w] == old, "no other byte changes");
  REACH("end");
}
#endif

#ifdef H_COMPLEMENT
void harness(void) {
  int i, sum = 0, r, w;
  unsigned char old;
  w = gh_setup(1, CAP);
  for (i = 0x134; i <= 0x14C && g_romsize >= 0x8000; i++) sum -= gh_rom[i] + 1;
  old = gh_rom[w];
  r = compute_gb_complement_check();
  CHECK((r == SUCCEEDED) == (g_romsize >= 0x8000), "the complement check needs 32 KB");
  if (r == SUCCEEDED) CHECK(gh_rom[0x14D] == (sum & 255), "x = x - byte - 1 over $134-$14C");
  if (r == FAILED || w != 0x14D) CHECK(gh_rom[w] == old, "no other byte changes");
  REACH("end");
}
#endif

#ifdef H_TMR
void harness(void) {
  int i, r, w, tag, in;
  unsigned char old;
  w = gh_setup(1, CAP);
  g_romheader_baseaddress = IN_INT_R("base", -0x10000, 0x7FFFFF);
  tag = g_romheader_baseaddress != -1 ? g_romheader_baseaddress : g_romsize < 0x4000 ? 0x1FF0 : g_romsize < 0x8000 ? 0x3FF0 : 0x7FF0;
  old = gh_rom[w];
  r = add_tmr_sega();
  CHECK(r == SUCCEEDED, "the tag is written or skipped");
  in = g_romsize >= 0x2000 && tag >= 0 && tag + 16 <= g_romsize;
  if (in)
    for (i = 0; i < 8; i++) CHECK(gh_rom[tag + i] == (unsigned char)"TMR SEGA"[i], "TMR SEGA is at the header's start");
  if (!in || w < tag || w >= tag + 8) CHECK(gh_rom[w] == old, "no other byte changes");
  REACH("end");
}
#endif

#ifdef H_RESERVE
/* reserve_checksum_bytes(): the bytes the checksums will be written to are marked used, so that no
   section that searches for room takes them */
void harness(void) {
  int w, tag, res = 0, lo, head;
  unsigned char oldu, old;
  w = gh_setup(1, CAP);
  g_section_overwrite = OFF;
  g_romheader_baseaddress = IN_INT_R("base", -0x10000, 0x7FFFFF);
#ifdef R_SMS
  g_sms_checksum = IN_INT_R("sms", 0, 1); g_sms_header = IN_INT_R("smsheader", 0, 1); g_sms_checksum_already_written = IN_INT_R("forced", 0, 1);
#endif
#ifdef R_TAG
  g_smstag_defined = IN_INT_R("smstag", 0, 1); g_sms_header = IN_INT_R("smsheader", 0, 1); g_sms_checksum_already_written = 1;
#endif
#ifdef R_GB
  g_gb_complement_check = IN_INT_R("gbc", 0, 1); g_gb_checksum = IN_INT_R("gb", 0, 1);
#endif
#ifdef R_SNES
  g_snes_checksum = IN_INT_R("snes", 0, 1);
#endif
#ifdef R_SMD
  g_smd_checksum = IN_INT_R("smd", 0, 1);
#endif
  g_snes_rom_mode = gh_snes_mode();
  tag = g_romheader_baseaddress != -1 ? g_romheader_baseaddress : g_romsize < 0x4000 ? 0x1FF0 : g_romsize < 0x8000 ? 0x3FF0 : 0x7FF0;
  lo = g_snes_rom_mode == SNES_ROM_MODE_LOROM || g_snes_rom_mode == SNES_ROM_MODE_EXLOROM;
  head = g_romsize >= 0x2000 && tag >= 0 && tag + 16 <= g_romsize;
  if (head && (g_sms_checksum || g_sms_header) && !g_sms_checksum_already_written) res |= w == tag + 10 || w == tag + 11 || (g_sms_checksum && w == tag + 15);
  if (head && (g_smstag_defined || g_sms_header)) res |= w >= tag && w < tag + 8;
  if (g_romsize >= 0x8000) res |= (g_gb_complement_check && w == 0x14D) || (g_gb_checksum && (w == 0x14E || w == 0x14F));
  if (g_snes_checksum && lo && g_romsize >= 0x8000) res |= w >= 0x7FDC && w <= 0x7FDF;
  if (g_snes_checksum && !lo && g_romsize >= 0x10000) res |= w >= 0xFFDC && w <= 0xFFDF;
  if (g_smd_checksum && g_romsize >= 0x190) res |= w == 0x18E || w == 0x18F;
  oldu = gh_use[w]; old = gh_rom[w];
  CHECK(reserve_checksum_bytes() == SUCCEEDED, "reserving works");
  if (res)
    CHECK(gh_use[w] != 0 || oldu == 255, "a byte that a checksum will be written to is marked used");
  else
    CHECK(gh_use[w] == oldu && gh_rom[w] == old, "no other byte changes");
  REACH("end");
}
#endif

#ifdef H_MIRROR
/* finalize_snes_rom(): the ExHiROM header is copied down */
void harness(void) {
  int on;
  gh_w = gh_setup(1, CAP);
  g_snes_rom_mode = gh_snes_mode();
  on = g_snes_rom_mode == SNES_ROM_MODE_EXHIROM && g_romsize >= 0x410000;
  gh_lo = gh_rom[gh_w];
  gh_hi = on ? gh_rom[0x400000 + (gh_w & 0xFFFF)] : 0;
  CHECK(finalize_snes_rom() == SUCCEEDED, "mirroring works");
  CHECK(gh_rom[gh_w] == (on && gh_w >= 0xFFB0 && gh_w <= 0xFFFF ? gh_hi : gh_lo), "$ffb0-$ffff hold what $40ffb0-$40ffff hold, and no other byte changes");
  REACH("end");
}
#endif

#ifdef H_ALL
/* compute_checksums(): every value that was asked for, and in an order in which the values that a
   sum runs over are there before the sum is made */
int gh_seq, gh_at[6], gh_cnt[6];
void harness(void) {
  int sms = IN_INT_R("sms", 0, 1), head = IN_INT_R("smsheader", 0, 1), tag = IN_INT_R("smstag", 0, 1), gbc = IN_INT_R("gbc", 0, 1), gb = IN_INT_R("gb", 0, 1), snes = IN_INT_R("snes", 0, 1), smd = IN_INT_R("smd", 0, 1), i;
  g_sms_checksum = sms; g_sms_header = head; g_smstag_defined = tag; g_gb_complement_check = gbc; g_gb_checksum = gb; g_snes_checksum = snes; g_smd_checksum = smd;
#ifdef VCBMC
  CHECK(compute_checksums() == SUCCEEDED, "computing the checksums works");
  CHECK((gh_cnt[0] > 0) == (sms || head), "the SMS checksum is computed when asked for");
  CHECK((gh_cnt[1] > 0) == (tag || head), "TMR SEGA is written when asked for");
  CHECK((gh_cnt[2] > 0) == gbc && (gh_cnt[3] > 0) == gb, "the Game Boy sums are computed when asked for");
  CHECK((gh_cnt[4] > 0) == snes && (gh_cnt[5] > 0) == smd, "the SNES and Mega Drive sums are computed when asked for");
  if (gbc && gb) CHECK(gh_at[2] < gh_at[3], "the Game Boy complement check is in place before the checksum that covers it");
#else
  unsigned sum = 0; unsigned char c = 0;
  /* one console at a time */
  if (gbc || gb) { sms = head = tag = snes = smd = 0; g_sms_checksum = g_sms_header = g_smstag_defined = g_snes_checksum = g_smd_checksum = 0; }
  else if (smd) { sms = head = tag = snes = 0; g_sms_checksum = g_sms_header = g_smstag_defined = g_snes_checksum = 0; }
  else { snes = 0; g_snes_checksum = 0; }
  gh_setup(0x10000, 0x20000);
  memset(gh_use, 0, g_romsize);
  if (g_gb_checksum) gh_rom[0x14E] = gh_rom[0x14F] = 0;
  compute_checksums();
  for (i = 0x134; i <= 0x14C; i++) c -= gh_rom[i] + 1;
  for (i = 0; i < g_romsize; i++) sum += i == 0x14E || i == 0x14F ? 0 : gh_rom[i];
  if (gbc) CHECK(gh_rom[0x14D] == c, "the Game Boy complement check is there");
  if (gb) CHECK(gh_rom[0x14E] == ((sum >> 8) & 255) && gh_rom[0x14F] == (sum & 255), "the Game Boy checksum covers the final image");
  if (tag || head) CHECK(memcmp(gh_rom + 0x7FF0, "TMR SEGA", 8) == 0, "TMR SEGA is there");
  for (sum = 0, i = 0; i < 0x7FF0; i++) sum += gh_rom[i];
  if (sms || head) CHECK(gh_rom[0x7FFA] == (sum & 255) && gh_rom[0x7FFB] == ((sum >> 8) & 255), "the SMS checksum is there");
  for (sum = 0, i = 0x200; i + 1 < g_romsize; i += 2) sum += gh_rom[i] * 256 + gh_rom[i + 1];
  if (smd) CHECK(gh_rom[0x18E] == ((sum >> 8) & 255) && gh_rom[0x18F] == (sum & 255), "the Mega Drive checksum is there");
#endif
  REACH("end");
}
#endif
