/* Contracts of the functions compute_checksums() calls (established by the other units of C09):
   each of them stores its own value; only the order and the selection are looked at here. */
#include "vc.h"
extern int gh_seq, gh_at[6], gh_cnt[6];
static int did(int k) { gh_at[k] = ++gh_seq; gh_cnt[k]++; return 1; }
int compute_sms_checksum(void) { return did(0); }
int add_tmr_sega(void) { return did(1); }
int compute_gb_complement_check(void) { return did(2); }
int compute_gb_checksum(void) { return did(3); }
int compute_snes_checksum(void) { return did(4); }
int compute_smd_checksum(void) { return did(5); }
