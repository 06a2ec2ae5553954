/* Environment of the assembler sources: diagnostics are counted instead of formatted. */
#ifndef ASM_ENV_H
#define ASM_ENV_H
#include "vc.h"
#include <math.h>
#include <ctype.h>
#include "defines.h"
#include "main.h"
#include "phase_1.h"
#include "printf.h"
#include "include.h"

int gh_prints, gh_errors;
static void gh_print(void) { gh_prints++; }
static void gh_error(void) { gh_errors++; }
#define print_text(...) gh_print()
#define print_error(...) gh_error()
#define get_file_name(x) ((char *)"f")
#endif
