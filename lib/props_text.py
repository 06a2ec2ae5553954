prop("C01", "Linker references are patched exactly or the link fails",
     "Every label reference the linker resolves (direct 8/9/13/16/24/32-bit, 8- or 16-bit PC-relative, bit field, bank byte, CADDR) is stored as exactly the encoding of the target's final value, in the CPU's byte order, at the reference's own ROM position (16/24/32-bit direct references keep the low bits), and no other ROM byte changes. "
     "If the label does not exist or is a symbol/breakpoint, an 8-bit value exceeds 255, a 9/13-bit or bit-field value does not fit, or a relative distance cannot be reached, linking fails instead. "
     "References inside discarded sections write nothing.",
     ["inputs", "programs"], "for every reference type, byte order, CPU, section state and placement, label kind and label value, whatever references were resolved before it",
     "The tests link a handful of fixed programs; range limits, byte orders and state left over from earlier references are only sampled.",
     ["wlalink/write.c", "wlalink/memory.c"],
     [("fix_references", "wlalink/write.c:fix_references"), ("ROM patch primitives", "wlalink/memory.c:mem_insert_ref, mem_insert_ref_13bit_high, mem_insert_bits")],
     observe=["the linked ROM image", "wlalink's exit status"],
     claim=("proof", "all reference kinds, placements, CPUs and values; every store is checked against a byte-exact encoding; state left by earlier references is covered by starting each unit in an arbitrary state plus bounded two-reference units; name buffers are reduced from 255 to 23 bytes for the verifier"))
prop("C02", "Link-time calculations are written in range and exactly, or the link fails",
     "Every pending calculation is stored as exactly the encoding of its computed value in its declared size, signedness of range and byte order at its own ROM position, and no other ROM byte changes. "
     "If the value is outside the field's range (8-bit -128..255, 16-bit -32768..65535, 24-bit -8388608..16777215, 13-bit 0..8191, 9-bit even 0..510, bit field unsigned, relative displacement out of branch range) linking fails. "
     "Calculations inside discarded sections write nothing.",
     ["inputs", "programs"], "for every calculation type, value, byte order, CPU and placement",
     "Tests only compile fixed expressions; boundary values of every field size are not sampled.",
     ["wlalink/write.c", "wlalink/memory.c"], [("compute_pending_calculations", "wlalink/write.c"), ("parse_stack", "wlalink/write.c")],
     observe=["the linked ROM image", "wlalink's exit status"],
     claim=("proof", "every field type, CPU, byte order, placement and computed value; compute_stack is replaced by its contract (C03 checks it); label tokens are resolved against a proved parse_stack"))
prop("C03", "Link-time expressions evaluate to their mathematical value or fail",
     "The linker evaluates a pending calculation to the value the expression denotes: every arithmetic, bitwise, shift, logical, comparison, string-comparison, byte/word-selection, rounding and transcendental operator applied to its operands in order, with base and bank carried along with addresses, "
     "and a nested calculation evaluates to that calculation's own value, slot, base and bank. "
     "Division or modulo by zero, square root of a negative number, arc functions outside [-1,1], a calculation that depends on itself and a reference to a missing calculation fail the link.",
     ["inputs", "programs"], "for every operator, every operand value, and every resolution state of nested calculations",
     "Tests evaluate a few fixed constants; operator corner cases, evaluation order through nested calculations and base/bank propagation are not sampled.",
     ["wlalink/write.c"], [("compute_stack", "wlalink/write.c:compute_stack"), ("bank lookup", "wlalink/write.c:_get_bank_of_address")],
     observe=["the linked ROM image", "wlalink's exit status"],
     claim=("proof", "all operators on doubles or on all integer values; *, /, % and ** only for bounded operands; string comparisons for strings of at most 2 characters; transcendental library functions are uninterpreted"))
prop("C04", "Assemble-time expressions evaluate to their documented value or fail",
     "The assembler evaluates an expression it can solve to the value its text denotes: operators bind by the documented precedence table, equal precedence groups left to right, parentheses, prefix operators, signs and function calls apply to their own operands, and each operator and function computes what the documentation says it means. "
     "Division or modulo by zero, the square root of a negative number, arc functions outside [-1,1] and comparing a string with a number are errors.",
     ["inputs", "programs"], "for every operator, every operand value, and every combination of operators in an expression",
     "Tests evaluate a few fixed expressions; pairs of operators and operand values are only sampled.",
     ["stack.c"], [("compute_stack", "stack.c:compute_stack"), ("infix to postfix", "stack.c:_stack_calculate")],
     observe=["the bytes emitted for .DB/.DW, the branch taken by .IF"],
     claim=("proof", "per-operator semantics proved for all operands (multiply, divide, modulo: operands to 1000; string comparison: 2 characters); precedence and grouping: about 700 expression texts covering every ordered pair of operators, every operator with a sign/prefix/function/parenthesis, with symbolic operands (bounded); transcendental functions uninterpreted"))

prop("C05", "Live ROM sections get a legal place of their own or the link fails",
     "When linking succeeds, every live ROM section that is placed on its own lies at an address its type allows: FORCE, OVERWRITE and ABSOLUTE at their given address, SEMIFREE and FREE at or after their start address in their bank, SEMISUBFREE below its limit, SUPERFREE in the first bank of the slot's size with room, SEMISUPERFREE in the first listed bank with room, sections with AFTER right after their predecessor, "
     "inside the bank and slot, aligned (ALIGN), shifted by OFFSET and inside its WINDOW/BITWINDOW. The ROM holds its data there, those bytes are marked used, nothing else changes, and sections that search for room never take a used byte; a FORCE section never changes a used byte. "
     "Sections are placed by type order or by priority, and then by size. Linking fails when no allowed place exists, and not otherwise.",
     ["inputs", "programs"], "for every ROM content, every occupied-area pattern, every size, address, alignment, window and pair of section types",
     "Tests place a few sections in nearly empty banks; full banks, odd alignments, windows and collisions are not sampled.",
     ["wlalink/write.c", "wlalink/memory.c"],
     [("insert_sections", "wlalink/write.c:insert_sections"), ("placement of one section", "wlalink/write.c:_write_section_force, _write_section_free_and_semifree, _write_section_semisubfree, _write_section_superfree, _write_section_semisuperfree, _write_section_overwrite, _write_section_absolute"),
      ("bank lists", "wlalink/write.c:_unroll_banks"), ("order", "wlalink/write.c:sort_sections")],
     observe=["the linked ROM image", "the symbol file's section list", "wlalink's exit status"],
     claim=("other", "bounded: every function is executed symbolically for all contents, marks, addresses, windows and offsets of banks of at most 4-6 bytes and sections of at most 3 bytes, loops fully unwound with unwinding assertions; the placement loops only compare and add, but nothing is claimed beyond the bound"))
prop("C06", "RAM sections get a legal place of their own or the link fails",
     "When linking succeeds, every RAMSECTION lies inside its slot at an address its type allows (FORCE at its address rounded up to the alignment, SEMIFREE at or after its start, SEMISUBFREE below its limit, FREE anywhere, AFTER right behind its predecessor plus OFFSET), aligned and inside its WINDOW/BITWINDOW, on RAM bytes that no earlier RAMSECTION of the same bank and slot reserved, and exactly its own bytes become reserved. "
     "Linking fails when no allowed place exists, and not otherwise.",
     ["inputs", "programs"], "for every reservation pattern of the slot, and every size, address, alignment, offset and window",
     "Tests place a few RAMSECTIONs in an empty slot.",
     ["wlalink/write.c"],
     [("placement of one RAMSECTION", "wlalink/write.c:_write_ramsection_force, _write_ramsection_semisubfree, _write_ramsection_free_and_semifree"), ("reservation", "wlalink/write.c:_mark_ram_section_area")],
     observe=["label addresses in the symbol file", "wlalink's exit status"],
     claim=("other", "bounded: all reservation patterns, addresses, offsets, windows of a slot of at most 8 bytes and sections of at most 3 bytes, loops fully unwound with unwinding assertions"))
prop("C07", "Labels get the address, bank and ROM address of where they were placed",
     "After placement every live label, symbol and breakpoint has memory address = slot address + section address + offset (ABSOLUTE sections: without the slot address), ROM address = bank address + section address + offset (in RAMSECTIONs: RAM bank * slot size + section address + offset), and the bank and slot its section was placed in; other definitions and dead labels keep their value. "
     "The 65816 program bank of a label is its mapped ROM bank (LoROM/ExLoROM 32 KB, HiROM/ExHiROM 64 KB; RAM and non-SNES: its own bank) plus its base, and labels of library sections take the base given for the section in the linkfile.",
     ["inputs", "programs"], "for every label kind, section type, slot, bank, address, offset and SNES ROM mode",
     "Tests link a few fixed layouts.",
     ["wlalink/write.c"], [("fix_label_addresses", "wlalink/write.c"), ("get_snes_pc_bank", "wlalink/write.c"), ("correct_65816_library_sections", "wlalink/write.c")],
     observe=["label addresses in the symbol file", "bytes that refer to labels"],
     claim=("proof", "get_snes_pc_bank for all inputs; the two list walks for two labels with everything else symbolic (bounded)"))
prop("C08", "Discarding drops exactly the sections that nothing live refers to",
     "With -d, a section survives exactly when it is kept (KEEP, name starting with '!', or a type that is never discarded) or a reference or calculation outside of it that is itself outside sections, in a BANKHEADER section or in a surviving section mentions one of its labels; chains of sections that only refer to each other are resolved by the same rule, repeated until nothing changes. The labels of dropped sections are dropped with it, and no others.",
     ["programs", "histories"], "for every graph of references among sections, and every section type",
     "Tests discard a handful of sections; chains, cycles and calculations are sampled once.",
     ["wlalink/discard.c"], [("discard_unused_sections", "wlalink/discard.c"), ("discard_iteration", "wlalink/discard.c"), ("discard_dropped_labels", "wlalink/discard.c")],
     observe=["DISCARD lines of wlalink -v", "the linked ROM image"],
     claim=("other", "bounded: all reference graphs over three sections with up to four references and calculations (thorough: six); find_label and find_section are replaced by their contracts (C13)"))
prop("C09", "Checksums and headers are those of the finished image",
     "For every ROM image, wlalink stores exactly the checksum the console's header format asks for: Game Boy complement check and 16-bit sum, SMS/GG sum over the size given in the header (or up to the header, or CHECKSUMSIZE) without the header, Mega Drive sum of big-endian words from $200, SNES sum of the image mirrored to a power of two with its complement (ExHiROM: lower 4 MB plus the repeated upper part, written to both headers). "
     "The complement check is in place before the sum that covers it, TMR SEGA is written when asked for, the bytes are reserved before sections are placed, a header outside the image or an image that is too small writes nothing, and no other byte changes.",
     ["inputs", "programs"], "for every image content and size up to 9 MB, header position, ROM mode, ROM size code",
     "Tests check a few images of standard sizes; mirrored odd sizes, late bytes and header positions are not covered.",
     ["wlalink/compute.c"], [("compute_checksums", "wlalink/compute.c"), ("compute_*_checksum", "wlalink/compute.c"), ("reserve_checksum_bytes", "wlalink/compute.c")],
     observe=["the header bytes of the linked image"],
     claim=("proof", "loop contracts over ghost sums: all image contents and sizes from 1 byte to 9 MB; the sum is a ghost sequence defined step by step; the usage marks of a byte are assumed not to overflow"))
prop("C13", "A name means the innermost visible label, or the nearest anonymous one",
     "In the linker a name is found exactly when it is visible where it is used, and then means the label in the named namespace (ns.name), else in the section's namespace, else in the section itself, else the global one; labels starting with '_' are visible only in their own section. Defining a name twice in one such scope is an error, and nothing else is. "
     "Anonymous labels (-, --, +, ++, _b, _f, __) mean the nearest one before (at or before) or after the place of use with the same name, in the same file, section and context.",
     ["programs", "inputs"], "for every placement of equal and different names in sections, namespaces and outside, and every position of anonymous labels",
     "Tests use few names per scope.",
     ["wlalink/analyze.c", "wlalink/write.c"], [("find_label", "wlalink/analyze.c"), ("insert_label_into_maps", "wlalink/analyze.c"), ("get_closest_anonymous_label", "wlalink/write.c"), ("is_label_anonymous", "wlalink/write.c"), ("parse_context_from_name", "wlalink/analyze.c")],
     observe=["bytes that refer to labels", "wlalink's exit status"],
     claim=("other", "bounded: three labels, twelve name patterns, all placements; three anonymous labels at arbitrary addresses; the hash map is replaced by its contract (C12)"))
prop("C15", "The output file holds exactly the program",
     "The file written is: the .HEADER data, the SMC header when asked for, the two-byte load address for CBM PRG output, then in ROM mode every bank in order, each preceded by its BANKHEADER section, or in program mode bank 0's BANKHEADER section and the bytes from the first to the last used byte (or the range given by -bS/-bE), then the .FOOTER data; nothing else, nothing missing. "
     "Ranges outside the ROM or without bytes, and load addresses that do not name a live ROM label, make linking fail.",
     ["inputs", "programs"], "for every ROM content, bank size, used-byte pattern, -bS/-bE range, load address kind",
     "Tests compare whole files for fixed programs only.",
     ["wlalink/write.c"], [("write_rom_file", "wlalink/write.c"), ("_smc_create_and_write", "wlalink/write.c"), ("_cbm_write_prg_header", "wlalink/write.c")],
     observe=["the output file"],
     claim=("other", "bounded: two banks of at most 3 bytes with symbolic contents and sizes; the file is a byte sequence, write errors of the C library are not modelled"))
