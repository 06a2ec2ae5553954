"""Properties and their verification units."""

MEM = dict(file="link_memory.c", unwind=9, unwind2=40)
AUF = ["--arrays-uf-always"]
CAD = ["--sat-solver", "cadical"]   # models of failing runs are not trusted: see vc.py

def mem(id, fn, h, **kw):
    return dict(MEM, id=id, functions=["wlalink/memory.c:" + fn], enforce=fn, defs=[h], **kw)

REFNAMES = ["8bit", "16bit", "24bit", "rel8", "rel16", "13bit", "32bit", "bits", "9bit"]
FIXREF = ["wlalink/write.c:fix_references", "wlalink/memory.c:mem_insert_ref", "wlalink/memory.c:mem_insert_ref_13bit_high", "wlalink/memory.c:mem_insert_bits"]

def refs():
    out = []
    for t in range(9):
        out.append(dict(id="ref_t%d" % t, file="link_refs.c", defs=["T_FIXED=%d" % t], kind="plain", functions=FIXREF,
                        unwind=9, unwind2=40, cbmc=AUF, cost=60 if t == 7 else 5))
        out.append(dict(id="ref_bank_t%d" % t, file="link_refs.c", defs=["T_FIXED=%d" % t, "K_BANK"], kind="plain", functions=FIXREF,
                        unwind=9, unwind2=40, cbmc=AUF, thorough_only=(t == 7), cost=60 if t == 7 else 5))
        out.append(dict(id="ref_pair_t%d" % t, file="link_refs.c", defs=["T_FIXED=%d" % t, "PAIR"], kind="plain", functions=FIXREF,
                        unwind=9, unwind2=40, cbmc=AUF, bound="two references in sequence", thorough_only=t not in (0, 3), cost=50))
    out.append(dict(id="ref_caddr", file="link_refs.c", defs=["T_FIXED=1", "K_CADDR"], kind="plain", functions=FIXREF, unwind=9, unwind2=40, cbmc=AUF))
    return out

CALC = ["wlalink/write.c:compute_pending_calculations", "wlalink/write.c:parse_stack", "wlalink/write.c:_handle_special_case",
        "wlalink/memory.c:mem_insert_ref", "wlalink/memory.c:mem_insert_ref_13bit_high", "wlalink/memory.c:mem_insert_bits"]
CALCNAME = {0: "8bit", 1: "16bit", 2: "24bit", 4: "13bit", 5: "32bit", 6: "bits", 7: "9bit"}
# reference type -> field type of the same shape
REF2CALC = {0: 1, 2: 0, 3: 2, 5: 4, 6: 5, 7: 6, 8: 7}

def calcs():
    out = []
    base = dict(file="link_calc.c", kind="plain", unwind=9, unwind2=40, cbmc=AUF, nobody=["compute_stack"], stubs="stub_compute_stack.c")
    for t, n in CALCNAME.items():
        c = 60 if t == 6 else 5
        out.append(dict(base, id="calc_%s" % n, defs=["T_FIXED=%d" % t, "H_PENDING"], functions=CALC, cost=c))
        out.append(dict(base, id="bankhdr_%s" % n, defs=["T_FIXED=%d" % t, "H_BHCALC"], functions=["wlalink/write.c:write_bank_header_calculations"], cost=c))
    for t in (0,):
        out.append(dict(base, id="calc_label_%s" % CALCNAME[t], defs=["T_FIXED=%d" % t, "H_PENDING", "K_LABEL"], functions=CALC))
    for n, d in (("values", ["KIND=0"]), ("caddr", ["KIND=2"]), ("label", ["KIND=1", "REL=0"]), ("relative", ["KIND=1", "REL=1"])):
        out.append(dict(base, id="parse_stack_" + n, defs=["T_FIXED=0", "H_PARSE"] + d, functions=["wlalink/write.c:parse_stack"], cost=60,
                        cbmc=AUF + CAD))
    out.append(dict(base, id="parse_stack_relative16", defs=["T_FIXED=1", "H_PARSE", "KIND=1", "REL=1"], functions=["wlalink/write.c:parse_stack"], cost=60,
                    cbmc=AUF + CAD))
    out.append(dict(base, id="calc_caddr", defs=["T_FIXED=1", "H_PENDING", "K_CADDR"], functions=CALC))
    return out

def bhrefs():
    base = dict(file="link_calc.c", kind="plain", unwind=9, unwind2=40, cbmc=AUF, nobody=["compute_stack"], stubs="stub_compute_stack.c")
    return [dict(base, id="bankhdr_ref_%s" % CALCNAME[t], defs=["T_FIXED=%d" % t, "RT_FIXED=%d" % rt, "H_BHREF"],
                 functions=["wlalink/write.c:write_bank_header_references"], cost=60 if t == 6 else 5) for rt, t in REF2CALC.items()]

REAL_OPS = "COMPARE_LT COMPARE_GT COMPARE_EQ COMPARE_NEQ COMPARE_LTE COMPARE_GTE LOGICAL_OR LOGICAL_AND ROUND CEIL FLOOR MIN MAX SQRT ABS COS SIN TAN ACOS ASIN ATAN NEGATE ATAN2 COSH SINH TANH LOG LOG10 POW CLAMP SIGN".split()
INT_OPS = "ADD SUB OR AND XOR SHIFT_LEFT SHIFT_RIGHT LOW_BYTE HIGH_BYTE LOW_WORD HIGH_WORD BANK_BYTE".split()
HARD_OPS = "MULTIPLY DIVIDE MODULO POWER".split()

def link_ops():
    out = []
    base = dict(file="link_compute.c", kind="plain", unwind=9, unwindset=["compute_stack.0:257"], functions=["wlalink/write.c:compute_stack"])
    for o in REAL_OPS:
        out.append(dict(base, id="op_" + o, defs=["H_OP", "NEST", "OP=SI_OP_" + o], cost=30 if o == "ROUND" else 3))
    for o in INT_OPS:
        out.append(dict(base, id="op_" + o, defs=["H_OP", "NEST", "INTREAL=vc_ll", "OP=SI_OP_" + o]))
    for o in HARD_OPS:
        out.append(dict(base, id="op_" + o, defs=["H_OP", "INTREAL=short", "SMALLINT=%d" % (30 if o == "POWER" else 1000), "OP=SI_OP_" + o], cbmc=CAD,
                        bound="integer operands of magnitude at most %s" % ("30, exponent at most 4" if o == "POWER" else "1000")))
    out.append(dict(base, id="op_NOT", defs=["H_NOT", "INTREAL=vc_ll", "OP=SI_OP_NOT"]))
    out.append(dict(base, id="op_BANK", defs=["H_BANKOP", "INTREAL=vc_ll", "OP=SI_OP_BANK", "BANKCAP=6"], bound="addresses in the first 6 banks", functions=base["functions"] + ["wlalink/write.c:_get_bank_of_address"]))
    for o in ("COMPARE_LT", "COMPARE_GT", "COMPARE_EQ", "COMPARE_NEQ", "COMPARE_LTE", "COMPARE_GTE"):
        for t in (11, 10, 1):
            out.append(dict(base, id="strcmp_%s_%02d" % (o[8:], t), defs=["H_STRCMP", "INTREAL=vc_ll", "OP=SI_OP_" + o, "T0=%d" % (t // 10), "T1=%d" % (t % 10)], bound="strings of at most 2 characters"))
    for n, c in enumerate(("inner", "self", "under_work", "missing", "other_file", "same_file")):
        out.append(dict(base, id="nested_" + c, defs=["H_NESTED", "INTREAL=vc_ll", "OP=SI_OP_ADD", "CASE=%d" % n]))
    return out

NOCHECKS = ["--no-standard-checks", "--no-pointer-check", "--no-bounds-check", "--drop-unused-functions", "--verbosity", "8"]

# doc/arithmetics.rst: binding strength
BIN = {"*": (100, "MULTIPLY"), "/": (100, "DIVIDE"), "#": (100, "MODULO"), "^": (100, "POWER"), "+": (90, "ADD"), "-": (90, "SUB"),
       "<<": (80, "SHIFT_LEFT"), ">>": (80, "SHIFT_RIGHT"), "<": (70, "COMPARE_LT"), ">": (70, "COMPARE_GT"), "<=": (70, "COMPARE_LTE"), ">=": (70, "COMPARE_GTE"),
       "==": (60, "COMPARE_EQ"), "!=": (60, "COMPARE_NEQ"), "&": (50, "AND"), "~": (40, "XOR"), "|": (30, "OR"), "&&": (20, "LOGICAL_AND"), "||": (10, "LOGICAL_OR")}

def so(op, x, y="0", z="0"):
    return "so(SI_OP_%s,%s,%s,%s)" % (op, x, y, z)

def binexpr(toks):
    """the documented meaning of operand op operand op ... (precedence climbing, left to right)"""
    def parse(i, minp):
        lhs = toks[i]
        i += 1
        while i < len(toks) and BIN[toks[i]][0] >= minp:
            pr, name = BIN[toks[i]]
            rhs, j = parse(i + 1, pr + 1)
            lhs, i = so(name, lhs, rhs), j
        return lhs, i
    return parse(0, 0)[0]

def text_cases():
    """groups of (text, meaning)"""
    ops = list(BIN)
    groups = []
    for o in ops:
        groups.append(("pairs_" + BIN[o][1], [("A%sB%sC" % (o, p), binexpr(["A", o, "B", p, "C"])) for p in ops]))
        groups.append(("paren_" + BIN[o][1], [("A%s(B%sC)" % (o, p), so(BIN[o][1], "A", so(BIN[p][1], "B", "C"))) for p in ops] +
                       [("(A%sB)%sC" % (o, p), so(BIN[p][1], so(BIN[o][1], "A", "B"), "C")) for p in ("*", "+", "==", "|", "||")]))
        n = BIN[o][1]
        un = [("-A%sB" % o, so(n, so("NEGATE", "A"), "B")), ("A%s-B" % o, so(n, "A", so("NEGATE", "B"))),
              ("-(A%sB)" % o, so("NEGATE", so(n, "A", "B"))), ("(-A)%s(-B)" % o, so(n, so("NEGATE", "A"), so("NEGATE", "B"))),
              ("<A%sB" % o, so(n, so("LOW_BYTE", "A"), "B")), (">A%sB" % o, so(n, so("HIGH_BYTE", "A"), "B")),
              ("!A%sB" % o, so(n, so("NOT", "A"), "B")), ("lobyte(A)%sB" % o, so(n, so("LOW_BYTE", "A"), "B")), ("A%smin(B,C)" % o, so(n, "A", so("MIN", "B", "C"))),
              ("A %s B %s C" % (o, o), binexpr(["A", o, "B", o, "C"])),
              ("A%sB+C*D" % o, binexpr(["A", o, "B", "+", "C", "*", "D"])), ("A*B%sC|D" % o, binexpr(["A", "*", "B", o, "C", "|", "D"])),
              ("A&B+C%sD" % o, binexpr(["A", "&", "B", "+", "C", o, "D"]))]
        groups.append(("unary_" + n, un))
    f1 = "lobyte LOW_BYTE,hibyte HIGH_BYTE,loword LOW_WORD,hiword HIGH_WORD,bankbyte BANK_BYTE,abs ABS,sign SIGN,round ROUND,floor FLOOR,ceil CEIL,sqrt SQRT,cos COS,sin SIN,tan TAN,acos ACOS,asin ASIN,atan ATAN,cosh COSH,sinh SINH,tanh TANH,log LOG,log10 LOG10".split(",")
    f2 = "min MIN,max MAX,pow POW,atan2 ATAN2".split(",")
    for k in range(3):
        fn = []
        for i, t in enumerate(f1[k::3]):
            f, o = t.split()
            if i % 2: f = f.upper()
            fn += [("%s(A)" % f, so(o, "A")), ("B-%s(A)" % f, so("SUB", "B", so(o, "A"))), ("-%s(A)+B" % f, so("ADD", so("NEGATE", so(o, "A")), "B"))]
        groups.append(("functions%d" % k, fn))
    fn = []
    for t in f2:
        f, o = t.split()
        fn += [("%s(A,B)" % f, so(o, "A", "B")), ("C-%s(A, B)*D" % f, so("SUB", "C", so("MULTIPLY", so(o, "A", "B"), "D"))), ("-%s(A,B)+C" % f, so("ADD", so("NEGATE", so(o, "A", "B")), "C"))]
    fn += [("clamp(A,B,C)", so("CLAMP", "A", "B", "C")), ("D-CLAMP(A, B, C)", so("SUB", "D", so("CLAMP", "A", "B", "C"))), ("-Clamp(A,B,C)+D", so("ADD", so("NEGATE", so("CLAMP", "A", "B", "C")), "D"))]
    groups.append(("functions3", fn))
    groups.append(("prefix", [("!!A", so("NOT", so("NOT", "A"))), ("!-A", so("NOT", so("NEGATE", "A"))), ("< >A", so("LOW_BYTE", so("HIGH_BYTE", "A"))), ("!lobyte(A)", so("NOT", so("LOW_BYTE", "A"))),
        ("--A", "A"), ("--A+B", so("ADD", "A", "B")), ("A+(--B)", so("ADD", "A", "B")), ("A==--B", so("COMPARE_EQ", "A", "B")), ("!<A|B", so("OR", so("NOT", so("LOW_BYTE", "A")), "B")), ("+A", "A"), ("+-A", so("NEGATE", "A")),
        ("-(A)", so("NEGATE", "A")), ("-(-(A))", "A"), ("-(A)*B", so("MULTIPLY", so("NEGATE", "A"), "B")), ("A-(-(B))", so("ADD", "A", "B")), ("!(A+B)+C", so("ADD", so("NOT", so("ADD", "A", "B")), "C")),
        ("<(A+B)+C", so("ADD", so("LOW_BYTE", so("ADD", "A", "B")), "C")), ("A && !B", so("LOGICAL_AND", "A", so("NOT", "B"))), ("abs(A)+-B", so("ADD", so("ABS", "A"), so("NEGATE", "B"))), ("((A)+(B))*C", so("MULTIPLY", so("ADD", "A", "B"), "C")),
        ("A-(B-(C-D))", so("SUB", "A", so("SUB", "B", so("SUB", "C", "D"))))]))
    def lit(texts):
        return [(t, so("ADD", v, "A") if t.endswith("+A") else so("SUB", "A", v) if t.startswith("A-") else w) for t, v, w in texts]
    groups.append(("hex", lit([("$1F+A", "31", 0), ("A-$a0", "160", 0), ("$FFFF+A", "65535", 0), ("$abcdef+A", "0xabcdef", 0), ("$12345678+A", "0x12345678", 0), ("0x1f+A", "31", 0), ("A-0X2C", "44", 0), ("0x7fffff0+A", "0x7fffff0", 0), 
        ("0ffh+A", "255", 0), ("12h+A", "18", 0), ("A-9abcH", "0x9abc", 0), ("1fH+A", "31", 0), ("A-10h", "16", 0), ("0a1b2c3h+A", "0xa1b2c3", 0), ("4d+A", "0x4d", 0)])))
    groups.append(("binary", lit([("%101+A", "5", 0), ("%00001111+A", "15", 0), ("A-%11111111", "255", 0), ("%1000000000000001+A", "32769", 0), ("%0+A", "0", 0), ("%10000000000000000000000000000+A", "1 << 28", 0)])))
    groups.append(("decimal", lit([("0+A", "0", 0), ("7+A", "7", 0), ("10+A", "10", 0), ("A-255", "255", 0), ("007+A", "7", 0), ("A-1000000", "1000000", 0), ("12345678+A", "12345678", 0), ("A-123456789", "123456789", 0), ("1+2*A", 0, so("ADD", "1", so("MULTIPLY", "2", "A"))),
        ("A+$10*%10-3", 0, so("SUB", so("ADD", "A", so("MULTIPLY", "16", "2")), "3")), ("-5+A", "-5", 0), ("(10)+A", "10", 0), ("A*-3", 0, so("MULTIPLY", "A", "-3")), ("A-(-3)", "-3", 0), ("A|1<<2", 0, so("OR", "A", so("SHIFT_LEFT", "1", "2"))), ("A&$0F|$40", 0, so("OR", so("AND", "A", "15"), "64"))])))
    groups.append(("characters", lit([("'x'+A", "'x'", 0), ("A-'a'", "'a'", 0), ("'0'+A", "'0'", 0), ("' '+A", "' '", 0), ("'\\\\n'+A", "10", 0), ("'\\\\t'+A", "9", 0), ("'\\\\r'+A", "13", 0), ("'\\\\0'+A", "0", 0), ("A-'Z'", "'Z'", 0), ("'+'+A", "'+'", 0)])))
    def signed(v): return v - (1 << 32) if v >= 1 << 31 else v
    def num(v): return "(int)0x%xu" % (v & 0xffffffff)
    many = []
    for n in range(1, 9):
        for pat in ("ffffffff", "80000000", "9A5C3e71", "10000000", "7fffffff"):
            v = int(pat[:n], 16)
            many += [("$%s+0" % pat[:n], num(v)), ("0x%s+0" % pat[:n], num(v))]
            if pat[0].isdigit(): many.append(("%sh+0" % pat[:n], num(v)))
    groups.append(("hex_all1", many[::3]))
    groups.append(("hex_all2x", many[1::3]))
    groups.append(("hex_all3x", many[2::3]))
    many = [("%%%s+0" % pat[:n], num(int(pat[:n], 2))) for n in (1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32) for pat in ("1" * 32, "1" + "0" * 31, "10110011100011110000111110000010")]
    groups.append(("binary_all", many[::2] + [("0b101+0", "5"), ("0B11+0", "3")]))
    groups.append(("toolong", [(t, "(gh_fail = 1)") for t in ("$123456789+0", "0x123456789+0", "$000000001+0", "%" + "0" * 33 + "+0", "%102+0", "$1G+0", "12345678901+0", "%1a+0", "12345678901+A")]))
    return groups

def text_units():
    out = []
    for name, cases in text_cases():
        gen = "".join('CASE("%s",%s)\n' % c for c in cases)
        out.append(dict(id="text_" + name, file="asm_compute.c", kind="plain", unwind=35, unwindset=["_get_op_priority.0:60"], namelen=11, caps={"MAX_STACK_CALCULATOR_ITEMS": 16},
                        defs=["Z80", "H_TEXT", "OP=SI_OP_ADD", "INTREAL=int", "SYMCAP=8", "IFMODE=YES"], gen={"gh_cases.h": gen}, checks=NOCHECKS,
                        thorough_only=name.endswith("x") or name.startswith("paren") and name[6:] not in ("ADD", "MULTIPLY", "LOGICAL_AND", "COMPARE_LT"),
                        cbmc=["--object-bits", "12"] + (CAD if name == "pairs_POWER" else []),
                        functions=["stack.c:stack_calculate", "stack.c:_stack_calculate", "stack.c:resolve_stack", "stack.c:_get_op_priority", "stack.c:compute_stack"], native_asm=True, cost=20,
                        bound="the %d expression texts of the unit, operands of magnitude at most 8" % len(cases)))
    fl = [("0.5+0.25", "0.75"), ("1.25", "1.25"), ("3.75-0.5", "3.25"), ("2.0*4", "8"), ("10.5", "10.5"), ("1/2", "0.5"), ("7/2*2", "7"), ("-0.5", "-0.5"), ("100.5*2", "201"), ("2.5>2", "1"), ("2.5==2.5", "1"), ("0.5*(1+2)", "1.5"), ("5/4", "1.25"), ("0.5<0.25", "0")]
    out.append(dict(id="text_floats", file="asm_compute.c", kind="plain", unwind=35, unwindset=["_get_op_priority.0:60"], namelen=11, caps={"MAX_STACK_CALCULATOR_ITEMS": 16},
                    defs=["Z80", "H_TEXT", "OP=SI_OP_ADD", "SYMCAP=8", "IFMODE=YES"], gen={"gh_cases.h": "".join('CASE("%s",%s)\n' % c for c in fl)}, checks=NOCHECKS,
                    cbmc=["--object-bits", "12"], functions=["stack.c:stack_calculate", "stack.c:_stack_calculate"], native_asm=True, cost=20, bound="the %d expression texts of the unit" % len(fl)))
    return out

def literals():
    """input_number(): symbolic digits"""
    out = []
    away = "process_string_for_special_characters expand_macro_arguments expand_variables_inside_string process_special_labels _input_number_return_definition get_label_length _parse_value_into_string next_line add_namespace_to_a_label".split()
    def one(id, *defs, **kw):
        calc = kw.pop("calc", "NO")
        n = kw.pop("uw", 14)
        return dict(dict(id="literal_" + id, file="asm_literal.c", kind="plain", unwind=n, unwindset=["setup.0:46"], namelen=23, defs=["Z80", "CALC=" + calc] + list(defs), checks=NOCHECKS,
                    functions=["parse.c:input_number"], native_asm=True, cost=15, nobody=away, random=3000), **kw)
    def digits(id, n, *defs, **kw):
        kw.setdefault("bound", "a literal of %d digits" % n)
        out.append(one("%s_%02d" % (id, n), "ND=%d" % n, *defs, **kw))
    for n in range(1, 10):
        digits("hex_dollar", n, "H_HEX", "FORM=0", "LO=0", "HI=0", thorough_only=n in (3, 5, 6))
        digits("hex_0x", n, "H_HEX", "FORM=%d" % (1 + n % 2), "LO=0", "HI=0", thorough_only=n not in (2, 8, 9))
        if n < 9: digits("hex_h", n, "H_HEX", "FORM=%d" % (3 + n % 2), "LO=%d" % (9 if n > 4 else 0), "HI=9", thorough_only=n not in (1, 2, 8))
    digits("hex_h", 9, "H_HEX", "FORM=3", "LO=1", "HI=1")
    digits("hex_dollar_calc", 3, "H_HEX", "FORM=0", "LO=0", "HI=0", calc="YES", uw=46)
    for n in (1, 2, 7, 8, 9, 16, 24, 31, 32, 33):
        digits("binary", n, "H_BINARY", "FORM=0", "LO=0", "HI=0", uw=36, thorough_only=n in (2, 7, 24, 31))
    digits("binary_0b", 8, "H_BINARY", "FORM=1", "LO=0", "HI=0", uw=36)
    digits("binary_0B", 5, "H_BINARY", "FORM=2", "LO=0", "HI=0", uw=36, thorough_only=True)
    for n in range(1, 10):
        digits("decimal", n, "H_DECIMAL", "INTREAL=vc_ll", "LO=%d" % (4 if n > 5 else 0), "HI=%d" % (4 if n > 5 else 9), thorough_only=n not in (1, 2, 3, 5))
    digits("decimal", 11, "H_DECIMAL", "INTREAL=vc_ll", "LO=1", "HI=1")
    out.append(one("char", "H_CHAR", cost=60, thorough_only=True))
    out.append(one("string", "H_STRING", uw=16, cost=40, bound="strings of at most 6 characters"))
    return out

def asm_ops():
    out = []
    base = dict(file="asm_compute.c", kind="plain", unwind=9, functions=["stack.c:compute_stack"], native_asm=True)
    for o in REAL_OPS:
        out.append(dict(base, id="op_" + o, defs=["Z80", "H_OP", "NEST", "OP=SI_OP_" + o], cost=30 if o == "ROUND" else 3))
    for o in [x for x in INT_OPS]:
        out.append(dict(base, id="op_" + o, defs=["Z80", "H_OP", "NEST", "INTREAL=vc_ll", "OP=SI_OP_" + o]))
    for o in HARD_OPS[:3]:
        out.append(dict(base, id="op_" + o, defs=["Z80", "H_OP", "INTREAL=short", "SMALLINT=1000", "OP=SI_OP_" + o], cbmc=CAD,
                        bound="integer operands of magnitude at most 1000"))
    out.append(dict(base, id="op_POWER", defs=["Z80", "H_OP", "NEST", "OP=SI_OP_POWER"]))
    out.append(dict(base, id="op_NOT", defs=["Z80", "H_NOT", "INTREAL=vc_ll", "OP=SI_OP_NOT"]))
    for o in ("COMPARE_LT", "COMPARE_GT", "COMPARE_EQ", "COMPARE_NEQ", "COMPARE_LTE", "COMPARE_GTE"):
        for t in (11, 10, 1):
            out.append(dict(base, id="strcmp_%s_%02d" % (o[8:], t), defs=["Z80", "H_STRCMP", "INTREAL=vc_ll", "OP=SI_OP_" + o, "T0=%d" % (t // 10), "T1=%d" % (t % 10)], bound="texts of at most 2 characters"))
    out.append(dict(base, id="solved", defs=["Z80", "H_DONE", "OP=SI_OP_ADD"]))
    return out

PLACE = "wlalink/write.c:"
def place(id, d, fns, n=7, uws=(), **kw):
    uw = ["setup_rom.0:14", "setup_rom.1:14", "check_rom.0:14"] + ["harness.%d:14" % i for i in range(6)] + list(uws)
    kw.setdefault("bound", "2 ROM banks of at most 4 bytes, sections of at most 3 bytes, all contents, marks, addresses and windows")
    return dict(dict(id=id, file="link_place.c", kind="plain", defs=d, unwind=n, unwind2=16, unwindset=uw, cost=20, functions=[PLACE + f for f in fns]), **kw)

def placements():
    out = []
    win = (("", []), ("_window", ["WINDOW=1"]), ("_bitwindow", ["WINDOW=2"]))
    for al in (1, 2, 4):
        for w, wd in win:
            if al == 4 and w: continue
            d = ["NB=2", "BCAP=4", "SCAP=3", "ALIGNMENT=%d" % al] + wd
            for b in (0, 1):
                th = b == 0 and (al != 1 or w == "_bitwindow")
                out.append(place("free_b%d_a%d%s" % (b, al, w), d + ["H_FREE", "BANK=%d" % b], ["_write_section_free_and_semifree"], thorough_only=th))
                out.append(place("semisubfree_b%d_a%d%s" % (b, al, w), d + ["H_SUBFREE", "BANK=%d" % b], ["_write_section_semisubfree"], thorough_only=th))
            out.append(place("superfree_a%d%s" % (al, w), ["NB=2", "BCAP=4", "SCAP=2", "ALIGNMENT=%d" % al, "H_SUPERFREE"] + wd, ["_write_section_superfree"], cost=60))
    for n, t, l in (("0", "0", "{0}"), ("1", "1", "{1}"), ("0_1", "0-1", "{0,1}"), ("1_0", "1-0", "{1,0}"), ("10", "1/0", "{1,0}")):
        out.append(place("semisuper_" + n, ["NB=2", "BCAP=4", "SCAP=2", "H_SEMISUPER", 'TEXT="%s"' % t, "LIST=%s" % l], ["_write_section_semisuperfree", "_try_to_insert_semisuperfree_section", "_unroll_banks"], uws=["first_place.0:8"], cost=60))
    for n, t, l in (("0_2", "0-2", "{0,1,2}"), ("2_0", "2-0", "{2,1,0}"), ("mix", "3/1-2", "{3,1,2}"), ("slash", "3/1/2", "{3,1,2}"), ("range2", "1-2/5-4", "{1,2,5,4}"), ("big", "12/7", "{12,7}"), ("bad", "1/x", "{-1}"), ("bad2", "1//2", "{-1}"), ("bad3", "1-", "{-1}"), ("bad4", "", "{-1}")):
        out.append(place("banklist_" + n, ["H_UNROLL", 'TEXT="%s"' % t, "LIST=%s" % l], ["_unroll_banks"], bound="the bank list '%s'" % t, cost=40))
    for k, (n, f) in enumerate((("force", "_write_section_force"), ("overwrite", "_write_section_overwrite"), ("absolute", "_write_section_absolute"))):
        out.append(place("fixed_" + n, ["NB=2", "BCAP=6", "SCAP=3", "H_FIXED", "KIND=%d" % k], [f], n=11))
    for k, (n, f) in enumerate((("force", "_write_section_force"), ("overwrite", "_write_section_overwrite"), ("absolute", None), ("free", "_write_section_free_and_semifree"), ("semisubfree", "_write_section_semisubfree"), ("superfree", "_write_section_superfree"), ("semisuperfree", "_write_section_semisuperfree"))):
        if f:
            out.append(place("after_" + n, ["NB=2", "BCAP=6", "SCAP=3", "H_FIXED", "AFTER", "KIND=%d" % k], ["_insert_rom_after_section", f], n=11))
    st = "FORCE SEMISUPERFREE SEMISUBFREE SEMIFREE FREE SUPERFREE OVERWRITE ABSOLUTE".split()
    for pr in ("NO", "YES"):
        for i, a in enumerate(st):
            for j, b in enumerate(st):
                quick = (i, j) in ((0, 4), (4, 0), (1, 0), (2, 5), (5, 2), (3, 4), (4, 3), (6, 4), (4, 6), (7, 0), (0, 7), (4, 4), (5, 1), (2, 1))
                if pr == "YES": quick = (i, j) in ((4, 0), (5, 1), (4, 7), (6, 2))
                out.append(place("two_%s_%s_%s" % (a.lower(), b.lower(), pr.lower()), ["NB=1", "BCAP=4", "SCAP=2", "BANK=0", "H_TWO", "ST1=SECTION_STATUS_" + a, "ST2=SECTION_STATUS_" + b, "PRIO=" + pr], ["insert_sections"], n=9, cost=10, thorough_only=not quick,
                                 bound="two sections of at most 2 bytes in a bank of at most 4"))
    out.append(place("sort", ["H_SORT"], ["sort_sections", "_sections_sort"], bound="three sections", cost=80))
    return out

def ram_placements():
    out = []
    bd = "a RAM slot of at most 8 bytes, sections of at most 3 bytes"
    for w, wd in (("", []), ("_window", ["WINDOW=1"]), ("_bitwindow", ["WINDOW=2"])):
        for al in (1, 2, 4):
            for k, (n, f) in enumerate((("free", "_write_ramsection_free_and_semifree"), ("semisubfree", "_write_ramsection_semisubfree"), ("force", "_write_ramsection_force"))):
                if w and k == 2: continue
                out.append(place("ram_%s_a%d%s" % (n, al, w), ["H_RAM", "SCAP=3", "ALIGNMENT=%d" % al, "KIND=%d" % k] + wd, [f, "_mark_ram_section_area"], n=13, bound=bd))
    for k, (n, f) in enumerate((("free", "_write_ramsection_free_and_semifree"), ("semisubfree", "_write_ramsection_semisubfree"), ("force", "_write_ramsection_force"))):
        out.append(place("ram_after_" + n, ["H_RAM", "SCAP=3", "AFTER", "KIND=%d" % k], [f, "_after_section_override_ram", "_mark_ram_section_area"], n=13, bound=bd))
    return out

def misc(id, d, fns, **kw):
    return dict(dict(id=id, file="link_misc.c", kind="plain", defs=d, unwind=12, unwind2=40, cost=5, functions=fns), **kw)

def label_addresses():
    w = "wlalink/write.c:"
    return [misc("addresses", ["H_ADDR", "INTREAL=vc_ll"], [w + "fix_label_addresses"], bound="two labels, four banks and slots", cost=20),
            misc("snes_bank", ["H_SNESBANK"], [w + "get_snes_pc_bank"]),
            misc("library_base", ["H_LIBBASE"], [w + "correct_65816_library_sections"], bound="two labels and two sections")]

def discards():
    f = ["wlalink/discard.c:discard_unused_sections", "wlalink/discard.c:discard_iteration", "wlalink/discard.c:discard_dropped_labels"]
    return [misc("discard_%d_%d" % (r, c), ["H_DISCARD", "NREF=%d" % r, "NCALC=%d" % c], f, unwind=7, unwind2=12, cost=c + r,
                 thorough_only=(r + c > 4), bound="three sections, %d references and %d calculations" % (r, c)) for r, c in ((0, 0), (1, 0), (0, 1), (1, 1), (3, 0), (0, 3), (2, 2), (4, 2), (2, 4))]

def scoping():
    a = "wlalink/analyze.c:"
    out = []
    for n, (x, y, z, q) in enumerate((("a", "a", "b", "a"), ("a", "a", "a", "a"), ("_a", "_a", "a", "_a"), ("a", "N.a", "_b", "N.a"), ("a", "b", "c", "N.a"), ("N.a", "a", "N.a", "N.a"), ("a", "b", "a", "N.b"), ("_a", "b", "_a", "N._a"), ("M.a", "a", "a", "M.a"), ("a.b", "b", "a", "a.b"), ("+", "-", "a", "+"), ("N", "a", "_N", "N"))):
        out.append(misc("scope_%d" % n, ["H_SCOPE", 'NAME0="%s"' % x, 'NAME1="%s"' % y, 'NAME2="%s"' % z, 'QUERY="%s"' % q], [a + "insert_label_into_maps", a + "find_label"], unwind=8, checks=NOCHECKS,
                        bound="three labels named %s %s %s in two sections and one namespace, looking up %s" % (x, y, z, q)))
    for q in range(8):
        out.append(misc("anonymous_%d" % q, ["H_ANON", "QUERY=%d" % q], ["wlalink/write.c:get_closest_anonymous_label"], bound="three anonymous labels"))
    out.append(misc("is_anonymous", ["H_ISANON"], ["wlalink/write.c:is_label_anonymous"], bound="names of at most 5 characters"))
    out.append(misc("context", ["H_CONTEXT"], [a + "parse_context_from_name"], bound="names of at most 6 characters"))
    return out

def romfile():
    f = ["wlalink/write.c:write_rom_file"]
    b = "two banks of at most 3 bytes"
    out = []
    for m in ("ROM", "PRG"):
        out.append(misc("file_" + m.lower(), ["H_ROMFILE", "SMC=0", "MODE=OUTPUT_" + m], f, unwind=16, bound=b))
        for p in ("VALUE", "LABEL", "UNDEFINED"):
            out.append(misc("file_%s_load_%s" % (m.lower(), p.lower()), ["H_ROMFILE", "SMC=0", "MODE=OUTPUT_" + m, "PRG=LOAD_ADDRESS_TYPE_" + p], f + ["wlalink/write.c:_cbm_write_prg_header"], unwind=16, bound=b, cost=20))
    out.append(misc("file_smc", ["H_ROMFILE", "SMC=1", "MODE=OUTPUT_ROM"], f + ["wlalink/write.c:_smc_create_and_write"], unwind=16, unwind2=560, unwindset=["harness.4:514", "harness.8:545", "_smc_create_and_write.0:515"], bound=b, cost=30))
    return out

def sums():
    w = "wlalink/compute.c:"
    sub = ["wlalink/memory.c:mem_insert_allow_overwrite", "wlalink/memory.c:mem_insert"]
    cc = "wlalink/compute.c"
    def lp(func, nth, var, asg, inv, ghost):
        return dict(file=cc, func=func, nth=nth, contract="__CPROVER_assigns(%s) __CPROVER_loop_invariant(%s)" % (asg, inv), ghost=ghost)
    def one(id, h, fns, **kw):
        return dict(dict(id=id, file="link_sums.c", kind="plain", defs=[h], unwind=27, unwind2=90, cost=10, random=60, functions=[w + f for f in fns] + sub, cbmc=AUF, namelen=None), **kw)
    out = [one("gb_complement", "H_COMPLEMENT", ["compute_gb_complement_check"]),
           one("tmr_sega", "H_TMR", ["add_tmr_sega", "get_sms_tag_address"]),
           one("mirror_header", "H_MIRROR", ["finalize_snes_rom"], loops=[lp("finalize_snes_rom", 0, "i", "i, gh_prints, __CPROVER_object_whole(g_rom), __CPROVER_object_whole(g_rom_usage)",
               "i >= 0 && i <= 80 && gh_rom[gh_w] == (gh_w >= 0xFFB0 && gh_w < 0xFFB0 + i ? gh_hi : gh_lo) && gh_rom[0x400000 + (gh_w & 0xFFFF)] == gh_hi", "")])]
    for g in ("SMS", "TAG", "GB", "SNES", "SMD"):
        out.append(one("reserve_" + g.lower(), "H_RESERVE", ["reserve_checksum_bytes"], **{}))
        out[-1]["defs"] = ["H_RESERVE", "R_" + g]
    out.append(one("gb_checksum", "H_GB", ["compute_gb_checksum"], loops=[
        lp("compute_gb_checksum", 0, "j", "j, checksum", "j >= 0 && j <= 0x14E && (unsigned)checksum == S(j)", "STEP(j);"),
        lp("compute_gb_checksum", 1, "j", "j, checksum", "j >= 0x150 && (j <= g_romsize) && (unsigned)checksum == S(j)", "STEP(j);")]))
    out.append(one("smd_checksum", "H_SMD", ["compute_smd_checksum"], loops=[
        lp("compute_smd_checksum", 0, "j", "j, checksum", "j >= 0x100 && j <= g_romsize / 2 && (unsigned)checksum == S(j)", "STEP(j);")]))
    out.append(one("sms_checksum", "H_SMS", ["compute_sms_checksum", "get_sms_tag_address"], loops=[
        lp("compute_sms_checksum", 0, "j", "j, checksum", "j >= 0 && j <= checksum_max && (unsigned)checksum == S(j)", "STEP(j);")]))
    allf = ["compute_sms_checksum", "add_tmr_sega", "compute_gb_complement_check", "compute_gb_checksum", "compute_snes_checksum", "compute_smd_checksum"]
    out.append(one("all", "H_ALL", ["compute_checksums"], nobody=allf, stubs="stub_sums.c"))
    for m in ("LOROM", "HIROM", "EXHIROM", "EXLOROM"):
        out.append(one("snes_checksum_" + m.lower(), "H_SNES", ["compute_snes_checksum", "_round_up_to_next_power_of_2"], unwind=32, cost=100, loops=[
            lp("compute_snes_checksum", 0, "i", "i, checksum", "i >= 0 && i <= mirror_begin && mirror_begin == gh_mb && mirror_end == gh_len && (unsigned)checksum == S(i)", "STEPL(i);"),
            lp("compute_snes_checksum", 1, "i", "i, checksum", "i >= mirror_begin && i <= mirror_end && mirror_begin == gh_mb && mirror_end == gh_len && (unsigned)checksum == S(i)", "STEPU(i, mirror_begin);")]))
        out[-1]["defs"] = ["H_SNES", "MODE=SNES_ROM_MODE_" + m]
    out.append(one("exhirom_checksum", "H_EXHI", ["compute_snes_exhirom_checksum", "compute_snes_checksum"], unwind=32, random=6, loops=[
        lp("compute_snes_exhirom_checksum", 0, "i", "i, checksum", "i >= 0 && i <= M4 && (unsigned)checksum == S(i)", "STEPL(i);"),
        lp("compute_snes_exhirom_checksum", 1, "i", "i, j, checksum", "i >= 0 && i <= M4 && (j == A(M4 + i) || (j == g_romsize && A(M4 + i) == M4)) && A(M4 + i) >= M4 && A(M4 + i) < g_romsize && (unsigned)checksum == S(M4 + i) + 510", "ASTEP(M4 + i); STEPU(M4 + i, 0);")]))
    return out

LIBM = set("op_" + o for o in "COS SIN TAN ACOS ASIN ATAN ATAN2 COSH SINH TANH LOG LOG10 POW SQRT POWER CEIL FLOOR ROUND".split())

PROPERTIES = {
    "C09": dict(level="proof", units=sums()),
    "C07": dict(level="proof", units=label_addresses()),
    "C08": dict(level="other", units=discards()),
    "C13": dict(level="other", units=scoping()),
    "C15": dict(level="other", units=romfile()),
    "C05": dict(level="other", units=placements()),
    "C06": dict(level="other", units=ram_placements()),
    "C04": dict(level="proof", units=asm_ops() + text_units() + literals()),
    "C03": dict(level="proof", units=link_ops()),
    "C02": dict(level="proof", units=calcs()),
    "C01": dict(level="proof", units=[
        mem("mem_insert", "mem_insert", "H_INSERT"),
        mem("mem_insert_allow_overwrite", "mem_insert_allow_overwrite", "H_ALLOW"),
        mem("mem_insert_ref", "mem_insert_ref", "H_REF"),
        mem("mem_insert_ref_13bit_high", "mem_insert_ref_13bit_high", "H_REF13"),
        mem("mem_insert_pc", "mem_insert_pc", "H_PC"),
        mem("mem_insert_bits", "mem_insert_bits", "H_BITS", cost=30, functions2=["bits_add_bit"]),
    ] + refs() + bhrefs()),
}

for _p in PROPERTIES.values():
    for _u in _p["units"]:
        if _u["id"] in LIBM or (_u.get("nobody") and not _u.get("random")):
            _u["abstract"] = True
