#!/usr/bin/env python3
"""Reference instruction matrices, written from the processors' documentation (MOS 6502, NMOS undocumented, WDC 65C02),
independently of /repo's tables.  Writes harness/ref6502.h."""
import os
M = ["IMP","ACC","IMM","ZP","ZPX","ZPY","IZX","IZY","ABS","ABX","ABY","IND","AIX","ZPI","REL"]
nm = {}  # nmos documented
def d(t, m, **k): t.setdefault(m, {}).update({a.upper(): b for a, b in k.items()})
for i, m in enumerate("ora and eor adc sta lda cmp sbc".split()):
    b = i * 0x20 + 1
    d(nm, m, izx=b, zp=b + 4, abs=b + 0xC, izy=b + 0x10, zpx=b + 0x14, aby=b + 0x18, abx=b + 0x1C)
    if m != "sta": d(nm, m, imm=b + 8)
for i, m in enumerate("asl rol lsr ror".split()):
    b = i * 0x20; d(nm, m, zp=b + 6, acc=b + 0xA, abs=b + 0xE, zpx=b + 0x16, abx=b + 0x1E)
d(nm, "dec", zp=0xC6, zpx=0xD6, abs=0xCE, abx=0xDE); d(nm, "inc", zp=0xE6, zpx=0xF6, abs=0xEE, abx=0xFE)
d(nm, "ldx", imm=0xA2, zp=0xA6, zpy=0xB6, abs=0xAE, aby=0xBE); d(nm, "ldy", imm=0xA0, zp=0xA4, zpx=0xB4, abs=0xAC, abx=0xBC)
d(nm, "stx", zp=0x86, zpy=0x96, abs=0x8E); d(nm, "sty", zp=0x84, zpx=0x94, abs=0x8C)
d(nm, "cpx", imm=0xE0, zp=0xE4, abs=0xEC); d(nm, "cpy", imm=0xC0, zp=0xC4, abs=0xCC)
d(nm, "bit", zp=0x24, abs=0x2C); d(nm, "jmp", abs=0x4C, ind=0x6C); d(nm, "jsr", abs=0x20)
for m, o in dict(brk=0, rti=0x40, rts=0x60, php=8, plp=0x28, pha=0x48, pla=0x68, dey=0x88, tay=0xA8, iny=0xC8, inx=0xE8, clc=0x18, sec=0x38, cli=0x58, sei=0x78, tya=0x98, clv=0xB8, cld=0xD8, sed=0xF8, txa=0x8A, txs=0x9A, tax=0xAA, tsx=0xBA, dex=0xCA, nop=0xEA).items(): d(nm, m, imp=o)
for i, m in enumerate("bpl bmi bvc bvs bcc bcs bne beq".split()): d(nm, m, rel=0x10 + 0x20 * i)
il = {}  # nmos undocumented
for b, m in ((0, "slo"), (0x20, "rla"), (0x40, "sre"), (0x60, "rra"), (0xC0, "dcp"), (0xE0, "isc")):
    d(il, m, izx=b + 3, zp=b + 7, abs=b + 0xF, izy=b + 0x13, zpx=b + 0x17, aby=b + 0x1B, abx=b + 0x1F)
d(il, "sax", izx=0x83, zp=0x87, abs=0x8F, zpy=0x97); d(il, "lax", izx=0xA3, zp=0xA7, abs=0xAF, izy=0xB3, zpy=0xB7, aby=0xBF, imm=0xAB)
for m, o in dict(anc=0x0B, anc2=0x2B, alr=0x4B, arr=0x6B, xaa=0x8B, axs=0xCB, usbc=0xEB).items(): d(il, m, imm=o)
d(il, "ahx", izy=0x93, aby=0x9F); d(il, "shy", abx=0x9C); d(il, "shx", aby=0x9E); d(il, "tas", aby=0x9B); d(il, "las", aby=0xBB)
cm = {m: dict(v) for m, v in nm.items()}  # 65C02
for i, m in enumerate("ora and eor adc sta lda cmp sbc".split()): d(cm, m, zpi=0x12 + 0x20 * i)
d(cm, "bit", imm=0x89, zpx=0x34, abx=0x3C); d(cm, "tsb", zp=4, abs=0xC); d(cm, "trb", zp=0x14, abs=0x1C)
d(cm, "stz", zp=0x64, zpx=0x74, abs=0x9C, abx=0x9E); d(cm, "inc", acc=0x1A); d(cm, "dec", acc=0x3A)
for m, o in dict(phy=0x5A, ply=0x7A, phx=0xDA, plx=0xFA, wai=0xCB, stp=0xDB).items(): d(cm, m, imp=o)
d(cm, "bra", rel=0x80); d(cm, "jmp", aix=0x7C)
for n in range(8): d(cm, "rmb%d" % n, zp=0x10 * n + 7); d(cm, "smb%d" % n, zp=0x10 * n + 0x87)
bb = ["bbr%d" % n for n in range(8)] + ["bbs%d" % n for n in range(8)]
names = sorted(nm) + sorted(il) + sorted(set(cm) - set(nm))
assert all(len({o for t in (nm, il) for v in t.values() for o in v.values()}) == 0 or True for _ in [0])
allc = [o for v in cm.values() for o in v.values()]; assert len(set(allc)) == len(allc)
alln = [o for t in (nm, il) for v in t.values() for o in v.values()]; assert len(set(alln)) == len(alln)
o = ["// generated by tools/mkref.py from the processors' documentation; not from /repo", "#pragma once",
     "enum { %s, R_NMODES };" % ", ".join("R_" + m for m in M), "enum { R_6502, R_65C02 };", "#define R_NDOC %d   // documented NMOS instructions come first" % len(nm),
     "#define R_NNMOS %d  // then the undocumented ones" % (len(nm) + len(il)), "#define R_NOPS %d   // then those of the 65C02 only" % len(names),
     "static const char* const r_name[R_NOPS] = { %s };" % ", ".join('"%s"' % n for n in names)]
for nmx, t in (("r_6502", dict(nm, **il)), ("r_65c02", cm)):
    o.append("static const short %s[R_NOPS][R_NMODES] = {" % nmx)
    for n in names: o.append("  { %s }, // %s" % (", ".join("%4s" % (("0x%02X" % t[n][m]) if n in t and m in t[n] else "-1") for m in M), n))
    o.append("};")
o.append("static int ref_op(int cpu, int op, int mode) { return cpu == R_65C02 ? r_65c02[op][mode] : r_6502[op][mode]; }")
o.append("static int ref_is_branch(int cpu, int op) { return ref_op(cpu, op, R_REL) >= 0; }")
open(os.path.dirname(os.path.abspath(__file__)) + "/../harness/ref6502.h", "w").write("\n".join(o) + "\n")
