// generated by tools/mkref.py from the processors' documentation; not from /repo
#pragma once
enum { R_IMP, R_ACC, R_IMM, R_ZP, R_ZPX, R_ZPY, R_IZX, R_IZY, R_ABS, R_ABX, R_ABY, R_IND, R_AIX, R_ZPI, R_REL, R_NMODES };
enum { R_6502, R_65C02 };
#define R_NDOC 56   // documented NMOS instructions come first
#define R_NNMOS 76  // then the undocumented ones
#define R_NOPS 102   // then those of the 65C02 only
static const char* const r_name[R_NOPS] = { "adc", "and", "asl", "bcc", "bcs", "beq", "bit", "bmi", "bne", "bpl", "brk", "bvc", "bvs", "clc", "cld", "cli", "clv", "cmp", "cpx", "cpy", "dec", "dex", "dey", "eor", "inc", "inx", "iny", "jmp", "jsr", "lda", "ldx", "ldy", "lsr", "nop", "ora", "pha", "php", "pla", "plp", "rol", "ror", "rti", "rts", "sbc", "sec", "sed", "sei", "sta", "stx", "sty", "tax", "tay", "tsx", "txa", "txs", "tya", "ahx", "alr", "anc", "anc2", "arr", "axs", "dcp", "isc", "las", "lax", "rla", "rra", "sax", "shx", "shy", "slo", "sre", "tas", "usbc", "xaa", "bra", "phx", "phy", "plx", "ply", "rmb0", "rmb1", "rmb2", "rmb3", "rmb4", "rmb5", "rmb6", "rmb7", "smb0", "smb1", "smb2", "smb3", "smb4", "smb5", "smb6", "smb7", "stp", "stz", "trb", "tsb", "wai" };
static const short r_6502[R_NOPS][R_NMODES] = {
  {   -1,   -1, 0x69, 0x65, 0x75,   -1, 0x61, 0x71, 0x6D, 0x7D, 0x79,   -1,   -1,   -1,   -1 }, // adc
  {   -1,   -1, 0x29, 0x25, 0x35,   -1, 0x21, 0x31, 0x2D, 0x3D, 0x39,   -1,   -1,   -1,   -1 }, // and
  {   -1, 0x0A,   -1, 0x06, 0x16,   -1,   -1,   -1, 0x0E, 0x1E,   -1,   -1,   -1,   -1,   -1 }, // asl
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0x90 }, // bcc
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0xB0 }, // bcs
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0xF0 }, // beq
  {   -1,   -1,   -1, 0x24,   -1,   -1,   -1,   -1, 0x2C,   -1,   -1,   -1,   -1,   -1,   -1 }, // bit
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0x30 }, // bmi
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0xD0 }, // bne
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0x10 }, // bpl
  { 0x00,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // brk
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0x50 }, // bvc
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0x70 }, // bvs
  { 0x18,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // clc
  { 0xD8,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // cld
  { 0x58,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // cli
  { 0xB8,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // clv
  {   -1,   -1, 0xC9, 0xC5, 0xD5,   -1, 0xC1, 0xD1, 0xCD, 0xDD, 0xD9,   -1,   -1,   -1,   -1 }, // cmp
  {   -1,   -1, 0xE0, 0xE4,   -1,   -1,   -1,   -1, 0xEC,   -1,   -1,   -1,   -1,   -1,   -1 }, // cpx
  {   -1,   -1, 0xC0, 0xC4,   -1,   -1,   -1,   -1, 0xCC,   -1,   -1,   -1,   -1,   -1,   -1 }, // cpy
  {   -1,   -1,   -1, 0xC6, 0xD6,   -1,   -1,   -1, 0xCE, 0xDE,   -1,   -1,   -1,   -1,   -1 }, // dec
  { 0xCA,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // dex
  { 0x88,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // dey
  {   -1,   -1, 0x49, 0x45, 0x55,   -1, 0x41, 0x51, 0x4D, 0x5D, 0x59,   -1,   -1,   -1,   -1 }, // eor
  {   -1,   -1,   -1, 0xE6, 0xF6,   -1,   -1,   -1, 0xEE, 0xFE,   -1,   -1,   -1,   -1,   -1 }, // inc
  { 0xE8,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // inx
  { 0xC8,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // iny
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0x4C,   -1,   -1, 0x6C,   -1,   -1,   -1 }, // jmp
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0x20,   -1,   -1,   -1,   -1,   -1,   -1 }, // jsr
  {   -1,   -1, 0xA9, 0xA5, 0xB5,   -1, 0xA1, 0xB1, 0xAD, 0xBD, 0xB9,   -1,   -1,   -1,   -1 }, // lda
  {   -1,   -1, 0xA2, 0xA6,   -1, 0xB6,   -1,   -1, 0xAE,   -1, 0xBE,   -1,   -1,   -1,   -1 }, // ldx
  {   -1,   -1, 0xA0, 0xA4, 0xB4,   -1,   -1,   -1, 0xAC, 0xBC,   -1,   -1,   -1,   -1,   -1 }, // ldy
  {   -1, 0x4A,   -1, 0x46, 0x56,   -1,   -1,   -1, 0x4E, 0x5E,   -1,   -1,   -1,   -1,   -1 }, // lsr
  { 0xEA,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // nop
  {   -1,   -1, 0x09, 0x05, 0x15,   -1, 0x01, 0x11, 0x0D, 0x1D, 0x19,   -1,   -1,   -1,   -1 }, // ora
  { 0x48,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // pha
  { 0x08,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // php
  { 0x68,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // pla
  { 0x28,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // plp
  {   -1, 0x2A,   -1, 0x26, 0x36,   -1,   -1,   -1, 0x2E, 0x3E,   -1,   -1,   -1,   -1,   -1 }, // rol
  {   -1, 0x6A,   -1, 0x66, 0x76,   -1,   -1,   -1, 0x6E, 0x7E,   -1,   -1,   -1,   -1,   -1 }, // ror
  { 0x40,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rti
  { 0x60,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rts
  {   -1,   -1, 0xE9, 0xE5, 0xF5,   -1, 0xE1, 0xF1, 0xED, 0xFD, 0xF9,   -1,   -1,   -1,   -1 }, // sbc
  { 0x38,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // sec
  { 0xF8,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // sed
  { 0x78,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // sei
  {   -1,   -1,   -1, 0x85, 0x95,   -1, 0x81, 0x91, 0x8D, 0x9D, 0x99,   -1,   -1,   -1,   -1 }, // sta
  {   -1,   -1,   -1, 0x86,   -1, 0x96,   -1,   -1, 0x8E,   -1,   -1,   -1,   -1,   -1,   -1 }, // stx
  {   -1,   -1,   -1, 0x84, 0x94,   -1,   -1,   -1, 0x8C,   -1,   -1,   -1,   -1,   -1,   -1 }, // sty
  { 0xAA,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // tax
  { 0xA8,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // tay
  { 0xBA,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // tsx
  { 0x8A,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // txa
  { 0x9A,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // txs
  { 0x98,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // tya
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0x93,   -1,   -1, 0x9F,   -1,   -1,   -1,   -1 }, // ahx
  {   -1,   -1, 0x4B,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // alr
  {   -1,   -1, 0x0B,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // anc
  {   -1,   -1, 0x2B,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // anc2
  {   -1,   -1, 0x6B,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // arr
  {   -1,   -1, 0xCB,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // axs
  {   -1,   -1,   -1, 0xC7, 0xD7,   -1, 0xC3, 0xD3, 0xCF, 0xDF, 0xDB,   -1,   -1,   -1,   -1 }, // dcp
  {   -1,   -1,   -1, 0xE7, 0xF7,   -1, 0xE3, 0xF3, 0xEF, 0xFF, 0xFB,   -1,   -1,   -1,   -1 }, // isc
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0xBB,   -1,   -1,   -1,   -1 }, // las
  {   -1,   -1, 0xAB, 0xA7,   -1, 0xB7, 0xA3, 0xB3, 0xAF,   -1, 0xBF,   -1,   -1,   -1,   -1 }, // lax
  {   -1,   -1,   -1, 0x27, 0x37,   -1, 0x23, 0x33, 0x2F, 0x3F, 0x3B,   -1,   -1,   -1,   -1 }, // rla
  {   -1,   -1,   -1, 0x67, 0x77,   -1, 0x63, 0x73, 0x6F, 0x7F, 0x7B,   -1,   -1,   -1,   -1 }, // rra
  {   -1,   -1,   -1, 0x87,   -1, 0x97, 0x83,   -1, 0x8F,   -1,   -1,   -1,   -1,   -1,   -1 }, // sax
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0x9E,   -1,   -1,   -1,   -1 }, // shx
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0x9C,   -1,   -1,   -1,   -1,   -1 }, // shy
  {   -1,   -1,   -1, 0x07, 0x17,   -1, 0x03, 0x13, 0x0F, 0x1F, 0x1B,   -1,   -1,   -1,   -1 }, // slo
  {   -1,   -1,   -1, 0x47, 0x57,   -1, 0x43, 0x53, 0x4F, 0x5F, 0x5B,   -1,   -1,   -1,   -1 }, // sre
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0x9B,   -1,   -1,   -1,   -1 }, // tas
  {   -1,   -1, 0xEB,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // usbc
  {   -1,   -1, 0x8B,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // xaa
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // bra
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // phx
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // phy
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // plx
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // ply
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rmb0
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rmb1
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rmb2
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rmb3
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rmb4
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rmb5
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rmb6
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rmb7
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // smb0
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // smb1
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // smb2
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // smb3
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // smb4
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // smb5
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // smb6
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // smb7
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // stp
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // stz
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // trb
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // tsb
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // wai
};
static const short r_65c02[R_NOPS][R_NMODES] = {
  {   -1,   -1, 0x69, 0x65, 0x75,   -1, 0x61, 0x71, 0x6D, 0x7D, 0x79,   -1,   -1, 0x72,   -1 }, // adc
  {   -1,   -1, 0x29, 0x25, 0x35,   -1, 0x21, 0x31, 0x2D, 0x3D, 0x39,   -1,   -1, 0x32,   -1 }, // and
  {   -1, 0x0A,   -1, 0x06, 0x16,   -1,   -1,   -1, 0x0E, 0x1E,   -1,   -1,   -1,   -1,   -1 }, // asl
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0x90 }, // bcc
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0xB0 }, // bcs
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0xF0 }, // beq
  {   -1,   -1, 0x89, 0x24, 0x34,   -1,   -1,   -1, 0x2C, 0x3C,   -1,   -1,   -1,   -1,   -1 }, // bit
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0x30 }, // bmi
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0xD0 }, // bne
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0x10 }, // bpl
  { 0x00,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // brk
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0x50 }, // bvc
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0x70 }, // bvs
  { 0x18,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // clc
  { 0xD8,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // cld
  { 0x58,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // cli
  { 0xB8,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // clv
  {   -1,   -1, 0xC9, 0xC5, 0xD5,   -1, 0xC1, 0xD1, 0xCD, 0xDD, 0xD9,   -1,   -1, 0xD2,   -1 }, // cmp
  {   -1,   -1, 0xE0, 0xE4,   -1,   -1,   -1,   -1, 0xEC,   -1,   -1,   -1,   -1,   -1,   -1 }, // cpx
  {   -1,   -1, 0xC0, 0xC4,   -1,   -1,   -1,   -1, 0xCC,   -1,   -1,   -1,   -1,   -1,   -1 }, // cpy
  {   -1, 0x3A,   -1, 0xC6, 0xD6,   -1,   -1,   -1, 0xCE, 0xDE,   -1,   -1,   -1,   -1,   -1 }, // dec
  { 0xCA,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // dex
  { 0x88,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // dey
  {   -1,   -1, 0x49, 0x45, 0x55,   -1, 0x41, 0x51, 0x4D, 0x5D, 0x59,   -1,   -1, 0x52,   -1 }, // eor
  {   -1, 0x1A,   -1, 0xE6, 0xF6,   -1,   -1,   -1, 0xEE, 0xFE,   -1,   -1,   -1,   -1,   -1 }, // inc
  { 0xE8,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // inx
  { 0xC8,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // iny
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0x4C,   -1,   -1, 0x6C, 0x7C,   -1,   -1 }, // jmp
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0x20,   -1,   -1,   -1,   -1,   -1,   -1 }, // jsr
  {   -1,   -1, 0xA9, 0xA5, 0xB5,   -1, 0xA1, 0xB1, 0xAD, 0xBD, 0xB9,   -1,   -1, 0xB2,   -1 }, // lda
  {   -1,   -1, 0xA2, 0xA6,   -1, 0xB6,   -1,   -1, 0xAE,   -1, 0xBE,   -1,   -1,   -1,   -1 }, // ldx
  {   -1,   -1, 0xA0, 0xA4, 0xB4,   -1,   -1,   -1, 0xAC, 0xBC,   -1,   -1,   -1,   -1,   -1 }, // ldy
  {   -1, 0x4A,   -1, 0x46, 0x56,   -1,   -1,   -1, 0x4E, 0x5E,   -1,   -1,   -1,   -1,   -1 }, // lsr
  { 0xEA,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // nop
  {   -1,   -1, 0x09, 0x05, 0x15,   -1, 0x01, 0x11, 0x0D, 0x1D, 0x19,   -1,   -1, 0x12,   -1 }, // ora
  { 0x48,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // pha
  { 0x08,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // php
  { 0x68,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // pla
  { 0x28,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // plp
  {   -1, 0x2A,   -1, 0x26, 0x36,   -1,   -1,   -1, 0x2E, 0x3E,   -1,   -1,   -1,   -1,   -1 }, // rol
  {   -1, 0x6A,   -1, 0x66, 0x76,   -1,   -1,   -1, 0x6E, 0x7E,   -1,   -1,   -1,   -1,   -1 }, // ror
  { 0x40,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rti
  { 0x60,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rts
  {   -1,   -1, 0xE9, 0xE5, 0xF5,   -1, 0xE1, 0xF1, 0xED, 0xFD, 0xF9,   -1,   -1, 0xF2,   -1 }, // sbc
  { 0x38,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // sec
  { 0xF8,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // sed
  { 0x78,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // sei
  {   -1,   -1,   -1, 0x85, 0x95,   -1, 0x81, 0x91, 0x8D, 0x9D, 0x99,   -1,   -1, 0x92,   -1 }, // sta
  {   -1,   -1,   -1, 0x86,   -1, 0x96,   -1,   -1, 0x8E,   -1,   -1,   -1,   -1,   -1,   -1 }, // stx
  {   -1,   -1,   -1, 0x84, 0x94,   -1,   -1,   -1, 0x8C,   -1,   -1,   -1,   -1,   -1,   -1 }, // sty
  { 0xAA,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // tax
  { 0xA8,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // tay
  { 0xBA,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // tsx
  { 0x8A,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // txa
  { 0x9A,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // txs
  { 0x98,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // tya
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // ahx
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // alr
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // anc
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // anc2
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // arr
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // axs
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // dcp
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // isc
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // las
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // lax
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rla
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rra
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // sax
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // shx
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // shy
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // slo
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // sre
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // tas
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // usbc
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // xaa
  {   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1, 0x80 }, // bra
  { 0xDA,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // phx
  { 0x5A,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // phy
  { 0xFA,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // plx
  { 0x7A,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // ply
  {   -1,   -1,   -1, 0x07,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rmb0
  {   -1,   -1,   -1, 0x17,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rmb1
  {   -1,   -1,   -1, 0x27,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rmb2
  {   -1,   -1,   -1, 0x37,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rmb3
  {   -1,   -1,   -1, 0x47,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rmb4
  {   -1,   -1,   -1, 0x57,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rmb5
  {   -1,   -1,   -1, 0x67,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rmb6
  {   -1,   -1,   -1, 0x77,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // rmb7
  {   -1,   -1,   -1, 0x87,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // smb0
  {   -1,   -1,   -1, 0x97,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // smb1
  {   -1,   -1,   -1, 0xA7,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // smb2
  {   -1,   -1,   -1, 0xB7,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // smb3
  {   -1,   -1,   -1, 0xC7,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // smb4
  {   -1,   -1,   -1, 0xD7,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // smb5
  {   -1,   -1,   -1, 0xE7,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // smb6
  {   -1,   -1,   -1, 0xF7,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // smb7
  { 0xDB,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // stp
  {   -1,   -1,   -1, 0x64, 0x74,   -1,   -1,   -1, 0x9C, 0x9E,   -1,   -1,   -1,   -1,   -1 }, // stz
  {   -1,   -1,   -1, 0x14,   -1,   -1,   -1,   -1, 0x1C,   -1,   -1,   -1,   -1,   -1,   -1 }, // trb
  {   -1,   -1,   -1, 0x04,   -1,   -1,   -1,   -1, 0x0C,   -1,   -1,   -1,   -1,   -1,   -1 }, // tsb
  { 0xCB,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1,   -1 }, // wai
};
static int ref_op(int cpu, int op, int mode) { return cpu == R_65C02 ? r_65c02[op][mode] : r_6502[op][mode]; }
static int ref_is_branch(int cpu, int op) { return ref_op(cpu, op, R_REL) >= 0; }
