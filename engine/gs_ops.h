// Opcodes shared by the LLVM pass and the runtime.
#pragma once
enum GsOp : unsigned {
  GS_CONST = 0, GS_VAR,
  // integer binary
  GS_ADD, GS_SUB, GS_MUL, GS_UDIV, GS_SDIV, GS_UREM, GS_SREM, GS_SHL, GS_LSHR, GS_ASHR, GS_AND, GS_OR, GS_XOR,
  GS_UMIN, GS_UMAX, GS_SMIN, GS_SMAX,
  // integer compare
  GS_EQ, GS_NE, GS_ULT, GS_ULE, GS_UGT, GS_UGE, GS_SLT, GS_SLE, GS_SGT, GS_SGE,
  // casts
  GS_ZEXT, GS_SEXT, GS_TRUNC, // TRUNC == EXTRACT at 0
  GS_EXTRACT, GS_CONCAT, GS_NOT, GS_ITE,
  // floating point
  GS_FADD, GS_FSUB, GS_FMUL, GS_FDIV, GS_FREM, GS_FNEG, GS_FABS, GS_FSQRT, GS_FMIN, GS_FMAX,
  GS_FEQ, GS_FLT, GS_FLE, GS_FISNAN,
  GS_SITOFP, GS_UITOFP, GS_FPTOSI, GS_FPTOUI, GS_FPEXT, GS_FPTRUNC, GS_BV2FP, GS_FP2BV,
  GS_FFLOOR, GS_FCEIL, GS_FTRUNC, GS_FRINT, GS_FROUND,
  GS_UF, // uninterpreted function of reals
  // integer unary
  GS_CTPOP, GS_CTLZ, GS_CTTZ, GS_BSWAP,
  // multiplication overflow predicates
  GS_UMULO, GS_SMULO,
  GS_NOPS
};
// fcmp predicates use LLVM numbering (0..15)
// type code: integers/pointers = bit width; doubles = 0x100|64; floats = 0x100|32
#define GS_FPFLAG 0x100u
