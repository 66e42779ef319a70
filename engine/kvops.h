#ifndef KVOPS_H
#define KVOPS_H
enum KvOp { OP_NONE = 0, OP_CONST, OP_VAR, OP_ADD, OP_SUB, OP_MUL, OP_UDIV, OP_SDIV, OP_UREM, OP_SREM, OP_AND, OP_OR, OP_XOR,
  OP_SHL, OP_LSHR, OP_ASHR, OP_ZEXT, OP_SEXT, OP_EXTRACT, OP_CONCAT, OP_EQ, OP_ULT, OP_ULE, OP_SLT, OP_SLE, OP_NOT, OP_ITE,
  // floating point (isfp nodes; width 64 or 32)
  OP_FCONST, OP_FADD, OP_FSUB, OP_FMUL, OP_FDIV, OP_FREM, OP_FNEG, OP_FABS, OP_FSQRT, OP_FROUND, OP_SITOFP, OP_UITOFP, OP_FPTOSI,
  OP_FPTOUI, OP_FPCAST, OP_BVTOF, OP_FTOBV, OP_FEQ, OP_FLT, OP_FLE, OP_FUNO, OP_FDEC, OP_FITE };
enum KvIntr { IN_UADDO = 1, IN_SADDO, IN_USUBO, IN_SSUBO, IN_UMULO, IN_SMULO, IN_UADDS, IN_USUBS, IN_BSWAP, IN_FSHL, IN_FSHR };
enum KvFu { FU_NEG = 1, FU_ABS, FU_SQRT, FU_FLOOR, FU_CEIL, FU_TRUNC, FU_RINT };
enum KvCast { CA_ZEXT = 1, CA_SEXT, CA_TRUNC, CA_SITOFP, CA_UITOFP, CA_FPTOSI, CA_FPTOUI, CA_FPEXT, CA_FPTRUNC, CA_NOP, CA_FTOBV, CA_BVTOF };
#endif
