// operation codes shared by the pass and the runtime
#pragma once
enum { VS_ADD, VS_SUB, VS_MUL, VS_UDIV, VS_SDIV, VS_UREM, VS_SREM, VS_AND, VS_OR, VS_XOR, VS_SHL, VS_LSHR, VS_ASHR };
enum { VSC_ZEXT, VSC_SEXT, VSC_TRUNC, VSC_BITCAST, VSC_SITOFP, VSC_UITOFP, VSC_FPTOSI, VSC_FPTOUI, VSC_FPEXT, VSC_FPTRUNC };
enum { VSF_ADD, VSF_SUB, VSF_MUL, VSF_DIV, VSF_REM, VSF_MIN, VSF_MAX, VSF_COPYSIGN, VSF_NEG, VSF_ABS, VSF_RINT, VSF_ROUND, VSF_FLOOR, VSF_CEIL, VSF_TRUNC, VSF_SQRT };
enum { VSO_SADD, VSO_UADD, VSO_SSUB, VSO_USUB, VSO_SMUL, VSO_UMUL };
enum { VSI_SMIN, VSI_SMAX, VSI_UMIN, VSI_UMAX, VSI_ABS, VSI_BSWAP, VSI_CTLZ, VSI_CTTZ, VSI_CTPOP, VSI_FSHL, VSI_FSHR, VSI_USUBSAT, VSI_UADDSAT, VSI_SSUBSAT, VSI_SADDSAT, VSI_BITREV, VSI_FPCLASS };
