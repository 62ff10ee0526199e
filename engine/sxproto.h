// Shared-memory protocol between the symbolic driver and the instrumented harness process.
#pragma once
#include <stdint.h>

enum SxOp : uint16_t {
    SX_NONE = 0,
    SX_CONST,
    SX_VAR, // a = input byte index, width 8
    SX_ADD, SX_SUB, SX_MUL, SX_UDIV, SX_SDIV, SX_UREM, SX_SREM,
    SX_AND, SX_OR, SX_XOR, SX_SHL, SX_LSHR, SX_ASHR,
    SX_EQ, SX_ULT, SX_ULE, SX_SLT, SX_SLE, // width 1
    SX_NOT, // bitwise not
    SX_ITE, // a = cond (width 1), b, c
    SX_EXTRACT, // a = expr, b = low bit
    SX_CONCAT, // a = high, b = low
    SX_ZEXT, SX_SEXT,
    SX_TABLE, // a = index expr, b = table id (see SxTable)
    SX_FADD, SX_FSUB, SX_FMUL, SX_FDIV, // operands of width 32/64 taken as IEEE
    SX_FEQ, SX_FLT, SX_FLE, SX_FUNO, // width 1
    SX_UITOFP, SX_SITOFP, SX_FPTOUI, SX_FPTOSI, SX_FPCVT,
    SX_FROUND, // b = mode: 0 floor 1 ceil 2 trunc 3 round(away) 4 nearbyint
    SX_FSQRT,
    SX_LAST
};

struct SxNode {
    uint16_t op;
    uint16_t width;
    uint32_t a, b, c;
    uint64_t val; // value under the input of this run
    uint64_t hash; // structural
};

struct SxTable {
    uint32_t first; // index into the elements array (node ids)
    uint32_t count;
    uint32_t width;
};

enum SxKind : uint32_t {
    SXK_BRANCH = 0, // program branch
    SXK_ASSERT, // the property
    SXK_ASSUME, // precondition: alternative explored only if this run violates it
    SXK_BOUNDS, // symbolic address: alternative = outside the object
    SXK_ADDR, // concretised address/size: alternative = any other value
    SXK_DIV, // alternative = zero divisor
    SXK_SWITCH,
    SXK_LAST
};

struct SxConstraint {
    uint32_t node; // width-1 node that holds on this run
    uint32_t kind;
    uint32_t firstAlt; // into alts
    uint32_t nAlt;
    uint64_t site;
};

enum SxStatus : uint32_t {
    SXS_RUNNING = 0, // child died without finishing
    SXS_OK,
    SXS_ASSUME,
    SXS_ASSERT,
    SXS_EXCEPTION, // uncaught exception out of the harness
    SXS_LIMIT, // engine limit reached (trace too long)
    SXS_RESOURCE, // allocation limit of the harness reached
    SXS_ASAN,
};

#define SX_MAX_INPUT 65536
#define SX_MAX_REACH 64

struct SxHeader {
    uint32_t inputLen; // set by driver
    uint32_t varCount; // set by child: number of symbolic bytes created
    uint32_t status;
    uint32_t nNodes, nConstraints, nAlts, nTables, nElems;
    uint32_t lost; // number of places where symbolic data was dropped
    uint32_t nSampled; // number of concretisations without alternatives
    uint32_t reach; // number of reached labels
    uint32_t asserts; // number of assertions evaluated (symbolic or not)
    uint32_t symAsserts;
    uint64_t steps;
    uint32_t wantLog;
    uint32_t pad;
    char message[1024];
    char lostMsg[512];
    char reachLabel[SX_MAX_REACH][48];
    char varName[SX_MAX_INPUT / 16][24]; // name of the symbolic object (one per object)
    uint32_t varFirst[SX_MAX_INPUT / 16];
    uint32_t nVarNames;
    uint8_t input[SX_MAX_INPUT];
};

#define SX_CAP_NODES (6u << 20)
#define SX_CAP_CONSTR (1u << 20)
#define SX_CAP_ALTS (2u << 20)
#define SX_CAP_TABLES (1u << 16)
#define SX_CAP_ELEMS (4u << 20)

struct SxShared {
    SxHeader h;
    SxNode nodes[SX_CAP_NODES];
    SxConstraint constraints[SX_CAP_CONSTR];
    uint32_t alts[SX_CAP_ALTS];
    SxTable tables[SX_CAP_TABLES];
    uint32_t elems[SX_CAP_ELEMS];
};
