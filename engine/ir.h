// Compact register-machine form the symbolic executor runs; produced from LLVM IR by lower.cpp.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;
typedef int32_t i32;
typedef int64_t i64;

enum Op : u16 {
  O_NOP, O_MOV,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_NE, O_ULT, O_ULE, O_UGT, O_UGE, O_SLT, O_SLE, O_SGT, O_SGE,
  O_SELECT, O_TRUNC, O_ZEXT, O_SEXT,
  O_LOAD, O_STORE, O_GEPC, O_GEPV,
  O_BR, O_CBR, O_SWITCH, O_CALL, O_ICALL, O_BUILTIN, O_RET, O_UNREACH, O_ALLOCA,
  O_MEMCPY, O_MEMSET, O_UADDO, O_USUBO, O_UMULO, O_SADDO, O_SSUBO, O_SMULO,
  O_BITCAST, O_CMPXCHG, O_RMW, O_FP, O_CTLZ, O_CTTZ, O_CTPOP, O_BSWAP, O_BITREV, O_FSHL, O_FSHR,
  O_UMIN, O_UMAX, O_SMIN, O_SMAX, O_ABS, O_USUBS, O_UADDS, O_SADDS, O_SSUBS, O_EXTDYN, O_INSDYN, O_UNSUP, O_EDGE_PANIC,
};
struct Inst {
  u16 op; u8 w, w2;   // w: operand width in bits (1..128)
  i32 d, a, b, c;
  u64 imm;
};
struct CV { u64 lo, hi; };       // constant pool entry (hi only for >64 bit)
struct Edge { u32 target; std::vector<std::pair<i32,i32>> moves; bool par; };
struct Func {
  std::string name;
  bool builtin = false; int bid = 0;     // builtin id
  bool lowered = false;
  void *llvmf = nullptr;
  u32 nregs = 0, nargs = 0, nret = 0;
  std::vector<Inst> code;
  std::vector<CV> pool;                // constants: index -1-i
  std::vector<u8> poolw;
  std::vector<i32> ext;                // variable length operand lists
  std::vector<Edge> edges;
  u64 hits = 0; u64 insts = 0;
  u32 idx = 0;
};
struct GlobalInit { std::string name; u32 size; bool constant; std::vector<u8> bytes; std::vector<std::pair<u32,u64>> relocs; };

struct Module {
  std::vector<Func*> funcs;
  std::unordered_map<std::string, Func*> byname;
};
const u64 FN_BASE = 0xF0000000ull;  // object ids from here on denote functions
inline u64 fnaddr(u32 idx) { return (FN_BASE + idx) << 32; }
// implemented in lower.cpp
bool load_module(const char *path);
Func *get_func(const std::string &name);
Func *func_by_index(u32 idx);
void lower(Func *f);
std::vector<GlobalInit> &globals();   // object id of global i = 1+i
int prep_module(const char *in, const char *out, const char *entries, bool verbose);
extern std::vector<std::string> builtin_names;
int builtin_id(const std::string &name);      // -1 when not modelled (exec.cpp)
bool exact_builtin(const std::string &name);
bool is_panic_fn(const std::string &name);
bool is_cut_fn(const std::string &name);       // bodies dropped before optimisation
