// Shared data structures of the symbolic executor: expressions, compiled program.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <map>
typedef unsigned __int128 u128;
typedef __int128 i128;

enum EOp : uint8_t {
  E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_AND, E_OR, E_XOR,
  E_SHL, E_LSHR, E_ASHR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_CONCAT, E_EXTRACT, E_ZEXT, E_SEXT, E_ITE
};
struct Expr {
  EOp op; uint16_t w; uint32_t id; uint64_t hash; u128 val;
  const Expr *a, *b, *c;
  int32_t sup;            // the only variable it depends on, -1: none, -2: several
  uint16_t itc;           // leaves, when it is an if-then-else tree of constants; else 0
};
typedef const Expr *EP;

// A register value: concrete (e==nullptr, <=64 bits in c) or symbolic / wide constant (e).
struct V { uint64_t c; EP e; };

enum Op : uint8_t {
  O_NOP, O_BIN, O_ICMP, O_SELECT, O_VSELECT, O_TRUNCI, O_ZEXT, O_SEXT, O_MOV, O_BITCAST, O_LOAD, O_STORE, O_GEP, O_ALLOCA,
  O_CALL, O_RET, O_BR, O_CONDBR, O_SWITCH, O_UNREACHABLE, O_EXTRACTELT, O_INSERTELT, O_INSERTVAL, O_SHUFFLE,
  O_LANDINGPAD, O_RESUME, O_ATOMICRMW, O_CMPXCHG, O_FBIN, O_FCMP, O_FCAST, O_FNEG, O_INTRIN, O_UNSUPPORTED, O_FENCE
};
enum Bin : uint8_t { B_ADD, B_SUB, B_MUL, B_UDIV, B_SDIV, B_UREM, B_SREM, B_AND, B_OR, B_XOR, B_SHL, B_LSHR, B_ASHR };
enum Cmp : uint8_t { C_EQ, C_NE, C_UGT, C_UGE, C_ULT, C_ULE, C_SGT, C_SGE, C_SLT, C_SLE };
enum Intr : uint8_t {
  I_MEMCPY, I_MEMSET, I_UADDO, I_SADDO, I_USUBO, I_SSUBO, I_UMULO, I_SMULO, I_UADDS, I_USUBS, I_SADDS, I_SSUBS,
  I_CTPOP, I_CTLZ, I_CTTZ, I_BSWAP, I_FSHL, I_FSHR, I_UMIN, I_UMAX, I_SMIN, I_SMAX, I_ABS, I_TRAP, I_PMOVMSKB, I_PSHI,
  I_BITREV, I_FUNARY, I_REDUCE_OR, I_REDUCE_AND, I_REDUCE_ADD
};
enum Rmw : uint8_t { R_XCHG, R_ADD, R_SUB, R_AND, R_NAND, R_OR, R_XOR, R_MAX, R_MIN, R_UMAX, R_UMIN };

struct Leaf { uint32_t off; uint16_t bits; };           // a scalar inside a type
struct Layout { std::vector<Leaf> leaves; uint64_t size; uint64_t align; };
struct Copy { int32_t dst, src; };
struct Edge { int32_t pc; std::vector<Copy> copies; };
struct GepTerm { int32_t op; uint16_t w; int64_t scale; };
struct Gep { int64_t base; std::vector<GepTerm> terms; };
struct Arg { int32_t op; uint16_t n; uint32_t byval; };
struct CallI {
  int32_t fn;             // function index or -1 when indirect
  int32_t callee;         // operand when indirect
  std::vector<Arg> args;
  int32_t normal, unwind; // edges for invoke, -1 for call
  int32_t retn;           // result slots
  bool is_asm; std::string asms;
};
struct SwitchI { std::vector<std::pair<uint64_t,int32_t>> cases; int32_t def; };

struct Inst {
  Op op; uint8_t sub; uint16_t w; uint16_t n; uint16_t w2;
  int32_t dst, a, b, c;
  int32_t x;              // aux index
  uint32_t line;          // index in loc table (0 none)
};

struct Func {
  std::string name, dem;
  bool defined = false, translated = false, weak = false;
  uint64_t addr = 0;
  int32_t nparams = 0;    // slots
  int32_t nslots = 0;
  std::vector<Inst> code;
  std::vector<uint8_t> param_w;
  int handler = -1;       // builtin handler
  void *llvm = nullptr;
  std::string srcfile;
  int retn = 0;
};

struct GlobalObj { uint64_t addr, size; bool is_const; std::string name; };

struct Program {
  std::vector<Func> funcs;
  std::unordered_map<std::string,int> fn_by_name;
  std::unordered_map<uint64_t,int> fn_by_addr;
  std::vector<V> consts;
  std::vector<Layout> layouts;
  std::vector<Edge> edges;
  std::vector<Gep> geps;
  std::vector<CallI> calls;
  std::vector<SwitchI> switches;
  std::vector<std::vector<int>> shuffles;
  std::vector<std::string> strs;
  std::vector<std::pair<std::string,uint32_t>> locs; // file,line
  std::vector<std::pair<uint64_t,uint64_t>> tls; // thread-local globals: address (of the first thread), size
  struct TlsConst { int k, g; int64_t off; };
  std::vector<TlsConst> tls_consts;              // constants that are addresses in thread-local globals
};
extern Program P;

// memory services the loader needs (defined in symx.cpp)
uint64_t mem_alloc(uint64_t size, uint64_t align, int kind, bool zero);
void mem_init_write(uint64_t addr, const void *src, uint64_t n);
EP mk_const_wide(u128 v, unsigned w);
// loader (loader.cpp)
bool load_program(const char *path, const std::string &passes, const std::vector<std::string> &keep, const std::vector<std::string> &noinline_pats, std::string &err);
void translate(int fi);
uint64_t tls_addr(int g);                       // where the current thread has a thread-local global (in symx.cpp)
int builtin_handler(const std::string &name);  // in symx.cpp: -1 if none
