// Compact bytecode produced from LLVM IR.
#pragma once
#include "expr.h"
#include <map>
#include <set>

struct Val { uint64_t c; Expr *e; };

enum Op : uint16_t {
  O_MOV, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_ICMP, // imm = predicate
  O_ZEXT, O_SEXT, O_TRUNC, // w = dst width, aux = src width
  O_SELECT, O_LOAD, O_STORE, O_GEPC, O_GEP1,
  O_BR, O_CONDBR, O_SWITCH, O_RET, O_CALL, O_INVOKE, O_ALLOCA, O_ALLOCAN,
  O_RMW, O_CMPXCHG, O_UNREACHABLE, O_LANDINGPAD, O_RESUME,
  O_SPLIT,  // scalar -> lanes: a, w lane width, aux lane count
  O_JOIN,   // lanes -> scalar: a first slot, w lane width, aux lane count
  O_EXTRACTDYN, O_INSERTDYN,
  O_FOP,    // concrete floating-point op, imm = opcode
  O_UNSUP   // unsupported instruction, imm = string index
};

struct Inst {
  uint16_t op; uint16_t w; int32_t dst;
  int32_t a, b, c; uint32_t aux;
  uint64_t imm;
  uint32_t line; // index into source line table (0 = none)
};

struct Edge { uint32_t pc; bool par; std::vector<std::pair<int32_t, int32_t>> moves; };
struct SwitchTab { uint32_t defEdge; std::vector<std::pair<u128, uint32_t>> cases; };
struct Fn;
struct CallInfo {
  int32_t callee;               // operand for indirect calls
  Fn *fn = nullptr;             // direct callee
  std::vector<int32_t> args;    // flattened operand slots
  std::vector<uint8_t> argw;    // width of every flattened arg
  std::vector<uint32_t> argStart; // flattened index of every IR argument
  int32_t dst; uint32_t nret; std::vector<uint16_t> retw;
  uint32_t normalEdge = 0, unwindEdge = 0;
  std::vector<int64_t> bytevalSize; // per IR arg: byval size or -1
  int32_t builtin = -1;
};
struct State;
struct Exec;
typedef void (*Builtin)(Exec &x, State &s, const CallInfo &ci);

struct Fn {
  std::string name;
  std::vector<Inst> code;
  uint32_t nslots = 0;
  uint32_t nparams = 0;         // flattened parameter slots 0..nparams
  bool hasBody = false;
  int builtin = -1;             // intercepted by builtin
  uint64_t addr = 0;
  std::vector<Edge> edges;
  std::vector<SwitchTab> switches;
  std::vector<CallInfo> calls;
  std::vector<uint8_t> covered;
  bool entered = false;
  const void *llvm = nullptr;
  std::vector<uint64_t> allocaSize;
  bool inRepo = false;
};

struct GlobalInit { uint64_t addr; uint32_t size; bool ro; bool tls; std::string name; };
