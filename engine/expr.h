// Bit-vector value layer: a V is either a constant (id==0, w<=64) or an interned z3 expression.
// Width-1 values are z3 Booleans; every other width is a z3 bit-vector.
#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

struct V {
  u64 c = 0;
  u32 id = 0;
  u16 w = 0;
  bool isC() const { return id == 0; }
  bool isTrue() const { return id == 0 && c == 1; }
  bool isFalse() const { return id == 0 && c == 0; }
};
inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
inline V K(unsigned w, u64 c) { V v; v.w = (u16)w; v.c = c & maskw(w); return v; }
inline V KB(bool b) { return K(1, b); }
V mkVar(const std::string &name, unsigned w);
V mkVarIn(const std::string &name, unsigned w, u64 lo, u64 hi); // every use implies lo<=v<=hi
void rangeOf(V a, u64 &lo, u64 &hi); // an enclosing interval that holds on every path
V rawIn(V v, u64 lo, u64 hi); // the constraint lo<=v<=hi, never folded
V mkBig(unsigned w, const std::string &dec);

enum Op { ADD, SUB, MUL, UDIV, UREM, SDIV, SREM, AND, OR, XOR, SHL, LSHR, ASHR };
V bin(Op op, V a, V b);
inline V operator+(V a, V b) { return bin(ADD, a, b); }
inline V operator-(V a, V b) { return bin(SUB, a, b); }
inline V operator&(V a, V b) { return bin(AND, a, b); }
inline V operator|(V a, V b) { return bin(OR, a, b); }
V eq(V a, V b);
V ult(V a, V b);
V ule(V a, V b);
V slt(V a, V b);
V sle(V a, V b);
V lnot(V a);
inline V ne(V a, V b) { return lnot(eq(a, b)); }
V ite(V c, V a, V b);
V zext(V a, unsigned w);
V sext(V a, unsigned w);
V extract(V a, unsigned hi, unsigned lo);
inline V trunc(V a, unsigned w) { return w == a.w ? a : extract(a, w - 1, 0); }
V concat(V hi, V lo);
V subst(V e, V var, u64 val);
std::string show(V a);
// upper bound on the syntactic size, used to keep terms reasonable
struct Model; // opaque
typedef std::shared_ptr<Model> ModelP;
u64 evalIn(const ModelP &m, V a); // model completion, w<=64

enum Res { UNSAT, SAT, UNKNOWN };
struct SolverStats { u64 queries = 0, sat = 0, unsat = 0, unknown = 0, fresh = 0; double secs = 0, maxq = 0; };
extern SolverStats SS;
extern unsigned gTimeoutMs;
extern double gDeadline;
struct OutOfTime {};
// Is  /\pc /\ extra  satisfiable?  On SAT fills *m when given.
Res solve(const std::vector<V> &pc, V extra, ModelP *m = nullptr);
u64 numExprs();
